#!/usr/bin/env python3
"""S11: every path over an alphabet of component kinds and slash runs."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *

CWD = '/usr/lib'


def norm(p):
    out = []
    for c in p.split('/'):
        if c in ('', '.'):
            continue
        if c == '..' and out and out[-1] != '..':
            out.pop()
        elif c == '..' and p.startswith('/'):
            pass
        else:
            out.append(c)
    if p.startswith('/'):
        return '/' + '/'.join(out)
    return '/'.join(out) or '.'


def join(l):
    l = list(l)
    while l and l[0] == '':
        l.pop(0)
    return norm('/'.join(l))


def split(p):
    q = p.rstrip('/') or p[:1]
    i = q.rfind('/')
    if i < 0:
        return '.', q
    return q[:i] or '/', q[i + 1:]


def cases(th):
    comps = ['', '.', '..', 'a', 'b.', '..c', '.d', '...']
    for k in range(0, 6 if th else 5):
        for t in itertools.product(comps, repeat=k):
            yield 'N', ('/'.join(t),)
            yield 'N', ('/' + '/'.join(t),)
    for k in range(0, 9 if th else 8):
        for t in itertools.product('/.a', repeat=k):
            yield 'N', (''.join(t),)
    el = ['', '/', '.', '..', 'a', '/b', 'c/', '../d', '/..', 'e/../f', '//g//', 'a/..', '\u00e9']
    for k in range(0, 4):
        for t in itertools.product(el, repeat=k):
            yield 'J', t
    for n in (7, 8, 9, 12, 14):
        yield 'N', ('/'.join(['a'] * n),)
        yield 'N', ('/'.join(['a'] * n + ['..'] * (n - 1)),)
        yield 'N', ('/'.join(['..'] * n + ['a', '..']),)
        yield 'J', ['x%d' % i for i in range(n)]


def job(a):
    sh, n, binary, th = a
    cs = [c for i, c in enumerate(cases(th)) if i % n == sh]
    lines = [op + ''.join(' ' + X(x.encode()) for x in ar) for op, ar in cs]
    tr = 0
    for (op, ar), l, o in zip(cs, lines, drive(binary, lines, cwd=CWD)):
        got = [bytes.fromhex(x[1:]).decode('latin1') if x.startswith('x') else x for x in o.split(' ')]
        tr += len(got)
        ar = [x.encode().decode('latin1') for x in ar]
        if op == 'N':
            p = ar[0]
            w = norm(p)
            ok = len(got) == 6
            msg = 'crash'
            if ok:
                d, b = split(p)
                ok = got[0] == w and got[1] == w and norm(got[2]) == norm(d) and got[3] in (b, b or '/') and got[4] == w and got[5] == norm(p if p.startswith('/') else CWD + '/' + p)
                msg = 'normalize %r, dirname ~ %r, basename %r, rejoined %r, absolute %r' % (w, d, b, w, norm(p if p.startswith('/') else CWD + '/' + p))
        else:
            w = [join(ar)] * (2 if len(ar) == 2 else 1)
            ok = got == w
            msg = repr(w)
        if not ok:
            raise Violation('%s %r: got %r want %s' % (op, ar, got, msg), l)
    return len(cs), tr


def body(c):
    t = Tree('boot')
    b = t.harness(HARN + '/s11.myr', more=[HARN + '/drv.myr'])
    res = pmap(job, [(i, 8, b, c.thorough) for i in range(8)])
    n = sum(r[0] for r in res)
    c.add(states=n, transitions=sum(r[1] for r in res), traces_validated_against_impl=n)
    c.cov['exhaustive'] = True
    c.sample({'path': '../a//./../..c/', 'normal form': '../..c'})


main(body, 'S11')
