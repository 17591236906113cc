#!/usr/bin/env python3
"""S12: every argument vector over a token alphabet, for a family of option declarations."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *

STD = {'a': 0, 'b': 0, 'c': 1, 'o': 2, '\u00e9': 0, 'n': 1}
DECL = [dict(opts=STD), dict(opts=STD, min=1), dict(opts=STD, max=1), dict(opts=STD, min=1, max=2), dict(opts=STD, none=True), dict(opts={'h': 0, '-': 0})]


class Exit(Exception):
    pass


def ref(k, args):
    d = DECL[k]
    opts, pos, dest = [], [], {}
    i, done = 0, False
    while i < len(args):
        a = args[i]
        i += 1
        if done or not a.startswith('-'):
            pos.append(a)
            continue
        if a == '--':
            done = True
            continue
        cl = a[1:]
        while cl:
            ch, cl = cl[0], cl[1:]
            kind = d['opts'].get(ch)
            if kind is None:
                raise Exit(0 if ch in 'h?' else 1)
            if kind == 0:
                opts.append((ch, ''))
                continue
            if cl:
                v, cl = cl, ''
            elif i < len(args):
                v = args[i]
                i += 1
            elif kind == 1:
                raise Exit(1)
            else:
                v = ''
            opts.append((ch, v))
            dest[ch] = v
    if len(pos) < d.get('min', 0) or (d.get('max') and len(pos) > d['max']) or (d.get('none') and pos):
        raise Exit(1)
    r = ['ok', X(b'prog')]
    for ch, v in opts:
        r += [str(ord(ch)), X(v.encode())]
    r += ['|'] + [X(p.encode()) for p in pos]
    return r + [X(dest.get('c', '!').encode()), X(dest.get('o', '!').encode())]


def cases(th):
    tok = ['-a', '-b', '-ab', '-c', '-cx', '-ac', '-o', '-oy', '--', 'p', '', '-z', '-h', '-\u00e9', '-a\u00e9c', 'q-', '-n']
    for k in range(0, 4 if th else 3):
        for t in itertools.product(tok, repeat=k):
            yield 0, t
    tk4 = ['-a', '-c', '-cx', '--', 'p', '-o', '-bo']
    for k in range(3, 6 if th else 5):
        for t in itertools.product(tk4, repeat=k):
            yield 0, t
    for d in (1, 2, 3, 4):
        for k in range(0, 5 if th else 4):
            for t in itertools.product(['-a', '-c', '--', 'p', '', '-bo'], repeat=k):
                yield d, t
    for k in range(0, 5 if th else 4):
        for t in itertools.product(['-h', '-h-', '--', '-h--h', 'p', '-?'], repeat=k):
            yield 5, t


def job(a):
    sh, n, binary, th = a
    cs = [c for i, c in enumerate(cases(th)) if i % n == sh]
    lines = ['O x%s' % ''.join('%02x' % b for b in str(k).encode()) + ''.join(' ' + X(x.encode()) for x in t) for k, t in cs]
    tr = ex = 0
    for (k, t), l, o in zip(cs, lines, drive(binary, lines)):
        try:
            w = ' '.join(ref(k, t) + ['st', '0', '0'])
        except Exit as e:
            w = 'st %d 0' % e.args[0]
            ex += 1
        tr += len(t)
        if o != w:
            raise Violation('declaration %d, arguments %r: got %s want %s' % (k, t, o, w), l)
    return len(cs), tr, ex


def body(c):
    t = Tree('boot')
    b = t.harness(HARN + '/s12.myr', more=[HARN + '/drv.myr'])
    res = pmap(job, [(i, 8, b, c.thorough) for i in range(8)])
    n = sum(r[0] for r in res)
    c.add(states=n, transitions=sum(r[1] for r in res), traces_validated_against_impl=n)
    c.cov['exhaustive'] = True
    c.cov['vectors_that_must_be_rejected'] = sum(r[2] for r in res)
    c.sample({'declaration': 'flags a b e-acute, -c val, -o [val], -n val', 'vector': ['-ac', 'x', '--', '-b']})
    c.assume.append("a lone '-' is not covered")


main(body, 'S12')
