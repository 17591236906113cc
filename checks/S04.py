#!/usr/bin/env python3
"""S04: bit sets against Python sets: all pairs over a boundary universe, all short histories."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *

B = lambda v: 'T' if v else 'F'


def show(s):
    return [str(x) for x in sorted(s)] + [';', str(len(s)), 'T']


def refP(ia, A, ib, Bs):
    r = []
    for inf, S in ((ia, A), (ib, Bs)):
        seen = {64} if inf == 2 else set()
        for x in S:
            r.append(B(x not in seen))
            seen.add(x)
    a, b = set(A), set(Bs)
    r.append('|')
    u = a | b
    n = a & b
    r += show(a - b) + show(n) + show(b) + [B(n == b), B(n == a)]
    r += show(u) + show(b) + [B(u == a), B(u == a), B(u == b)]
    r += show(a - b) + show(a | b) + show(set())
    r += [B(a == b), B(a == b), B(b <= a), B(a <= b), 'T'] + show(a) + show(b)
    return r


def refH(ops):
    s, r = set(), []
    for o, v in ops:
        k = o.lower()
        if k == 'p':
            r.append(B(v not in s))
            s.add(v)
        elif k == 'd':
            r.append(B(v in s))
            s.discard(v)
        elif k == 'h':
            r.append(B(v in s))
        else:
            s.clear()
    return r + show(s) + [str(x) for x in sorted(s)]


def cases(tier):
    U = [0, 63, 64, 127, 128, 200] if tier == 'quick' else [0, 1, 63, 64, 127, 128, 200]
    subs = [s for k in range(len(U) + 1) for s in itertools.combinations(U, k)]
    for a in subs:
        for b in subs:
            for ia in (0, 1, 2):
                for ib in (0, 1):
                    yield 'P', (ia, a, ib, b)
    # order of insertion and duplicates
    for a in itertools.permutations([0, 63, 64, 200], 4):
        for b in ((200, 64, 64), (63,), (0, 0)):
            yield 'P', (0, a, 0, b)
    vals = [0, 63, 64, 130]
    alpha = [(o, v) for o in 'pd' for v in vals] + [('h', 64), ('h', -1), ('d', -1), ('h', 10 ** 6), ('d', 10 ** 6), ('c', 0), ('P', 255), ('D', 255), ('H', 255)]
    for k in range(0, 4 if tier == 'quick' else 5):
        for o in itertools.product(alpha, repeat=k):
            yield 'H', o
    for v in range(0, 260):
        yield 'H', (('p', v), ('h', v - 1), ('h', v), ('h', v + 1), ('p', v), ('d', v + 64), ('d', v), ('h', v))
        yield 'H', (('p', 64), ('p', v))


def job(a):
    sh, n, binary, tier = a
    cs = [c for i, c in enumerate(cases(tier)) if i % n == sh]
    lines = []
    for op, x in cs:
        if op == 'P':
            lines.append('P %s %s' % (X(bytes((x[0],) + x[1])), X(bytes((x[2],) + x[3]))))
        else:
            lines.append('H ' + ' '.join('%s %d' % p for p in x) if x else 'H')
    tr = 0
    for (op, x), l, o in zip(cs, lines, drive(binary, lines)):
        w = ' '.join(refP(*x) if op == 'P' else refH(x))
        tr += len(x)
        if o != w:
            raise Violation('%s %r: got %s want %s' % (op, x, o, w), l)
    return len(cs), tr


def body(c):
    t = Tree('boot')
    b = t.harness(HARN + '/s04.myr', more=[HARN + '/drv.myr'])
    res = pmap(job, [(i, 8, b, c.tier) for i in range(8)])
    c.add(states=sum(r[0] for r in res), transitions=sum(r[1] for r in res), traces_validated_against_impl=sum(r[0] for r in res))
    c.cov['exhaustive'] = True
    c.sample({'a': [0, 200], 'b': [63], 'history of a': 'held 777 before', 'checked': 'union intersect diff subset eq hash count iterate'})


main(body, 'S04')
