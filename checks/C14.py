#!/usr/bin/env python3
"""C14: every unit's __init__ runs exactly once, after those of the units it uses and before main, and every __fini__ once at the
end, for every way units can use each other, in one library, in two, or without."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import permutations, product, combinations
from mcv.check import *
from mcv.build import Tree
from mcv.units import *

PR = ''.join('extern const mcv_%s\n' % x for x in ('log : (v : uint64 -> void)', 'nlog : (-> uint64)', 'logat : (i : uint64 -> uint64)', 'fini : (-> void)'))
SRC = """const main = {
}
const t$ = {
	for var i : uint64 = 0; i < mcv_nlog(); i++
		out(mcv_logat(i))
	;;
	out(1000)
	mcv_fini()
	for var i : uint64 = 0; i < mcv_nlog(); i++
		out(mcv_logat(i))
	;;
}
"""


def ini(i, uses):
    """logs i when everything used has its initial value and, where it has an __init__, was initialised"""
    ok = ' && '.join(['true'] + ['%sg%d == %d' % (p, j, 100 + j) for p, j, h in uses] + ['%ss%d == %d' % (p, j, 7 if h else 3) for p, j, h in uses])
    s = '' if i == 99 else '\ts%d = 7\n' % i
    return ('const __init__ = {\n\tif %s\n\t\tmcv_log(%d)\n\telse\n\t\tmcv_log(%d)\n\t;;\n%s}\nconst __fini__ = {\n\tmcv_log(%d)\n}\n'
            % (ok, i, 500 + i, s, i))


def subs(n):
    return [p for k in range(n + 1) for p in permutations(range(n), k)]


def ways(n, thorough):
    """(kind, what the program uses or the order in the library)"""
    if n < 4:
        few = n == 3 and not thorough
        for u in subs(n)[1:]:
            if not few or u in ((2,), (1, 2), (2, 1), (0, 2), (0, 1, 2), (2, 1, 0)):
                yield 'units', u
        for u in subs(n)[1:] if thorough else [tuple(range(n))]:
            yield 'units without packages', u
        for o in permutations(range(n)):
            yield 'library', o
    else:
        for u in ((0, 1, 2, 3), (3, 2, 1, 0), (3,), (2,), (1, 3)) if thorough else ((3,), (3, 2, 1, 0)):
            yield 'units', u
        yield 'library', tuple(range(4))
        if thorough:
            yield 'library', tuple(range(3, -1, -1))
    for s in range(1, n):       # the first s units in one library, the others in another, which uses it
        for u in (('m',), ('k', 'm'), ('m', 'k')) if n < 4 or thorough else (('m',),):
            yield 'two libraries', (s, u)


def jobs(thorough):
    for n in (1, 2, 3, 4):
        for graph in product(*[subs(i) if n < 4 else [s for k in range(i + 1) for s in combinations(range(i), k)] for i in range(n)]):
            reach = [set() for _ in range(n)]
            for i in range(n):
                for j in graph[i]:
                    reach[i] |= {j} | reach[j]
            for kind, how in ways(n, thorough):
                for flags in range(1 << n):
                    if n == 4 and not thorough and bin(flags).count('1') < 3:
                        continue
                    for pf in (0, 1) if thorough or n < 3 else (1,):
                        yield job(n, graph, reach, kind, how, flags, pf)


def job(n, graph, reach, kind, how, flags, pf):
    has = lambda i: flags >> i & 1
    lib = lambda i: 'k' if kind == 'library' or i < how[0] else 'm'
    # both libraries have units of the same names
    name = lambda i: '%s/u%d' % (lib(i), i if i < how[0] else i - how[0]) if kind == 'two libraries' else 'u%d' % i
    pkg = {'units': lambda i: 'u%d' % i, 'units without packages': lambda i: None}.get(kind, lib)
    units, steps, need = {}, [], set()
    def add(i):
        us, vis = [], []
        for j in graph[i]:
            if kind == 'two libraries' and lib(j) != lib(i):
                if 'k' not in us:
                    us.append('k')
            else:
                us.append('"%s"' % name(j).split('/')[-1])
            vis.append((('' if pkg(j) is None or pkg(i) == pkg(j) else pkg(j) + '.'), j, has(j)))
        steps.append(('mc', name(i), pkg(i), us))
        units[name(i)] = ('const x%d : (-> uint64)\n\tvar g%d : uint64\n\tvar s%d : uint64\n' % (i, i, i),
                          'var g%d = %d\nvar s%d = 3\n' % (i, 100 + i, i) + (PR + ini(i, vis) if has(i) else '') + 'const x%d = {; -> %d}\n' % (i, i))
    def muse(l, order, deps):
        steps.append(('muse', 'lib%s.use' % l, l, [name(i) for i in order], *deps))
        steps.extend([('rm', name(i) + '.use') for i in order])
    if kind == 'library':
        for i in range(n):
            add(i)
        muse('k', how, ())
        puses, need = ['k'], set(range(n))
    elif kind == 'two libraries':
        s, puses = how
        for i in range(s):
            add(i)
        muse('k', range(s), ())
        for i in range(s, n):
            add(i)
        muse('m', range(s, n), ())
        need = set(range(s, n)).union(*[reach[i] for i in range(s, n)])
        # a library comes whole
        if 'k' in puses or any(i < s for i in need):
            need |= set(range(s))
        puses = list(puses)
    else:
        for i in range(n):
            add(i)
        puses = ['"%s"' % name(j) for j in how]
        need = set(how).union(*[reach[j] for j in how])
    steps.append(('mc', 'p', None, puses))
    direct = range(n) if kind == 'library' else [i for i in need if lib(i) in how[1]] if kind == 'two libraries' else how
    vis = [((pkg(j) + '.') if pkg(j) else '', j, has(j)) for j in direct]
    must = {i for i in need if has(i)} | ({99} if pf else set())
    before = {i: {j for j in reach[i] if has(j)} for i in range(n)}
    if kind == 'two libraries':     # who uses a unit of a library uses the library
        for i in range(s, n):
            if any(j < s for j in reach[i]):
                before[i] |= {j for j in range(s) if has(j)}
    before[99] = {i for i in need if has(i)}
    d = 'units using %s, %s, initialisation in %s' % ([list(g) for g in graph], 'the library of %s' % (list(how),) if kind == 'library' else 'the libraries of the first %d and the others, the program using %s' % how
                                                      if kind == 'two libraries' else 'the program %s' % list(how), sorted(must))
    return Layout(kind, *steps), UItem((PR + ini(99, vis) if pf else PR) + SRC, InitWant(must, before), d, units)


class InitWant:
    """each of must is initialised once, after what it uses, before the items run, and ended once"""
    def __init__(self, must, before):
        self.must, self.before = must, before

    def judge(self, o):
        k = o.index(1000)
        a, z = o[:k], o[k + 1:]
        for x in a:
            if 500 <= x < 1000:
                return 'unit %d is initialised when what it uses does not have its value yet' % (x - 500)
        if sorted(a) != sorted(self.must):
            return 'initialised %s, expected each of %s once' % (a, sorted(self.must))
        if sorted(z) != sorted(self.must):
            return 'ended %s, expected each of %s once' % (z, sorted(self.must))
        for i, x in enumerate(a):
            for j in self.before[x]:
                if a.index(j) > i:
                    return 'initialised in the order %s, unit %d before %d, which it uses' % (a, x, j)


def negatives():
    """only functions without arguments and results can initialise"""
    jobs = []
    for kind in ('__init__', '__fini__'):
        for t, bad in (('{\n}', 0), ('{ -> void\n}', 0), ('{x : int\n}', 1), ('{; -> 3}', 1), ('{; -> (3 : uint64)}', 1), ('{ -> int\n\t-> 3\n}', 1), ('{x : byte[:][:]\n}', 1), ('{x, y\n\tvar k = x : int\n}', 1),
                       ('3', 1), ('"abc"', 1), ('{x : byte -> byte\n\t-> x\n}', 1)):
            for u in ('a', 'p'):
                src = 'const main = {\n}\nconst t$ = {\n\tout(1)\n}\n'
                d = 'const %s = %s\n' % (kind, t)
                units = {'a': ('var x : int\n', 'var x = 3\n' + (d if u == 'a' else ''))}
                # the harness' own unit comes last
                lay = Layout('unit %s' % u, ('mc', 'a', 'a', []), ('mc', 'p', None, ['"a"']))
                jobs.append((lay, UItem(src + (d if u == 'p' else ''), [1], '%s = %s' % (kind, t), units, status='reject' if bad else 0)))
    return jobs


def body(c):
    tree = Tree('c')
    st = run_each(c, tree, list(jobs(c.thorough)))
    ng = run_each(c, tree, negatives(), anyunit=True)
    c.add(executions=st['programs'] + ng['programs'], transitions=st['outputs'])


if __name__ == '__main__':
    main(body, 'C14')
