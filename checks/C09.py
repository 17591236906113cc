#!/usr/bin/env python3
"""C09: a use of a generic, a parametrised type or a trait method means what the code with the types of that use put in means,
whatever other uses there are: all types up to a size, all orders, all impl sets."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product, permutations, combinations
from mcv.check import *
from mcv.comp import *
from mcv.aggs import *

# ---------------------------------------------------------------- types as terms
# a term is (constructor, subterm...); tx: its text; tc: the codes a program describing it prints
ATOM = {'int': 1, 'int16': 2, 'flt32': 3, 'bool': 4, 'byte': 5, 'foo': 6, 'fooi': 7, 'foois': 8, 'f': 9, 'void': 10, 'char': 11, 'flt64': 12, 'oo': 13, 'int8': 14, 'uint8': 15, 'uint16': 16, 'int32': 17, 'uint32': 18, 'int64': 19, 'uint64': 20, 'uint': 21}
CONS = {'#': 31, '[:]': 32, '[2]': 33, '[1]': 34, '[12]': 35, 'g1': 36, 'g2': 37, 'g': 38, 'f0': 39, 'f1': 40, 'f2': 41, 't2': 42, 't3': 43, 't1': 44, 'u1': 45}


def tx(t):
    if isinstance(t, str):
        return t
    c, s = t[0], [tx(x) for x in t[1:]]
    if c in ('#', '[:]', '[2]', '[1]', '[12]'):
        return s[0] + c
    if c in ('g', 'g1', 'g2', 'u1'):
        return '%s(%s)' % (c, ', '.join(s))
    if c[0] == 'f':
        return '(' + ', '.join('p%d : %s' % (i, x) for i, x in enumerate(s[1:])) + ' -> '[not s[1:]:] + s[0] + ')'
    if c == 'w$':
        return 'w$(%s)' % s[0]
    return '(' + ', '.join(s) + ')'


def tc(t):
    if isinstance(t, str):
        return [ATOM[t]]
    r = [CONS[t[0]]]
    for x in t[1:]:
        r += tc(x)
    return r


def describe():
    s = 'type foo = int\ntype fooi = byte\ntype foois = struct\n\tm : int64\n;;\ntype f = flt64\ntype oo = union\n\t`Oo byte\n;;\n'
    s += 'type g(@g) = struct\n\tm : @g\n;;\ntype g1(@g1) = @g1#\ntype g2(@ga, @gb) = struct\n\ta : @ga#\n\tb : @gb#\n;;\ntype u1(@u) = union\n\t`Ua @u#\n\t`Ub\n;;\n'
    s += 'trait ds @ds =\n\tdesc : (x : @ds# -> void)\n;;\n'
    for a, n in ATOM.items():
        s += 'impl ds %s =\n\tdesc = {x; out(%d)}\n;;\n' % (a, n)
    for c, n in CONS.items():
        k = {'g2': 2, 'f0': 1, 'f1': 2, 'f2': 3, 't2': 2, 't3': 3}.get(c, 1)
        ps = ['@p%s%d' % ({'#': 'p', '[:]': 's', '[2]': 'a', '[1]': 'b', '[12]': 'c'}.get(c, c), i) for i in range(k)]
        s += 'impl ds %s =\n\tdesc = {x\n\t\tout(%d)\n%s\t}\n;;\n' % (tx((c,) + tuple(ps)) + ' :: ' + ', '.join('ds ' + p for p in ps), n, ''.join('\t\tdesc((0 : %s#))\n' % p for p in ps))
    return s


def terms(atoms, cons, depth):
    lv = list(atoms)
    for d in range(depth):
        new = list(atoms)
        for c, n in cons:
            new += [(c,) + x for x in product(lv, repeat=n)]
        lv = new
    return lv


ONE = [('#', 1), ('[:]', 1), ('[2]', 1), ('[12]', 1), ('[1]', 1), ('g', 1), ('g1', 1), ('u1', 1), ('t1', 1), ('f0', 1)]
TWO = [('t2', 2), ('g2', 2), ('f1', 2)]


def described(thorough):
    """every type of the family, described through impls for what it is made of, all in one program, in both orders"""
    fam = []
    a1 = ['int', 'int16', 'bool', 'foo', 'fooi', 'foois', 'f', 'flt32']
    fam += terms(a1, ONE + TWO, 1)
    fam += [(c,) + x for c in ('t3', 'f2') for x in product(a1[:6], repeat=3)]
    fam += terms(['int', 'foo', 'fooi'], ONE, 3)
    fam += terms(['int', 'foo'], [('#', 1), ('[:]', 1), ('t1', 1), ('g', 1), ('f0', 1)] + TWO, 2)
    fam += terms(['bool', 'f', 'flt32'], [('[:]', 1), ('t1', 1), ('f0', 1), ('t2', 2), ('f1', 2)], 2)
    fam += terms(list(ATOM), [('t2', 2), ('f1', 2), ('#', 1), ('g', 1), ('[:]', 1)], 1)
    if thorough:
        fam += terms(['int', 'foo', 'fooi', 'int16'], ONE + TWO, 2)
    seen, u = set(), []
    for t in fam:
        if t not in seen:
            seen.add(t)
            u.append(t)
    r = []
    N = 40
    for k in range(0, len(u), N):
        part = u[k:k + N]
        for o in (part, part[::-1]):
            r.append(Item('const t$ = {\n%s}\n' % ''.join('\tdesc((0 : %s#))\n' % tx(t) for t in o), sum([tc(t) for t in o], []), 'types described: %s ... %s' % (tx(o[0]), tx(o[-1]))))
    return r


# ---------------------------------------------------------------- which impl is meant
# patterns: terms whose variables are strings that start with @
PATS = ['@a', ('#', '@a'), ('#', 'int'), ('#', ('#', '@a')), ('[:]', '@a'), ('[:]', ('#', '@a')), ('t2', '@a', '@b'), ('t2', 'int', '@b'), ('t2', '@a', 'byte'), ('t2', 'int', 'byte'),
        ('g', '@a'), ('g', 'int'), ('g', ('#', '@a')), ('g2', '@a', '@b'), ('g2', 'int', '@b'), ('f1', '@a', '@b'), ('f1', 'int', '@b'), 'int', 'foo', ('t3', '@a', '@b', '@c'), ('[2]', '@a'), ('[12]', '@a'), ('f0', '@a'), ('#', ('t2', '@a', '@b')),
        ('t2', '@a', '@a'), ('g2', '@a', '@a'), ('f1', '@a', '@a'), ('#', ('t2', '@a', '@a'))]
UNIV = ['int', 'byte', 'foo', ('#', 'int'), ('#', 'byte'), ('#', ('#', 'int')), ('[:]', 'int'), ('[:]', ('#', 'byte')), ('t2', 'int', 'byte'), ('t2', 'int', 'int'), ('t2', 'byte', 'byte'), ('t2', 'byte', 'int'), ('g', 'int'), ('g', 'byte'), ('g', ('#', 'int')),
        ('g2', 'int', 'byte'), ('g2', 'byte', 'byte'), ('f1', 'int', 'byte'), ('f1', 'byte', 'byte'), ('f2', 'int', 'int', 'int'), ('t3', 'int', 'int', 'int'), ('[2]', 'int'), ('[12]', 'int'), ('f0', 'int'), ('#', ('t2', 'int', 'byte')), 'foois']


def matches(p, t, env=None):
    env = {} if env is None else env
    if isinstance(p, str):
        if p[0] == '@':
            return env.setdefault(p, t) == t
        return p == t
    return not isinstance(t, str) and p[0] == t[0] and len(p) == len(t) and all(matches(x, y, env) for x, y in zip(p[1:], t[1:]))


def below(p, q):
    """p is an instance of q"""
    return matches(q, sk(p))


def sk(p):
    """the pattern with constants for its variables"""
    return ('!' + p if p[0] == '@' else p) if isinstance(p, str) else (p[0],) + tuple(sk(x) for x in p[1:])


def ren(p):
    """variables of an item's own"""
    return (p + '$' if p[0] == '@' else p) if isinstance(p, str) else (p[0],) + tuple(ren(x) for x in p[1:])


def rank_item(ps, t, how):
    m = [i for i, p in enumerate(ps) if matches(p, t)]
    best = [i for i in m if all(below(ps[i], ps[j]) for j in m)]
    src = 'trait tr$ @tr$ =\n\tid$ : (x : @tr$# -> uint64)\n\tk$ : (x : @tr$#, y : uint64 -> uint64)\n;;\n'
    for i, p in enumerate(ps):
        src += 'impl tr$ %s =\n\tid$ = {x; -> %d}\n\tk$ = {x, y; -> y + %d}\n;;\n' % (tx(ren(p)), 100 + i, 200 + i)
    use = {'direct': 'out(id$(x))\nout(k$(x, 1))', 'constrained': 'out(cg$(x))\nout(ch$(x))', 'value': 'var f : (x : %s# -> uint64) = id$\nout(f(x))\nout(k$(x, 1))' % tx(t)}[how]
    if how == 'constrained':
        src += 'generic cg$ = {x : @cg$# -> uint64 :: tr$ @cg$\n\t-> id$(x)\n}\ngeneric ch$ = {x : @ch$# -> uint64 :: tr$ @ch$\n\t-> k$(x, 1)\n}\n'
    src += 'const t$ = {\n\tvar x : %s# = (0 : %s#)\n\t%s\n}\n' % (tx(t), tx(t), use.replace('\n', '\n\t'))
    d = 'impls for %s used at %s, %s' % (', '.join(tx(p) for p in ps), tx(t), how)
    if not m:
        return Item(src, None, d, 'reject') if how != 'value' else None
    if best:
        return Item(src, [100 + best[0], 201 + best[0]], d)
    # neither is more specific than the other
    if len(m) == 2 and weight(ps[m[0]]) == weight(ps[m[1]]):
        return Item(src, None, d, 'reject')
    return None


def weight(p):
    def syms(p):
        return [p] if isinstance(p, str) else sum(map(syms, p[1:]), [0])
    y = syms(p)
    v = [x for x in y if str(x)[0] == '@']
    return len(y) - len(set(v))


def ranks(thorough):
    r = []
    for k in (1, 2, 3) if thorough else (1, 2):
        for ps in (permutations(PATS, k) if k < 3 else combinations(PATS, k)):
            for t in UNIV:
                if sum(matches(p, t) for p in ps) >= min(k, 2) or k == 1:
                    for how in ('direct', 'constrained', 'value') if k < 3 else ('direct',):
                        r.append(rank_item(ps, t, how))
    return [x for x in r if x]


# impls for what has a trait: (the trait of @a, pattern)
CPATS = [('integral', '@a'), ('floating', '@a'), ('numeric', '@a'), ('integral', ('#', '@a')), ('floating', ('#', '@a')), ('integral', ('t2', '@a', '@b')), ('floating', ('t2', '@a', '@b')), ('integral', ('g', '@a')), ('numeric', ('g', '@a')), ('mine$', '@a'), ('mine$', ('[:]', '@a')), (None, ('#', '@a')), (None, 'int'), (None, ('g', 'flt64')), (None, ('t2', 'bool', '@b'))]
CUNIV = ['int', 'byte', 'foo', 'flt64', 'bool', 'foois', ('#', 'int'), ('#', 'foo'), ('#', 'flt32'), ('#', 'bool'), ('#', ('#', 'int')), ('t2', 'int', 'bool'), ('t2', 'flt64', 'bool'), ('t2', 'bool', 'int'), ('g', 'int'), ('g', 'flt64'), ('g', 'bool'), ('g', 'foois'), ('[:]', 'foois'), ('[:]', 'int'), ('[:]', 'bool')]
HAS = {'integral': ['int', 'byte', 'foo'], 'floating': ['flt64', 'flt32'], 'numeric': ['int', 'byte', 'foo', 'flt64', 'flt32'], 'mine$': ['foois', 'bool'], None: None}


def cmatch(cp, t):
    tr, p = cp
    env = {}
    return matches(p, t, env) and (tr is None or env['@a'] in HAS[tr])


def constrained(ps, t, how):
    """impls of which at most one can be meant"""
    m = [i for i, p in enumerate(ps) if cmatch(p, t)]
    best = [i for i in m if all(i == j or (below(ps[i][1], ps[j][1]) and not below(ps[j][1], ps[i][1])) for j in m)]
    src = 'trait mine$ @mi$ =\n\tmm$ : (x : @mi$# -> uint64)\n;;\nimpl mine$ foois =\n\tmm$ = {x; -> 50}\n;;\nimpl mine$ bool =\n\tmm$ = {x; -> 51}\n;;\ntrait tr$ @tr$ =\n\tid$ : (x : @tr$# -> uint64)\n;;\n'
    for i, (tr, p) in enumerate(ps):
        src += 'impl tr$ %s%s =\n\tid$ = {x; -> %d}\n;;\n' % (tx(ren(p)), ' :: %s @a$' % tr if tr else '', 100 + i)
    if how:
        src += 'generic cg$ = {x : @cg$# -> uint64 :: tr$ @cg$\n\t-> id$(x)\n}\n'
    src += 'const t$ = {\n\tvar x : %s# = (0 : %s#)\n\tout(%s$(x))\n}\n' % (tx(t), tx(t), 'cg' if how else 'id')
    d = 'impls for %s used at %s%s' % (', '.join(tx(p) + (' :: %s @a' % tr.strip('$') if tr else '') for tr, p in ps), tx(t), ' in a generic' if how else '')
    if not m:
        return Item(src, None, d, 'reject') if len(ps) == 1 else None
    if best:
        return Item(src, [100 + best[0]], d)
    return None


def constraineds():
    r = [constrained(ps, t, how) for k in (1, 2) for ps in permutations(CPATS, k) if len({ps[0][1], ps[-1][1]}) == k for t in CUNIV for how in (0, 1)]
    return [x for x in r if x]


# ---------------------------------------------------------------- traits with other types
# (pattern of the impl, the other type in its terms)
AUX = [('@a', '@a'), (('#', '@a'), '@a'), (('#', '@a'), ('#', '@a')), (('[:]', '@a'), '@a'), (('t2', '@a', '@b'), '@a'), (('t2', '@a', '@b'), '@b'), (('t2', '@a', '@b'), ('t2', '@b', '@a')), (('g', '@a'), '@a'), (('g', '@a'), ('#', '@a')), (('g', '@a'), ('g', '@a')), (('g', '@a'), 'byte'),
       (('g', ('#', '@a')), '@a'), (('g', ('#', '@a')), ('#', '@a')), (('g', 'int'), 'byte'), (('g2', '@a', '@b'), '@a'), (('g2', '@a', '@b'), '@b'), (('g2', '@a', '@b'), ('t2', '@b', '@a')), (('g2', '@a', 'int'), '@a'), (('g2', 'int', '@b'), '@b'), (('g2', '@a', '@a'), '@a'), (('g', ('g', '@a')), '@a'), (('g', ('t2', '@a', '@b')), '@b'),
       ('int', 'byte'), ('foois', 'int'), ('foois', ('#', 'byte')), (('f1', '@a', '@b'), '@a'), (('[2]', '@a'), '@a'), (('g', ('[:]', '@a')), '@a')]


def inst(p, env):
    if isinstance(p, str):
        return env.get(p, p)
    return (p[0],) + tuple(inst(x, env) for x in p[1:])


def aux_item(p, a, env, how):
    """the other type is seen by what describes it"""
    t, w = inst(p, env), inst(a, env)
    if how == 'trait':
        src = 'trait tr$ @tr$ -> @au$ =\n\tget$ : (x : @tr$# -> @au$#)\n;;\nimpl tr$ %s -> %s =\n\tget$ = {x; -> (0 : %s#)}\n;;\n' % (tx(ren(p)), tx(ren(a)), tx(ren(a)))
        src += 'const t$ = {\n\tvar x : %s# = (0 : %s#)\n\tvar y : %s# = get$(x)\n\tdesc(y)\n}\n' % (tx(t), tx(t), tx(w))
        return Item(src, tc(w), 'trait with another type, %s -> %s at %s' % (tx(p), tx(a), tx(t)))
    body = '\t__iternext__ = {it, v\n\t\tif nit > 1\n\t\t\t-> false\n\t\t;;\n\t\tnit++\n\t\t-> true\n\t}\n\t__iterfin__ = {it, v\n\t}\n;;\n'
    src = 'impl iterable %s -> %s =\n' % (tx(('w$', ren(p))), tx(ren(a))) + body
    if how == 'for':
        src = 'type w$(@w$) = struct\n\tx : @w$#\n;;\n' + src + 'const t$ = {\n\tvar x : w$(%s) = [.x=(0 : %s#)]\n\tnit = 0\n\tfor y : x\n\t\tdesc(&y)\n\t;;\n}\n' % (tx(t), tx(t))
    elif how == 'for in a generic':
        src = 'type w$(@w$) = struct\n\tx : @w$#\n;;\n' + src + 'generic lp$ = {it : @it$, z : @el$# :: iterable @it$ -> @el$, ds @el$\n\tnit = 0\n\tfor y : it\n\t\tdesc(&y)\n\t;;\n}\nconst t$ = {\n\tvar x : w$(%s) = [.x=(0 : %s#)]\n\tlp$(x, (0 : %s#))\n}\n' % (tx(t), tx(t), tx(w))
    return Item(src, tc(w) * 2, 'iterator, %s -> %s at %s, %s' % (tx(p), tx(a), tx(t), how))


def auxs():
    r = []
    for p, a in AUX:
        for v in ({'@a': 'int', '@b': 'byte'}, {'@a': 'foo', '@b': 'foo'}, {'@a': ('#', 'byte'), '@b': ('t2', 'int', 'foo')}, {'@a': ('g', 'bool'), '@b': ('g2', 'int', 'foo')}):
            for how in ('trait', 'for', 'for in a generic'):
                r.append(aux_item(p, a, v, how))
    return r


PRE3 = 'type foo = int\ntype foois = struct\n\tm : int64\n;;\ntype g(@g) = struct\n\tm : @g\n;;\ntype g2(@ga, @gb) = struct\n\ta : @ga#\n\tb : @gb#\n;;\n'


# ---------------------------------------------------------------- shapes of generics at sequences of types
# (name, text with the generics, text of a use: T the type, X and Y two values in variables, E what outputs one, what it outputs by
# x, y (encoded) and the size and alignment of T)
def szs(*m):
    """size of a tuple of such (size, alignment)"""
    o, a = 0, 1
    for s, l in m:
        o, a = al(o, l) + s, max(a, l)
    return al(o, a)


SHAPES = [
    ('identity', 'generic id$ = {x : @a -> @a; -> x}\n', 'var r : T = id$(X)\nE(&r)\nr = id$(id$(Y))\nE(&r)', lambda x, y, s, a: x + y),
    ('swap', 'generic sw$ = {p : @a#, q : @a#\n\tvar t = p#\n\tp# = q#\n\tq# = t\n}\n', 'sw$(&X, &Y)\nE(&X)\nE(&Y)', lambda x, y, s, a: y + x),
    ('sizes', 'generic sz$ = {x : @a# -> uint64; -> sizeof(@a)}\ngeneric s2$ = {x : @a# -> uint64; -> sizeof((@a, byte)) + 1000 * sizeof(@a[3])}\n', 'out(sz$(&X))\nout(s2$(&Y))', lambda x, y, s, a: [s, szs((s, a), (1, 1)) + 3000 * s]),
    ('array', 'generic ar$ = {x : @a, y : @a -> @a\n\tvar a : @a[3]\n\ta[0] = x\n\ta[1] = y\n\ta[2] = x\n\tfor var i = 0; i < 2; i++\n\t\ta[i] = a[i + 1]\n\t;;\n\t-> a[0]\n}\n', 'var r : T = ar$(X, Y)\nE(&r)', lambda x, y, s, a: y),
    ('array literal', 'generic al$ = {x : @a, y : @a -> @a[3]; -> [x, y, x]}\n', 'var r : T[3] = al$(X, Y)\nE(&r[0])\nE(&r[1])\nE(&r[2])', lambda x, y, s, a: x + y + x),
    ('tuple', 'generic tu$ = {x : @a, y : @b -> (byte, @a, @b, byte); -> (1, x, y, 2)}\n', 'var r : (byte, T, uint64, byte) = tu$(X, (77 : uint64))\nvar q : (byte, uint64, T, byte) = tu$((78 : uint64), Y)\nE(&r.1)\nout(r.2)\nout((r.3 : uint64))\nE(&q.2)\nout(q.1)\nout((q.3 : uint64))', lambda x, y, s, a: x + [77, 2] + y + [78, 2]),
    ('slice', 'generic la$ = {s : @a[:] -> @a; -> s[s.len - 1]}\ngeneric tl$ = {s : @a[:] -> @a[:]; -> s[1:]}\n', 'var v : T[:] = [X, Y, X][:]\nvar r : T = la$(v[:2])\nE(&r)\nv = tl$(tl$(v))\nout((v.len : uint64))\nE(&v[0])', lambda x, y, s, a: y + [1] + x),
    ('struct', 'type pr$(@p, @q) = struct\n\ta : @p\n\tb : byte\n\tc : @q\n;;\ngeneric mp$ = {x : @a, y : @b -> pr$(@a, @b); -> [.a = x, .b = 7, .c = y]}\ngeneric fl$ = {p : pr$(@a, @b) -> pr$(@b, @a); -> [.c = p.a, .b = p.b + 1, .a = p.c]}\n',
     'var r = mp$(X, (5 : uint16))\nE(&r.a)\nout((r.b : uint64))\nout((r.c : uint64))\nvar q = fl$(r)\nE(&q.c)\nout((q.a : uint64))\nvar p : pr$(T, T) = mp$(X, Y)\nvar z : pr$(T, T) = fl$(p)\nE(&z.a)\nE(&z.c)\nout(sizeof(pr$(T, byte)))', lambda x, y, s, a: x + [7, 5] + x + [5] + y + x + [szs((s, a), (1, 1), (1, 1))]),
    ('nested struct', 'type nb$(@n) = struct\n\ta : byte\n\tb : @n\n;;\ngeneric wr$ = {x : @a -> nb$(@a); -> [.a = 9, .b = x]}\ngeneric un$ = {x : nb$(@a) -> @a; -> x.b}\n', 'var r : nb$(nb$(nb$(T))) = wr$(wr$(wr$(X)))\nE(&r.b.b.b)\nvar t : T = un$(un$(un$(r)))\nE(&t)\nout((r.b.b.a : uint64))\nout(sizeof(nb$(nb$(T))))', lambda x, y, s, a: x + x + [9, szs((1, 1), (szs((1, 1), (s, a)), a))]),
    ('union', 'type op$(@o) = union\n\t`No$\n\t`So$ @o\n\t`Tw$ (@o, @o)\n;;\ngeneric so$ = {x : @a -> op$(@a); -> `So$ x}\ngeneric ge$ = {o : op$(@a), d : @a -> @a\n\tmatch o\n\t| `No$:\t-> d\n\t| `So$ x:\t-> x\n\t| `Tw$ (_, x):\t-> x\n\t;;\n}\n',
     'var r : T = ge$(so$(X), Y)\nE(&r)\nr = ge$(`No$, Y)\nE(&r)\nr = ge$(`Tw$ (Y, X), Y)\nE(&r)\nvar o : op$(op$(T)) = so$(so$(Y))\nr = ge$(ge$(o, `No$), X)\nE(&r)', lambda x, y, s, a: x + y + x + y),
    ('closure', 'generic cl$ = {x : @a, y : @a -> @a\n\tvar f = {; -> x}\n\tx = y\n\t-> f()\n}\ngeneric c2$ = {x : @a, f : (y : @a -> void)\n\tvar g = {y : @a\n\t\tf(x)\n\t\tf(y)\n\t}\n\tg(x)\n}\n', 'var r : T = cl$(X, Y)\nE(&r)\nc2$(Y, {v; E(&v)})', lambda x, y, s, a: x + y + y),
    ('function argument', 'generic ap$ = {f : (x : @a -> @b), x : @a -> @b; -> f(x)}\ngeneric ii$ = {x : @i -> @i; -> x}\ngeneric co$ = {f : (x : @a -> @b), g : (x : @b -> @c), x : @a -> @c; -> g(f(x))}\n', 'var r : T = ap$(ii$, X)\nE(&r)\nout(ap$({v : T -> uint64; -> sizeof(T)}, X))\nr = co$({v : T -> byte; -> 3}, {b : byte -> T; -> Y}, X)\nE(&r)', lambda x, y, s, a: x + [s] + y),
    ('recursion', 'generic rc$ = {n : int, x : @a, y : @a -> @a\n\tif n == 0\n\t\t-> x\n\t;;\n\t-> rc$(n - 1, y, x)\n}\n', 'var r : T = rc$(3, X, Y)\nE(&r)\nr = rc$(4, X, Y)\nE(&r)', lambda x, y, s, a: y + x),
    ('mutual recursion', 'generic ev$ = {n : int, x : @a, y : @a -> @a\n\tif n == 0\n\t\t-> x\n\t;;\n\t-> od$(n - 1, x, y)\n}\ngeneric od$ = {n : int, x : @b, y : @b -> @b\n\tif n == 0\n\t\t-> y\n\t;;\n\t-> ev$(n - 1, x, y)\n}\n', 'var r : T = ev$(3, X, Y)\nE(&r)\nr = od$(3, X, Y)\nE(&r)', lambda x, y, s, a: y + x),
    ('parameters swapped', 'generic tw$ = {n : int, x : @a, y : @b -> uint64\n\tif n == 0\n\t\t-> sizeof(@a) * 1000 + sizeof(@b)\n\t;;\n\t-> tw$(n - 1, y, x)\n}\n', 'out(tw$(0, X, (1 : uint16)))\nout(tw$(1, X, (1 : uint16)))\nout(tw$(2, X, Y))', lambda x, y, s, a: [s * 1000 + 2, 2000 + s, s * 1001]),
    ('derived types', 'generic d1$ = {x : @a -> uint64; -> d2$(&x) * 1000 + d2$(x)}\ngeneric d2$ = {p : @b -> uint64; -> d3$((p, (1 : byte)))}\ngeneric d3$ = {p : @c -> uint64; -> sizeof(@c)}\n', 'out(d1$(X))', lambda x, y, s, a: [szs((8, 8), (1, 1)) * 1000 + szs((s, a), (1, 1))]),
    ('list', 'type ls$(@l) = union\n\t`Nl$\n\t`Cn$ (@l, ls$(@l)#)\n;;\ngeneric le$ = {l : ls$(@a), f : (x : @a# -> void) -> uint64\n\tmatch l\n\t| `Nl$:\t-> 0\n\t| `Cn$ (x, r):\n\t\tf(&x)\n\t\t-> 1 + le$(r#, f)\n\t;;\n}\n', 'var n : ls$(T) = `Nl$\nvar l1 : ls$(T) = `Cn$ (X, &n)\nvar l2 : ls$(T) = `Cn$ (Y, &l1)\nout(le$(l2, E))', lambda x, y, s, a: y + x + [2]),
    ('as a value', 'generic va$ = {x : @a -> @a; -> x}\ngeneric vb$ = {x : @a -> @a\n\tvar f : (x : @a -> @a) = va$\n\t-> f(x)\n}\n', 'var f : (x : T -> T) = va$\nvar r : T = f(X)\nE(&r)\nf = vb$\nr = f(Y)\nE(&r)', lambda x, y, s, a: x + y),
    ('labels and loops', 'generic lb$ = {x : @a, y : @a, f : (z : @a# -> void)\n\tvar i = 0\n\tvar a : @a[2] = [x, y]\n\tgoto b\n:a\n\tf(&y)\n\ti++\n:b\n\tf(&x)\n\tfor z : a\n\t\tif i == 1\n\t\t\tbreak\n\t\t;;\n\t\tf(&z)\n\t;;\n\tif i == 0\n\t\tgoto a\n\t;;\n}\n', 'lb$(X, Y, E)', lambda x, y, s, a: x + x + y + y + x),
    ('function in a struct', 'type fs$(@f) = struct\n\tp : byte\n\tf : (x : @f -> @f)\n\tz : @f\n;;\ngeneric rf$ = {s : fs$(@a) -> @a; -> s.f(s.z)}\n', 'var w : fs$(T) = [.p = 1, .f = {v : T -> T; -> Y}, .z = X]\nvar r : T = rf$(w)\nE(&r)\nE(&w.z)', lambda x, y, s, a: y + x),
    ('pointers', 'generic pn$ = {p : @a## -> @a; -> p##}\ngeneric pa$ = {x : @a -> @a\n\tvar p = &x\n\tvar q = &p\n\tq## = p#\n\t-> q##\n}\n', 'var p = &X\nvar r : T = pn$(&p)\nE(&r)\nr = pa$(Y)\nE(&r)', lambda x, y, s, a: x + y),
    ('pattern', 'generic pt$ = {x : (@a, byte), y : @a -> @a\n\tmatch x\n\t| (_, 1):\t-> y\n\t| (v, 2):\t-> v\n\t| (v, _):\n\t\tvar t = (v, y)\n\t\tmatch t\n\t\t| (_, w):\t-> w\n\t\t;;\n\t;;\n}\n', 'var r : T = pt$((X, 1), Y)\nE(&r)\nr = pt$((X, 2), Y)\nE(&r)\nr = pt$((X, 3), Y)\nE(&r)', lambda x, y, s, a: y + x + y),
    ('many arguments', 'generic ma$ = {a : @a, b : byte, c : @a, d : @b, e : @a, f : @b, g : @a -> @a\n\tif b == 1\n\t\t-> a\n\telif b == 2\n\t\t-> c\n\telif b == 3\n\t\t-> e\n\t;;\n\t-> g\n}\n', 'var r : T = ma$(X, 1, Y, 3, Y, 4, Y)\nE(&r)\nr = ma$(Y, 2, X, (1.5 : flt64), Y, 2.5, Y)\nE(&r)\nr = ma$(Y, 3, Y, Y, X, Y, Y)\nE(&r)\nr = ma$(Y, 4, Y, "a", Y, "b", X)\nE(&r)', lambda x, y, s, a: x * 4),
    ('trait', 'trait tt$ @t =\n\tnm$ : (x : @t# -> void)\n\tsi$ : (x : @t# -> uint64)\n;;\ngeneric ct$ = {x : @a, y : @a :: tt$ @a\n\tnm$(&x)\n\tnm$(&y)\n}\ngeneric cs$ = {s : @a[:] -> uint64 :: tt$ @a\n\tfor x : s\n\t\tct$(x, x)\n\t;;\n\t-> si$(&s[0])\n}\n\fimpl tt$ T =\n\tnm$ = {x; E(x)}\n\tsi$ = {x; -> sizeof(T) + I}\n;;\n', 'ct$(X, Y)\nnm$(&Y)\nout(cs$([Y][:]))\nvar f : (x : T# -> void) = nm$\nf(&X)', lambda x, y, s, a: x + y + y + y + y + [s, '+i'] + x),
    ('trait over containers', 'trait tc$ @t =\n\tsh$ : (x : @t# -> void)\n;;\ntype pc$(@p, @q) = struct\n\ta : @p\n\tb : @q\n;;\nimpl tc$ @e[:] :: tc$ @e =\n\tsh$ = {p\n\t\tout(800)\n\t\tfor x : p#\n\t\t\tsh$(&x)\n\t\t;;\n\t}\n;;\nimpl tc$ pc$(@e, @f) :: tc$ @e, tc$ @f =\n\tsh$ = {p\n\t\tout(801)\n\t\tsh$(&p.a)\n\t\tsh$(&p.b)\n\t}\n;;\nimpl tc$ @e# :: tc$ @e =\n\tsh$ = {p\n\t\tout(802)\n\t\tsh$(p#)\n\t}\n;;\nimpl tc$ (@e, @f) :: tc$ @e, tc$ @f =\n\tsh$ = {p\n\t\tout(803)\n\t\tsh$(&p#.0)\n\t\tsh$(&p#.1)\n\t}\n;;\n\fimpl tc$ T =\n\tsh$ = {x; E(x)}\n;;\n',
     'var v : T[:] = [X, Y][:]\nsh$(&v)\nvar w : pc$(T, T[:]) = [.a = Y, .b = v]\nsh$(&w)\nvar z : (T#, pc$(T#, (T, T))) = (&X, [.a = &Y, .b = (X, Y)])\nsh$(&z)', lambda x, y, s, a: [800] + x + y + [801] + y + [800] + x + y + [803, 802] + x + [801, 802] + y + [803] + x + y),
    ('trait constants', 'trait tk$ @t =\n\tkk$ : uint64\n\tdf$ : @t\n\tmk$ : (n : int -> @t)\n;;\ngeneric dk$ = {x : @a# -> uint64 :: tk$ @a; -> impl(kk$, @a) + 1}\ngeneric mm$ = {x : @a# -> @a :: tk$ @a; -> impl(mk$, @a)(3)}\n\fimpl tk$ T =\n\tkk$ = 50 + I\n\tdf$ = LX\n\tmk$ = {n; -> LY}\n;;\n', 'out(impl(kk$, T))\nvar r : T = df$\nE(&r)\nr = mk$(1)\nE(&r)\nout(dk$(&r))\nr = mm$(&r)\nE(&r)', lambda x, y, s, a: [50, '+i'] + x + y + [51, '+i'] + y),
    ('arithmetic', 'generic su$ = {x : @a, y : @a -> @a :: numeric @a; -> x * y + x - y}\ngeneric on$ = {x : @a -> @a :: numeric,integral @a; -> x + 1}\ngeneric cm$ = {x : @a, y : @a -> uint64 :: numeric @a\n\tif x < y\n\t\t-> 1\n\telif x == y\n\t\t-> 2\n\telse\n\t\t-> 3\n\t;;\n}\n', 'var r : T = su$(X, Y)\nE(&r)\nr = on$(X)\nE(&r)\nout(cm$(X, Y))\nout(cm$(X, X))\nout(cm$(Y, X))', None),
]
NUM = {'by': (1, 0), 'h': (2, 1), 'w': (4, 1), 'q': (8, 1), 'uq': (8, 0), 'uh': (2, 0), 'i8': (1, 1), 'd': (8, 'f'), 'f': (4, 'f')}


def shape(sh, ts, desc):
    name, gen, use, want = sh
    c = [3]
    src, w, m, done = decls(*ts), [], 'const t$ = {\n', {}
    gen, _, per = gen.partition('\f')
    src += gen
    for i, t in enumerate(ts):
        a, b = t.fresh(c), t.fresh(c)
        if want is None:
            a, b = (3, 5) if t.name not in 'df' else (a, b)
        j = done.setdefault(t.name, i)
        sub = lambda s: re.sub(r'\b(LX|LY|T|X|Y|E|I)\b', lambda k: {'T': t.src, 'X': 'x%d' % i, 'Y': 'y%d' % i, 'E': 'e_%s$' % t.name, 'I': str(j), 'LX': t.lit(a), 'LY': t.lit(b)}[k.group(1)], s)
        if per and j == i:
            src += sub(per)
        elif per and 'LX' in per:
            a, b = done[t.name, 0]
        done.setdefault((t.name, 0), (a, b))
        m += '\tif true\n\tvar x%d : %s = %s\n\tvar y%d : %s = %s\n\t%s\n\t;;\n' % (i, t.src, t.lit(a), i, t.src, t.lit(b), sub(use).replace('\n', '\n\t'))
        x, y = t.enc(a), t.enc(b)
        if want is None:
            sz, sg = NUM[t.name]
            if sg == 'f':
                return None
            x, y = 3, 5
            w += t.enc(x * y + x - y) + t.enc(4) + [1, 2, 3]
            continue
        for v in want(x, y, t.size, t.align):
            if v == '+i':
                w[-1] += j
            else:
                w.append(v)
    return Item(src + m + '}\n', w, '%s at %s' % (name, desc))


def shapes(thorough):
    T = [S[x] for x in ('by', 'h', 'w', 'q', 'f', 'd', 'bo', 'sl', 'fn', 'p', 'uq')]
    T += [St('b3', [S['by'], S['by'], S['by']]), St('qb', [S['q'], S['by']]), Arr('a5', S['by'], 5), St('q4', [S['q'], S['q'], S['q'], S['q']]), Un('u_h', [S['h'], None]), Tup('t_d_f', [S['d'], S['f']]), Nm('nm_w', S['w']), Nm('nm_q', S['q']), Nm('nm_b3', St('b3', [S['by'], S['by'], S['by']])), Arr('aq2', S['q'], 2)]
    r = []
    for sh in SHAPES:
        ok = [t for t in T if sh[3] is not None or t.name in NUM and t.name not in 'df']
        if sh[0] == 'trait over containers':
            ok = [t for t in ok if t.name not in ('sl', 'p', 't_d_f')]
        if sh[0] == 'trait constants':
            ok = [t for t in ok if t.name not in ('fn', 'sl')]
        for n in (1, 2):
            for ts in product(ok, repeat=n):
                r.append(shape(sh, ts, ', '.join(t.name for t in ts)))
        for k in range(len(ok)):
            r.append(shape(sh, ok[k:] + ok[:k], 'all types from %s on' % ok[k].name))
            r.append(shape(sh, (ok[k:] + ok[:k])[::-1], 'all types back from %s' % ok[k - 1].name))
        if thorough:
            for ts in permutations(ok[::2], 3):
                r.append(shape(sh, ts, ', '.join(t.name for t in ts)))
    return [x for x in r if x]


def body(c):
    tree = Tree('c')
    tot = [0, 0]
    for pre, items in ((describe(), described(c.thorough)), (PRE3, ranks(c.thorough)), (PRE3, constraineds()), (describe() + 'var nit : int\n', auxs()), (FNS, shapes(c.thorough))):
        st = run_items(c, tree, items, pre)
        tot = [tot[0] + st['programs'], tot[1] + st['outputs']]
    c.add(executions=tot[0], transitions=tot[1])


if __name__ == '__main__':
    main(body, 'C09')
