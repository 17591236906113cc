#!/usr/bin/env python3
"""C07: the compiler accepts exactly the well-typed programs.

Exhaustive: every way a value can flow from one place to another at every ordered pair of a family of types (also inside generics, with
their type parameters); every operator at every pair of types and with every type for its result; every path of up to three
(thorough: four) selectors (member, index, slice, dereference, address, call, constructor) from every starting type with every type for its
result; literals and casts at every type; trait constraints, builtin and declared, at every type; and the rules about declarations,
calls, aggregates, lvalues and control flow.  The reference is the type rules of doc/lang.txt: what must be accepted is
compiled together, and what must be refused alone.
"""
import re
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product, combinations
from mcv.check import main
from mcv.build import Tree
from mcv.accept import Acc, run_acc

PRE = '''type st = struct
	a : int
	b : byte#
;;
type st2 = struct
	a : int
	b : byte#
;;
type un = union
	`A int
	`B
;;
type un2 = union
	`C int
	`D
;;
type nm = int
type nm2 = int
type ng(@a) = struct
	v : @a
;;
type nh(@a, @b) = struct
	v : @a
	w : @b
;;
type no(@a) = union
	`S @a
	`N
;;
type nf = flt64
type np = int#
type nl = byte[:]
generic same = {x : @a, y : @a
}
generic ident = {x : @a; -> x}
'''
INTS = ['char', 'int8', 'int16', 'int', 'int32', 'int64', 'byte', 'uint8', 'uint16', 'uint', 'uint32', 'uint64']
FLTS = ['flt32', 'flt64']


# a type: a name, or (constructor, parts...)
def P(t):
    return ('#', t)


def L(t):
    return (':', t)


def A(t, n):
    return ('[]', t, n)


def T(*t):
    return ('t',) + t


def F(r, *a):
    return ('f', r) + a


def G(n, *a):
    return ('n', n) + a


def tx(t):
    if isinstance(t, str):
        return t
    k = t[0]
    if k == '#':
        return tx(t[1]) + '#'
    if k == ':':
        return tx(t[1]) + '[:]'
    if k == '[]':
        return '%s[%d]' % (tx(t[1]), t[2])
    if k == 't':
        return '(%s)' % ', '.join(map(tx, t[1:]))
    if k == 'f':
        return '(%s -> %s)' % (', '.join('x%d : %s' % (i, tx(a)) for i, a in enumerate(t[2:])), tx(t[1]))
    return '%s(%s)' % (t[1], ', '.join(map(tx, t[2:])))


NAMED = {'st': ('st', [('a', 'int'), ('b', P('byte'))]), 'st2': ('st', [('a', 'int'), ('b', P('byte'))]), 'un': ('un', [('A', 'int'), ('B', None)]), 'un2': ('un', [('C', 'int'), ('D', None)]),
         'nm': 'int', 'nm2': 'int', 'nf': 'flt64', 'np': P('int'), 'nl': L('byte')}


def base(t):
    """the type a named one is made of; ('st', members), ('un', constructors) for those"""
    if isinstance(t, str):
        b = NAMED.get(t, t)
        return b if isinstance(b, tuple) and b[0] in ('st', 'un') else base(b) if b != t else t
    if t[0] == 'n':
        a = t[2:]
        return {'ng': ('st', [('v', a[0])]), 'nh': ('st', [('v', a[0]), ('w', a[-1])]), 'no': ('un', [('S', a[0]), ('N', None)])}[t[1]]
    return t


def kind(t):
    b = base(t)
    if isinstance(b, str):
        return 'int' if b in INTS else 'flt' if b in FLTS else b
    return b[0]


TYPES = ['bool'] + INTS + FLTS + [P('byte'), P('int'), P(P('byte')), L('byte'), L('int'), L(L('byte')), A('byte', 3), A('byte', 4), A('int', 3), A(A('byte', 3), 3), T('int', 'byte'), T('byte', 'int'), T('int', 'byte', 'byte'),
                                  T('int', T('byte', 'byte')), F('int', 'int'), F('byte', 'int'), F('int', 'byte'), F('int'), F('void'), F('int', 'int', 'int'), 'st', 'st2', 'un', 'un2', 'nm', 'nm2', 'nf', 'np', 'nl',
                                  G('ng', 'int'), G('ng', 'byte'), G('ng', 'nm'), G('ng', G('ng', 'int')), G('nh', 'int', 'byte'), G('nh', 'byte', 'int'), G('no', 'int'), G('no', 'byte'), P('st'), P('nm'), L('nm'), L('st'), P(F('int'))]
GENT = ['int', '@a', '@b', P('@a'), P('@b'), L('@a'), L('@b'), A('@a', 3), A('@b', 3), T('@a', '@b'), T('@b', '@a'), T('@a', '@a'), F('@a', '@b'), F('@b', '@a'), F('@a', '@a'), G('ng', '@a'), G('ng', '@b'), G('nh', '@a', '@b'), G('nh', '@b', '@a'), G('no', '@a'), G('no', '@b'), G('ng', 'int')]

# (declarations, parameters, statements, result): A the type a value has, B the type wanted there
FLOWS = [
    ('assignment', '', 'a : A, b : B', 'b = a', ''),
    ('initializer', '', 'a : A', 'var x : B = a', ''),
    ('return', '', 'a : A', '-> a', 'B'),
    ('return, not the last', '', 'a : A, b : B', 'if true\n\t\t-> b\n\t;;\n\t-> a', 'B'),
    ('argument', 'const g$ = {x : B\n}\n', 'a : A', 'g$(a)', ''),
    ('second argument', 'const g$ = {y : int, x : B\n}\n', 'a : A', 'g$(1, a)', ''),
    ('argument of a pointer', '', 'a : A, g : (x : B -> void)', 'g(a)', ''),
    ('argument of a literal', '', 'a : A', '{x : B\n\t}(a)', ''),
    ('result', 'const g$ = {x : A -> A; -> x}\n', 'a : A, b : B', 'b = g$(a)', ''),
    ('result of a pointer', '', 'g : (-> A), b : B', 'b = g()', ''),
    ('struct literal', 'type s$ = struct\n\tz : int\n\tx : B\n;;\n', 'a : A', 'var s : s$ = [.z = 1, .x = a]', ''),
    ('member store', 'type s$ = struct\n\tz : int\n\tx : B\n;;\n', 'a : A, s : s$', 's.x = a', ''),
    ('member store by pointer', 'type s$ = struct\n\tz : int\n\tx : B\n;;\n', 'a : A, s : s$#', 's.x = a', ''),
    ('member', 'type s$ = struct\n\tz : int\n\tx : A\n;;\n', 'b : B, s : s$#', 'b = s.x', ''),
    ('nested struct literal', 'type s$ = struct\n\tx : B\n;;\ntype r$ = struct\n\ty : s$\n;;\n', 'a : A', 'var s : r$ = [.y = [.x = a]]', ''),
    ('generic struct', '', 'a : A', 'var s : ng(B) = [.v = a]', ''),
    ('generic struct, inferred', '', 'a : A, b : B', 'var s : nh(int, A) = [.v = 1, .w = a]\n\tb = s.w', ''),
    ('generic union', '', 'a : A', 'var s : no(B) = `S a', ''),
    ('tuple literal', '', 'a : A', 'var t : (int, B) = (1, a)', ''),
    ('tuple part', '', 't : (int, A, int), b : B', 'b = t.1', ''),
    ('tuple part store', '', 't : (int, B, int), a : A', 't.1 = a', ''),
    ('tuple assignment', '', 'a : A, b : B, c : int', '(b, c) = (a, 1)', ''),
    ('array literal', '', 'a : A, b : B', 'var v = [b, a]', ''),
    ('array literal with a type', '', 'a : A', 'var v : B[2] = [a, a]', ''),
    ('slice literal', '', 'a : A', 'var v : B[:] = [a][:]', ''),
    ('union value', 'type u$ = union\n\t`Y$ int\n\t`U$ B\n;;\n', 'a : A', 'var u = `U$ a', ''),
    ('nested union value', 'type u$ = union\n\t`U$ (int, B)\n;;\n', 'a : A', 'var u : u$ = `U$ (1, a)', ''),
    ('store by pointer', '', 'a : A, p : B#', 'p# = a', ''),
    ('load by pointer', '', 'b : B, p : A#', 'b = p#', ''),
    ('two pointers', '', 'b : B, p : A##', 'b = p##', ''),
    ('address', '', 'a : A, p : B#', 'p = &a', ''),
    ('element store', '', 'a : A, s : B[:]', 's[0] = a', ''),
    ('element', '', 'b : B, s : A[:]', 'b = s[0]', ''),
    ('array element', '', 'b : B, s : A[5]', 'b = s[2]', ''),
    ('slice', '', 'b : B[:], s : A[5]', 'b = s[1:]', ''),
    ('slices', '', 'b : B[:], s : A[:]', 'b = s', ''),
    ('pointers', '', 'b : B#, s : A#', 'b = s', ''),
    ('arrays', '', 'b : B[2], s : A[2]', 'b = s', ''),
    ('tuples', '', 'b : (B, int), s : (A, int)', 'b = s', ''),
    ('functions by argument', '', 'b : (x : B -> int), s : (x : A -> int)', 'b = s', ''),
    ('functions by result', '', 'b : (-> B), s : (-> A)', 'b = s', ''),
    ('generics', '', 'b : ng(B), s : ng(A)', 'b = s', ''),
    ('generics by the second', '', 'b : nh(int, B), s : nh(int, A)', 'b = s', ''),
    ('closure return', '', 'a : A, b : B', 'var c = {-> B; -> a}\n\tb = c()', ''),
    ('closure, inferred return', '', 'a : A, b : B', 'var c = {; -> a}\n\tb = c()', ''),
    ('closure argument', '', 'a : A, b : B', 'var c = {x : B; b = x}\n\tc(a)', ''),
    ('closure, inferred argument', '', 'a : A, b : B', 'var c = {x; b = x}\n\tc(a)', ''),
    ('closure assigns captured', '', 'a : A, b : B', 'var c = {; b = a}\n\tc()', ''),
    ('generic with one parameter for two', '', 'a : A, b : B', 'same(a, b)', ''),
    ('generic by pointer', '', 'a : A, b : B', 'same(&a, &b)', ''),
    ('generic result', '', 'a : A, b : B', 'b = ident(a)', ''),
    ('generic result twice', '', 'a : A, b : B', 'b = ident(ident(a))', ''),
    ('declared generic', 'generic g$ = {x : (@x, B) -> @x; -> x.0}\n', 'a : A', 'g$((1, a))', ''),
    ('inferred forwards', '', 'a : A, b : B', 'var v\n\tv = a\n\tb = v', ''),
    ('inferred backwards', '', 'a : A, b : B', 'var c = {v\n\t\tb = v\n\t\tv = a\n\t}', ''),
    ('inferred by two variables', '', 'a : A, b : B', 'var c = {v, w\n\t\tv = w\n\t\tb = v\n\t\tw = a\n\t}', ''),
    ('inferred by pointer', '', 'a : A, b : B', 'var c = {v\n\t\tvar p = &v\n\t\tp# = a\n\t\tb = v\n\t}', ''),
    ('inferred by tuple', '', 'a : A, b : B', 'var c = {v, w\n\t\tw = (v, a)\n\t\tb = w.1\n\t\tv = 1\n\t}', ''),
    ('inferred by array', '', 'a : A, b : B', 'var c = {v, w\n\t\tw = [v, v]\n\t\tb = w[0]\n\t\tv = a\n\t}', ''),
    ('inferred by argument', 'const g$ = {x : B\n}\n', 'a : A', 'var c = {v\n\t\tg$(v)\n\t\tv = a\n\t}', ''),
    ('inferred by function', '', 'a : A, b : B', 'var c = {v\n\t\tvar f = {x; -> x}\n\t\tb = f(v)\n\t\tv = a\n\t}', ''),
    ('for loop', '', 'b : B, s : A[:]', 'for x : s\n\t\tb = x\n\t;;', ''),
    ('for loop over an array', '', 'b : B, s : A[4]', 'for x : s\n\t\tb = x\n\t;;', ''),
    ('for loop of tuples', '', 'b : B, s : (int, A)[:]', 'for (i, x) : s\n\t\tb = x\n\t;;', ''),
    ('loop declaration', '', 'a : A', 'for var x : B = a; ; \n\t\tbreak\n\t;;', ''),
    ('match capture', '', 'a : A, b : B', 'match (1, a)\n\t| (_, x):\tb = x\n\t;;', ''),
    ('match capture of a union', '', 'o : no(A), b : B', 'match o\n\t| `S x:\tb = x\n\t| `N:\n\t;;', ''),
    ('match capture of a struct', '', 'o : ng(A), b : B', 'match o\n\t| [.v=x]:\tb = x\n\t;;', ''),
    ('match capture by pointer', '', 'o : ng(A)#, b : B', 'match o\n\t| &[.v=x]:\tb = x\n\t;;', ''),
    ('two match captures', '', 'a : A, b : B, c : bool', 'match (c, a, b)\n\t| (true, x, _):\tb = x\n\t| (_, _, x):\tb = x\n\t;;', ''),
    ('global', 'var gl$ : B\n', 'a : A', 'gl$ = a', ''),
    ('global read', 'var gl$ : A\n', 'b : B', 'b = gl$', ''),
    ('trait method', 'trait tr$ @t =\n\tm$ : (x : @t, y : B -> void)\n;;\nimpl tr$ int =\n\tm$ = {x, y\n\t}\n;;\n', 'a : A', 'm$((1 : int), a)', ''),
    ('trait method result', 'trait tr$ @t =\n\tm$ : (x : @t -> A)\n;;\nextern const xm$ : (x : int -> A)\nimpl tr$ int =\n\tm$ = {x; -> xm$(x)}\n;;\n', 'b : B', 'b = m$((1 : int))', ''),
    ('trait implementation', 'trait tr$ @t =\n\tm$ : (x : @t -> B)\n;;\nextern const xm$ : (x : int -> A)\nimpl tr$ int =\n\tm$ = {x; -> xm$(x)}\n;;\n', '', '', ''),
    ('conditional of a loop', '', 'a : A, b : B', 'while true\n\t\tb = a\n\t;;', ''),
    ('increment of a loop', '', 'a : A, b : B', 'for ; true; b = a\n\t;;', ''),
    ('block in a block', '', 'a : A, b : B', 'if true\n\t\tvar c = a\n\t\tif true\n\t\t\tb = c\n\t\t;;\n\t;;', ''),
    ('chained assignment', '', 'a : A, b : B, c : B', 'c = b = a', ''),
]


def sub(s, a, b):
    import re
    return re.sub(r'\b[AB]\b(?!\')', lambda m: tx(a if m.group(0) == 'A' else b), s)


def ucase(s):
    """constructor names A and B are no types"""
    return s


QUICK = ['bool', 'char', 'int', 'int32', 'byte', 'uint8', 'uint', 'uint64', 'flt32', 'flt64', P('byte'), P('int'), L('byte'), L('int'), A('byte', 3), A('byte', 4), T('int', 'byte'), T('byte', 'int'), T('int', 'byte', 'byte'), F('int', 'int'), F('byte', 'int'), F('int'), F('void'),
         'st', 'st2', 'un', 'nm', 'nl', G('ng', 'int'), G('ng', 'nm'), G('nh', 'int', 'byte'), G('nh', 'byte', 'int'), G('no', 'int'), G('no', 'byte'), P('nm'), L('st')]


def flows(types, gen):
    r = []
    for name, dec, par, body, ret in FLOWS:
        if gen and ('@' in dec + body + ret or dec):
            continue
        for a, b in product(types, repeat=2):
            if gen and '@' not in tx(a) + tx(b):
                continue
            fn = '%s f$ = {%s%s%s\n\t%s\n}\n' % ('generic' if gen else 'const', par, (', ' if par else '') + 'mcva : @a, mcvb : @b' if gen else '', ' -> ' + ret if ret else ' -> void', body)
            r.append(Acc(sub(dec + fn, a, b), a == b, '%s%s of %s where %s is wanted' % ('in a generic, ' if gen else '', name, tx(a), tx(b))))
    return r


# ---------------------------------------------------------------- operators
def num(t):
    return kind(t) in ('int', 'flt')


def integral(t):
    return kind(t) == 'int'


def scalar(t):
    return kind(t) in ('int', 'flt', 'bool', '#')


ARITH = ['+', '-', '*', '/']
BITS = ['%', '&', '|', '^', '<<', '>>']
CMP = ['==', '!=']
ORD = ['<', '<=', '>', '>=']


def opitems():
    r = []
    for a, b in product(TYPES, repeat=2):
        for op in ARITH + BITS + CMP + ORD + ['&&', '||']:
            ok = a == b and (num(a) if op in ARITH else integral(a) if op in BITS else LOGIC(a) if op in ('&&', '||') else EQ(a) if op in CMP else ORDER(a))
            if ok is None:
                continue
            res = 'bool' if op in CMP + ORD + ['&&', '||'] else tx(a)
            r.append(Acc('const f$ = {a : %s, b : %s -> %s\n\t-> a %s b\n}\n' % (tx(a), tx(b), res, op), ok, '%s %s %s' % (tx(a), op, tx(b))))
        for op in ARITH + BITS:
            ok = a == b and (num(a) if op in ARITH else integral(a))
            r.append(Acc('const f$ = {a : %s, b : %s -> void\n\ta %s= b\n}\n' % (tx(a), tx(b), op), ok, '%s %s= %s' % (tx(a), op, tx(b))))
        # the type of the result
        for op in ('+', '&', '==', '<', '&&', '<<'):
            if (num(a) if op == '+' else integral(a) if op in ('&', '<<') else num(a) if op in ('==', '<') else a == 'bool'):
                res = a if op in ('+', '&', '<<') else 'bool'
                r.append(Acc('const f$ = {a : %s, b : %s -> void\n\tb = a %s a\n}\n' % (tx(a), tx(b), op), res == b, '%s for the result of %s %s %s' % (tx(b), tx(a), op, tx(a))))
        for op, ok, res in [('-a', num(a), a), ('+a', True, a), ('~a', integral(a), a), ('!a', a == 'bool', 'bool'), ('a++', integral(a), a), ('a--', integral(a), a), ('++a', integral(a), a), ('--a', integral(a), a), ('sizeof(%s)' % tx(a), True, None)]:
            ok = ok and (res == b if res else integral(b))
            r.append(Acc('const f$ = {a : %s, b : %s -> void\n\tb = %s\n}\n' % (tx(a), tx(b), op), ok, '%s for the result of %s, a %s' % (tx(b), op, tx(a))))
    for a in TYPES:
        for what, src in [('if', 'if a\n\t;;'), ('elif', 'if true\n\telif a\n\t;;'), ('while', 'while a\n\t;;'), ('for', 'for ; a; \n\t;;'), ('not', 'if !a\n\t;;')]:
            r.append(Acc('const f$ = {a : %s\n\t%s\n}\n' % (tx(a), src), a == 'bool', '%s with a %s' % (what, tx(a))))
        for c in TYPES:
            seq = kind(c) in (':', '[]')
            if c in ('nm', 'nf', 'np', 'nl'):
                continue
            r.append(Acc('const f$ = {a : %s, c : %s\n\tvar x = c[a]\n}\n' % (tx(a), tx(c)), seq and integral(a), '%s indexed by %s' % (tx(c), tx(a))))
            r.append(Acc('const f$ = {a : %s, c : %s\n\tvar x = c[a:5]\n}\n' % (tx(a), tx(c)), kind(c) in (':', '[]', '#') and integral(a), '%s sliced from %s' % (tx(c), tx(a))))
            r.append(Acc('const f$ = {a : %s, c : %s\n\tvar x = c[1:a]\n}\n' % (tx(a), tx(c)), kind(c) in (':', '[]', '#') and integral(a), '%s sliced to %s' % (tx(c), tx(a))))
            r.append(Acc('const f$ = {a : %s, c : %s\n\tvar x : %s = c.len\n}\n' % (tx(a), tx(c), tx(a)), seq and integral(a), 'length of %s as %s' % (tx(c), tx(a))))
            r.append(Acc('const f$ = {a : %s, c : %s\n\tvar x : %s = c.tag\n}\n' % (tx(a), tx(c), tx(a)), kind(c) == 'un' and integral(a), 'tag of %s as %s' % (tx(c), tx(a))))
            r.append(Acc('const f$ = {a : %s, c : %s\n\tfor x : c\n\t\ta = x\n\t;;\n}\n' % (tx(a), tx(c)), seq and base(c)[1] == a, 'iteration over %s with %s' % (tx(c), tx(a))))
    return r


def LOGIC(t):
    """doc/lang.txt wants bool, but the tests use integers, too"""
    return True if t == 'bool' else None


def EQ(t):
    return True if scalar(t) else None


def ORDER(t):
    return True if num(t) else None


# ---------------------------------------------------------------- casts
def castok(a, b):
    """6/simp.c and the table in doc/lang.txt; None: not judged"""
    ba, bb = base(a), base(b)
    if ba == bb:
        return True
    ka, kb = kind(a), kind(b)
    if kb in ('int', '#', 'bool'):
        if ka == ':':
            return True if kb == '#' else None
        if ka == 'f':
            return True if b[0] == '#' else None
        if ka == 'int':
            return True
        if ka in ('bool', '#'):
            return True
        if ka == 'flt':
            return kb != '#' and (True if kb == 'int' else None)
        return False
    if kb == 'flt':
        return ka in ('int', 'flt')
    return False


def castitems():
    r = []
    for a, b in product(TYPES, repeat=2):
        ok = castok(a, b)
        if ok is not None:
            r.append(Acc('const f$ = {a : %s -> %s\n\t-> (a : %s)\n}\n' % (tx(a), tx(b), tx(b)), ok, 'cast of %s to %s' % (tx(a), tx(b))))
        if ok:
            for c in ('int', 'byte', 'nm', P('byte'), 'flt64', L('byte')):
                r.append(Acc('const f$ = {a : %s, c : %s\n\tc = (a : %s)\n}\n' % (tx(a), tx(c), tx(b)), c == b, '%s for a cast of %s to %s' % (tx(c), tx(a), tx(b))))
    return r


# ---------------------------------------------------------------- literals
LITS = [('1', integral), ('0x1f', integral), ('0', integral), ('100', integral), ("'a'", lambda t: t == 'char'), ('1.5', lambda t: kind(t) == 'flt'), ('0.0', lambda t: kind(t) == 'flt'), ('true', lambda t: t == 'bool'), ('"ab"', lambda t: t == L('byte')),
        ('(1 : int)', lambda t: t == 'int'), ('(1, 2)', lambda t: kind(t) == 't' and len(t) == 3 and integral(t[1]) and integral(t[2])), ('[1, 2, 3]', lambda t: kind(t) == '[]' and t[2] == 3 and integral(t[1])), ('[1, 2, 3, 4]', lambda t: kind(t) == '[]' and t[2] == 4 and integral(t[1])),
        ('[1][:]', lambda t: kind(t) == ':' and t != 'nl' and integral(t[1])), ('`A 1', lambda t: t == 'un'), ('`B', lambda t: t == 'un'), ('`C 1', lambda t: t == 'un2'), ('`S 1', lambda t: kind(t) == 'un' and t[0] == 'n' and integral(t[2])), ('`N', lambda t: kind(t) == 'un' and t[0] == 'n'),
        ('[.a = 1]', lambda t: t in ('st', 'st2')), ('[.v = 1]', lambda t: t[0] == 'n' and t[1] in ('ng', 'nh') and integral(t[2])), ('[.v = 1, .w = 2]', lambda t: t[0] == 'n' and t[1] == 'nh'), ('[.zz = 1]', lambda t: False), ('{x; -> x + 1}', lambda t: t in (F('int', 'int'),)),
        ('{; -> 1}', lambda t: t == F('int')), ('{\n\t}', lambda t: t == F('void')), ('{x : int -> byte; -> 3}', lambda t: t == F('byte', 'int')), ('""', lambda t: t == L('byte')), ('void', lambda t: False), ('(1, 2, 3)', lambda t: t == T('int', 'byte', 'byte')), ('1b', lambda t: t == 'int8'), ('1ub', lambda t: t == 'uint8'), ('1ul', lambda t: t == 'uint64'), ('1s', lambda t: t == 'int16'), ('1l', lambda t: t == 'int64'), ('1ui', lambda t: t == 'uint32')]


def lititems():
    r = []
    for t in TYPES:
        for l, ok in LITS:
            if kind(t) == 'un' and '`' in l and t == 'un' and False:
                continue
            r.append(Acc('const f$ = {\n\tvar x : %s = %s\n}\n' % (tx(t), l), bool(ok(t)), 'literal %s as %s' % (l, tx(t))))
            r.append(Acc('const f$ = {a : %s -> void\n\ta = %s\n}\n' % (tx(t), l), bool(ok(t)), 'literal %s assigned to %s' % (l, tx(t))))
    return r


# ---------------------------------------------------------------- paths of selectors
def steps(t):
    """(suffix or wrapper with E, type) for every way on from an expression of type t; type None: ill-typed"""
    b, k = base(t), kind(t)
    r = [('E#', b[1] if k == '#' else None), ('E[0]', b[1] if k in (':', '[]') else None), ('E[1:2]', L(b[1]) if k in (':', '[]', '#') else None), ('(E, E)', T(t, t)), ('ident(E)', t), ('[E, E]', A(t, 2))]
    for m in ('a', 'b', 'v', 'w'):
        s = base(b[1]) if k == '#' else b
        d = dict(s[1]) if not isinstance(s, str) and s[0] == 'st' else {}
        r.append(('E.' + m, d.get(m)))
    for i in range(3):
        s = base(b[1]) if k == '#' else b
        r.append(('E.%d' % i, s[i + 1] if not isinstance(s, str) and s[0] == 't' and i + 1 < len(s) else None))
    r.append(('E()', b[1] if k == 'f' and len(b) == 2 else None))
    r.append(('E(1)', b[1] if k == 'f' and len(b) == 3 and integral(b[2]) else None))
    r.append(('E(1, 2)', b[1] if k == 'f' and len(b) == 4 and integral(b[2]) and integral(b[3]) else None))
    r.append(('`S E', ('n', 'no', t)))
    return r


def paths(depth):
    r, seen = [], set()
    starts = [t for t in TYPES if kind(t) not in ('int', 'flt')] + ['int', 'byte', P(P('st')), L(T('int', P('st'))), F(F('int', 'int')), F(P('st'), 'int'), A(G('ng', L('int')), 2), T(F('st'), 'un'), P(G('nh', P('int'), L('st')))]

    def walk(t0, e, t, d):
        for s, n in steps(t):
            if t == 'np' and s == 'E#':
                continue        # whether a named pointer can be dereferenced isn't said
            if d and s in ('(E, E)', '[E, E]', 'ident(E)', '`S E') and e.startswith(('(', '[', 'ident', '`')):
                continue
            x = s.replace('E', '(%s)' % e if e.startswith('`') else e) if s != '(E, E)' and s != '[E, E]' else s.replace('E', e)
            if e.startswith(('(', '[')) and s[1:2] in ('.', '[', '(', '#'):
                continue        # selecting from a literal has a syntax of its own
            if n is None:
                r.append(Acc('const f$ = {a : %s -> void\n\tvar x = %s\n}\n' % (tx(t0), x), False, '%s of %s' % (x, tx(t0))))
                continue
            if n == 'void':
                continue
            for w in {n, 'int', 'byte', P('byte'), L('byte'), T('int', 'int')}:
                r.append(Acc('const f$ = {a : %s, b : %s -> void\n\tb = %s\n}\n' % (tx(t0), tx(w), x), w == n, '%s for %s of %s' % (tx(w), x, tx(t0))))
            if d + 1 < depth:
                walk(t0, x, n, d + 1)
    for t in starts:
        walk(t, 'a', t, 0)
    return r


# ---------------------------------------------------------------- trait constraints
BUILTIN = {'numeric': num, 'integral': integral, 'floating': lambda t: kind(t) == 'flt', 'indexable': lambda t: kind(t) in (':', '[]'), 'sliceable': lambda t: kind(t) in (':', '[]', '#'), 'function': lambda t: kind(t) == 'f'}


def traititems():
    r = []
    for tr, has in BUILTIN.items():
        for t in TYPES:
            r.append(Acc('generic g$ = {x : @g$ :: %s @g$\n}\nconst f$ = {a : %s\n\tg$(a)\n}\n' % (tr, tx(t)), has(t), 'trait %s of %s' % (tr, tx(t))))
            r.append(Acc('generic g$ = {x : @g$ :: %s @g$\n}\ngeneric h$ = {x : @h$\n\tg$(x)\n}\nconst f$ = {a : %s\n\th$(a)\n}\n' % (tr, tx(t)), False, 'trait %s missing from a parameter passed on, at %s' % (tr, tx(t))))
            for t2 in BUILTIN:
                ok = has(t) and (t2 == tr)
                if t2 != tr or t == 'int':
                    r.append(Acc('generic g$ = {x : @g$ :: %s @g$\n}\ngeneric h$ = {x : @h$ :: %s @h$\n\tg$(x)\n}\n' % (tr, t2), t2 == tr, 'a parameter with %s where %s is needed' % (t2, tr))) if t == 'int' else None
    some = TYPES[::3]
    for have in product((0, 1), repeat=3):
        ts = [t for t, h in zip(('int', P('byte'), 'st'), have) if h]
        imps = ''.join('impl tr$ %s =\n\tm$ = {x\n\t}\n;;\n' % tx(t) for t in ts)
        for t in TYPES:
            r.append(Acc('trait tr$ @t =\n\tm$ : (x : @t -> void)\n;;\n%sgeneric g$ = {x : @g$ :: tr$ @g$\n\tm$(x)\n}\nconst f$ = {a : %s\n\tg$(a)\n}\n' % (imps, tx(t)), t in ts, 'declared trait with impls for %s at %s' % (', '.join(map(tx, ts)), tx(t))))
            r.append(Acc('trait tr$ @t =\n\tm$ : (x : @t -> void)\n;;\n%sconst f$ = {a : %s\n\tm$(a)\n}\n' % (imps, tx(t)), t in ts, 'method with impls for %s at %s' % (', '.join(map(tx, ts)), tx(t))))
    return r


def moretraits():
    r = []
    # every set of traits a parameter can have, where every one is needed
    tr = list(BUILTIN) + ['iterable', 'tr$', 'ts$']
    dec = 'trait tr$ @t =\n\tm$ : (x : @t -> void)\n;;\ntrait ts$ @t =\n\tn$ : (x : @t -> void)\n;;\n'
    for k in range(1, 4):
        for have in combinations(tr, k):
            # what iterating needs is more than the trait
            for need in tr:
                if 'iterable' in have + (need,) and k == 3:
                    continue
                r.append(Acc('%sgeneric g$ = {x : @g$ :: %s @g$\n}\ngeneric h$ = {x : @h$ :: %s @h$\n\tg$(x)\n}\n' % (dec, need, ','.join(have)), need in have, 'a parameter with %s where %s is needed' % (', '.join(have), need)))
    for t in TYPES:
        # where the trait is not asked for, the missing method is found when the generic is used
        for i in TYPES:
            if i in ('int', P('byte'), 'st', 'nm', L('byte')):
                r.append(Acc('trait tr$ @t =\n\tm$ : (x : @t -> void)\n;;\nimpl tr$ %s =\n\tm$ = {x\n\t}\n;;\ngeneric h$ = {x : @h$\n\tm$(x)\n}\nconst f$ = {a : %s\n\th$(a)\n}\n' % (tx(i), tx(t)), t == i, 'a method for %s in a generic used with %s' % (tx(i), tx(t))))
    # the other types of a trait
    for n, m in product(range(3), repeat=2):
        names = ['@u', '@v'][:n]
        body = '\tm$ : (x : @t -> %s)\n' % (names[-1] if names else 'int')
        r.append(Acc('trait tr$ @t%s =\n%s;;\nimpl tr$ int%s =\n\tm$ = {x; -> x}\n;;\n' % (' -> ' + ', '.join(names) if n else '', body, ' -> ' + ', '.join(['int', 'int'][:m]) if m else ''), n == m, 'an impl with %d other types of a trait with %d' % (m, n)))
    for a, b in product(('int', 'byte', P('int'), 'nm'), repeat=2):
        r.append(Acc('trait tr$ @t -> @u =\n\tm$ : (x : @t -> @u)\n;;\nextern const e$ : (x : byte -> %s)\nimpl tr$ byte -> %s =\n\tm$ = {x; -> e$(x)}\n;;\n' % (tx(a), tx(b)), a == b, 'a method with %s where the other type is %s' % (tx(a), tx(b))))
        r.append(Acc('trait tr$ @t -> @u =\n\tm$ : (x : @t -> @u)\n;;\nextern const e$ : (x : byte -> %s)\nimpl tr$ byte -> %s =\n\tm$ = {x; -> e$(x)}\n;;\nconst f$ = {a : %s\n\ta = m$((1 : byte))\n}\n' % (tx(a), tx(a), tx(b)), a == b, 'a method of the other type %s for %s' % (tx(a), tx(b))))
    return r


def anon():
    """structs and unions without a name are the same if they have the same members in the same order"""
    def st(*m):
        return 'struct\n' + ''.join('\t\t%s : %s\n' % x for x in m) + '\t;;'

    def un(*m):
        return 'union\n' + ''.join('\t\t`%s %s\n' % x for x in m) + '\t;;'
    ts = [st(('a', 'int')), st(('a', 'byte')), st(('c', 'int')), st(('a', 'int'), ('c', 'byte')), st(('c', 'byte'), ('a', 'int')), st(('a', 'byte'), ('c', 'int')), st(('a', 'int'), ('c', 'int')), st(('c', 'int'), ('a', 'int')), st(('a', 'int'), ('c', 'byte'), ('d', 'int')), st(('a', 'int'), ('d', 'int'), ('c', 'byte')),
          un(('X', 'int')), un(('X', 'byte')), un(('X', '')), un(('Y', 'int')), un(('X', 'int'), ('Y', '')), un(('X', ''), ('Y', 'int')), un(('Y', ''), ('X', 'int')), un(('X', 'int'), ('Y', 'byte')), un(('X', 'int'), ('Y', 'int')), un(('X', ''), ('Y', '')), un(('X', ''), ('Y', ''), ('Z', '')), 'int', '(int, byte)']
    return [a for a in flows(ts, False) if not ('type ' in a.src and 'union' in a.src)]       # constructors belong to the file


# ---------------------------------------------------------------- constraints on types not known yet
CONS = [('V + V', num), ('-V', num), ('V & V', integral), ('V % 3', integral), ('V * 1.5', lambda t: kind(t) == 'flt'), ('V[0]', lambda t: kind(t) in (':', '[]')), ('V[:1]', lambda t: kind(t) in (':', '[]', '#')), ('!V', lambda t: t == 'bool'), ('V# + 1', lambda t: kind(t) == '#' and t != 'np' and integral(t[1])),
        ('V(1)', lambda t: t in (F('int', 'int'), F('byte', 'int'))), ('V.a + 1', lambda t: t in ('st', 'st2', P('st'))), ('V.len + 1', lambda t: kind(t) in (':', '[]')), ('V.0 + 1', lambda t: kind(t) == 't'), ('hm(V)', lambda t: t in ('int', P('byte'), 'st')), ('hn(V)', num), ('hi(V)', integral), ('hs(V)', lambda t: kind(t) in (':', '[]')), ('hb(V)', lambda t: t in ('int', P('byte'), 'st')), ('(V : int)', lambda t: kind(t) in ('int', 'flt'))]
CONPRE = '''trait htr @t =
	hm : (x : @t -> int)
;;
impl htr int =
	hm = {x; -> 1}
;;
impl htr byte# =
	hm = {x; -> 1}
;;
impl htr st =
	hm = {x; -> 1}
;;
generic hn = {x : @x :: numeric @x; -> x}
generic hi = {x : @x :: numeric,integral @x; -> x}
generic hs = {x : @x :: indexable @x; -> x}
generic hb = {x : @x :: htr @x; -> x}
'''
LINKS = [('V', '%s%s'), ('w', 'w = v\n%s%s'), ('w', '%sw = v\n%s'), ('w', '%s%sw = v\n'), ('w.1', 'var w = (1, v)\n%s%s')]


def consitems(thorough):
    r = []
    types = [t for t in QUICK if t not in ('nl', 'bool') or t == 'bool']
    # members, calls and dereferences need to know the type: they are checked when it is, and can't tell anything before
    for t in types:
        for (o1, k1), (o2, k2) in product(CONS, repeat=2):
            if '(V : int)' in (o1, o2) and kind(t) in ('bool', '#', ':', 'f'):
                continue
            if t == 'nl':
                continue
            # a named type is taken where its base type implements the trait, as long as nothing of the impl is used;
            # what a pointer points to has to be known before the impl is looked for
            if 'hb(V)' in (o1, o2) and (t == 'nm' or t == P('byte') and 'V# + 1' in (o1, o2)):
                continue
            ok = bool(k1(t) and k2(t))
            for l, (v2, fmt) in enumerate(LINKS if thorough or o1 < o2 else LINKS[:1]):
                b = fmt % ('var r1 = %s\n' % o1.replace('V', 'v'), 'var r2 = %s\n' % o2.replace('V', 'v' if v2 == 'V' else v2))
                decl = 'w' if v2 == 'w' else ''
                r.append(Acc('const f$ = {a : %s\n\tvar c = {v%s -> void\n\t\t%s\n\t}\n\tc(a%s)\n}\n' % (tx(t), ', ' + decl if decl else '', b.replace('\n', '\n\t\t'), ', a' if decl else ''), ok, '%s and %s (%d) on what turns out to be a %s' % (o1, o2, l, tx(t))))
    return r


# ---------------------------------------------------------------- rules
RULES = '''
+ call: const g$ = {x : int, y : byte -> int; -> x} ## const f$ = {; -> g$(1, 2)}
- call: const g$ = {x : int, y : byte -> int; -> x} ## const f$ = {; -> g$(1)}
- call: const g$ = {x : int, y : byte -> int; -> x} ## const f$ = {; -> g$(1, 2, 3)}
- call: const g$ = {x : int, y : byte -> int; -> x} ## const f$ = {; -> g$()}
- call: const g$ = {-> int; -> 1} ## const f$ = {; -> g$(1)}
- call: generic g$ = {x : @g -> int; -> 1} ## const f$ = {; -> g$(1, 2)}
- call: generic g$ = {x : @g -> int; -> 1} ## const f$ = {; -> g$()}
+ named function type: type fn$ = (x : int, y : byte -> int) ## const f$ = {g : fn$ -> int; -> g(1, 2)}
- named function type: type fn$ = (x : int, y : byte -> int) ## const f$ = {g : fn$ -> int; -> g(1)}
- named function type: type fn$ = (x : int, y : byte -> int) ## const f$ = {g : fn$ -> int; -> g()}
- named function type: type fn$ = (x : int, y : byte -> int) ## const f$ = {g : fn$ -> int; -> g(1, 2, 3)}
- named function type: type fn$ = (x : int, y : byte -> int) ## const f$ = {g : fn$ -> int; -> g(1, "s")}
- named function type: type fn$ = (x : int, y : byte -> int) ## const f$ = {g : fn$ -> byte; -> g(1, 2)}
- named function type: type fn$ = (x : int, y : byte -> int) ## const f$ = {g : fn$ -> fn$; -> g()}
+ named function type: type fn$ = (-> int) ## type fm$ = fn$ ## const f$ = {g : fm$ -> int; -> g()}
- named function type: type fn$ = (-> int) ## type fm$ = fn$ ## const f$ = {g : fm$ -> fn$; -> g}
+ named function type: type fn$(@a) = (x : @a -> @a) ## const f$ = {g : fn$(byte) -> byte; -> g(1)}
- named function type: type fn$(@a) = (x : @a -> @a) ## const f$ = {g : fn$(byte) -> int; -> g(1)}
- named function type: type fn$(@a) = (x : @a -> @a) ## const f$ = {g : fn$(byte) -> byte; -> g("s")}
+ variadic: extern const g$ : (x : int, a : ... -> void) ## const f$ = {; g$(1, 2, "a", (1, 2))}
+ variadic: extern const g$ : (x : int, a : ... -> void) ## const f$ = {; g$(1)}
- variadic: extern const g$ : (x : int, a : ... -> void) ## const f$ = {; g$()}
- variadic: extern const g$ : (x : int, a : ... -> void) ## const f$ = {; g$("a", 2)}
+ void return: const f$ = {x : int -> void; if x == 1; -> void~;; }
- no such variable: const f$ = {; -> x$}
- no such variable: const f$ = {; x$ = 1}
- no such function: const f$ = {; g$()}
- no such type: const f$ = {x : t$; }
- no such type: type s$ = struct~x : t$~;;
- no such type: type s$ = union~`X$ t$~;;
- no such trait: generic f$ = {x : @a :: tr$ @a; }
- no such trait: impl tr$ int =~m$ = {x; }~;;
- no such constructor: const f$ = {; var x = `Z$ 1}
- no such namespace: const f$ = {; zz$.f()}
- no such label: const f$ = {; goto z$}
+ label: const f$ = {x : int~goto z$~:z$~x = 1~}
- two of the same: const f$ = {; -> 1} ## const f$ = {; -> 2}
- two of the same: var f$ : int = 1 ## const f$ = {; -> 2}
- two of the same: const f$ = {~var x : int~var x : int~}
- two of the same: type t$ = int ## type t$ = int
- two of the same: trait t$ @a =~m$ : (x : @a -> void)~;; ## trait t$ @a =~n$ : (x : @a -> void)~;;
- two of the same: trait t$ @a =~m$ : (x : @a -> void)~;; ## impl t$ int =~m$ = {x; }~;; ## impl t$ int =~m$ = {x; }~;;
- two of the same: type s$ = struct~x : int~x : byte~;;
- missing method: trait t$ @a =~m$ : (x : @a -> void)~n$ : (x : @a -> void)~;; ## impl t$ int =~m$ = {x; }~;;
- unknown method: trait t$ @a =~m$ : (x : @a -> void)~;; ## impl t$ int =~m$ = {x; }~n$ = {x; }~;;
- assigned constant: const c$ = 1 ## const f$ = {; c$ = 2}
- assigned constant: const f$ = {x : int~const c = 1~c = x~}
- assigned function: const g$ = {; } ## const f$ = {; g$ = {; }}
+ assigned variable: var c$ = 1 ## const f$ = {; c$ = 2}
- not constant: var c$ = 1 ## const d$ : int = c$
- not constant: const g$ = {-> int; -> 1} ## const d$ : int = g$()
+ constant: const c$ = 1 ## const d$ = c$ + 1
+ constant: const c$ = 1 ## var d$ : int[c$ + 1]
- array length: var c$ = 1 ## var d$ : int[c$]
- array length: const f$ = {n : int~var d : int[n]~}
- not an lvalue: const f$ = {x : int; x + 1 = 2}
- not an lvalue: const f$ = {x : int; 1 = x}
- not an lvalue: const g$ = {-> int; -> 1} ## const f$ = {; g$() = 2}
- not an lvalue: const f$ = {x : int; -x = 2}
- not an lvalue: const f$ = {x : int; var p = &(x + 1)}
- not an lvalue: const f$ = {x : int; var p = &1}
- not an lvalue: const f$ = {x : int; 1 += x}
- not an lvalue: const f$ = {x : int; (x + 1)++}
- not an lvalue: const f$ = {x : int; (x : byte) = 1}
+ lvalue: const f$ = {x : int#; x# = 2}
+ lvalue: const f$ = {x : int[:]; x[1] = 2}
+ lvalue: const f$ = {x : int[:]; x[1]++}
+ lvalue: const f$ = {x : st#; x.a += 2}
+ lvalue: const g$ = {-> int[:]; -> [][:]} ## const f$ = {; g$()[0] = 2}
- break: const f$ = {; break}
- continue: const f$ = {; continue}
+ break: const f$ = {; while true~break~;;~}
+ continue: const f$ = {; while true~continue~;;~}
- break in a closure: const f$ = {; while true~var g = {; break}~;;~}
+ type parameters: type t$(@x) = struct~v : @x~;; ## const f$ = {x : t$(int); }
- type parameters: type t$(@x) = struct~v : @x~;; ## const f$ = {x : t$(int, int); }
- type parameters: type t$(@x) = struct~v : @x~;; ## const f$ = {x : t$; }
- type parameters: type t$ = struct~v : int~;; ## const f$ = {x : t$(int); }
- parameters in no generic: const f$ = {x : @a; }
- parameters in no generic: var f$ : @a
- parameters in no generic: const f$ = {~var x : @a~}
- type of itself: type t$ = t$
- type of itself: type t$ = struct~v : t$~;;
- type of itself: type t$ = struct~v : t$[2]~;;
- type of itself: type t$ = struct~v : (int, t$)~;;
- type of itself: type t$ = union~`Q$ t$~;;
- type of itself: type t$ = struct~v : u$~;; ## type u$ = struct~v : t$~;;
+ type of pointers to itself: type t$ = struct~v : t$#~;;
+ type of slices of itself: type t$ = struct~v : t$[:]~;;
+ union of pointers to itself: type t$ = union~`Q$ t$#~`R$~;;
- infinite type: const f$ = {~var x~x = (x, 1)~}
- infinite type: const f$ = {~var c = {x; x = [x][:]}~}
- infinite type: generic f$ = {x : @a~var c = {y; y(y)}~}
- unknown type: const f$ = {~var x~}
- unknown type: const f$ = {~var x = [][:]~}
+ known type: const f$ = {~var x : int[:] = [][:]~}
- match of another type: const f$ = {x : int~match x~| "a":    x = 1~| _:    x = 2~~;;~}
- match of another type: const f$ = {x : un~match x~| `C y:    y = 1~| _:    ~~;;~}
- match of another type: const f$ = {x : un~match x~| `A:    ~| _:    ~~;;~}
- match of another type: const f$ = {x : un~match x~| `B y:    ~| _:    ~~;;~}
- match of another type: const f$ = {x : (int, int)~match x~| (y, z, w):    ~| _:    ~~;;~}
- match of another type: const f$ = {x : int[3]~match x~| [y, z]:    ~| _:    ~~;;~}
- match of another type: const f$ = {x : st~match x~| [.zz=1]:    ~| _:    ~~;;~}
- match of another type: const f$ = {x : int~match x~| &y:    ~| _:    ~~;;~}
+ match: const f$ = {x : un~match x~| `A y:    y = 1~| `B:    ~~;;~}
- payload: const f$ = {; var x : un = `A}
- payload: const f$ = {; var x : un = `B 1}
- payload: const f$ = {; var x : un = `A (1, 2)}
- length of a literal: const f$ = {; var x : int[3] = [1, 2]}
- length of a literal: const f$ = {; var x : int[3] = [1, 2, 3, 4]}
- length of a literal: const f$ = {; var x : (int, int) = (1, 2, 3)}
- return type: const f$ = {-> int; }
- two return types: const f$ = {x : int~if x == 1~    -> 2~~;;~-> "a"~}
- literal out of range: const f$ = {; var x : byte = 256}
- literal out of range: const f$ = {; var x : int8 = 129}
- literal out of range: const f$ = {; var x : uint16 = 65536}
- literal out of range: const f$ = {; var x : int16 = 32769}
- literal out of range: const f$ = {; var x : uint32 = 0x100000000}
+ literal in range: const f$ = {; var x : byte = 255}
+ literal in range: const f$ = {; var x : int8 = -128}
- main: const main = {x : int; }
- main: const main = {-> int; -> 1}
- main: const main = 1
- init: const __init__ = {x : int; }
- fini: const __fini__ = {-> int; -> 1}
- iteration: const f$ = {x : ng(int)~for y : x~~;;~}
+ iteration: const f$ = {x : int[:]~for y : x~~;;~}
- iteration: const f$ = {x : int[:]~for (y, z) : x~~;;~}
- impl of a type that has none: const f$ = {; -> impl(zz$, int)}
- not a method: const g$ = 1 ## const f$ = {; -> impl(g$, int)}
- auto: const f$ = {x : int~var y = auto x~}
- generic as a variable: var f$ : (x : @a -> @a)
- mixed constraints: generic g$ = {x : @a :: numeric @a; -> x & x}
- mixed constraints: generic g$ = {x : @a :: integral @a; -> x[0]}
+ constraints: generic g$ = {x : @a :: numeric,integral @a; -> x & x}
- two parameters: generic g$ = {x : @a, y : @b -> @a; -> y}
- two parameters: generic g$ = {x : @a, y : @b :: numeric @a, numeric @b; -> x + y}
- two parameters: generic g$ = {x : @a -> int; -> x}
- two parameters: generic g$ = {x : @a -> @a; -> 1}
- impl of another type: trait t$ @a =~m$ : (x : @a -> int)~;; ## impl t$ byte =~m$ = {x : int -> int; -> 1}~;;
- impl of another type: trait t$ @a =~m$ : (x : @a -> int)~;; ## impl t$ byte =~m$ = {x, y; -> 1}~;;
- impl of another type: trait t$ @a =~m$ : (x : @a -> int)~;; ## impl t$ byte =~m$ = 1~;;
- impl of another type: trait t$ @a =~m$ : int~;; ## impl t$ byte =~m$ = "a"~;;
+ impl of another type: trait t$ @a =~m$ : int~;; ## impl t$ byte =~m$ = 1~;;
'''


def rules():
    r = []
    for l in RULES.strip().split('\n'):
        how, _, rest = l.partition(' ')
        desc, _, src = rest.partition(': ')
        src = src.replace(' ## ', '\n').replace('~', '\n') + '\n'
        r.append(Acc(src, how == '+', '%s: %s' % (desc, ' '.join(src.split()))))
    # what can be assigned to, in every way of assigning, inside and outside of generics
    decl = 'type ss$ = struct\n\ta : int\n;;\nconst gc$ = 1\nvar gv$ = 1\nconst gs$ : ss$ = [.a=1]\nvar gw$ : st\nvar gb$ : byte\nconst ga$ : int[2] = [1, 2]\nvar gx$ : int[2]\nconst gt$ = (1, 2)\n'
    loc = 'const lc = 1, ls : ss$ = [.a=1]\n\tvar lv = 1, lw : st = [.a=1, .b=&gb$], la : int[2] = [1, 2], lp = &lv\n'
    for gen in (False, True):
        f = 'generic f$ = {mcva : @a, pa : int, pp : int#, ps : int[:], pw : st#\n\t' if gen else 'const f$ = {pa : int, pp : int#, ps : int[:], pw : st#\n\t'
        for a in ('= 2', '+= 2', '-= 2', '*= 2', '/= 2', '%= 2', '&= 2', '|= 2', '^= 2', '<<= 2', '>>= 2', '++', '--'):
            for t in ('gv$', 'gw$.a', 'gx$[1]', 'lv', 'lw.a', 'la[1]', 'lp#', 'pa', 'pp#', 'ps[0]', 'pw.a', 'pw#.a', '(&lv)#', 'ps[1:][0]'):
                r.append(Acc(decl + f + loc + '\t%s %s\n}\n' % (t, a), True, '%s %s%s' % (t, a, ' in a generic' if gen else '')))
            for t in ('gc$', 'gs$.a', 'ga$[1]', 'gt$.0', 'lc', '1', '(2 * 3)', 'f$', 'sizeof(int)') + (() if gen else ('(pa + 1)', '(-pa)', '(pa : int64)')):
                r.append(Acc(decl + f + loc + '\t%s %s\n}\n' % (t, a), False, '%s %s%s' % (t, a, ' in a generic' if gen else '')))
    return r


def body(c):
    tree = Tree('c')
    tot = [0, 0]
    only = os.environ.get('MCV_ONLY')
    for name, items in (('flows', flows(TYPES if c.thorough else QUICK, False)), ('flows in generics', flows(GENT, True)), ('operators', opitems()), ('casts', castitems()), ('literals', lititems()), ('paths', paths(4 if c.thorough else 3)), ('traits', traititems()), ('constraints', consitems(c.thorough)), ('rules', rules()), ('more of traits', moretraits()), ('types without names', anon())):
        if only and only != name:
            continue
        st = run_acc(c, tree, items, PRE + CONPRE if name == 'constraints' else PRE)
        tot = [tot[0] + st['programs'], tot[1] + st['runs']]
    c.add(executions=tot[1], transitions=tot[0])


if __name__ == '__main__':
    main(body, 'C07')
