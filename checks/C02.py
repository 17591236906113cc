#!/usr/bin/env python3
"""C02: floating-point expressions follow IEEE 754."""
import os, sys, struct, math, types, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *
from mcv.comp import *

M = (1 << 64) - 1
NAN = {'flt64': 0x7ff8000000000000, 'flt32': 0x7fc00000}
INF = {'flt64': 0x7ff << 52, 'flt32': 0xff << 23}
SGN = {'flt64': 1 << 63, 'flt32': 1 << 31}


def dec(b, t):
    return struct.unpack('<d', struct.pack('<Q', b))[0] if t == 'flt64' else struct.unpack('<f', struct.pack('<I', b))[0]


def enc(x, t):
    """bits of the double x rounded to t; every NaN is the same"""
    if x != x:
        return NAN[t]
    if t == 'flt64':
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return INF[t] | (SGN[t] if x < 0 else 0)


def isnan(b, t):
    return b & ~SGN[t] > INF[t]


def arith(op, a, b, t):
    """IEEE result of a op b on bit patterns (double arithmetic is wide enough to round once more to flt32)"""
    x, y = dec(a, t), dec(b, t)
    if x != x or y != y:
        return NAN[t]
    if op == '+':
        r = x + y
    elif op == '-':
        r = x - y
    elif op == '*':
        r = x * y
    elif y == 0:
        r = math.nan if x == 0 else math.copysign(math.inf, x) * math.copysign(1, y)
    elif math.isinf(x) and math.isinf(y):
        r = math.nan
    else:
        r = x / y
    return enc(r, t)


CMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}
EQ, ORD = ['==', '!='], ['<', '<=', '>', '>=']


def cmp(op, a, b, t):
    return int(CMP[op](dec(a, t), dec(b, t)))


def values(t, full=True):
    m = 52 if t == 'flt64' else 23
    bias = 1023 if t == 'flt64' else 127
    one = bias << m
    p = lambda e: (bias + e) << m
    v = [0, one, one + 1, one - 1, p(1), p(-1), INF[t], NAN[t], p(1) + (1 << m - 1), 1, p(0) + (1 << m - 1)]
    if full:
        v += [(1 << m) - 1, 1 << m, INF[t] - 1, p(m), p(m) - 1, p(m + 1), p(m + 1) + 1, p(31), p(63), p(31) - 1, p(62) + 1, enc(0.1, t), enc(3.14159, t), enc(1e30, t), enc(1e-30, t), 3 << m - 1, NAN[t] + 5, p(m - 1) + 1, p(7), p(8) - (1 << m - 8)]
    return [x for b in v for x in (b, b | SGN[t])]


PRELUDE = '''const b32 = {v : flt32
	var p, u
	p = (&v : uint32#)
	u = p#
	if u & 0x7fffffff > 0x7f800000
		out(0x7fc00000)
	else
		out((u : uint64))
	;;
}
const b64 = {v : flt64
	var p, u
	p = (&v : uint64#)
	u = p#
	if u & 0x7fffffffffffffff > 0x7ff0000000000000
		out(0x7ff8000000000000)
	else
		out(u)
	;;
}
const r32 = {v : flt32
	var p
	p = (&v : uint32#)
	out((p# : uint64))
}
const r64 = {v : flt64
	var p
	p = (&v : uint64#)
	out(p#)
}
const a32 = {i
	var u : uint32 = (arg(i) : uint32)
	var p = (&u : flt32#)
	-> p#
}
const a64 = {i
	var u : uint64 = arg(i)
	var p = (&u : flt64#)
	-> p#
}
const id32 = {v : flt32
	-> v
}
const id64 = {v : flt64
	-> v
}
type st32 = struct
	p : byte
	a : flt32
	b : flt32
;;
type st64 = struct
	p : byte
	a : flt64
	b : flt64
;;
const ob = {v : bool
	if v
		out(1)
	else
		out(0)
	;;
}
'''
W = {'flt32': '32', 'flt64': '64'}
# operand kinds: declarations and the expression (N is the operand's name, T its type, W its width, X the argument number)
KINDS = {
    'local': ('var N : T = aW(X)', 'N'),
    'global': ('gN$ = aW(X)', 'gN$'),
    'pointer': ('var N : T = aW(X), pN = &N', 'pN#'),
    'element': ('var N : T[3] = [1.0, aW(X), 2.0], iN = 1', 'N[iN]'),
    'member': ('var N : stW\nN.b = aW(X)', 'N.b'),
    'call': ('', 'idW(aW(X))'),
    'parenthesised sum': ('var N : T = aW(X), zN : T = -0.0', '(N + zN)'),
    'slice element': ('var N : T[3] = [1.0, 2.0, aW(X)], sN = N[1:]', 'sN[1]'),
    'global element': ('hN$[1] = aW(X)', 'hN$[1]'),
    'tuple': ('var N = (3, aW(X))', 'N.1'),
}


def kind(k, n, t, x):
    d, e = KINDS[k]
    r = lambda s: s.replace('N', n).replace('T', t).replace('W', W[t]).replace('X', str(x))
    g = ''
    if 'gN' in e:
        g = 'var g%s$ : %s\n' % (n, t)
    if 'hN' in e:
        g = 'var h%s$ : %s[2]\n' % (n, t)
    return g, r(d), r(e)


def item(g, lines, want, desc, args):
    body = '\n\t'.join(l.replace('\n', '\n\t') for l in lines if l)
    return Item('%sconst t$ = {\n\t%s\n}\n' % (g, body), want, desc, args=args)


def seq(args, f):
    """expected outputs: f(*args) per run, then the status (worked out later, with f's variables as they are now)"""
    if f.__closure__:
        f = types.FunctionType(f.__code__, f.__globals__, 'f', f.__defaults__, tuple(types.CellType(x.cell_contents) for x in f.__closure__))

    def w():
        r = []
        for a in args:
            r += f(*a)
            r.append(ST())
        return r
    return w


def flit(b, t):
    """a literal for a finite bit pattern"""
    x = dec(b, t)
    s = repr(abs(x))
    if 'e' in s:
        m, e = s.split('e')
        s = '%s%se%d' % (m, '' if '.' in m else '.0', int(e))
    return ('-' if b & SGN[t] else '') + s


def arith_items(thorough):
    for t in ('flt64', 'flt32'):
        V = values(t)
        pairs = list(itertools.product(V, V))
        few = list(itertools.product(values(t, False), repeat=2))
        o = 'b%s' % W[t]
        for k1 in KINDS:
            for k2 in KINDS:
                main = k1 == k2 == 'local' or (k1 == 'local') != (k2 == 'local') and thorough
                args = pairs if main or thorough else few
                g1, d1, e1 = kind(k1, 'x', t, 0)
                g2, d2, e2 = kind(k2, 'y', t, 1)
                lines = [d1, d2] + ['%s(%s %s %s)' % (o, e1, op, e2) for op in '+-*/']
                yield item(g1 + g2, lines, seq(args, lambda a, b: [arith(op, a, b, t) for op in '+-*/']), '%s %s with %s' % (t, k1, k2), args)
                if k1 not in ('call', 'parenthesised sum'):
                    lines = [d1, d2]
                    for op in '+-*/':
                        lines += ['%s = a%s(0)' % (e1, W[t]), '%s %s= %s' % (e1, op, e2), '%s(%s)' % (o, e1)]
                    yield item(g1 + g2, lines, seq(args, lambda a, b: [arith(op, a, b, t) for op in '+-*/']), '%s %s op= %s' % (t, k1, k2), args)
            # negation, copies
            g1, d1, e1 = kind(k1, 'x', t, 0)
            one = [(a,) for a in V]
            lines = [d1, 'var n = -%s' % e1, '%s(n)' % o, '%s(-(-%s))' % (o, e1), 'var c = %s' % e1, 'r%s(c)' % W[t], 'var s : st%s' % W[t], 's.b = %s' % e1, 'r%s(s.b)' % W[t], 'var w = [%s, %s]' % (e1, e1), 'r%s(w[1])' % W[t]]
            if k1 == 'parenthesised sum':
                lines = lines[:4]
            yield item(g1, lines, seq(one, lambda a: [enc(-dec(a, t), t), enc(dec(a, t), t)] + ([a] * 3 if k1 != 'parenthesised sum' else [])), '%s %s negated and copied' % (t, k1), one)
        # literals on either side, folded or not
        for b in V:
            if isnan(b, t) or b & ~SGN[t] == INF[t]:
                continue
            l = flit(b, t)
            one = [(a,) for a in V]
            lines = ['var x : %s = a%s(0)' % (t, W[t])] + ['%s(x %s (%s))' % (o, op, l) for op in '+-*/'] + ['%s((%s) %s x)' % (o, l, op) for op in '+-*/'] + ['var n : %s = %s' % (t, l), 'r%s(n)' % W[t], 'n = -(%s)' % l, 'r%s(n)' % W[t], 'r%s(gl$)' % W[t]]
            lines += ['ob(x %s (%s))' % (op, l) for op in ORD]
            yield item('var gl$ : %s = %s\n' % (t, l), lines, seq(one, lambda a, b=b: [arith(op, a, b, t) for op in '+-*/'] + [arith(op, b, a, t) for op in '+-*/'] + [b, b ^ SGN[t], b] + [cmp(op, a, b, t) for op in ORD]), '%s literal %s' % (t, l), one)
            one = [(a,) for a in V if not isnan(a, t)]
            yield item('', lines[:1] + ['ob(x %s (%s))' % (op, l) for op in EQ], seq(one, lambda a, b=b: [cmp(op, a, b, t) for op in EQ]), '%s equal to literal %s' % (t, l), one)
            # two literals
            F = [b2 for b2 in V if not isnan(b2, t) and b2 & ~SGN[t] != INF[t]]
            yield item('', ['%s((%s : %s) %s %s)' % (o, '(%s)' % l, t, op, '(%s)' % flit(b2, t)) for b2 in F for op in '+-*/'], seq([(0,)], lambda a, b=b: [arith(op, b, b2, t) for b2 in F for op in '+-*/']), '%s literal %s with literals' % (t, l), [(0,)])


CTX = {
    'value': 'ob(@)', 'variable': 'var c = @\nob(c)', 'if': 'if @\n\tout(1)\nelse\n\tout(0)\n;;', 'negated': 'ob(!(@))\n', 'if not': 'if !(@)\n\tout(1)\nelse\n\tout(0)\n;;', 'while': 'var k = 0\nwhile @\n\tk++\n\tbreak\n;;\nout(k)',
    'and': 'ob(yes(1) && @)', 'or': 'ob(@ || yes(0))', 'if and': 'if @ && yes(1)\n\tout(1)\nelse\n\tout(0)\n;;', 'compared': 'ob((@) == true)', 'match': 'match @\n| true:\tout(1)\n| false:\tout(0)\n;;', 'member': 'var s : cs$\ns.c = @\nob(s.c)', 'argument': 'ob(idb(@))', 'for': 'for var k = 0; @; k++\n\tout(1)\n\tbreak\n;;\nout(7)',
    'not not': 'ob(!!(@))', 'elif': 'if yes(0)\n\tout(5)\nelif @\n\tout(1)\nelse\n\tout(0)\n;;', 'cast': 'out((@ : uint64))'}


def ctxout(c, r):
    if c in ('negated', 'if not'):
        return [1 - r]
    if c == 'for':
        return [1, 7] if r else [7]
    return [r]


CPRE2 = '''const yes = {i : byte
	-> i == 1
}
const idb = {b : bool
	-> b
}
'''


def ordered(l, t):
    """(pairs, operators): == and != of a NaN are left to nan_items"""
    return (([p for p in l if not any(isnan(x, t) for x in p)], CMP), ([p for p in l if any(isnan(x, t) for x in p)], ORD))


def cmp_items(thorough):
    for t in ('flt64', 'flt32'):
        V = values(t)
        pairs = list(itertools.product(V, V))
        few = list(itertools.product(values(t, False), repeat=2))
        for cn, cx in CTX.items():
            for args, ops in ordered(pairs, t):
                g = 'type cs$ = struct\n\tc : bool\n;;\n' if 'cs$' in cx else ''
                lines = ['var x : %s = a%s(0), y : %s = a%s(1)' % (t, W[t], t, W[t])]
                fns = ''
                for i, op in enumerate(ops):
                    fns += 'const f%d$ = {x : %s, y : %s\n\t%s\n}\n' % (i, t, t, cx.replace('@', 'x %s y' % op).replace('\n', '\n\t'))
                    lines.append('f%d$(x, y)' % i)
                yield item(g + fns, lines, seq(args, lambda a, b: [o for op in ops for o in ctxout(cn, cmp(op, a, b, t))]), '%s comparisons as %s' % (t, cn), args)
        for k1 in KINDS:
            for k2 in KINDS:
                for args, ops in ordered(pairs if thorough else few, t):
                    g1, d1, e1 = kind(k1, 'x', t, 0)
                    g2, d2, e2 = kind(k2, 'y', t, 1)
                    lines = [d1, d2] + ['ob(%s %s %s)' % (e1, op, e2) for op in ops] + ['if %s %s %s\n\tout(1)\nelse\n\tout(0)\n;;' % (e1, op, e2) for op in ops]
                    yield item(g1 + g2, lines, seq(args, lambda a, b: [cmp(op, a, b, t) for op in ops] * 2), '%s %s compared with %s' % (t, k1, k2), args)


def nan_items(thorough):
    """== and != of a NaN: a known finding (the repository's own tests need it)"""
    for t in ('flt64', 'flt32'):
        V = values(t)
        for op in EQ:
            for cx in ('ob(x %s y)', 'if x %s y\n\tout(1)\nelse\n\tout(0)\n;;'):
                args = [p for p in itertools.product(V, V) if any(isnan(x, t) for x in p)]
                i = item('', ['var x : %s = a%s(0), y : %s = a%s(1)' % (t, W[t], t, W[t]), cx % op], seq(args, lambda a, b: [cmp(op, a, b, t)]), '%s: NaN %s' % (t, op), args)
                i.key = ('nan-equality', seq(args, lambda a, b: [1 - cmp(op, a, b, t)]))
                yield i


INTS = {'int8': (8, 1), 'int16': (16, 1), 'int32': (32, 1), 'int': (32, 1), 'int64': (64, 1), 'byte': (8, 0), 'uint8': (8, 0), 'uint16': (16, 0), 'uint32': (32, 0), 'uint': (32, 0), 'uint64': (64, 0), 'char': (32, 0)}


def i2f(v, t):
    """nearest t to the integer v, ties to even"""
    if v == 0:
        return 0
    n = 53 if t == 'flt64' else 24
    s, a = (SGN[t] if v < 0 else 0), abs(v)
    e = a.bit_length() - n
    if e > 0:
        q, r = a >> e, a & (1 << e) - 1
        h = 1 << e - 1
        if r > h or (r == h and q & 1):
            q += 1
        a = q << e
    return s | enc(float(a), t)


def intvals(b, s):
    v = set()
    for k in range(0, b + 1):
        for d in (-2, -1, 0, 1, 2, 3):
            v.add((1 << k) + d)
            v.add(-(1 << k) + d)
    for k in (24, 53):
        for e in range(0, b - k):
            for d in (-1, 0, 1):
                v.add((((1 << k) + 1) << e) + (1 << e >> 1) + d)
                v.add((((1 << k) + 2) << e) + (1 << e >> 1) + d)
    lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if s else (0, (1 << b) - 1)
    return sorted(x for x in v if lo <= x <= hi)


IK = {'local': ('var x : T = (arg(0) : T)', 'x'), 'global': ('gx$ = (arg(0) : T)', 'gx$'), 'pointer': ('var x : T = (arg(0) : T), p = &x', 'p#'), 'element': ('var x : T[3] = [1, (arg(0) : T), 2], i = 1', 'x[i]'), 'member': ('var x : is$\nx.b = (arg(0) : T)', 'x.b'), 'call': ('', 'ii$((arg(0) : T))'),
      'sum': ('var x : T = (arg(0) : T), z : T = 0', '(x + z)')}
CK = {'value': '', 'variable': ''}


def conv_items(thorough):
    for it, (b, s) in INTS.items():
        iv = intvals(b, s)
        one = [(v & M,) for v in iv]
        for kn, (d, e) in IK.items():
            if it == 'char' and kn in ('sum', 'element'):
                continue
            g = {'global': 'var gx$ : T\n', 'member': 'type is$ = struct\n\ta : byte\n\tb : T\n;;\n', 'call': 'const ii$ = {v : T\n\t-> v\n}\n'}.get(kn, '')
            r = lambda x: x.replace('T', it)
            lines = [r(d), 'b64((%s : flt64))' % r(e), 'b32((%s : flt32))' % r(e), 'var u : flt32 = (%s : flt32)' % r(e), 'var w : flt64 = (%s : flt64)' % r(e), 'b32(u)', 'b64(w)', 'b64((%s : flt64) + 1.0)' % r(e), 'b64((%s : flt64) * (%s : flt64))' % (r(e), r(e))]
            if s:
                sx = lambda v: v - (1 << 64) if v >> 63 else v
            else:
                sx = lambda v: v
            yield item(r(g), lines, seq(one, lambda v, sx=sx: [i2f(sx(v), 'flt64'), i2f(sx(v), 'flt32'), i2f(sx(v), 'flt32'), i2f(sx(v), 'flt64'), arith('+', i2f(sx(v), 'flt64'), enc(1.0, 'flt64'), 'flt64'), arith('*', i2f(sx(v), 'flt64'), i2f(sx(v), 'flt64'), 'flt64')]),
                       '%s (%s) to float' % (it, kn), one)
        # float to integer, truncated, in range
        for t in ('flt64', 'flt32'):
            lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if s else (0, (1 << b) - 1)
            cand = set(values(t)) | {i2f(v, t) for v in iv}
            for k in list(cand):
                cand |= {k + 1, k - 1} if k & ~SGN[t] else {k}
            for h in range(-9, 10):
                cand |= {enc(h / 2.0, t), enc(h / 4.0 + 100, t), enc(-h / 4.0 - 100, t)}
            fv = []
            for k in sorted(cand):
                if isnan(k, t) or k & ~SGN[t] >= INF[t]:
                    continue
                x = math.trunc(dec(k, t))
                if lo <= x <= hi:
                    fv.append((k,))
            for kn in KINDS:
                if kn == 'parenthesised sum' and t == 'flt32' and False:
                    continue
                g, d, e = kind(kn, 'x', t, 0)
                lines = [d, 'out(((%s : %s) : uint64))' % (e, it), 'var k : %s = (%s : %s)' % (it, e, it), 'out((k : uint64))']
                if it != 'char':
                    lines += ['k = (%s : %s) / 2' % (e, it), 'out((k : uint64))']
                tr = lambda a, t=t: math.trunc(dec(a, t))
                yield item(g, lines, seq(fv, lambda a, tr=tr: [tr(a) & M] * 2 + ([int(math.trunc(abs(tr(a)) // 2) * (1 if tr(a) >= 0 else -1)) & M] if it != 'char' else [])), '%s (%s) to %s' % (t, kn, it), fv)
    # between the two float types
    for kn in KINDS:
        v64 = [(k,) for k in sorted(set(values('flt64')) | {i2f(v, 'flt64') for v in intvals(64, 1)} | {enc(dec(k, 'flt32'), 'flt64') + d for k in values('flt32') for d in (-1, 0, 1) if k and not isnan(k, 'flt32') and k & ~SGN['flt32']})]
        v64 += [(enc((dec(k, 'flt32') + dec(k + 1, 'flt32')) / 2, 'flt64') + d,) for k in values('flt32') if k & ~SGN['flt32'] < INF['flt32'] - 1 and k & ~SGN['flt32'] for d in (-1, 0, 1)]
        g, d, e = kind(kn, 'x', 'flt64', 0)
        yield item(g, [d, 'b32((%s : flt32))' % e, 'var k : flt32 = (%s : flt32)' % e, 'b32(k)', 'b64((%s : flt64))' % e], seq(v64, lambda a: [enc(dec(a, 'flt64'), 'flt32')] * 2 + [enc(dec(a, 'flt64'), 'flt64')]), 'flt64 (%s) to flt32' % kn, v64)
        v32 = [(k,) for k in sorted(set(values('flt32')) | {i2f(v, 'flt32') for v in intvals(64, 1)})]
        g, d, e = kind(kn, 'x', 'flt32', 0)
        yield item(g, [d, 'b64((%s : flt64))' % e, 'var k : flt64 = (%s : flt64)' % e, 'b64(k)', 'b32((%s : flt32))' % e], seq(v32, lambda a: [enc(dec(a, 'flt32'), 'flt64')] * 2 + [enc(dec(a, 'flt32'), 'flt32')]), 'flt32 (%s) to flt64' % kn, v32)


def tree_items(thorough):
    for t in ('flt64', 'flt32'):
        S = values(t, False)[:12] if not thorough else values(t, False)
        tri = list(itertools.product(S, repeat=3))
        o = 'b%s' % W[t]
        for p in '+-*/':
            lines = ['var x : %s = a%s(0), y : %s = a%s(1), z : %s = a%s(2)' % (t, W[t], t, W[t], t, W[t])]
            lines += ['%s((x %s y) %s z)' % (o, p, q) for q in '+-*/'] + ['%s(x %s (y %s z))' % (o, p, q) for q in '+-*/'] + ['%s(-(x %s y) %s -z)' % (o, p, q) for q in '+-*/']
            neg = lambda a, t=t: NAN[t] if isnan(a, t) else a ^ SGN[t]
            yield item('', lines, seq(tri, lambda a, b, c, p=p: [arith(q, arith(p, a, b, t), c, t) for q in '+-*/'] + [arith(p, a, arith(q, b, c, t), t) for q in '+-*/'] + [arith(q, neg(arith(p, a, b, t)), neg(c), t) for q in '+-*/']), '%s: three operands, %s first' % (t, p), tri)
        # through calls with many float arguments and results
        one = [(a, b) for a in values(t, False) for b in values(t, False)]
        for n in range(1, 13):
            g = 'const fn$ = {%s -> %s\n\t-> x0 - x%d\n}\n' % (', '.join('x%d : %s' % (i, t) for i in range(n)), t, n - 1)
            yield item(g, ['var a : %s = a%s(0), b : %s = a%s(1)' % (t, W[t], t, W[t]), '%s(fn$(%s))' % (o, ', '.join('ab'[i == n - 1] for i in range(n)))], seq(one, lambda a, b, n=n: [arith('-', a if n > 1 else b, b, t)]), '%s: %d arguments' % (t, n), one)
        # loops that accumulate
        yield item('', ['var a : %s = a%s(0), b : %s = a%s(1)' % (t, W[t], t, W[t]), 'for var i = 0; i < 5; i++', '\ta = a * b + b', '\t%s(a)' % o, ';;'],
                   seq(one, lambda a, b: acc(a, b, t)), '%s: a loop' % t, one)


def acc(a, b, t):
    r = []
    for i in range(5):
        a = arith('+', arith('*', a, b, t), b, t)
        r.append(a)
    return r


def body(c):
    tree = Tree('c')
    tot = n = 0
    for nm, g, k in (('arithmetic', arith_items(c.thorough), 20), ('comparisons', cmp_items(c.thorough), 10), ('NaN equality', nan_items(c.thorough), 10), ('conversions', conv_items(c.thorough), 20), ('expressions', tree_items(c.thorough), 4)):
        l = list(g)
        c.cov[nm] = len(l)
        st = run_items(c, tree, l, PRELUDE + CPRE2, per=k, timeout=200)
        tot += st['outputs']
        n += len(l)
    c.add(states=n, transitions=tot, traces_validated_against_impl=tot)
    c.cov['exhaustive'] = True
    c.sample('flt32 element compared with a pointed-to flt32, == != < <= > >= as values and as conditions, for all pairs of 22 bit patterns including both zeros, NaN and infinities')


if __name__ == '__main__':
    main(body, 'C02')
