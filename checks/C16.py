#!/usr/bin/env python3
"""C16: register pressure never changes results: register allocation, coalescing and spilling are invisible."""
import os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *
from mcv.comp import *

BITS = {'int8': (8, 1), 'int16': (16, 1), 'int32': (32, 1), 'int64': (64, 1), 'uint8': (8, 0), 'uint16': (16, 0), 'uint32': (32, 0), 'uint64': (64, 0), 'flt32': None, 'flt64': None}
INT = [t for t in BITS if t[0] in 'iu']
FLT = ['flt32', 'flt64']
M = (1 << 64) - 1
# functions nothing is known about; the mcv_clob ones change every register they may change (harness/crt.c)
PRE = '''extern const mcv_clobi : (a : uint64, b : uint64 -> uint64)
extern const mcv_clobd : (a : flt64, b : flt64 -> flt64)
extern const mcv_clobs : (a : flt32, b : flt32 -> flt32)
extern const mcv_clobv : (-> void)
var pclobi : (a : uint64, b : uint64 -> uint64)
var pclobd : (a : flt64, b : flt64 -> flt64)
var pclobs : (a : flt32, b : flt32 -> flt32)
var pclobv : (-> void)
''' + ''.join('''const i2_%(t)s = {a : %(t)s, b : %(t)s -> %(t)s
	-> a * 3%(d)s - b
}
const i8_%(t)s = {a : %(t)s, b : %(t)s, c : %(t)s, d : %(t)s, e : %(t)s, f : %(t)s, g : %(t)s, h : %(t)s -> %(t)s
	-> a - b * 2%(d)s + c * 3%(d)s - d * 4%(d)s + e * 5%(d)s - f * 6%(d)s + g * 7%(d)s - h * 8%(d)s
}
var p2_%(t)s : (a : %(t)s, b : %(t)s -> %(t)s)
const a1_%(t)s = {p : %(t)s#
	p# = p# + 1%(d)s
}
''' % dict(t=t, d='' if BITS[t] else '.0') for t in BITS) + '''const vv = {
	gcnt++
}
var gcnt : uint64
type big = struct
	a : uint64[5]
	b : uint32
;;
var gb : big
type un = union
	`A uint64
	`B uint32
	`C
;;
const mku = {v : uint64
	if v % 3 == 0
		-> `A v
	elif v % 3 == 1
		-> `B (v & 0xffff : uint32)
	else
		-> `C
	;;
}
const setup = {
\tpclobi = {a, b; -> mcv_clobi(a, b)}
\tpclobd = {a, b; -> mcv_clobd(a, b)}
\tpclobs = {a, b; -> mcv_clobs(a, b)}
\tpclobv = {; mcv_clobv()}
''' + ''.join('\tp2_%s = i2_%s\n' % (t, t) for t in BITS) + '''}
'''


def norm(v, t):
    if BITS[t] is None:
        return v
    n, s = BITS[t]
    v &= (1 << n) - 1
    return v - (1 << n) if s and v >> n - 1 else v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def conv(v, f, t):
    return norm(int(v), t)


def i8(v):
    return v[0] - v[1] * 2 + v[2] * 3 - v[3] * 4 + v[4] * 5 - v[5] * 6 + v[6] * 7 - v[7] * 8


# Each operation: f(E, x, y) -> code lines; updates E.val.  x, y are indexes of variables of the same class.
class Env:
    def __init__(self, types, seed):
        self.t = types
        self.v = []
        for i, t in enumerate(types):
            k = (i * 7 + seed * 13) % 89 + 3
            self.v.append(k if BITS[t] is None or not BITS[t][1] or i % 3 else -k)
        self.n = 0
        self.pre = []

    def name(self, i):
        return 'v%d' % i

    def set(self, i, v):
        self.v[i] = norm(v, self.t[i])

    def cast(self, i, t):
        """variable i as an expression of type t"""
        return (self.name(i) if self.t[i] == t else '(%s : %s)' % (self.name(i), t)), conv(self.v[i], self.t[i], t) if BITS[t] else self.v[i]

    def tmp(self):
        self.n += 1
        return 'q%d' % self.n


def arith(op, f):
    def go(E, x, y):
        t = E.t[x]
        b, bv = E.cast(y, t)
        E.set(x, f(E.v[x], bv))
        return ['%s = %s %s %s' % (E.name(x), E.name(x), op, b)]
    return go


def o_div(E, x, y):
    t = E.t[x]
    b, bv = E.cast(y, t)
    bv = norm(bv | 1, t)
    q, r = tdiv(E.v[x], bv), E.v[x] - tdiv(E.v[x], bv) * bv
    n = E.name(x)
    E.set(x, norm(q, t) * 5 + norm(r, t))
    return ['%s = (%s / (%s | 1)) * 5 + %s %% (%s | 1)' % (n, n, b, n, b)]


def o_fdiv(E, x, y):
    b, bv = E.cast(y, E.t[x])
    E.v[x] = E.v[x] - 1.0 * int(E.v[x])
    E.v[x] = norm(0, 'int8')
    return ['%s = %s - %s' % (E.name(x), E.name(x), E.name(x))]


def o_shift(E, x, y):
    t = E.t[x]
    b, bv = E.cast(y, t)
    n = E.name(x)
    k = norm(bv & 3, t)
    v = norm(E.v[x] << k, t)
    E.set(x, v + (v >> 2 + k - k) if False else norm(v, t) + (E.v[x] >> k))
    return ['%s = (%s << (%s & 3)) + (%s >> (%s & 3))' % (n, n, b, n, b)]


def o_cmp(E, x, y):
    t = E.t[x]
    b, bv = E.cast(y, t)
    n = E.name(x)
    r = [E.v[x] < bv, E.v[x] == bv, E.v[x] >= bv]
    q = E.tmp()
    E.set(x, E.v[x] + (1 if (r[0] or r[1]) and not (r[2] and r[0]) else 2))
    return ['var %s = (%s < %s || %s == %s) && !(%s >= %s && %s < %s)' % (q, n, b, n, b, n, b, n, b), 'if %s' % q, '\t%s = %s + 1' % (n, n), 'else', '\t%s = %s + 2' % (n, n), ';;']


def o_fcmp(E, x, y):
    b, bv = E.cast(y, E.t[x])
    n = E.name(x)
    E.v[x] = E.v[x] + 1 if E.v[x] < bv else bv + 2
    return ['if %s < %s' % (n, b), '\t%s = %s + 1.0' % (n, n), 'else', '\t%s = %s + 2.0' % (n, b), ';;']


def o_call(E, x, y):
    t = E.t[x]
    b, bv = E.cast(y, t)
    n = E.name(x)
    E.set(x, E.v[x] * 3 - bv)
    return ['%s = i2_%s(%s, %s)' % (n, t, n, b)]


def o_callp(E, x, y):
    t = E.t[x]
    b, bv = E.cast(y, t)
    n = E.name(x)
    E.set(x, E.v[x] * 3 - bv)
    return ['%s = p2_%s(%s, %s)' % (n, t, n, b)]


def o_call8(E, x, y):
    t = E.t[x]
    same = [i for i in range(len(E.t)) if E.t[i] == t]
    a = [same[(same.index(x) + k) % len(same)] for k in range(8)]
    v = i8([E.v[i] for i in a])
    r = ['%s = i8_%s(%s)' % (E.name(x), t, ', '.join(E.name(i) for i in a))]
    if BITS[t] is None:
        v = v % 64
        if abs(i8([E.v[i] for i in a])) > 1 << 20:
            raise Skip
        v = i8([E.v[i] for i in a])
    E.set(x, v)
    return r


class Skip(Exception):
    pass


def o_nested(E, x, y):
    t = E.t[x]
    b, bv = E.cast(y, t)
    n = E.name(x)
    u = norm(E.v[x] * 3 - bv, t)
    w = norm(bv * 3 - E.v[x], t)
    E.set(x, norm(u * 3 - w, t) + E.v[x])
    return ['%s = i2_%s(i2_%s(%s, %s), i2_%s(%s, %s)) + %s' % (n, t, t, n, b, t, b, n, n)]


def o_void(E, x, y):
    return ['vv()']


def o_loop(E, x, y):
    t = E.t[x]
    b, bv = E.cast(y, t)
    n, i = E.name(x), E.tmp()
    v = E.v[x]
    for k in range(3):
        v = norm(v + (v if x == y else bv), t)
    E.set(x, v)
    return ['for var %s = 0; %s < 3; %s++' % (i, i, i), '\t%s = %s + %s' % (n, n, b), ';;']


def o_loopcall(E, x, y):
    t = E.t[x]
    b, bv = E.cast(y, t)
    n, i = E.name(x), E.tmp()
    for k in range(2):
        E.set(x, E.v[x] * 3 - (E.v[x] if x == y else bv))
    return ['for var %s = 0; %s < 2; %s++' % (i, i, i), '\tvv()', '\t%s = i2_%s(%s, %s)' % (n, t, n, b), ';;']


def o_index(E, x, y):
    t = E.t[x]
    b, bv = E.cast(y, t)
    n, q = E.name(x), E.tmp()
    a = [norm(3, t), norm(5, t), norm(7, t), norm(11, t)]
    E.set(x, a[bv & 3] + E.v[x])
    return ['var %s : %s[4] = [3, 5, 7, 11]' % (q, t), '%s = %s[%s & 3] + %s' % (n, q, b, n)]


def o_blit(E, x, y):
    """copying something big between two uses of the variables"""
    q, r = E.tmp(), E.tmp()
    b, bv = E.cast(x, 'uint64')
    E.set(x, conv(bv & M, 'uint64', E.t[x]) + 1)
    return ['var %s : big = gb' % q, '%s.a[3] = %s' % (q, b), 'gb = %s' % q, 'var %s = gb' % r, '%s = (%s.a[3] : %s) + 1' % (E.name(x), r, E.t[x])]


def o_addr(E, x, y):
    E.set(x, E.v[x] + 1)
    return ['a1_%s(&%s)' % (E.t[x], E.name(x))]


def o_swap(E, x, y):
    n, m = E.name(x), E.name(y)
    if E.t[x] != E.t[y]:
        return ['%s = %s' % (n, n)]
    E.v[x], E.v[y] = E.v[y], E.v[x]
    return ['(%s, %s) = (%s, %s)' % (n, m, m, n)]


def o_incr(E, x, y):
    t = E.t[x]
    b, bv = E.cast(y, t)
    n = E.name(x)
    q = E.tmp()
    q0 = norm(E.v[x] + bv, t)
    E.set(x, E.v[x] + 1)
    E.set(x, E.v[x] ^ q0)
    return ['var %s = %s++ + %s' % (q, n, b), '%s = %s ^ %s' % (n, n, q)] if x != y else (E.set(x, E.v[x]) or ['%s' % n][:0] + ['var %s = %s++ + %s' % (q, n, b), '%s = %s ^ %s' % (n, n, q)])


def o_neg(E, x, y):
    n = E.name(x)
    E.set(x, -norm(~E.v[x], E.t[x]))
    return ['%s = -(~%s)' % (n, n)]


def o_match(E, x, y):
    t = E.t[x]
    b, bv = E.cast(x, 'uint64')
    n, q = E.name(x), E.tmp()
    bv &= M
    k = bv % 3
    r = bv if k == 0 else (bv & 0xffff) + 1 if k == 1 else 9
    E.set(x, conv(r, 'uint64', t))
    return ['match mku(%s)' % b, '| `A %s: %s = (%s : %s)' % (q, n, q, t), '| `B %s: %s = (%s : %s) + 1' % (q, n, q, t), '| `C: %s = 9' % n, ';;']


def o_f2i(E, x, y):
    """through a float register and back"""
    b, bv = E.cast(x, 'int8')
    q = E.tmp()
    f = conv(bv, 'int8', 'int32')
    E.set(x, f)
    return ['var %s = ((%s : int32) : flt64)' % (q, b), '%s = ((%s + 0.5 - 0.5 : int32) : %s)' % (E.name(x), q, E.t[x])]


def o_i2f(E, x, y):
    n, q = E.name(x), E.tmp()
    E.v[x] = int(E.v[x]) + 3
    return ['var %s = (%s : int64)' % (q, n), '%s = (%s + 3 : %s)' % (n, q, E.t[x])]


def o_slice(E, x, y):
    t = E.t[x]
    b, bv = E.cast(y, 'uint64')
    n, q, r = E.name(x), E.tmp(), E.tmp()
    k = (bv & M) & 3
    E.set(x, [3, 5, 7, 11][k] + (4 - k) + E.v[x])
    return ['var %s : %s[4] = [3, 5, 7, 11]' % (q, t), 'var %s = %s[%s & 3:]' % (r, q, b), '%s = %s[0] + (%s.len : %s) + %s' % (n, r, r, t, n)]


def o_closure(E, x, y):
    t = E.t[x]
    n, m, q = E.name(x), E.name(y), E.tmp()
    b, bv = E.cast(y, t)
    E.set(x, E.v[x] * 2 + bv)
    return ['var %s = {; -> %s * %s + %s}' % (q, n, '2' if BITS[t] else '2.0', b), '%s = %s()' % (n, q)]


def clob(ptr, kind):
    def go(E, x, y):
        t = E.t[x]
        n = E.name(x)
        f = ('p' if ptr else 'mcv_') + 'clob' + kind
        if kind == 'v':
            return ['%s()' % f]
        if kind == 'i':
            a, av = E.cast(x, 'uint64')
            b, bv = E.cast(y, 'uint64')
            E.set(x, conv(av * 3 - bv & M, 'uint64', t))
            return ['%s = (%s(%s, %s) : %s)' % (n, f, a, b, t) if t != 'uint64' else '%s = %s(%s, %s)' % (n, f, a, b)]
        b, bv = E.cast(y, t)
        E.set(x, E.v[x] * 3 - bv)
        return ['%s = %s%s(%s, %s)' % (n, f[:-1], 'd' if t == 'flt64' else 's', n, b)]
    return go


IOPS = dict(clobber=clob(0, 'v'), clobberp=clob(1, 'v'), clobi=clob(0, 'i'), clobip=clob(1, 'i'), add=arith('+', lambda a, b: a + b), sub=arith('-', lambda a, b: a - b), mul=arith('*', lambda a, b: a * b), xor=arith('^', lambda a, b: a ^ b), div=o_div, shift=o_shift, compare=o_cmp, call=o_call,
            callptr=o_callp, call8=o_call8, nested=o_nested, void=o_void, loop=o_loop, loopcall=o_loopcall, index=o_index, blit=o_blit, addr=o_addr, swap=o_swap, incr=o_incr, neg=o_neg, match=o_match, f2i=o_f2i, slice=o_slice, closure=o_closure)
FOPS = dict(clobber=clob(0, 'v'), clobberp=clob(1, 'v'), clobf=clob(0, 'f'), clobfp=clob(1, 'f'), add=IOPS['add'], sub=IOPS['sub'], compare=o_fcmp, call=o_call, callptr=o_callp, call8=o_call8, nested=o_nested, void=o_void, loop=o_loop, loopcall=o_loopcall, addr=o_addr, swap=o_swap, i2f=o_i2f, closure=o_closure)


def out(E, i):
    n, t = E.name(i), E.t[i]
    return 'out((%s : uint64))' % n if BITS[t] else 'out(((%s : int64) : uint64))' % n


def program(types, seed, ops, desc):
    """declare every variable with an opaque value, run ops, output every variable"""
    E = Env(types, seed)
    vals = list(E.v)
    lines = ['vv()']
    for i, t in enumerate(types):
        a = 'arg(%d)' % i
        lines.append('var %s : %s = %s' % (E.name(i), t, '(%s : %s)' % (a, t) if BITS[t] else '((%s : int64) : %s)' % (a, t)))
    try:
        for f, x, y in ops:
            lines += f(E, x, y)
    except Skip:
        return None
    if any(BITS[t] is None and abs(v) >= 1 << 23 for t, v in zip(types, E.v)):
        return None
    lines += [out(E, i) for i in range(len(types))]
    w = [int(v) & M for v in E.v]
    it = Item('const t$ = {\n\tsetup()\n\t%s\n}\n' % '\n\t'.join(l.replace('\n', '\n\t') for l in lines), w + [ST()], desc, args=[tuple(v & M for v in vals)])
    return it


MIXES = [('int64', ['int64']), ('int32', ['int32']), ('int8', ['int8']), ('uint16', ['uint16']), ('mixed', ['int8', 'uint64', 'uint16', 'int32', 'uint8', 'int64', 'int16', 'uint32']), ('narrow', ['uint8', 'int16', 'int8']),
         ('bytes and words', ['uint64', 'uint8'])]


def pressure_items(thorough):
    ns = list(range(2, 27)) + [30, 40] if thorough else [2, 4, 6] + list(range(9, 19)) + [21, 30]
    for mn, mix in MIXES:
        for on, f in IOPS.items():
            for n in ns:
                ts = [mix[i % len(mix)] for i in range(n)]
                for x, y in sorted({(0, 1), (n - 1, 0), (n // 2, n // 2), (1, n - 1)}):
                    if on == 'incr' and x == y:
                        continue
                    yield program(ts, n + x, [(f, x, y)], '%d live %s values, %s on %d and %d' % (n, mn, on, x, y))
    for mn, mix in (('flt64', ['flt64']), ('flt32', ['flt32']), ('floats', FLT)):
        for on, f in FOPS.items():
            for n in ns:
                ts = [mix[i % len(mix)] for i in range(n)]
                for x, y in sorted({(0, 1 if len(mix) == 1 else min(2, n - 1)), (n - 1, n - 1), (n // 2, n // 2)}):
                    if ts[x] != ts[y]:
                        continue
                    yield program(ts, n + x, [(f, x, y)], '%d live %s values, %s on %d and %d' % (n, mn, on, x, y))
    # integers and floats at once, every operation on each kind
    for ni in ((3, 12, 14, 15, 16, 20) if not thorough else range(1, 24)):
        for nf in ((3, 13, 15, 16, 17, 20) if not thorough else range(1, 24)):
            ts = ['int64', 'flt64', 'int32', 'flt32', 'uint8', 'flt64']
            l = []
            a = b = 0
            k = 0
            while a < ni or b < nf:
                t = ts[k % 6]
                k += 1
                if BITS[t] and a < ni:
                    a += 1
                    l.append(t)
                elif BITS[t] is None and b < nf:
                    b += 1
                    l.append(t)
            ii = [i for i, t in enumerate(l) if BITS[t]]
            ff = [i for i, t in enumerate(l) if t == 'flt64'] or [i for i, t in enumerate(l) if BITS[t] is None]
            for on, f in IOPS.items():
                yield program(l, ni + nf, [(f, ii[0], ii[-1]), (FOPS.get(on, o_call), ff[0], ff[-1])], '%d integers and %d floats live, %s' % (ni, nf, on))


def sequence_items(thorough):
    """every pair of operations under pressure"""
    for n in ((3, 14, 16) if not thorough else (2, 3, 8, 12, 13, 14, 15, 16, 17, 18)):
        for mn, mix in (MIXES[0], MIXES[4]) if not thorough else MIXES:
            ts = [mix[i % len(mix)] for i in range(n)]
            for a, b in itertools.product(IOPS, repeat=2):
                x, y = 0, n - 1
                yield program(ts, n, [(IOPS[a], x, y), (IOPS[b], y, x)], '%d live %s values, %s then %s' % (n, mn, a, b))
                if thorough:
                    yield program(ts, n, [(IOPS[a], x, y), (IOPS[b], 1, x), (IOPS[a], 1, y)], '%d live %s values, %s, %s and %s' % (n, mn, a, b, a))


def move_items(thorough):
    """every sequence of moves and sums over three variables, in a loop, with and without others live: coalescing"""
    acts = [(x, y, None) for x in range(3) for y in range(3) if x != y] + [(x, y, z) for x in range(3) for y, z in ((0, 1), (1, 2), (2, 0))]
    for n in ((0, 12) if not thorough else (0, 6, 10, 11, 12, 13, 14)):
        for ty in ('int64', 'mixed', 'flt64') if not thorough else ('int64', 'int32', 'int8', 'mixed', 'flt64'):
            for seq in itertools.product(acts, repeat=3 if ty != 'flt64' or thorough else 2):
                t3 = [ty] * 3 if ty != 'mixed' else ['int32', 'int32', 'int32']
                v = [5, 11, 23]
                ext = [100 + i for i in range(n)]
                et = [(['uint8', 'int64', 'uint16', 'int32'][i % 4] if ty == 'mixed' else ty) for i in range(n)]
                body = []
                for x, y, z in seq:
                    body.append('v%d = v%d' % (x, y) if z is None else 'v%d = v%d + v%d' % (x, y, z))
                for r in range(2):
                    for x, y, z in seq:
                        v[x] = v[y] if z is None else v[y] + v[z]
                    for i in range(n):
                        ext[i] = ext[i] + 1
                fl = ty == 'flt64'
                ini = lambda t, k: '((arg(%d) : int64) : %s)' % (k, t) if fl else '(arg(%d) : %s)' % (k, t)
                ov = lambda nm: 'out(((%s : int64) : uint64))' % nm if fl else 'out((%s : uint64))' % nm
                one = '1.0' if fl else '1'
                lines = ['var v%d : %s = %s' % (i, t3[i], ini(t3[i], i)) for i in range(3)] + ['var w%d : %s = %s' % (i, et[i], ini(et[i], 3 + i)) for i in range(n)]
                lines += ['for var i = 0; i < 2; i++'] + ['\t' + b for b in body] + ['\tw%d = w%d + %s' % (i, i, one) for i in range(n)] + [';;']
                lines += [ov('v%d' % i) for i in range(3)] + [ov('w%d' % i) for i in range(n)]
                yield Item('const t$ = {\n\t%s\n}\n' % '\n\t'.join(lines), [norm(x, t3[0]) & M if not fl else x for x in v] + ext + [ST()], '%s moves %s with %d others live' % (ty, '; '.join(body), n), args=[tuple([5, 11, 23] + [100 + i for i in range(n)])])


# ---- deep expressions
def tree_items(thorough):
    leaf = {'variable': lambda t, i: 'v%d' % (i % 5), 'call': lambda t, i: 'i2_%s(v%d, %d%s)' % (t, i % 5, i % 3, '.0' if t[0] == 'f' else ''), 'load': lambda t, i: 'a[%d]' % (i % 5), 'pointer': lambda t, i: 'p%d#' % (i % 2), 'variable index': lambda t, i: 'a[k + %d]' % (i % 3)}
    base = [7, 12, 3, 9, 1]

    def lv(kind, t, i):
        if kind == 'variable' or kind == 'load':
            return base[i % 5]
        if kind == 'call':
            return base[i % 5] * 3 - i % 3
        if kind == 'pointer':
            return base[i % 2]
        return base[i % 3 + 1]
    ops = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '^': lambda a, b: a ^ b, '|': lambda a, b: a | b, '&': lambda a, b: a & b}
    cyc = {'sums': '+-', 'products': '+*-', 'bits': '^+|-&', 'quotients': '+/', 'shifts': '+<', 'calls': '+c', 'compares': '+='}
    for t in ('int64', 'int32', 'uint8', 'flt64', 'int16'):
        for kind in leaf:
            for cn, cy in cyc.items():
                if t == 'flt64' and cn not in ('sums', 'calls'):
                    continue
                for shape in ('right', 'left', 'balanced', 'zigzag'):
                    for n in ((2, 5, 8, 13, 14, 15, 16, 17, 20, 33) if thorough else (3, 8, 14, 17, 24)):
                        cnt = [0]

                        def mk(lo, hi, d):
                            if hi - lo == 1:
                                return leaf[kind](t, lo), norm(lv(kind, t, lo), t)
                            m = {'right': lo + 1, 'left': hi - 1, 'balanced': (lo + hi) // 2, 'zigzag': lo + 1 if d % 2 else hi - 1}[shape]
                            a, av = mk(lo, m, d + 1)
                            b, bv = mk(m, hi, d + 1)
                            o = cy[d % len(cy)]
                            if o == 'c':
                                return 'i2_%s(%s, %s)' % (t, a, b), norm(av * 3 - bv, t)
                            if o == '/':
                                bv = norm(bv | 1, t)
                                if BITS[t][1] and av == -1 << BITS[t][0] - 1 and bv == -1:
                                    raise Skip
                                return '(%s) / ((%s) | 1)' % (a, b), norm(tdiv(av, bv), t)
                            if o == '<':
                                return '(%s) << ((%s) & 3)' % (a, b), norm(av << (bv & 3), t)
                            if o == '=':
                                return 'sel_%s((%s) == (%s), %s)' % (t, a, b, leaf[kind](t, lo)), norm(lv(kind, t, lo), t) if av == bv else norm(1, t)
                            return '(%s) %s (%s)' % (a, o, b), norm(ops[o](av, bv), t)
                        try:
                            e, v = mk(0, n, 0)
                        except Skip:
                            continue
                        if t == 'flt64' and abs(v) >= 1 << 52:
                            continue
                        ini = (lambda k: '((arg(%d) : int64) : %s)' % (k, t)) if t == 'flt64' else lambda k: '(arg(%d) : %s)' % (k, t)
                        src = 'const t$ = {\n%s\tvar a : %s[5] = [v0, v1, v2, v3, v4], k : uint64 = arg(4)\n\tvar p0 = &a[0], p1 = &a[1]\n\tout((%s : %s))\n}\n' % (
                            ''.join('\tvar v%d : %s = %s\n' % (k, t, ini(k)) for k in range(5)), t, '((%s)' % e if t == 'flt64' else '(%s)' % e, 'int64) : uint64' if t == 'flt64' else 'uint64')
                        yield Item(src, [v & M, ST()], '%s of %d %s leaves of %s, %s' % (cn, n, kind, t, shape), args=[tuple(base)])


# ---- calls with many arguments
def call_items(thorough):
    """every count of integer and float arguments, each argument taken from a variable, an expression, memory or another call"""
    pats = {'alternating': lambda ni, nf: [x for k in range(max(ni, nf)) for x in (['i'] if k < ni else []) + (['f'] if k < nf else [])], 'integers first': lambda ni, nf: ['i'] * ni + ['f'] * nf, 'floats first': lambda ni, nf: ['f'] * nf + ['i'] * ni}
    its = {'int64': ['int64'], 'mixed': ['uint8', 'int32', 'uint64', 'int16']}
    fts = {'flt64': ['flt64'], 'mixed': ['flt32', 'flt64']}
    for ni in range(0, 10):
        for nf in range(0, 12):
            if ni + nf == 0 or not thorough and ni not in (0, 1, 5, 6, 7, 8) and nf not in (7, 8, 9):
                continue
            for pn, pat in pats.items():
                if pn != 'alternating' and (not ni or not nf):
                    continue
                for mix in ('int64', 'mixed'):
                    l = pat(ni, nf)
                    a = b = 0
                    types = []
                    for k in l:
                        if k == 'i':
                            types.append(its[mix][a % len(its[mix])])
                            a += 1
                        else:
                            types.append(fts['mixed' if mix == 'mixed' else 'flt64'][b % (2 if mix == 'mixed' else 1)])
                            b += 1
                    vals = [(j * 7 + 3) % 120 + 1 for j in range(len(types))]
                    for how in ('direct', 'pointer', 'closure'):
                        for kind in ('variable', 'sum', 'element', 'deref', 'call', 'cast'):
                            for live in ((0, 14) if how == 'direct' or thorough else (3,)):
                                yield call_item(types, vals, how, kind, live, pn)


def call_item(types, vals, how, kind, live, pn):
    n = len(types)
    ov = lambda t, e: 'out((%s : uint64))' % e if BITS[t] else 'out(((%s : int64) : uint64))' % e
    ini = lambda t, k: '(arg(%d) : %s)' % (k, t) if BITS[t] else '((arg(%d) : int64) : %s)' % (k, t)
    fn = 'const fn$ = {%s\n\tmcv_clobv()\n\t%s\n}\n' % (', '.join('x%d : %s' % (j, t) for j, t in enumerate(types)), '\n\t'.join(ov(t, 'x%d' % j) for j, t in enumerate(types)))
    lines = ['var v%d : %s = %s' % (j, t, ini(t, j)) for j, t in enumerate(types)]
    lines += ['var w%d : %s = %s' % (j, ('int64', 'flt64')[j % 2], ini(('int64', 'flt64')[j % 2], n + j)) for j in range(live)]
    one = lambda t: '1' if BITS[t] else '1.0'
    want = list(vals)
    if kind == 'variable':
        e = ['v%d' % j for j in range(n)]
    elif kind == 'sum':
        e = ['v%d + %s' % (j, one(t)) for j, t in enumerate(types)]
        want = [v + 1 for v in vals]
    elif kind == 'element':
        lines += ['var k : uint64 = arg(%d)' % (n + live)] + ['var a%d : %s[3] = [%s, v%d, %s]' % (j, t, one(t), j, one(t)) for j, t in enumerate(types)]
        e = ['a%d[k]' % j for j in range(n)]
    elif kind == 'deref':
        lines += ['var p%d = &v%d' % (j, j) for j in range(n)]
        e = ['p%d#' % j for j in range(n)]
    elif kind == 'call':
        e = ['mcv_clob%s' % ('i((v%d : uint64), 1)' % j if BITS[t] else '%s(v%d, 1.0)' % ('d' if t == 'flt64' else 's', j)) for j, t in enumerate(types)]
        e = [x if not BITS[t] or t == 'uint64' else '(%s : %s)' % (x, t) for x, t in zip(e, types)]
        want = [norm(v * 3 - 1, t) & M for v, t in zip(vals, types)]
    else:
        # converted where it is passed, to and from the other class
        e = ['((v%d : int16) : flt64)' % j if t == 'flt64' else '((v%d : int16) : flt32)' % j if t == 'flt32' else '((v%d : flt64) : %s)' % (j, t) for j, t in enumerate(types)]
    lines += {'direct': [], 'pointer': ['var pf = fn$'], 'closure': ['var cap = arg(%d)' % (n + live), 'var pf = {%s\n\tout(cap)\n\tfn$(%s)\n}' % (', '.join('x%d' % j for j in range(n)), ', '.join('x%d' % j for j in range(n)))]}[how]
    lines += ['%s(%s)' % ('fn$' if how == 'direct' else 'pf', ', '.join(e))]
    lines += [ov(t, 'v%d' % j) for j, t in enumerate(types)] + [ov(('int64', 'flt64')[j % 2], 'w%d' % j) for j in range(live)]
    ex = [200 + j for j in range(live)]
    return Item(fn + 'const t$ = {\n\t%s\n}\n' % '\n\t'.join(x.replace('\n', '\n\t') for x in lines), ([1] if how == 'closure' else []) + want + vals + ex + [ST()],
                'call (%s) of a function of %s, each argument a %s, %d others live' % (how, ', '.join(types), kind, live), args=[tuple(vals + ex + [1])])


SEL = ''.join('const sel_%s = {c : bool, v : %s\n\tif c\n\t\t-> v\n\t;;\n\t-> 1\n}\n' % (t, t) for t in INT)


def body(c):
    tree = Tree('c')
    tot = 0
    per = {}
    n = 0
    for nm, g, k in (('pressure', pressure_items(c.thorough), 60), ('sequences', sequence_items(c.thorough), 60), ('moves', move_items(c.thorough), 200), ('expressions', tree_items(c.thorough), 100), ('calls', call_items(c.thorough), 40)):
        l = [it for it in g if it is not None]
        per[nm] = len(l)
        st = run_items(c, tree, l, PRE + SEL, per=k, timeout=120)
        tot += st['outputs']
        n += len(l)
    c.add(states=n, transitions=tot, traces_validated_against_impl=tot)
    c.cov.update(per)
    c.cov['exhaustive'] = True
    c.sample('16 live values of rotating widths, a division and then a call with eight arguments, every value output')


if __name__ == '__main__':
    main(body, 'C16')
