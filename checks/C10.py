#!/usr/bin/env python3
"""C10: closures have the values their captured variables had when they were made, whatever the variables, the nesting, and what
happens to the variables and the closures afterwards."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product
from mcv.check import *
from mcv.comp import *
from mcv.aggs import *

PRELUDE = FNS + '''
var dbuf : byte[32768]
var dn : uint64 = 0
var dz : uint64 = 0
var dends : uint64[64]
const dreset = {
	dn = 0
	dz = 0
}
generic dup = {fn : @fn -> @fn :: function @fn
	var r : uint64[2], z : uint64
	r = (&fn : uint64[2]#)#
	if r[0] != 0
		z = (r[0] : uint64#)#
		for var i : uint64 = 0; i < z; i++
			dbuf[dn + i] = ((r[0] + i) : byte#)#
		;;
		r[0] = (&dbuf[dn] : uint64)
		for var i : uint64 = z; i < z + 16; i++
			dbuf[dn + i] = 0x5c
		;;
		dends[dz] = dn + z
		dz++
		dn += (z + 31) / 16 * 16
	;;
	-> (&r : @fn#)#
}
const dcheck = {
	for var k : uint64 = 0; k < dz; k++
		for var i : uint64 = dends[k]; i < dends[k] + 16; i++
			if dbuf[i] != 0x5c
				out(0xdead)
			;;
		;;
	;;
}
const trash = {
	var a : byte[700]
	for var i = 0; i < 700; i++
		a[i] = 0xcc
	;;
	trash1(a[:])
}
const trash1 = {s : byte[:]
}
'''


# ---------------------------------------------------------------- what is captured
def capset(ts, desc):
    c = [3]
    n = len(ts)
    A, B, C = ([t.fresh(c) for t in ts] for _ in range(3))
    enc = lambda vs: sum((t.enc(v) for t, v in zip(ts, vs)), [])
    set_ = lambda vs, ind: ''.join('%sx%d = %s\n' % (ind, i, t.lit(v)) for i, (t, v) in enumerate(zip(ts, vs)))
    e = lambda ind: ''.join('%se_%s$(&x%d)\n' % (ind, t.name, i) for i, t in enumerate(ts))
    src = decls(*ts)
    src += 'const mk$ = {%s -> (-> void)\n\tvar f = {\n%s%s\t}\n%s\t-> dup(f)\n}\n' % (
        ', '.join('x%d : %s' % (i, t.src) for i, t in enumerate(ts)), e('\t\t'), set_(C, '\t\t'), set_(B, '\t'))
    m = 'const t$ = {\n'
    m += ''.join('\tvar x%d : %s = %s\n' % (i, t.src, t.lit(v)) for i, (t, v) in enumerate(zip(ts, A)))
    m += '\tdreset()\n\tvar f = {\n%s\t}\n%s\tf()\n%s' % (e('\t\t'), set_(B, '\t'), e('\t'))
    w = enc(A) + enc(B)
    m += '\tvar g = {\n%s%s%s\t}\n\tf()\n\tg()\n%s\tg()\n\tf()\n' % (e('\t\t'), set_(C, '\t\t'), e('\t\t'), e('\t'))
    w += enc(A) + enc(B) + enc(C) + enc(B) + enc(C) + enc(C) + enc(A)
    m += '\tvar k = mk$(%s)\n\ttrash()\n\tk()\n\ttrash()\n\tk()\n%s' % (', '.join('x%d' % i for i in range(n)), e('\t'))
    w += enc(B) + enc(C) + enc(B)
    # a copy is independent
    m += '\tvar h = dup(g)\n\tvar h2 = h\n' + ''.join('\tx%d = %s\n' % (i, t.lit(v)) for i, (t, v) in enumerate(zip(ts, A))) + '\th()\n\th2()\n\tdcheck()\n}\n'
    w += enc(C) * 4
    return Item(src + m, w, desc)


def gencap(ts, desc):
    """captured inside a generic"""
    c = [5]
    n = len(ts)
    A, B = [t.fresh(c) for t in ts], [t.fresh(c) for t in ts]
    src = decls(*ts)
    ps = ', '.join('x%d : @a%d' % (i, i) for i in range(n))
    out = lambda p: 'p%d(&x%d)' % (p, p)
    pp = ', '.join('p%d : (q : @a%d# -> void)' % (i, i) for i in range(n))
    calls = lambda ind: ''.join('%sp%d(&x%d)\n' % (ind, i, i) for i in range(n))
    src += 'generic gm$ = {%s, %s, %s -> (-> void)\n\tvar f = {\n%s\t\tvar g = {\n%s%s\t\t}\n\t\tg()\n\t}\n%s%s\tf()\n\t-> dup(f)\n}\n' % (
        ps, ', '.join('y%d : @a%d' % (i, i) for i in range(n)), pp, calls('\t\t'), calls('\t\t\t'), ''.join('\t\t\tx%d = y%d\n' % (i, i) for i in range(n)), ''.join('\tx%d = y%d\n' % (i, i) for i in range(n)), calls('\t'))
    m = 'const t$ = {\n\tdreset()\n' + ''.join('\tvar x%d : %s = %s, y%d : %s = %s\n' % (i, t.src, t.lit(v), i, t.src, t.lit(u)) for i, (t, v, u) in enumerate(zip(ts, A, B)))
    enc = lambda vs: sum((t.enc(v) for t, v in zip(ts, vs)), [])
    m += '\tvar f = gm$(%s, %s, %s)\n\ttrash()\n\tf()\n\tdcheck()\n}\n' % (', '.join('x%d' % i for i in range(n)), ', '.join('y%d' % i for i in range(n)), ', '.join('e_%s$' % t.name for t in ts))
    return Item(src + m, enc(B) + enc(A) * 4, desc)


def types():
    k = [S[x] for x in ('by', 'h', 'w', 'q', 'f', 'd', 'bo', 'sl', 'fn')]
    k += [St('b3', [S['by'], S['by'], S['by']]), St('qb', [S['q'], S['by']]), St('hw', [S['h'], S['w']]), Arr('a5', S['by'], 5), St('q4', [S['q'], S['q'], S['q'], S['q']]), Un('u_h', [S['h'], None]), St('df', [S['d'], S['f']])]
    return k


def capsets(thorough):
    T = types()
    few = [T[i] for i in (0, 2, 3, 5, 7, 9, 10, 12)]
    r = []
    for n in (1, 2, 3):
        for ts in product(T if n < 3 or thorough else few + [T[1], T[4]], repeat=n):
            r.append(capset(list(ts), 'captured: %s' % ', '.join(t.name for t in ts)))
            if n < 3:
                r.append(gencap(list(ts), 'captured in a generic: %s' % ', '.join(t.name for t in ts)))
    if thorough:
        for ts in product([T[i] for i in (0, 1, 2, 3, 9)], repeat=4):
            r.append(capset(list(ts), 'captured: %s' % ', '.join(t.name for t in ts)))
        for ts in product([T[i] for i in (0, 2, 3)], repeat=5):
            r.append(capset(list(ts), 'captured: %s' % ', '.join(t.name for t in ts)))
    for n in range(4, 41):
        r.append(capset([T[(i * 7 + n) % len(T)] for i in range(n)] if n < 13 else [few[(i * 3 + n) % 5] for i in range(n)], '%d captured' % n))
    return r


# ---------------------------------------------------------------- histories
class Fn:
    def __init__(self, env, run):
        self.env, self.run = env, run

    def __call__(self, out):
        self.run(self.env, out)

    def dup(self):
        return Fn(dict(self.env), self.run)


def rf(e, out):
    out.append(e['x'] & 0xffff)
    out.append(e['y'] & 0xff)
    e['x'] += 10


def rg(e, out):
    e['y'] += 5
    out.append(e['y'] & 0xff)
    e['f'](out)


def r0(k):
    return lambda e, out: out.append(k)


HOPS = [
    ('x += 1', lambda s, o: s.update(x=s['x'] + 1)),
    ('y += 2', lambda s, o: s.update(y=s['y'] + 2)),
    ('f = {\n\t\tout((x : uint64))\n\t\tout((y : uint64))\n\t\tx += 10\n\t}', lambda s, o: s.update(f=Fn(dict(x=s['x'], y=s['y']), rf))),
    ('g = {\n\t\ty += 5\n\t\tout((y : uint64))\n\t\tf()\n\t}', lambda s, o: s.update(g=Fn(dict(y=s['y'], f=s['f']), rg))),
    ('f()', lambda s, o: s['f'](o)),
    ('g()', lambda s, o: s['g'](o)),
    ('f = g', lambda s, o: s.update(f=s['g'])),
    ('g = f', lambda s, o: s.update(g=s['f'])),
    ('f = dup(f)', lambda s, o: s.update(f=s['f'].dup())),
    ('glob += 3', lambda s, o: s.update(glob=s['glob'] + 3)),
    ('f = {\n\t\tglob++\n\t\tout((y : uint64))\n\t\tout(glob)\n\t}', None),
]


def hist(ops, desc):
    s = dict(x=300, y=7, glob=1, f=Fn({}, r0(71)), g=Fn({}, r0(72)))
    out = []
    src = 'var glob$ : uint64 = 1\nconst f0$ = {; out(71)}\nconst t$ = {\n\tglob$ = 1\n\tdreset()\n\tvar x : uint16 = 300, y : byte = 7\n\tvar f = {; out(71)}\n\tvar g = {; out(72)}\n'
    for o in ops:
        t, fn = HOPS[o]
        src += '\t%s\n' % t.replace('glob', 'glob$')
        if fn:
            fn(s, out)
        else:
            def rr(e, o, s=s):
                s['glob'] += 1
                o.append(e['y'] & 0xff)
                o.append(s['glob'])
            s['f'] = Fn(dict(y=s['y']), rr)
    src += '\tf()\n\tg()\n\tout((x : uint64))\n\tout((y : uint64))\n\tout(glob$)\n\tdcheck()\n}\n'
    s['f'](out)
    s['g'](out)
    out += [s['x'] & 0xffff, s['y'] & 0xff, s['glob']]
    return Item(src, out, desc)


def histories(thorough):
    d = 5 if thorough else 4
    r = []
    for ops in product(range(len(HOPS)), repeat=d):
        # without operations that change nothing seen later
        if not any(o in (2, 3, 10) for o in ops):
            continue
        if any(a == b and a in (2, 3, 6, 7, 10) for a, b in zip(ops, ops[1:])):
            continue
        r.append(hist(ops, 'history %s' % ' | '.join(HOPS[o][0].split('\n')[0] for o in ops)))
    return r


# ---------------------------------------------------------------- nesting
def nested(R, W, par, desc):
    """closures 3 deep; level l reads the variables R[l] of outer levels and writes them W[l] (0 no, 1 before, 2 after making the next)"""
    D = len(R)
    out = []

    def run(l, frame):      # what level l does, level 0 is the function
        frame['v%d' % l] = 10 ** l
        rd = [v for v in range(l) if l and R[l - 1] >> v & 1]
        out.extend(frame['v%d' % v] for v in rd)
        out.append(frame['v%d' % l])
        def wr():
            for v in rd + [l]:
                frame['v%d' % v] += 3 * 7 ** l
        if W[l] == 1:
            wr()
        if l < D:
            env = dict(frame)
            if W[l] == 2:
                wr()
            run(l + 1, env)
            frame2 = env
            run(l + 1, frame2)
        elif W[l] == 2:
            wr()
        out.extend(frame['v%d' % v] for v in rd)
        out.append(frame['v%d' % l])

    def text(l):
        ind = '\t' * (l + 1)
        rd = [v for v in range(l) if l and R[l - 1] >> v & 1]
        s = '' if par and l else '%sv%d = %d\n' % (ind, l, 10 ** l)
        s += ''.join('%sout(v%d)\n' % (ind, v) for v in rd + [l])
        wr = ''.join('%sv%d += %d\n' % (ind, v, 3 * 7 ** l) for v in rd + [l])
        if W[l] == 1:
            s += wr
        if l < D:
            s += '%svar c%d = {%s\n%s%s%s}\n' % (ind, l + 1, 'v%d : uint64' % (l + 1) if par else '', '' if par else '%s\tvar v%d : uint64\n' % (ind, l + 1), text(l + 1), ind)
            if W[l] == 2:
                s += wr
            s += ('%sc%d(%s)\n' % (ind, l + 1, str(10 ** (l + 1)) if par else '')) * 2
        elif W[l] == 2:
            s += wr
        s += ''.join('%sout(v%d)\n' % (ind, v) for v in rd + [l])
        return s
    run(0, {})
    return Item('const t$ = {\n\tvar v0 : uint64\n%s}\n' % text(0), out, desc)


def nestings(thorough):
    r = []
    for D in (1, 2, 3) + ((4,) if thorough else ()):
        for R in product(*[range(1 << l) for l in range(1, D + 1)]):
            for W in product((0, 1, 2), repeat=D + 1) if D < 4 else [(1,) * 5, (2,) * 5, (0, 1, 2, 0, 1), (2, 0, 1, 2, 0)]:
                if D == 3 and not thorough and W[3] == 2:
                    continue
                for par in (0, 1):
                    r.append(nested(R, W, par, 'nested %d deep, reading %s, writing %s, %s' % (D, [bin(x) for x in R], W, 'parameters' if par else 'locals')))
    return r


# ---------------------------------------------------------------- names
def shadow(kinds, blocks, desc):
    """at every level x is that of the level around it, a parameter, or a local, and perhaps another one in a block around the next closure"""
    out = []

    def run(l, x):
        if l and kinds[l] == 1:
            x = 100 + l
        if kinds[l] == 2 or l == 0:
            x = 200 + l
        out.append(x)
        if l < 2:
            y = 300 + l if blocks[l] else x
            out.append(y)
            run(l + 1, y)
        out.append(x)

    def text(l):
        ind = '\t' * (2 * l + 1)
        s = ''
        if kinds[l] == 2 or l == 0:
            s += '%svar x : uint64 = %d\n' % (ind, 200 + l)
        s += '%sout(x)\n' % ind
        if l < 2:
            s += '%sif true\n' % ind
            if blocks[l]:
                s += '%s\tvar x : uint64 = %d\n' % (ind, 300 + l)
            s += '%s\tout(x)\n%s\tvar c%d = {%s\n%s%s\t}\n%s\tx += 1000\n%s\tc%d(%s)\n%s\tx -= 1000\n' % (ind, ind, l, 'x : uint64' if kinds[l + 1] == 1 else '', text(l + 1), ind, ind, ind, l, 100 + l + 1 if kinds[l + 1] == 1 else '', ind)
            s += '%s;;\n' % ind
        s += '%sout(x)\n' % ind
        return s
    run(0, 0)
    return Item('var x$ : uint64 = 1\nconst t$ = {\n%s}\n' % text(0), out, desc)


def shadows():
    return [shadow((0,) + k, b, 'shadowed: %s, blocks %s' % (k, b)) for k in product((0, 1, 2), repeat=2) for b in product((0, 1), repeat=2)]


# ---------------------------------------------------------------- where the variable comes from, what the closure does, where it is called
def lets(code, after='v = 9'):
    return lambda mk: code.replace('MK', mk) + ('\n' + after if after else '')


# (name, text around the making and using of the closure ('MK'), what v is afterwards, top level text)
BIND = [
    ('local', 'var v : uint64 = 5\nMK', 1, ''),
    ('local given a result', 'var v = five()\nMK', 1, ''),
    ('local constant', 'const v : uint64 = 5\nMK', 0, ''),
    ('global', 'vg$ = 5\nMK', 2, 'var vg$ : uint64 = 5\n'),
    ('global constant', 'MK', 0, 'const v = 5\n'.replace('v =', 'vc$ : uint64 =')),
    ('loop variable', 'for var v : uint64 = 5; v < 6; v++\nMK\nbreak\n;;', 1, ''),
    ('loop variable set before', 'var v : uint64\nfor v = 3; v < 5; v++\n;;\nMK', 1, ''),
    ('element of a slice', 'var s : uint64[:] = [4, 5, 6][:]\nfor v : s\nif v == 5\nMK\n;;\n;;', 0, ''),
    ('element of an array', 'var a : uint64[3] = [4, 5, 6]\nfor v : a\nif v == 5\nMK\n;;\n;;', 0, ''),
    ('element of a tuple', 'var s : (uint64, uint64)[:] = [(1, 4), (2, 5)][:]\nfor (kk, v) : s\nif kk == 2\nMK\n;;\n;;', 0, ''),
    ('element by an iterator', 'for v : bycount$(5, 6)\nMK\n;;', 0,
     'type cnt$ = struct\n\ta : uint64\n\tz : uint64\n;;\nconst bycount$ = {a, z\n\tvar c : cnt$ = [.a = a, .z = z]\n\t-> c\n}\nimpl iterable cnt$ -> uint64 =\n\t__iternext__ = {it, ret\n\t\tif it.a == it.z\n\t\t\t-> false\n\t\t;;\n\t\tret# = it.a\n\t\tit.a++\n\t\t-> true\n\t}\n\t__iterfin__ = {it, v\n\t}\n;;\n'),
    ('matched value', 'match five()\n| v:\nMK\n;;', 0, ''),
    ('payload of a union', 'var u : un$ = `Ua$ 5\nmatch u\n| `Ua$ v:\nMK\n| `Ub$:\n;;', 0, 'type un$ = union\n\t`Ua$ uint64\n\t`Ub$\n;;\n'),
    ('payload of a union in a pointer', 'var u : un$ = `Ua$ 5\nmatch &u\n| &(`Ua$ v):\nMK\n| _:\n;;', 0, 'type un$ = union\n\t`Ua$ uint64\n\t`Ub$\n;;\n'),
    ('member of a matched struct', 'var u : st$ = [.p = 1, .q = 5]\nmatch u\n| [.p=2, .q=_]: out(0)\n| [.p=_, .q=v]:\nMK\n;;', 0, 'type st$ = struct\n\tp : byte\n\tq : uint64\n;;\n'),
    ('member of a matched tuple', 'match (five(), true)\n| (v, true):\nMK\n| _:\n;;', 0, ''),
    ('element of a matched array', 'var u : uint64[2] = [1, 5]\nmatch u\n| [_, v]:\nMK\n;;', 0, ''),
    ('condition matched by an or-pattern', 'var u : uo$ = `Ov$ 5\nmatch u\n| `Ou$ v || `Ov$ v:\nMK\n| `Ow$:\n;;', 0, 'type uo$ = union\n\t`Ou$ uint64\n\t`Ov$ uint64\n\t`Ow$\n;;\n'),
    ('local of a block', 'if five() == 5\nvar v : uint64 = 5\nMK\n;;', 1, ''),
    ('local of an elif', 'if five() == 4\nelif five() == 5\nvar v : uint64 = 5\nMK\n;;', 1, ''),
    ('local of a while', 'var n = 0\nwhile n < 1\nn++\nvar v : uint64 = 5\nMK\n;;', 1, ''),
    ('local after a goto', 'goto there\nout(0)\n:there\nvar v : uint64 = 5\nMK', 1, ''),
    ('first parameter', 'MK', 3, 'v : uint64|5'),
    ('seventh parameter', 'MK', 3, 'p0 : byte, p1 : int, p2 : int64, p3 : byte#, p4 : int16, p5 : bool, v : uint64|1, 2, 3, (4 : byte#), 5, true, 5'),
    ('parameter after a struct', 'MK', 3, 'p0 : sb$, v : uint64|bs$, 5'),
    ('parameter after floats', 'MK', 3, 'p0 : flt64, p1 : flt32, v : uint64|1.5, 2.5, 5'),
    ('parameter of a function returning a struct', 'MK', 5, ''),
    ('parameter of a generic', 'MK', 4, ''),
    ('parameter of an impl', 'MK', 6, ''),
    ('parameter of an outer closure', 'var oc = {v : uint64\nMK\n}\noc(5)', 1, ''),
    ('captured by an outer closure', 'var v : uint64 = 5\nvar oc = {\nMK\n}\nv = 6\noc()', 1, ''),
    ('local of an outer closure', 'var oc = {\nvar v : uint64 = 5\nMK\n}\noc()', 1, ''),
]
# (name, the closure (an expression of type (-> uint64) in lines), result for v = 5)
FORM = [
    ('value', ['{; -> v}'], 5),
    ('sum', ['{; -> v + v * 2}'], 15),
    ('block', ['{', '\tvar w : uint64 = v', '\tw++', '\t-> w', '}'], 6),
    ('branch', ['{', '\tif v == 5', '\t\t-> 1', '\telse', '\t\t-> 2', '\t;;', '}'], 1),
    ('loop', ['{', '\tvar w : uint64 = 0', '\tfor var i : uint64 = 0; i < v; i++', '\t\tw += v', '\t;;', '\t-> w', '}'], 25),
    ('match', ['{', '\tmatch v', '\t| 5:\t-> 8', '\t| y:\t-> y', '\t;;', '}'], 8),
    ('matched part', ['{', '\tmatch (v, 3)', '\t| (y, 4):\t-> 0', '\t| (y, _):\t-> y', '\t;;', '}'], 5),
    ('address', ['{', '\tvar p = &v', '\t-> p#', '}'], 5),
    ('index', ['{', '\tvar a : uint64[8] = [1, 2, 3, 4, 5, 6, 7, 8]', '\t-> a[v]', '}'], 6),
    ('argument', ['{; -> inc(v)}'], 6),
    ('member', ['{', '\tvar s : sf = [.m = v]', '\t-> s.m', '}'], 5),
    ('inner closure', ['{', '\tvar i = {; -> v}', '\t-> i()', '}'], 5),
    ('inner closure with an argument', ['{', '\tvar i = {k : uint64; -> v + k}', '\t-> i(v)', '}'], 10),
    ('conversion', ['{; -> (((v : byte) : uint64))}'], 5),
    ('condition', ['{; -> cond(v == 5 && v != 6)}'], 1),
    ('slice', ['{', '\tvar a : uint64[8] = [1, 2, 3, 4, 5, 6, 7, 8]', '\t-> (a[v:v + 2].len : uint64)', '}'], 2),
    ('capture written', ['{', '\tTEMP += 2', '\t-> TEMP', '}'], 7),
]
USE = [
    ('called', ['var k = F', 'AFTER', 'out(k())'], 1),
    ('called twice', ['var k = F', 'AFTER', 'out(k() - k() + k())'], 1),
    ('argument', ['var k = F', 'AFTER', 'out(ap(k))'], 1),
    ('eighth argument', ['var k = F', 'AFTER', 'out(ap8(1, 2, 3, 4, 5, 6, 7, k))'], 1),
    ('literal argument', ['out(ap(F))', 'AFTER'], 0),
    ('struct', ['var w : wr = [.a = 1, .f = F, .z = 2]', 'AFTER', 'out(w.f())'], 1),
    ('tuple', ['var w = (F, (3 : byte))', 'AFTER', 'out(w.0())'], 1),
    ('array', ['var w : (-> uint64)[3] = [nul, F, nul]', 'AFTER', 'out(w[1]())'], 1),
    ('slice', ['var w : (-> uint64)[:] = [nul, F][:]', 'AFTER', 'out(w[1]())'], 1),
    ('union', ['var w : uf = `Fa F', 'AFTER', 'match w', '| `Fa k:\tout(k())', '| `Fb:', ';;'], 1),
    ('copied', ['var k = F', 'AFTER', 'var k2 : (-> uint64)', 'k2 = dup(k)', 'trash()', 'out(k2())'], 1),
    ('pointer', ['var k = F', 'AFTER', 'var kp = &k', 'out(kp#())'], 1),
    ('inside another', ['var k = F', 'AFTER', 'var k2 = {; -> k()}', 'k = nul', 'out(k2())'], 1),
    ('in a global', ['gf = F', 'AFTER', 'out(gf())'], 1),
    ('generic argument', ['var k = F', 'AFTER', 'out(gap(k))'], 1),
    ('compared with another', ['var k = F', 'AFTER', 'var k2 = {; -> (0 : uint64)}', 'out(k() + k2())'], 1),
]
TOP = '''type sf = struct
	m : uint64
;;
type wr = struct
	a : byte
	f : (-> uint64)
	z : byte
;;
type uf = union
	`Fa (-> uint64)
	`Fb
;;
const five = {-> uint64; -> 5}
const inc = {x : uint64 -> uint64; -> x + 1}
const cond = {x : bool -> uint64
	if x
		-> 1
	else
		-> 0
	;;
}
const nul = {-> uint64; -> 0xdead}
const ap = {f : (-> uint64) -> uint64; -> f()}
const ap8 = {a : int, b : int, c : int, d : int, e : int, g : int, h : int, f : (-> uint64) -> uint64; -> f()}
generic gap = {f : (-> @r) -> @r; -> f()}
generic gap2 = {f : @f -> @f :: function @f; -> f}
var gf : (-> uint64)
'''


def bound(b, f, u):
    (bn, bt, bk, btop), (fn, ft, fv), (un, ut, uk) = b, f, u
    vn = {'global': 'vg$', 'global constant': 'vc$'}.get(bn, 'v')
    wr = fn == 'capture written'
    if wr and bk in (0, 2):
        return None
    import re
    body = [re.sub(r'\bv\b', vn, l).replace('TEMP', vn) for l in ft]
    after = '' if not bk or bk == 2 else '%s = 9' % vn
    val = fv
    if wr:
        val = {'called twice': 7 - 9 + 11, }.get(un, 7)
    ls = []
    for l in ut:
        if l == 'AFTER':
            if after:
                ls.append(after)
        elif 'F' in l.replace('`Fa', '').replace('`Fb', ''):
            i = [j for j in range(len(l)) if l[j] == 'F' and l[j - 1:j + 2] not in ('`Fa', '`Fb')][0]
            ls += (l[:i] + '\n'.join(body) + l[i + 1:]).split('\n')
        else:
            ls.append(l)
    mk = '\n'.join(ls)
    txt = bt.replace('MK', mk)
    top = btop if bk not in (3,) else ''
    if bk == 3:
        ps, args = btop.split('|')
        if 'sb$' in ps:
            top = 'type sb$ = struct\n\ta : byte[20]\n;;\nvar bs$ : sb$\n'
        src = top + 'const d$ = {%s\n%s\n}\nconst t$ = {\n\tdreset()\n\td$(%s)\n}\n' % (ps, txt, args)
    elif bk == 4:
        src = 'generic d$ = {v : @v -> void :: integral,numeric @v\n%s\n}\nconst t$ = {\n\tdreset()\n\td$((5 : uint64))\n}\n' % txt
        src = 'generic d$ = {v : @v, w : uint64 -> void\n%s\n}\nconst t$ = {\n\tdreset()\n\td$((5 : uint64), 5)\n}\n' % re.sub(r'\bv\b', 'w', txt.replace('var w', 'var ww').replace('w.f', 'ww.f').replace('w.0', 'ww.0').replace('w[1]', 'ww[1]').replace('match w', 'match ww').replace('w++', 'ww++').replace('-> w', '-> ww').replace('w += v', 'ww += v'))
    elif bk == 5:
        src = 'type sr$ = struct\n\ta : uint64[5]\n;;\nconst d$ = {v : uint64 -> sr$\n%s\nvar r : sr$\n-> r\n}\nconst t$ = {\n\tdreset()\n\td$(5)\n}\n' % txt
    elif bk == 6:
        src = 'trait tr$ @t =\n\tme$ : (v : @t -> void)\n;;\nimpl tr$ uint64 =\n\tme$ = {v\n%s\n\t}\n;;\nconst t$ = {\n\tdreset()\n\tme$((5 : uint64))\n}\n' % txt
    else:
        src = top + 'const t$ = {\n\tdreset()\n%s\n}\n' % txt
    return Item(src, [val], '%s captured, %s, %s' % (bn, fn, un))


def bounds():
    r = [bound(b, f, u) for b in BIND for f in FORM for u in USE]
    return [x for x in r if x]


# ---------------------------------------------------------------- recursion and several closures at a time
def various():
    r = []
    # one environment for each activation
    src = '''const rec$ = {n : uint64, up : (-> uint64) -> uint64
	var me = {; -> n * 10 + up()}
	if n == 0
		-> me()
	;;
	var s = rec$(n - 1, me)
	-> s + me() * 1000
}
const t$ = {
	out(rec$(%d, {; -> (1 : uint64)}))
}
'''
    for n in range(5):
        def rec(n, up):
            me = n * 10 + up
            return me if n == 0 else rec(n - 1, me) + me * 1000
        r.append(Item(src % n, [rec(n, 1)], 'closures of %d activations' % n))
    # made in a loop and copied each time
    for n in (1, 2, 5):
        for ty in ('byte', 'uint16', 'uint64'):
            r.append(Item('const t$ = {\n\tvar fs : (-> uint64)[8]\n\tdreset()\n\tfor var i : %s = 0; i < %d; i++\n\t\tvar j = i * 2\n\t\tfs[i] = dup({; -> (i : uint64) * 100 + (j : uint64)})\n\t\tj = 77\n\t;;\n\tfor var i = 0; i < %d; i++\n\t\tout(fs[i]())\n\t;;\n\tdcheck()\n}\n' % (ty, n, n),
                          [i * 102 for i in range(n)], 'made in a loop of %s' % ty))
    # a chain of copied closures capturing each other
    for n in range(1, 6):
        m = 'const t$ = {\n\tdreset()\n\tvar f0 = {; -> (1 : uint64)}\n' + ''.join('\tvar k%d : byte = %d\n\tvar f%d = {; -> f%d() * 3 + (k%d : uint64)}\n\tk%d = 99\n' % (i, i, i, i - 1, i, i) for i in range(1, n + 1)) + ''.join('\tf%d = {; -> (0xbad : uint64)}\n' % i for i in range(n)) + '\tout(f%d())\n}\n' % n
        v = 1
        for i in range(1, n + 1):
            v = v * 3 + i
        r.append(Item(m, [v], 'a chain of %d closures' % n))
    # closures with arguments of each kind and captured values at once
    for a in ('byte', 'int16', 'int32', 'uint64', 'flt32', 'flt64'):
        for b in ('byte', 'int16', 'int32', 'uint64', 'flt32', 'flt64'):
            for k in range(1, 9):
                l = lambda t, v: '%d.0' % v if 'flt' in t else '%d' % v
                m = 'const t$ = {\n\tvar c : %s = %s, d : %s = %s\n\tvar f = {%s -> void\n' % (a, l(a, 3), b, l(b, 4), ', '.join('p%d : %s' % (i, (a, b)[i % 2]) for i in range(k)))
                m += '\t\tout((c : uint64))\n\t\tout((d : uint64))\n' + ''.join('\t\tout((p%d : uint64))\n' % i for i in range(k)) + '\t}\n\tc = %s\n\tf(%s)\n}\n' % (l(a, 9), ', '.join(l((a, b)[i % 2], 10 + i) for i in range(k)))
                r.append(Item(m, [3, 4] + [10 + i for i in range(k)], '%s and %s captured, %d arguments' % (a, b, k)))
    return r


def body(c):
    tree = Tree('c')
    tot = [0, 0]
    for items in (bounds(), shadows(), various(), nestings(c.thorough), histories(c.thorough), capsets(c.thorough)):
        st = run_items(c, tree, items, PRELUDE + TOP)
        tot = [tot[0] + st['programs'], tot[1] + st['outputs']]
    c.add(executions=tot[0], transitions=tot[1])


if __name__ == '__main__':
    main(body, 'C10')
