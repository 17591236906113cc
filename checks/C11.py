#!/usr/bin/env python3
"""C11: indexing and slicing are bounds-checked exactly."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *
from mcv.comp import *

BITS = {'int8': 8, 'int16': 16, 'int32': 32, 'int64': 64, 'uint8': 8, 'uint16': 16, 'uint32': 32, 'uint64': 64, 'int': 32, 'uint': 32, 'byte': 8, 'mint': 8, 'muint': 16}
SGN = {'int8', 'int16', 'int32', 'int64', 'int', 'mint'}
# element types: name -> (source, bits kept)
ELT = {'by': ('byte', 8), 'i16': ('int16', 16), 'i32': ('int32', 32), 'u64': ('uint64', 64), 's3': ('s3', 24), 's5': ('s5', 40), 's24': ('s24', 64), 'a12': ('uint32[3]', 32)}
PRE_ = '''type mint = int8
type muint = uint16
type s3 = struct
	a : byte
	b : byte
	c : byte
;;
type s5 = struct
	a : byte
	b : byte[4]
;;
type s24 = struct
	a : uint64
	b : uint64
	c : uint64
;;
const mk_by = {x : uint64; -> (x : byte)}
const rd_by = {x : byte; -> (x : uint64)}
const mk_i16 = {x : uint64; -> (x : int16)}
const rd_i16 = {x : int16; -> ((x : uint16) : uint64)}
const mk_i32 = {x : uint64; -> (x : int32)}
const rd_i32 = {x : int32; -> ((x : uint32) : uint64)}
const mk_u64 = {x : uint64; -> x}
const rd_u64 = {x : uint64; -> x}
const mk_s3 = {x : uint64 -> s3
	var r : s3
	r = [.a=(x:byte), .b=((x>>8):byte), .c=((x>>16):byte)]
	-> r
}
const rd_s3 = {r : s3; -> (r.a : uint64) | ((r.b : uint64) << 8) | ((r.c : uint64) << 16)}
const mk_s5 = {x : uint64 -> s5
	var r : s5
	r.a = (x : byte)
	for var i = 0; i < 4; i++
		r.b[i] = ((x >> (8 * (i + 1))) : byte)
	;;
	-> r
}
const rd_s5 = {r : s5
	var v = (r.a : uint64)
	for var i = 0; i < 4; i++
		v |= (r.b[i] : uint64) << (8 * (i + 1) : uint64)
	;;
	-> v
}
const mk_s24 = {x : uint64 -> s24
	var r : s24
	r = [.a=x, .b=x + 1, .c=x + 2]
	-> r
}
const rd_s24 = {r : s24
	if r.b != r.a + 1 || r.c != r.a + 2; -> 0xbad ;;
	-> r.a
}
const mk_a12 = {x : uint64 -> uint32[3]; -> [(x : uint32), (x + 1 : uint32), (x + 2 : uint32)]}
const rd_a12 = {r : uint32[3]
	if r[1] != r[0] + 1 || r[2] != r[0] + 2; -> 0xbad ;;
	-> (r[0] : uint64)
}
const pat = {i : uint64; -> (i * 0x9e3779b97f4a7c15) >> 3}
'''
M64 = (1 << 64) - 1


def patv(i, e):
    return ((i * 0x9e3779b97f4a7c15 & M64) >> 3) & (1 << ELT[e][1]) - 1


def lead(e, L, tot):
    """per element type and length: arena and helpers"""
    s = ELT[e][0]
    n = '%s_%d' % (e, L)
    return '''type w_%(n)s = struct
	pre : byte[19]
	a : %(s)s[%(L)d]
	post : byte[19]
;;
type na_%(n)s = %(s)s[%(L)d]
type ns_%(n)s = %(s)s[:]
type st_%(n)s = struct
	x : byte
	s : %(s)s[:]
	y : byte
;;
var ar_%(n)s : %(s)s[%(tot)d]
var ga_%(n)s : w_%(n)s
var gs_%(n)s : %(s)s[:]
var gt_%(n)s : st_%(n)s
var aa_%(n)s : %(s)s[%(L)d][3]
const init_%(n)s = {
	for var i : uint64 = 0; i < %(tot)d; i++
		ar_%(n)s[i] = mk_%(e)s(pat(i))
	;;
}
const chk_%(n)s = {
	for var i : uint64 = 0; i < %(tot)d; i++
		if rd_%(e)s(ar_%(n)s[i]) != rd_%(e)s(mk_%(e)s(pat(i)))
			out(i)
			out(rd_%(e)s(ar_%(n)s[i]))
		;;
	;;
}
const load_%(n)s = {p : %(s)s[%(L)d]#
	for var i : uint64 = 0; i < %(L)d; i++
		p#[i] = ar_%(n)s[i + 4]
	;;
}
const stor_%(n)s = {p : %(s)s[%(L)d]#
	for var i : uint64 = 0; i < %(L)d; i++
		ar_%(n)s[i + 4] = p#[i]
	;;
}
const get_%(n)s = {; -> ar_%(n)s[4:%(L4)d]}
const rset_%(n)s = {p : w_%(n)s#
	for var i = 0; i < 19; i++
		p.pre[i] = 0x77
		p.post[i] = 0x88
	;;
}
const rchk_%(n)s = {p : w_%(n)s#
	for var i = 0; i < 19; i++
		if p.pre[i] != 0x77 || p.post[i] != 0x88
			out(0xdddd)
		;;
	;;
}
''' % dict(n=n, s=s, L=L, tot=tot, e=e, L4=L + 4)


# container: (prologue, expression, epilogue); the expression denotes elements 4 .. 4+L of the arena
CONT = {
    'larr': ('var w : w_{n}\n\trset_{n}(&w)\n\tload_{n}(&w.a)\n', 'w.a', '\tstor_{n}(&w.a)\n\trchk_{n}(&w)\n'),
    'lvar': ('var v : {s}[{L}]\n\tload_{n}(&v)\n', 'v', '\tstor_{n}(&v)\n'),
    'garr': ('rset_{n}(&ga_{n})\n\tload_{n}(&ga_{n}.a)\n', 'ga_{n}.a', '\tstor_{n}(&ga_{n}.a)\n\trchk_{n}(&ga_{n})\n'),
    'parr': ('rset_{n}(&ga_{n})\n\tload_{n}(&ga_{n}.a)\n\tvar p = &ga_{n}.a\n', 'p#', '\tstor_{n}(&ga_{n}.a)\n\trchk_{n}(&ga_{n})\n'),
    'narr': ('var v : na_{n}\n\tload_{n}((&v : {s}[{L}]#))\n', 'v', '\tstor_{n}((&v : {s}[{L}]#))\n'),
    'aarr': ('load_{n}(&aa_{n}[1])\n', 'aa_{n}[1]', '\tstor_{n}(&aa_{n}[1])\n'),
    'aidx': ('load_{n}(&aa_{n}[rep() & 1])\n\tvar j = rep() & 1\n', 'aa_{n}[j]', '\tstor_{n}(&aa_{n}[rep() & 1])\n'),
    'lsl': ('var v = ar_{n}[4:{L4}]\n', 'v', ''),
    'gsl': ('gs_{n} = ar_{n}[4:{L4}]\n', 'gs_{n}', ''),
    'stsl': ('gt_{n}.s = ar_{n}[4:{L4}]\n', 'gt_{n}.s', ''),
    'psl': ('gs_{n} = ar_{n}[4:{L4}]\n\tvar p = &gs_{n}\n', 'p#', ''),
    'pst': ('gt_{n}.s = ar_{n}[4:{L4}]\n\tvar p = &gt_{n}\n', 'p.s', ''),
    'nsl': ('var v = (ar_{n}[4:{L4}] : ns_{n})\n', 'v', ''),
    'fn': ('', 'get_{n}()', ''),
    'resl': ('', 'ar_{n}[2:{L6}][2:{L2}]', ''),
    'ssl': ('var u : {s}[:][2]\n\tu[0] = ar_{n}[0:1]\n\tu[1] = ar_{n}[4:{L4}]\n\tvar v = u[:]\n', 'v[1]', ''),
}


def bounds(t, L):
    b = BITS[t]
    v = {0, 1, 2, L - 1, L, L + 1, L + 4, 1 << (b - 1), (1 << b) - 1, (1 << b) - 2, (1 << (b - 1)) - 1}
    for k in (7, 8, 15, 16, 31, 32, 33, 61, 63):
        if k < b:
            v |= {1 << k, (1 << k) + 1, (1 << b) - (1 << k)}
    v |= {-1 & (1 << b) - 1, -L & (1 << b) - 1, -4 & (1 << b) - 1}
    return sorted(x & (1 << b) - 1 for x in v if x >= 0 and x < 1 << b)


def val(t, raw):
    b = BITS[t]
    return raw - (1 << b) if t in SGN and raw >> (b - 1) else raw


def indexed(e, L, ck, t, op):
    s, kb = ELT[e]
    f = dict(n='%s_%d' % (e, L), s=s, L=L, L4=L + 4, L6=L + 6, L2=L + 2, e=e)
    pro, ex, epi = [x.format(**f) for x in CONT[ck]]
    mod = {'read': None, 'write': lambda o: 777, 'addr': lambda o: 778, 'rmw': lambda o: o + 3, 'inc': lambda o: o + 1, 'swap': lambda o: 5}[op]
    m = (1 << kb) - 1
    stm = {'read': 'out(rd_%s(%s[i]))' % (e, ex), 'write': '%s[i] = mk_%s(777)' % (ex, e), 'addr': 'var q = &%s[i]\n\tq# = mk_%s(778)' % (ex, e),
           'rmw': '%s[i] += 3' % ex, 'inc': '%s[i]++' % ex, 'swap': 'var o = %s[i]\n\t%s[i] = mk_%s(5)\n\tout(rd_%s(o))' % (ex, ex, e, e)}[op]
    src = 'const t$ = {\n\tif rep() & 1 == 1\n\t\tchk_%s()\n\telse\n\t\tinit_%s()\n\t\tf$((arg(0) : %s))\n\t;;\n}\nconst f$ = {i : %s\n\t%s\t%s\n%s}\n' % (f['n'], f['n'], t, t, pro, stm, epi)
    args, want = [], []
    for raw in bounds(t, L):
        i = val(t, raw)
        args += [(raw,), (0,)]
        if 0 <= i < L:
            o = patv(i + 4, e)
            if op in ('read', 'swap'):
                want.append(o)
            want.append(ST(0))
            if mod:
                x = mod(o) & m
                if x != o:
                    want += [i + 4, x]
            want.append(ST(0))
        else:
            want += [ST(1), ST(0)]
    return Item(src, want, '%s of element [i : %s] of %s (%s of %s, length %d)' % (op, t, ex, ck, s, L), args=args)


def sliced(e, L, ck, t, t2, form):
    s, kb = ELT[e]
    f = dict(n='%s_%d' % (e, L), s=s, L=L, L4=L + 4, L6=L + 6, L2=L + 2, e=e)
    pro, ex, epi = [x.format(**f) for x in CONT[ck]]
    b = {'lh': 'lo:hi', 'l': 'lo:', 'h': ':hi', '': ':'}[form]
    src = ('const t$ = {\n\tif rep() & 1 == 1\n\t\tchk_%s()\n\telse\n\t\tinit_%s()\n\t\tf$((arg(0) : %s), (arg(1) : %s))\n\t;;\n}\n'
           'const f$ = {lo : %s, hi : %s\n\t%s\tvar q = %s[%s]\n\tout((q.len : uint64))\n\tif q.len > 0\n\t\tout(rd_%s(q[0]))\n\t\tout(rd_%s(q[q.len - 1]))\n\t\tq[q.len - 1] = mk_%s(777)\n\t;;\n%s}\n'
           % (f['n'], f['n'], t, t2, t, t2, pro, ex, b, e, e, e, epi))
    args, want = [], []
    los = bounds(t, L) if 'l' in form else [0]
    his = bounds(t2, L) if 'h' in form else [None]
    for rl in los:
        for rh in his:
            lo, hi = val(t, rl), L if rh is None else val(t2, rh)
            args += [(rl, rh or 0), (0, 0)]
            if 0 <= lo <= hi <= L:
                want.append(hi - lo)
                if hi > lo:
                    want += [patv(lo + 4, e), patv(hi + 3, e)]
                want.append(ST(0))
                if hi > lo and patv(hi + 3, e) != 777 & (1 << kb) - 1:
                    want += [hi + 3, 777 & (1 << kb) - 1]
                want.append(ST(0))
            else:
                want += [ST(1), ST(0)]
    return Item(src, want, 'slice [%s] (%s, %s) of %s (%s of %s, length %d)' % (b, t, t2, ex, ck, s, L), args=args)


def consts():
    """literal bounds: the compiler may refuse what is certainly out of bounds, otherwise the program ends"""
    for e, L in (('by', 5), ('s5', 5), ('u64', 5)):
        n = '%s_%d' % (e, L)
        for ck in CONT:
            s = ELT[e][0]
            f = dict(n=n, s=s, L=L, L4=L + 4, L6=L + 6, L2=L + 2, e=e)
            pro, ex, epi = [x.format(**f) for x in CONT[ck]]
            for i in (0, 1, 4, 5, 6, 255, 256, -1):
                ok = 0 <= i < L
                yield Item('const t$ = {\n\tinit_%s()\n\t%s\tout(rd_%s(%s[%s]))\n}\n' % (n, pro, e, ex, i), [patv(i + 4, e)] if ok else [], 'read of literal index %d of %s (%s, length 5)' % (i, ex, ck), status=0 if ok else 1)
            for lo in (None, 0, 1, 5, 6, -1):
                for hi in (None, 0, 4, 5, 6, -1):
                    l, h = lo or 0, L if hi is None else hi
                    ok = 0 <= l <= h <= L
                    yield Item('const t$ = {\n\tinit_%s()\n\t%s\tvar q = %s[%s:%s]\n\tout((q.len : uint64))\n\tif q.len > 0; out(rd_%s(q[0])) ;;\n}\n' % (n, pro, ex, '' if lo is None else lo, '' if hi is None else hi, e),
                               ([h - l] + ([patv(l + 4, e)] if h > l else [])) if ok else [], 'slice [%s:%s] of %s (%s, length 5)' % (lo, hi, ex, ck), status=0 if ok else 1)
    lit = b'hello'
    for i in range(-1, 7):
        ok = 0 <= i < 5
        yield Item('const t$ = {\n\tout(("hello"[%d] : uint64))\n}\n' % i, [lit[i]] if ok else [], 'index %d of a string literal' % i, status=0 if ok else 1)
        for j in range(-1, 7):
            ok = 0 <= i <= j <= 5
            yield Item('const t$ = {\n\touts("hello"[%d:%d])\n}\n' % (i, j), [lit[i:j]] if ok else [], 'slice [%d:%d] of a string literal' % (i, j), status=0 if ok else 1)


def nested():
    """several checked accesses in one expression: each is checked, in any position"""
    vals = [0, 1, 2, 3, 4, M64]
    for form, ex in enumerate(('m[i][j]', 'm[i:][0][j]', 's[a[i]][j]', 'm[i][a[j]]', 'm[i][j:][0]', 's[i][j]', 'a[a[i] + a[j]]', 'q[i].v[j]', 'q[i:][0].v[j:][0]')):
        for op in ('read', 'write'):
            if op == 'write' and form == 9:
                continue
            args, want = [], []
            for i in vals:
                for j in vals:
                    si, sj = (x - (1 << 64) if x >> 63 else x for x in (i, j))
                    A = [2, 0, 1, 9]
                    try:
                        def ck(x, n):
                            if not 0 <= x < n:
                                raise IndexError
                            return x
                        if form in (0, 1, 5, 7, 8):
                            ck(si, 3)
                            ck(sj, 3)
                            r = 10 * si + sj
                        elif form == 2:
                            r = 10 * ck(A[ck(si, 4)], 3) + ck(sj, 3)
                        elif form == 3:
                            r = 10 * ck(si, 3) + ck(A[ck(sj, 4)], 3)
                        elif form == 4:
                            r = 10 * ck(si, 3) + ck(sj, 3)
                        else:
                            r = A[ck(A[ck(si, 4)] + A[ck(sj, 4)], 4)]
                        w = [r] if op == 'read' else [500]
                    except IndexError:
                        w = None
                    args.append((i, j))
                    want += (w or []) + [ST(0 if w else 1)]
            st = 'out((%s : uint64))' % ex if op == 'read' else '%s = 500\n\tout((%s : uint64))' % (ex, ex)
            if op == 'write' and form == 6:
                st = 'var b = &a[a[i] + a[j]]\n\tb# = 500\n\tout((b# : uint64))'
            if op == 'write' and form in (1, 2, 4, 8):
                st = 'var b = &%s\n\tb# = 500\n\tout((b# : uint64))' % ex
            src = ('const t$ = {\n\tvar m : int64[3][3], a : int64[4], s : int64[:][3], q : nq[3], i : int64, j : int64\n\ta = [2, 0, 1, 9]\n\tfor var x = 0; x < 3; x++\n\t\tfor var y = 0; y < 3; y++\n'
                   '\t\t\tm[x][y] = (10 * x + y : int64)\n\t\t\tq[x].v[y] = (10 * x + y : int64)\n\t\t;;\n\t\ts[x] = m[x][:]\n\t;;\n\ti = (arg(0) : int64)\n\tj = (arg(1) : int64)\n\t%s\n}\n' % st)
            yield Item(src, want, '%s of %s' % (op, ex), args=args)


def lens_():
    """the length of an array used as every integer type that holds it, then the array indexed and sliced"""
    for L in (3, 100, 200, 300, 70000):
        for t in BITS:
            b = BITS[t]
            signed = not t.startswith(('u', 'b', 'c'))
            if L >= 1 << (b - signed):
                continue
            for u in ('int8', 'uint64', t):
                idx = sorted({0, 1, L - 1, L, L + 1, min(127, L), L & 255, (L & 255) - 1})
                idx = [i for i in idx if 0 <= i < (127 if u == 'int8' else 1 << (BITS[u] - 1))]
                args, want = [], []
                for i in idx:
                    args.append((i, 0))
                    want += ([L, i + 1] if i < L else [L]) + [ST(0 if i < L else 1)]
                    args.append((i, 1))
                    want += ([L, L - i] if i <= L else [L]) + [ST(0 if i <= L else 1)]
                src = ('var g$ : byte[%d]\nconst t$ = {\n\tvar l : %s = g$.len, i : %s = (arg(0) : %s)\n\tout((l : uint64))\n\tif arg(1) == 0\n\t\tg$[i] = 1\n\t\tout((i : uint64) + (g$[i] : uint64))\n\telse\n\t\tvar q = g$[i:]\n\t\tout(q.len)\n\t;;\n}\n'
                       % (L, t, u, u))
                yield Item(src, want, 'the length of byte[%d] as %s, then indexed by %s' % (L, t, u), args=args)


def exprs():
    """indexes and bounds that are computed: the check sees their value, not their form"""
    vals = (-5, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 64, 127, 128, 255, 256, 257, 1 << 31, -(1 << 31), (1 << 32) - 1, 1 << 32, (1 << 32) + 2, (1 << 63) - 1, -(1 << 63))
    forms = [  # source, value, only for signed
        ('i - 1', lambda i: i - 1), ('i + 1', lambda i: i + 1), ('1 + i', lambda i: i + 1), ('5 - i', lambda i: 5 - i), ('i - i', lambda i: 0), ('i * 2', lambda i: i * 2), ('2 * i + 1', lambda i: 2 * i + 1), ('i / 2', lambda i: int(abs(i) // 2 * (-1 if i < 0 else 1))),
        ('-i', lambda i: -i), ('~i', lambda i: ~i), ('i & 7', lambda i: i & 7), ('i | 4', lambda i: i | 4), ('i ^ 1', lambda i: i ^ 1), ('i << 1', lambda i: i << 1), ('i >> 1', lambda i: i >> 1), ('i - k', lambda i: i - 2), ('i + k', lambda i: i + 2), ('k', lambda i: 2),
        ('id$(i)', lambda i: i), ('p#', lambda i: i), ('q.m', lambda i: i), ('t.1', lambda i: i), ('z[1]', lambda i: i), ('(x = i)', lambda i: i), ('(x += 0)', lambda i: 0), ('y[1:].len - 2', lambda i: 1), ('v.len', lambda i: 5), ('v.len - 1', lambda i: 4), ('v.len - i', lambda i: 5 - i), ('gk$', lambda i: 2), ('gk$ + 3', lambda i: 5), ('(i : uint64)', lambda i: i % (1 << 64))]
    for ty in ('int64', 'int32', 'int', 'int8', 'uint64', 'uint32', 'byte'):
        b = BITS[ty]
        sg = ty[0] == 'i'
        wrap = lambda n: ((n + (1 << b - 1)) % (1 << b)) - (1 << b - 1) if sg else n % (1 << b)
        ok = lambda n: -(1 << b - 1) <= n < (1 << b - 1) if sg else 0 <= n < 1 << b
        for src_, f in forms:
            if src_ == '(i : uint64)' and b != 64:
                continue
            if not sg and src_[0] in '-~':
                continue
            for cont in ('byte[5]', 'byte[:]', 'int64[5]', 'int64[:]'):
                for use_ in ('read', 'write', 'lo', 'hi'):
                    e, arr = cont.split('[')[0], cont.endswith('5]')
                    args, want = [], []
                    for i in vals:
                        if not ok(i):
                            continue
                        j = f(i)
                        j = j if src_ in ('v.len', 'v.len - 1', 'k', 'gk$') else wrap(j)
                        if src_ == '(i : uint64)':
                            j = i % (1 << 64)
                        args.append((i % (1 << 64),))
                        lim = 5 if use_ in ('lo', 'hi') else 4
                        good = 0 <= j <= lim
                        if not good:
                            want += [ST(1)]
                        else:
                            want += {'read': [10 + j], 'write': [77] + [77 if n == j else 10 + n for n in range(5)], 'lo': [5 - j], 'hi': [j]}[use_] + [ST(0)]
                    d = {'read': 'out((v[%s] : uint64))', 'write': 'v[%s] = 77; out(77); for var n = 0; n < 5; n++; out((v[n] : uint64)) ;;', 'lo': 'var r = v[%s:]; out(r.len)', 'hi': 'var r = v[:%s]; out(r.len)'}[use_] % src_
                    pre = ''
                    if 'id$' in src_:
                        pre = 'const id$ = {a : %s; -> a}\n' % ty
                    if 'gk$' in src_:
                        pre = 'const gk$ : %s = 2\n' % ty
                    body_ = 'var a : %s[5], i : %s = (arg(0) : %s)\n\tfor var n = 0; n < 5; n++; a[n] = (10 + n : %s) ;;\n\tvar v%s\n' % (e, ty, ty, e, ' = a' if arr else ' = a[:]')
                    if src_ in ('k', 'i - k', 'i + k'):
                        body_ += '\tvar k : %s = 2\n' % ty
                    if 'p#' in src_:
                        body_ += '\tvar p = &i\n'
                    if 'q.m' in src_:
                        pre += 'type q$ = struct\n\tb : byte\n\tm : %s\n;;\n' % ty
                        body_ += '\tvar q : q$ = [.m=i]\n'
                    if 't.1' in src_:
                        body_ += '\tvar t = ((1 : byte), i)\n'
                    if 'z[1]' in src_:
                        body_ += '\tvar z = [i, i, i]\n'
                    if '(x ' in src_:
                        body_ += '\tvar x : %s = 0\n' % ty
                    if 'y[' in src_:
                        body_ += '\tvar y : byte[4]\n'
                    yield Item(pre + 'const t$ = {\n\t%s\t%s\n}\n' % (body_, d), want, '%s of %s at %s, i : %s' % (use_, cont, src_, ty), args=args)


def body(c):
    tree = Tree('c')
    its = []
    pre = PRE_ + 'type nq = struct\n\tp : byte\n\tv : int64[3]\n;;\n'
    tys = list(BITS)
    groups = [('by', 5), ('i32', 300), ('s3', 140), ('u64', 5), ('s5', 5), ('s24', 5), ('a12', 5), ('by', 0), ('by', 300), ('i16', 1), ('u64', 140)]
    lens = set()
    for e, L in groups:
        if (e, L) not in lens:
            lens.add((e, L))
            pre += lead(e, max(L, 1), max(L, 1) + 9) if L else ''
    n = 0
    for e, L in groups:
        if not L:
            continue
        full = c.thorough or (e, L) in (('by', 5), ('by', 300), ('s3', 140))
        for ck in CONT:
            for k, t in enumerate(tys):
                for j, op in enumerate(('read', 'write', 'addr', 'rmw', 'inc', 'swap')):
                    if op in ('rmw', 'inc') and e[0] in 'sa':
                        continue
                    n += 1
                    if full or (n * 7 + k + j) % 4 == 0:
                        its.append(indexed(e, L, ck, t, op))
            for k, t in enumerate(tys):
                for form in ('lh', 'l', 'h', ''):
                    if form == '' and k:
                        continue
                    n += 1
                    if full or (n * 7 + k) % 4 == 0:
                        its.append(sliced(e, L, ck, t, tys[(k * 5 + n) % len(tys)], form))
    its += consts()
    its += nested()
    its += lens_()
    its += exprs()
    st = run_items(c, tree, its, pre, per=250)
    runs = sum(len(i.args) if i.args else 1 for i in its)
    c.add(states=runs, transitions=st['outputs'], traces_validated_against_impl=runs)
    c.cov['programs'] = len(its)
    c.cov['exhaustive'] = True
    c.sample('byte slice of 300, index type int8: every boundary value, read/write/address/compound; the arena around it checked after each')


main(body, 'C11')
