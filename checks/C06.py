#!/usr/bin/env python3
"""C06: values survive calls and returns whatever the signature, between Myrddin functions and across to C."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *
from mcv.comp import *
from mcv.aggs import *

VOID = None


def call(params, ret, seed, desc):
    """one signature: called directly, through a value, through one of a named type, as a closure, with literals and with results as arguments, and through C"""
    c = [seed]
    n = len(params)
    a = [t.fresh(c) for t in params]
    b = [t.fresh(c) for t in params]
    tys = list(dict.fromkeys(params + ([ret] if ret else [])))
    E = sum((t.enc(v) for t, v in zip(params, a)), [])
    B = sum((t.enc(v) for t, v in zip(params, b)), [])
    r1, r2 = (ret.fresh(c), ret.fresh(c)) if ret else (None, None)
    R1, R2 = (ret.enc(r1), ret.enc(r2)) if ret else ([], [])
    ps = ', '.join('a%d : %s' % (i, t.src) for i, t in enumerate(params))
    enc = ''.join('\te_%s$(&a%d)\n' % (t.name, i) for i, t in enumerate(params))
    mut = ''.join('\ta%d = %s\n' % (i, t.lit(v)) for i, (t, v) in enumerate(zip(params, b)))
    rs = ret.src if ret else 'void'
    ret1 = '\t-> %s\n' % ret.lit(r1) if ret else ''
    sig = '(%s -> %s)' % (ps, rs) if ps else '(-> %s)' % rs
    cd = cdecls(*tys)
    if cd is not None and any(isinstance(t, Arr) for t in tys):
        cd = None
    src = decls(*tys)
    pre, csrc = '', None
    src += 'const f$ = {%s -> %s\n%s%s%s%s}\n' % (ps, rs, enc, mut, enc, ret1)
    # results as arguments
    src += ''.join('const g%d_$ = {-> %s; -> %s}\n' % (i, t.src, t.lit(v)) if not isinstance(t, (St, Un, Nm)) else 'const g%d_$ = {-> %s\n\tvar r : %s = %s\n\t-> r\n}\n' % (i, t.src, t.src, t.lit(v)) for i, (t, v) in enumerate(zip(params, a)))
    if ret:
        src += 'type w$ = struct\n\tp : byte[9]\n\tv : %s\n\tz : byte[9]\n;;\n' % rs
    m = 'const t$ = {\n\tvar y : int64 = 0x123456789abcdef1, fy = 1.5, ib : byte = 0xa7\n'
    m += ''.join('\tvar x%d : %s = %s\n' % (i, t.src, t.lit(v)) for i, (t, v) in enumerate(zip(params, a)))
    xs = ', '.join('x%d' % i for i in range(n))
    ex = ''.join('\te_%s$(&x%d)\n' % (t.name, i) for i, t in enumerate(params))
    er = '\te_%s$(&r)\n' % ret.name if ret else ''
    lets = 'var r = ' if ret else ''
    asg = 'r = ' if ret else ''
    want = []
    m += '\t%sf$(%s)\n%s%s' % (lets, xs, er, ex)
    want += E + B + R1 + E
    if ret:
        m += '\tvar w : w$\n\tfor var i = 0; i < 9; i++\n\t\tw.p[i] = 0x11\n\t\tw.z[i] = 0x22\n\t;;\n\tw.v = f$(%s)\n\tfor var i = 0; i < 9; i++\n\t\tif w.p[i] != 0x11 || w.z[i] != 0x22; out(0xdead) ;;\n\t;;\n\te_%s$(&w.v)\n' % (xs, ret.name)
        want += E + B + R1
    m += '\tvar h = f$\n\t%sh(%s)\n%s' % (asg, xs, er)
    want += E + B + R1
    src += 'type fnt$ = %s\n' % sig
    m += '\tvar hn : fnt$ = (f$ : fnt$)\n\t%shn(%s)\n%s' % (asg, xs, er)
    want += E + B + R1
    m += '\tvar k = 4242, k2 = 2.5\n\tvar cl = {%s -> %s\n\t\tout((k : uint64))\n\t\tif k2 != 2.5; out(0xdead) ;;\n%s%s\t}\n\t%scl(%s)\n%s' % (ps, rs, enc.replace('\t', '\t\t'), '\t\t-> %s\n' % ret.lit(r2) if ret else '', asg, xs, er)
    want += [4242] + E + R2
    m += '\t%sf$(%s)\n%s' % (asg, ', '.join(t.lit(v) for t, v in zip(params, a)), er)
    want += E + B + R1
    m += '\t%sf$(%s)\n%s' % (asg, ', '.join('g%d_$()' % i for i in range(n)), er)
    want += E + B + R1
    if cd is not None:
        cps = ', '.join(t.cty('a%d' % i) for i, t in enumerate(params)) or 'void'
        crt_ = ret.cty('') if ret else 'void'
        csrc = cd + 'extern %s f$(%s);\n%s cf$(%s)\n{\n\tstk();\n\t%s\n%s\t%sf$(%s);\n%s}\n' % (
            crt_, cps, crt_, cps, ' '.join(t.cenc('a%d' % i) for i, t in enumerate(params)), '\t%s;\n' % ret.cty('r') if ret else '', 'r = ' if ret else '',
            ', '.join('a%d' % i for i in range(n)), ('\t%s\n\treturn r;\n' % ret.cenc('r')) if ret else '')
        pre = ''.join('\ttype %s$\n' % t.name for t in named(tys)) if 0 else ''
        src = 'extern const cf$ : %s\n' % sig + src
        m += '\t%scf$(%s)\n%s' % (asg, xs, er)
        want += E + E + B + R1 + R1
    m += '%s\tout((y : uint64))\n\tout((&fy : uint64#)#)\n\tout((ib : uint64))\n}\n' % ex
    want += E + [0x123456789abcdef1, 0x3ff8000000000000, 0xa7]
    return Item(src + m, want, desc, c=csrc)


def named(tys):
    return []


A = dict(S)


def st(*k):
    return St('s_' + '_'.join(k), [S[x] for x in k])


KINDS = [S[k] for k in ('by', 'h', 'w', 'q', 'f', 'd', 'bo', 'sl', 'fn')] + [st('w'), st('q'), st('by', 'by', 'by'), st('f'), st('f', 'f'), st('d'), st('q', 'w'), st('q', 'f'), st('d', 'by'), st('d', 'd'), st('f', 'f', 'f'), st('f', 'w'), st('q', 'q', 'by'), st('d', 'd', 'd'),
                                                              Un('en', [None, None, None]), Un('u_q', [S['q'], None]), Un('u_by', [S['by'], None]), Arr('aby3', S['by'], 3), Tup('t_by_d', [S['by'], S['d']]), St('sb12', [Arr('ab12', S['by'], 12)]), St('n_f', [S['w'], st('f')])]


def sigs(c):
    pfx = [(0, 0), (4, 0), (5, 0), (6, 0), (0, 6), (0, 7), (0, 8), (5, 7), (6, 8), (3, 3)]
    k = 0
    red = [t for t in KINDS if t.name not in ('h', 'bo', 'fn', 's_d', 's_q', 's_f_f_f', 's_d_d_d', 'u_by', 'aby3', 's_by_by_by', 'en')]
    for ni, nf in pfx:
        for i, t in enumerate(KINDS):
            for j, u in enumerate(KINDS):
                k += 1
                if not c.thorough and (ni or nf) and not (t in red and u in red):
                    continue
                p = [S['q']] * ni + [S['d']] * nf + [t, u]
                if k % 3 == 0:
                    p += [S['w'], S['f']]
                elif k % 3 == 1:
                    p = p[ni:] + p[:ni] if ni and nf else p
                ret = KINDS[(i * 7 + j * 3 + ni) % len(KINDS)] if k % 11 else VOID
                yield p, ret
    small = [S['by'], S['q'], S['f'], S['d'], st('q'), st('f', 'f'), st('q', 'f'), st('d', 'd'), st('q', 'q'), st('q', 'q', 'by'), S['sl']]
    for t in small:
        for u in small:
            for v in small:
                k += 1
                yield [t, u, v], small[k % 11]
                if c.thorough:
                    for ni, nf in ((5, 7), (6, 7), (5, 8), (4, 0), (0, 7)):
                        yield [S['q']] * ni + [S['d']] * nf + [t, u, v], small[(k + ni) % 11]
    for t in small + KINDS:
        for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16):
            yield [t] * n, t
            yield [t] * n, VOID
            yield [t, S['q']] * n, t
            yield [S['d'], t] * n, t


# walks a type description, reporting what it says
WALK = '''
const at = {p : byte#, i : uint64 -> byte#; -> (((p : uint64) + i) : byte#) }
const pk = {pp : byte## -> uint64
	var p = pp#, b = (p# : uint64), k : uint64 = 0, v : uint64 = 0, sh : uint64 = 0
	while k < 8 && b & (0x80 >> k) != 0
		k++
	;;
	v = b & ((0x80 >> k) - 1)
	sh = 7 - k
	for var i : uint64 = 1; i <= k; i++
		v |= (at(p, i)# : uint64) << sh
		sh += 8
	;;
	pp# = at(p, k + 1)
	-> v
}
const wname = {pp : byte##
	var l = pk(pp), p = pp#
	outs(p[:l])
	pp# = at(p, l)
}
const wsub = {pp : byte##
	var l = pk(pp), p = pp#
	var e = at(p, l)
	wt(&p, e)
	if p != e; out(0xbad1e47) ;;
	pp# = e
}
const wt : (pp : byte##, e : byte# -> void) = {pp, e
	var tag = pp##, n : uint64, q : byte#
	pp# = at(pp#, 1)
	out((tag & 0x7f : uint64))
	match tag
	| 18: wsub(pp)
	| 20: wsub(pp)
	| 19:
		n = pk(pp)
		out(n)
		for var i : uint64 = 0; i < n; i++; wsub(pp) ;;
	| 21:
		out(pk(pp)); out(pk(pp)); out(pk(pp))
		wsub(pp)
	| 22:
		out(pk(pp)); out(pk(pp)); n = pk(pp); out(n)
		for var i : uint64 = 0; i < n; i++; wsub(pp) ;;
	| 23:
		out(pk(pp)); out(pk(pp)); n = pk(pp); out(n)
		for var i : uint64 = 0; i < n; i++; wname(pp); wsub(pp) ;;
	| 24:
		out(pk(pp)); out(pk(pp)); n = pk(pp); out(n)
		for var i : uint64 = 0; i < n; i++; wname(pp); wsub(pp) ;;
	| 156:
		q = (pp# : byte##)#
		n = pk(&q)
		var end = at(q, n)
		if q# != 28; out(0xbad2) ;;
		q = at(q, 1)
		wname(&q)
		wsub(&q)
		if q != end; out(0xbad3) ;;
		pp# = at(pp#, 8)
	| _:
	;;
}
'''
TAGS = {'by': 9, 'i8': 4, 'h': 5, 'uh': 11, 'w': 7, 'uw': 13, 'q': 8, 'uq': 14, 'f': 15, 'd': 16, 'bo': 2, 'ch': 3, 'in': 6}


def tdesc(t):
    """what the walker must report"""
    nm = lambda s: Name(s + '$' if '$' not in s else s)
    if isinstance(t, Sc):
        return {'p': [18, 9], 'sl': [20, 9], 'fn': [19, 1, 14]}.get(t.name) or [TAGS[t.name]]
    if isinstance(t, Nm):
        return [28, nm(t.name)] + tdesc(t.sub)
    if isinstance(t, Un):
        r = [28, nm(t.name), 24, t.size, t.align, len(t.subs)]
        for i, s in enumerate(t.subs):
            r += [nm('K%s$_%d' % (t.name, i))] + (tdesc(s) if s else [0])
        return r
    if isinstance(t, Tup):
        return [22, t.size, t.align, len(t.subs)] + sum((tdesc(s) for s in t.subs), [])
    if isinstance(t, Arr):
        return [21, t.size, t.align, t.n] + tdesc(t.sub)
    r = [28, nm(t.name), 23, t.size, t.align, len(t.subs)]
    for i, s in enumerate(t.subs):
        r += [b'm%d' % i] + tdesc(s)
    return r


def variadic(fixed, var, seed, desc):
    """the variadic arguments are in memory behind their description, in order, each aligned, unchanged"""
    c = [seed]
    fv = [t.fresh(c) for t in fixed]
    vv = [t.fresh(c) for t in var]
    src = decls(*dict.fromkeys(fixed + var))
    ps = ', '.join(['a%d : %s' % (i, t.src) for i, t in enumerate(fixed)] + ['args : ...'])
    b = 'const v$ = {%s -> uint64\n' % ps
    b += ''.join('\te_%s$(&a%d)\n' % (t.name, i) for i, t in enumerate(fixed))
    b += '\tvar a = (&args : byte##), q = a#, l = pk(&q)\n\tvar e = at(q, l)\n\twt(&q, e)\n\tif q != e; out(0xbad4) ;;\n'
    want = sum((t.enc(v) for t, v in zip(fixed, fv)), [])
    n, off, offs, al_ = len(var), 0, [], 1
    for t in var:
        off = al(off, t.align)
        offs.append(off)
        off += t.size
        al_ = max(al_, t.align)
    want += [22, al(off, al_), al_, n] + sum((tdesc(t) for t in var), [])
    for t, o, v in zip(var, offs, vv):
        b += '\te_%s$(((a : uint64) + %d : %s#))\n' % (t.name, 8 + o, t.src)
        want += t.enc(v)
    b += '\t-> 77\n}\n'
    m = 'const t$ = {\n'
    m += ''.join('\tvar x%d : %s = %s\n' % (i, t.src, t.lit(v)) for i, (t, v) in enumerate(zip(fixed + var, fv + vv)))
    m += '\tout(v$(%s))\n' % ', '.join('x%d' % i for i in range(len(fixed) + n))
    src += 'type vt$ = (%s -> uint64)\n' % ps
    m += '\tvar h = v$, hn : vt$ = (v$ : vt$)\n'
    for f in ('h', 'hn'):
        m += '\tout(%s(%s))\n' % (f, ', '.join('x%d' % i for i in range(len(fixed) + n)))
    want = (want + [77]) * 3
    m += ''.join('\te_%s$(&x%d)\n' % (t.name, i) for i, t in enumerate(fixed + var)) + '}\n'
    want += sum((t.enc(v) for t, v in zip(fixed + var, fv + vv)), [])
    return Item(src + b + m, want, desc)


def variadics(c):
    s = S['q'], S['d'], S['by'], st('q', 'q', 'by'), S['sl'], st('f')
    fx = [[S['by']], [S['q']] * 7, [S['d']] * 9, [S['sl'], S['by'], S['h']], [st('q', 'q', 'by'), st('f', 'f'), st('q', 'f')], []]
    fx = [f for f in fx if f]
    k = 0
    seen = set()
    for t in family('full'):
        if t.name not in seen:
            seen.add(t.name)
            k += 1
            yield fx[k % len(fx)], [t, S['by']]
            yield fx[(k + 1) % len(fx)], [S['by'], t, S['h'], t]
    for t in KINDS:
        for u in KINDS:
            k += 1
            yield fx[k % len(fx)], [t, u]
    for f in fx:
        yield f, []
        for n in (1, 2, 5, 9, 20):
            for t in s:
                yield f, [t] * n
                yield f, [S['by'], t] * n
    sm = [S['by'], S['h'], S['f'], S['q'], st('by', 'by', 'by'), Un('u_by', [S['by'], None]), S['bo']]
    for t in sm:
        for u in sm:
            for v in sm:
                k += 1
                yield fx[k % len(fx)], [t, u, v]


def body(c):
    tree = Tree('c')
    its = []
    for p, r in sigs(c):
        its.append(call(p, r, len(its) * 5 + 1, '(%s -> %s)' % (', '.join(t.src.replace('$', '') if not t.decls else t.name for t in p), r.name if r else 'void')))
    nsig = len(its)
    seen = set()
    for t in family('full'):
        if t.name in seen:
            continue
        seen.add(t.name)
        d = t.src if not t.decls else ' '.join(t.decls[-1].split())
        for k, (p, r) in enumerate((([t], t), ([S['by'], t, S['d'], t], t), ([S['q']] * 5 + [t, S['q']], S['by']), ([S['d']] * 7 + [t, S['d']], S['d']), ([S['sl'], t, S['sl']], S['sl']))):
            if not c.thorough and k > 1 and (k + len(seen)) % 3:
                continue
            its.append(call(p, r, len(its) * 3 + k, 'call %d of type %s' % (k, d)))
    nv = 0
    for f, v in variadics(c):
        its.append(variadic(f, v, len(its) * 3 + 1, 'variadic call with (%s) behind (%s)' % (', '.join(t.name for t in v), ', '.join(t.name for t in f))))
        nv += 1
    c.cov['variadic_calls'] = nv
    st_ = run_items(c, tree, its, FNS + WALK, per=120, timeout=120)
    c.add(states=len(its), transitions=st_['outputs'], traces_validated_against_impl=st_['outputs'])
    c.cov['signatures'] = nsig
    c.cov['types'] = len(seen)
    c.cov['through_C'] = sum(1 for i in its if i.c)
    c.cov['exhaustive'] = True


if __name__ == '__main__':
    main(body, 'C06')
