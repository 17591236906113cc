#!/usr/bin/env python3
"""C15: aggregates keep every member's value, are laid out like C's, and writes touch nothing else."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *
from mcv.comp import *
from mcv.aggs import *

W = '''type w$ = struct
	pre : byte[%(p)d]
	v : %(s)s
	post : byte[11]
;;
var gw$ : w$
const ini$ = {p : w$#
	for var i = 0; i < %(p)d; i++
		p.pre[i] = 0x77
	;;
	for var i = 0; i < 11; i++
		p.post[i] = 0x99
	;;
}
const ck$ = {p : w$#
	for var i = 0; i < %(p)d; i++
		if p.pre[i] != 0x77; out(0xd00d) ;;
	;;
	for var i = 0; i < 11; i++
		if p.post[i] != 0x99; out(0xd11d) ;;
	;;
}
'''


def program(t, seed):
    c = [seed]
    fns, want = [], []
    mark = [0]

    def op(name, code, outs, pre=''):
        k = len(fns)
        fns.append(pre + 'const o$_%d = {\n\t%s\n}\n' % (k, code.replace('\n', '\n\t')))
        want.append(0xaa00 + k)
        want.extend(outs)
        names.append(name)
    names = []
    s, e, n = t.src, 'e_%s$' % t.name, t.name
    v1, v2, v3 = t.fresh(c), t.fresh(c), t.fresh(c)
    E1, E2, E3 = t.enc(v1), t.enc(v2), t.enc(v3)
    L1, L2, L3 = t.lit(v1), t.lit(v2), t.lit(v3)
    paths = t.paths()
    # construction, initialisers, copies
    op('literal', 'var r : %s = %s\n%s(&r)' % (s, L1, e), E1)
    op('literal assigned', 'var w : w$\nini$(&w)\nw.v = %s\n%s(&w.v)\nck$(&w)' % (L2, e), E2)
    op('global initialiser', '%s(&g$)\n%s(&k$)' % (e, e), E1 + E2, 'var g$ : %s = %s\nconst k$ : %s = %s\n' % (s, L1, s, L2))
    op('array initialiser', '%s(&ga$[0])\n%s(&ga$[1])\n%s(&ga$[2])' % (e, e, e), E1 + E2 + E3, 'var ga$ : %s[3] = [%s, %s, %s]\n' % (s, L1, L2, L3))
    op('copy', 'var a : %s = %s\nvar b : %s = %s\nvar x = a\na = b\n%s(&x)\n%s(&a)\n%s(&b)\nb = x\n%s(&a)\n%s(&b)' % (s, L1, s, L2, e, e, e, e, e), E1 + E2 + E2 + E2 + E1)
    op('copy through pointers', 'var w : w$, a : %s = %s\nvar p = &a, q = &w.v\nini$(&w)\nq# = p#\nq# = q#\na = %s\n%s(&w.v)\n%s(&a)\nck$(&w)' % (s, L1, L2, e, e), E1 + E2)
    op('global copy', 'ini$(&gw$)\ngw$.v = mk$()\n%s(&gw$.v)\nvar x = gw$.v\ngw$.v = %s\n%s(&x)\n%s(&gw$.v)\nck$(&gw$)' % (e, L2, e, e), E1 + E2[0:0] + E1 + E2, 'const mk$ = {-> %s\n\tvar r : %s = %s\n\t-> r\n}\n' % (s, s, L1))
    op('swap', 'var a : %s = %s\nvar b : %s = %s\n(a, b) = (b, a)\n%s(&a)\n%s(&b)' % (s, L1, s, L2, e, e), E2 + E1)
    op('tuple of it', 'var a : %s = %s\nvar t = ((7 : byte), a, (9 : byte))\na = %s\n%s(&t.1)\nout((t.0 : uint64))\nout((t.2 : uint64))\nvar x : byte, z : byte, y = a\n(x, y, z) = t\n%s(&y)\nout((x : uint64) + (z : uint64))' % (s, L1, L2, e, e), E1 + [7, 9] + E1 + [16])
    op('by value', 'var a : %s = %s\nmod$(a)\n%s(&a)' % (s, L1, e), E1 + E2 + E1, 'const mod$ = {x : %s\n\t%s(&x)\n\tx = %s\n\t%s(&x)\n}\n' % (s, e, L2, e))
    op('returned', 'var w : w$, a : %s[3]\nini$(&w)\nw.v = mk$()\na[0] = %s\na[2] = a[0]\na[1] = mk$()\n%s(&w.v)\n%s(&a[0])\n%s(&a[1])\n%s(&a[2])\nck$(&w)' % (s, L2, e, e, e, e), E1 + E2 + E1 + E2)
    op('array elements', 'var a : %s[4], i = 1, j = 2\na[0] = %s\na[3] = %s\na[i] = a[0]\na[j] = a[i + 2]\na[i] = a[j]\nfor var k = 0; k < 4; k++\n\t%s(&a[k])\n;;\na[0] = %s\n%s(&a[1])\n%s(&a[0])' % (s, L1, L2, e, L3, e, e), E1 + E2 + E2 + E2 + E2 + E3)
    op('slice elements', 'var a : %s[3]\na[0] = %s\na[1] = %s\na[2] = a[0]\nvar q = a[1:]\nq[1] = q[0]\nq[0] = %s\n%s(&a[0])\n%s(&a[1])\n%s(&a[2])\nfor x : a\n\t%s(&x)\n\tx = %s\n;;\n%s(&a[0])' % (s, L1, L2, L3, e, e, e, e, L2, e), E1 + E3 + E2 + E1 + E3 + E2 + E1)
    op('union payload', 'var u : uu$ = `Ux$ %s\nmatch u\n| `Ux$ x: %s(&x); x = %s\n| _: out(1)\n;;\nmatch &u\n| &(`Ux$ x): %s(&x)\n| _: out(1)\n;;\nvar z = u\nu = `Uy$ 5\nmatch z\n| `Ux$ x: %s(&x)\n| _: out(1)\n;;\nmatch u\n| `Uy$ k: out((k : uint64))\n| _: out(1)\n;;' % (
        '(%s)' % L1 if L1[0] not in '([' else L1, e, L2, e, e), E1 + E1 + E1 + [5], 'type uu$ = union\n\t`Ux$ %s\n\t`Uy$ byte\n\t`Uz$\n;;\n' % s)
    op('conditional', 'var a : %s = %s\nvar b : %s = %s\nvar r : %s\nfor var i = 0; i < 2; i++\n\tif i == 0\n\t\tr = a\n\telse\n\t\tr = b\n\t;;\n\t%s(&r)\n;;' % (s, L1, s, L2, s, e), E1 + E2)
    op('zero', '%s' % '\n'.join('if z$.z[%d] != 0; out(%d) ;;' % (i, i) for i in (0, 1)) + '\nvar q = &zz$\nzz$.b = 1\n%s(&zz$.v)\nout((zz$.a : uint64))' % e, E2 + [0], 'type zt$ = struct\n\ta : byte\n\tv : %s\n\tb : byte\n;;\nvar zz$ : zt$ = [.v = %s]\nvar z$ : zy$\ntype zy$ = struct\n\tz : byte[2]\n;;\n' % (s, L2))
    op('partial literal', 'var r : zt$\nr = [.a = 3, .v = %s, .b = 4]\nr = [.v = %s]\n%s(&r.v)\nout((r.a : uint64) + (r.b : uint64))\nr = [.b = 9, .v = r.v]\n%s(&r.v)\nout((r.a : uint64))\nout((r.b : uint64))' % (L2, L1, e, e), E1 + [0] + E1 + [0, 9])
    # layout
    lay = ['out((&a[1] : uint64) - (&a[0] : uint64))', 'out((&w.v : uint64) - (&w : uint64))', 'out((&w.post : uint64) - (&w.v : uint64))', 'out((&y.y : uint64) - (&y : uint64))', 'out((sizeof(%s) : uint64))' % s]
    lw = [t.size, al(17, t.align), t.size, al(t.size, 1), t.size]
    for p, st, ix in paths:
        if ix:
            lay.append('out((&w.v%s : uint64) - (&w.v : uint64))' % p)
            lw.append(t.offset(ix))
    op('layout', 'var w : w$, a : %s[2], y : y$\n' % s + '\n'.join(lay), lw, 'type y$ = struct\n\tx : %s\n\ty : byte\n;;\n' % s)
    # each member written on its own, directly, through a pointer, in an array, and read on its own
    for p, st, ix in paths:
        if not ix:
            continue
        x = st.fresh(c)
        want_ = t.enc(t.put(v1, ix, x))
        lx = st.lit(x)
        es = 'e_%s$' % st.name
        op('write of %s' % p, 'var w : w$\nini$(&w)\nw.v = %s\nw.v%s = %s\n%s(&w.v)\nck$(&w)\nvar m = w.v%s\n%s(&m)' % (L1, p, lx, e, p, es), want_ + st.enc(x))
        op('write of %s through a pointer' % p, 'var w : w$\nini$(&w)\nw.v = %s\nvar q = &w.v\nq#%s = %s\n%s(&w.v)\nck$(&w)\nvar m = q#%s\n%s(&m)\nvar r = &q#%s\nr# = %s\n%s(q)' % (
            L1, p, lx, e, p, es, p, st.lit(t.get(v1, ix)), e), want_ + st.enc(x) + E1)
        op('write of %s in an array' % p, 'var a : %s[3], i = 1\na[0] = %s\na[1] = a[0]\na[2] = a[0]\na[i]%s = %s\n%s(&a[0])\n%s(&a[1])\n%s(&a[2])\na[0]%s = a[1]%s\n%s(&a[0])' % (s, L1, p, lx, e, e, e, p, p, e), E1 + want_ + E1 + want_)
        op('read of %s of a result' % p, 'var m = mk$()%s\n%s(&m)' % (p, es), st.enc(t.get(v1, ix)))
        op('write of %s of a global' % p, 'ini$(&gw$)\ngw$.v = %s\ngw$.v%s = %s\n%s(&gw$.v)\nck$(&gw$)' % (L1, p, lx, e), want_)
    # members of one type exchanged in place
    for i, (p, st, ix) in enumerate(paths):
        for p2, st2, ix2 in paths[i + 1:]:
            if ix and st is st2 and len(ix) == len(ix2) and not isinstance(st, Un) and len(paths) < 12:
                x, y = t.get(v1, ix), t.get(v1, ix2)
                sw = t.put(t.put(v1, ix, y), ix2, x)
                op('exchange of %s and %s' % (p, p2), 'var r : %s = %s\nvar m = r%s\nr%s = r%s\nr%s = m\n%s(&r)\n(r%s, r%s) = (r%s, r%s)\n%s(&r)' % (s, L1, p, p, p2, p2, e, p, p2, p2, p, e), t.enc(sw) + E1)
    if isinstance(t, (St, Tup)) and t.subs and len(t.subs) > 1 and not isinstance(t, Arr):
        same = [(i, j) for i in range(len(t.subs)) for j in range(i) if t.subs[i].src == t.subs[j].src]
        if same:
            i, j = same[0]
            acc = ['r' + a for a in t.acc]
            acc[i], acc[j] = acc[j], acc[i]
            l = '(%s)' % ', '.join(acc) if isinstance(t, Tup) else '[%s]' % ', '.join('.m%d=%s' % (k, a) for k, a in enumerate(acc))
            v = list(v1)
            v[i], v[j] = v[j], v[i]
            op('rebuilt from itself', 'var r : %s = %s\nr = %s\n%s(&r)\nvar q = &r\nq# = %s\n%s(&r)' % (s, L1, l, e, l, e), t.enc(v) + E1)
    if isinstance(t, Arr) and t.n <= 5:
        # indexed initialisers in any order, with holes
        z = zero(t.sub)
        if z is not None:
            for sel in ((0,), (t.n - 1,), (t.n - 1, 0), (1, 0) if t.n > 1 else (0,), (2, 0) if t.n > 2 else (0,)):
                v = [v1[i] if i in sel else z for i in range(t.n)]
                l = '[%s]' % ', '.join('.[%d]=%s' % (i, t.sub.lit(v1[i])) for i in sel)
                full = max(sel) == t.n - 1
                if full:
                    op('indexed literal %s' % (sel,), 'var r : %s = %s\n%s(&r)\n%s(&gi$_%d)' % (s, l, e, e, len(fns)), t.enc(v) + t.enc(v), 'var gi$_%d : %s = %s\n' % (len(fns), s, l))
    pre = decls(t, S['by']) + W % dict(s=s, p=17)
    main_ = 'const t$ = {\n%s}\n' % ''.join('\tout(%d)\n\to$_%d()\n' % (0xaa00 + k, k) for k in range(len(fns)))
    return pre + ''.join(fns) + main_, want, names


def zero(t):
    """the value of all-zero bytes, None when it can't be read (functions)"""
    if isinstance(t, Sc):
        return None if t.name == 'fn' else b'' if t.name == 'sl' else 0
    if isinstance(t, Un):
        if not t.subs[0]:
            return (0, None)
        z = zero(t.subs[0])
        return None if z is None else (0, z)
    if isinstance(t, Nm):
        return zero(t.sub)
    v = [zero(s) for s in t.subs]
    return None if any(x is None for x in v) else v


def blob_items():
    """arrays in initialisers and literals with holes of every shape"""
    for ty in ('byte', 'int16', 'int32', 'int64', '(byte, int32)'):
        for n in (1, 2, 3, 4, 5):
            for m in range(1, 1 << n):
                ix = [i for i in range(n) if m >> i & 1]
                if ix[-1] != n - 1:
                    continue
                for order in (ix, ix[::-1]):
                    tup = ty[0] == '('
                    val = lambda i: '(%d, %d)' % (i + 1, i + 100) if tup else str(i + 3)
                    l = '[%s]' % ', '.join('.[%d]=%s' % (i, val(i)) for i in order)
                    want = []
                    for i in range(n):
                        want += ([i + 1, i + 100] if tup else [i + 3]) if i in ix else [0] * (2 if tup else 1)
                    rd = 'out((x#[i].0 : uint64)); out((x#[i].1 : uint64))' if tup else 'out((x#[i] : uint64))'
                    src = ('type bg$ = struct\n\tp : byte\n\ta : %s[%d]\n\tz : byte\n;;\nvar g$ : bg$ = [.p=0x55, .a=%s, .z=0x66]\nconst d$ = {x : %s[%d]#\n\tfor var i = 0; i < %d; i++\n\t\t%s\n\t;;\n}\n'
                           'const t$ = {\n\td$(&g$.a)\n\tout((g$.p : uint64))\n\tout((g$.z : uint64))\n\tvar r : bg$\n\tr = [.p=0x55, .a=%s, .z=0x66]\n\td$(&r.a)\n\tout((r.p : uint64))\n\tout((r.z : uint64))\n\tvar q : %s[%d] = %s\n\td$(&q)\n}\n'
                           % (ty, n, l, ty, n, n, rd, l, ty, n, l))
                    yield Item(src, want + [0x55, 0x66] + want + [0x55, 0x66] + want, 'array literal %s of %s[%d]' % (l, ty, n))


def body(c):
    tree = Tree('c')
    its = []
    seen = set()
    nop = 0
    for k, t in enumerate(family('full')):
        if t.name in seen:
            continue
        seen.add(t.name)
        src, want, names = program(t, 3 + k * 7)
        nop += len(names)
        its.append(Item(src, want))
        its[-1].desc = 'type %s' % (t.src if not t.decls else ' '.join(t.decls[-1].split()))
        if c.thorough:
            src, want, names = program(t, 1000 + k * 11)
            its.append(Item(src, want, its[-1].desc))
    its += blob_items()
    st = run_items(c, tree, its, FNS, per=40, timeout=120)
    c.add(states=len(its), transitions=st['outputs'], traces_validated_against_impl=st['outputs'])
    c.cov['types'] = len(seen)
    c.cov['operations'] = nop
    c.cov['exhaustive'] = True
    c.sample('struct {byte; int16; byte}: literal, initialiser, copy, swap, each member written in a local, array, global and through pointers, layout')


if __name__ == '__main__':
    main(body, 'C15')
