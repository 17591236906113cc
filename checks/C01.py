#!/usr/bin/env python3
"""C01: integer and boolean expressions of every type, operator and operand kind."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *
from mcv.ops import *

ITYPES = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'int', 'uint', 'byte', 'char']
MY = {'m' + t: t for t in ('int8', 'uint16', 'int32', 'uint64')}
for k, v in MY.items():
    TY[k] = TY[v]
ALLT = ITYPES + list(MY)


def prelude():
    s = []
    for m, t in MY.items():
        s.append('type %s = %s' % (m, t))
    s.append('var gi : int = 1\nvar gtrue : bool = true\nvar gfalse : bool = false')
    for t in ALLT + ['bool']:
        z = 'false' if t == 'bool' else '0'
        s.append('type s_%s = struct\n\tp : byte\n\tm : %s\n\tq : %s\n;;' % (t, t, t))
        s.append('type u_%s = union\n\t`X_%s\n\t`Y_%s %s\n;;' % (t, t, t, t))
        s.append('var gl_%s : %s = %s\nvar gr_%s : %s = %s\nvar gs_%s : s_%s' % (t, t, z, t, t, z, t, t))
        s.append('const id_%s = {x : %s; -> x}' % (t, t))
    for t in ALLT:
        for i, v in enumerate(lits(t)):
            s.append('const k%d_%s : %s = %s' % (i, t, t, src_lit(v)))
    return '\n'.join(s)


def lits(t):
    k = TY[t]
    n = BITS[k]
    l = [0, 1, 2, 3, 7, 8, n - 1, (1 << (n - 1)) - 1]
    if n > 16:
        l += [16, 255]
    if n == 64:
        l += [0x7fffffff, 0x80000000, 0xffffffff]
    if k < 4:
        l += [-1, -2, -(1 << (n - 1)) + 1, -(1 << (n - 1))]
        if n == 64:
            l += [-0x80000000, -0x80000001]
    else:
        l += [1 << (n - 1), (1 << n) - 1, (1 << n) - 2]
    return sorted(set(l))


def src_lit(v):
    return str(v)


# operand kinds: name -> (statements, expression); {v} is the parameter, {s} l or r, {t} the type
KINDS = {
    'param': ('', '{v}'),
    'local': ('var v{s} : {t} = {v}', 'v{s}'),
    'global': ('g{s}_{t} = {v}', 'g{s}_{t}'),
    'member': ('var v{s} : s_{t}; v{s}.m = {v}', 'v{s}.m'),
    'ptrmember': ('var w{s} : s_{t}; w{s}.m = {v}; var v{s} = &w{s}', 'v{s}.m'),
    'array': ('var v{s} : {t}[3]; v{s}[1] = {v}', 'v{s}[1]'),
    'arrayvar': ('var v{s} : {t}[3]; v{s}[gi] = {v}', 'v{s}[gi]'),
    'slice': ('var w{s} : {t}[3]; w{s}[1] = {v}; var v{s} = w{s}[:]', 'v{s}[gi]'),
    'deref': ('var w{s} : {t} = {v}; var v{s} = &w{s}', 'v{s}#'),
    'call': ('', 'id_{t}({v})'),
    'cast': ('var v{s} : uint64 = ({v} : uint64)', '(v{s} : {t})'),
    'tuple': ('var v{s} : (byte, {t}); v{s} = (3, {v})', 'v{s}.1'),
}
# bool can't be cast from an integer
BKINDS = [k for k in KINDS if k != 'cast']


def operand(kind, t, v, s):
    st, ex = KINDS[kind]
    return st.format(v=v, s=s, t=t), ex.format(v=v, s=s, t=t)


def body(stmts, tail):
    return '\n\t'.join([s for s in stmts if s] + [tail])


def mkfn(types, rt, b, prog, cls, desc):
    names = 'abcd'
    ps = ', '.join('%s : %s' % (names[i], t) for i, t in enumerate(types))
    src = 'const f$ = {%s%s\n\t%s\n}' % (ps, ' -> ' + rt, b)
    return Fn(src, '(%s -> %s)' % (ps, rt), prog, [TY[t] for t in types], TY[rt], cls, desc)


def wide(t):
    return 'int64' if TY[t] < 4 else 'uint64'


def gen_bin(th):
    """every operator x type x operand kinds on both sides; narrow results are widened"""
    for t in ALLT:
        k = TY[t]
        kinds = KINDS if t not in MY or th else ('param', 'global', 'slice', 'call', 'cast')
        for op in ARITH + CMP:
            base = bop(op, k, arg(0), arg(1))
            for lk in kinds:
                for rk in kinds:
                    ls, le = operand(lk, t, 'a', 'l')
                    rs, re_ = operand(rk, t, 'b', 'r')
                    cls = (2 if th or (lk == 'param' and rk in ('param', 'call')) else 1) if t in ITYPES else 0
                    d = '%s: %s %s %s' % (t, lk, op, rk)
                    e = '%s %s %s' % (le, op, re_)
                    if op in CMP:
                        yield mkfn([t, t], 'bool', body([ls, rs], '-> ' + e), base, cls, d)
                    elif BITS[k] == 64 or (lk == 'param' and rk == 'call'):
                        yield mkfn([t, t], t, body([ls, rs], '-> ' + e), base, cls, d)
                    else:
                        w = wide(t)
                        yield mkfn([t, t], w, body([ls, rs], '-> (%s : %s)' % (e, w)), cast(base, k, TY[w]), cls, d + ', widened')


USES = [
    ('ret', '-> {e}', None),
    ('asn', 'var x : {t} = {e}\n\t-> x', None),
    ('global', 'gl_{t} = {e}\n\t-> gl_{t}', None),
    ('elem', 'var x : {t}[3]; x[gi] = {e}\n\t-> x[1]', None),
    ('member', 'var x : s_{t}; x.q = {e}\n\t-> x.q', None),
    ('arg', '-> id_{t}({e})', None),
    ('deref', 'var x : {t} = 0; var y = &x; y# = {e}\n\t-> x', None),
    ('tuple', 'var x = ({e}, {e})\n\t-> x.1', None),
    ('union', 'var x = `Y_{t} {e}\n\tmatch x\n\t| `Y_{t} v: -> v\n\t| _: -> a\n\t;;', None),
    ('ternary', '-> gtrue ? {e} : a', None),
]
BUSES = [
    ('if', 'if {e}\n\t\t-> true\n\telse\n\t\t-> false\n\t;;'),
    ('ifnot', 'if !({e})\n\t\t-> false\n\t;;\n\t-> true'),
    ('while', 'var n = 0\n\twhile {e}\n\t\tn++\n\t\tif n == 3\n\t\t\t-> true\n\t\t;;\n\t;;\n\t-> false'),
    ('notnot', '-> !!({e})'),
    ('and', '-> gtrue && ({e})'),
    ('andl', '-> ({e}) && gtrue'),
    ('or', '-> gfalse || ({e})'),
    ('orl', '-> ({e}) || gfalse'),
    ('tern', '-> {e} ? true : false'),
    ('eqtrue', '-> ({e}) == gtrue'),
    ('netrue', '-> !(({e}) != gtrue)'),
    ('asn', 'var x = {e}\n\t-> x'),
    ('elem', 'var x : bool[3]; x[gi] = {e}\n\t-> x[1]'),
    ('arg', '-> id_bool({e})'),
    ('elif', 'if gfalse\n\t\t-> false\n\telif {e}\n\t\t-> true\n\t;;\n\t-> false'),
    ('for', 'for var i = 0; {e}; i++\n\t\tif i == 2\n\t\t\t-> true\n\t\t;;\n\t;;\n\t-> false'),
    ('match', 'match {e}\n\t| true: -> true\n\t| false: -> false\n\t;;'),
]


def gen_uses():
    for t in ITYPES:
        k = TY[t]
        for op in ARITH:
            for nm, b, _ in USES:
                yield mkfn([t, t], t, b.format(e='(a %s b)' % op, t=t), bop(op, k, arg(0), arg(1)), 1, '%s: (a %s b) used as %s' % (t, op, nm))
        for u in '-~':
            f = neg if u == '-' else bnot
            for nm, b, _ in USES:
                yield mkfn([t], t, b.format(e='(%sa)' % u, t=t), f(arg(0), k), 1, '%s: (%sa) used as %s' % (t, u, nm))
            for kind in KINDS:
                s, e = operand(kind, t, 'a', 'l')
                yield mkfn([t], t, body([s], '-> %s%s' % (u, e)), f(arg(0), k), 2, '%s: %s%s' % (t, u, kind))
                w = wide(t)
                yield mkfn([t], w, body([s], '-> (%s%s : %s)' % (u, e, w)), cast(f(arg(0), k), k, TY[w]), 2, '%s: %s%s widened' % (t, u, kind))
        for op in CMP:
            for nm, b in BUSES:
                for lk in ('param', 'global', 'slice'):
                    for rk in ('param', 'member', 'call'):
                        ls, le = operand(lk, t, 'a', 'l')
                        rs, re_ = operand(rk, t, 'b', 'r')
                        yield mkfn([t, t], 'bool', body([ls, rs], b.format(e='%s %s %s' % (le, op, re_))), bop(op, k, arg(0), arg(1)), 1, '%s: %s %s %s in %s' % (t, lk, op, rk, nm))
    # bool equality
    for op in ('==', '!='):
        for lk in BKINDS:
            for rk in BKINDS:
                ls, le = operand(lk, 'bool', 'a', 'l')
                rs, re_ = operand(rk, 'bool', 'b', 'r')
                yield mkfn(['bool', 'bool'], 'bool', body([ls, rs], '-> %s %s %s' % (le, op, re_)), bop(op, 8, arg(0), arg(1)), 1, 'bool: %s %s %s' % (lk, op, rk))


def gen_lit(th):
    """one operand a literal or a named constant"""
    for t in ITYPES:
        k = TY[t]
        n = BITS[k]
        for i, v in enumerate(lits(t)):
            for op in ARITH + CMP:
                rt = 'bool' if op in CMP else t
                for side in 'lr':
                    if side == 'r' and op in '/%' and v == 0:
                        continue
                    if side == 'r' and op in ('<<', '>>') and not 0 <= v < n:
                        continue
                    for con in ('lit', 'const'):
                        ce = src_lit(v) if con == 'lit' else 'k%d_%s' % (i, t)
                        if con == 'lit' and v < 0:
                            ce = '(%s)' % ce
                        for kind in ('param', 'global', 'slice', 'call') if th else ('param', 'slice') if con == 'lit' else ('global',):
                            s, e = operand(kind, t, 'a', 'l')
                            if side == 'r':
                                ex, pr = '%s %s %s' % (e, op, ce), bop(op, k, arg(0), lit(v))
                            else:
                                ex, pr = '%s %s %s' % (ce, op, e), bop(op, k, lit(v), arg(0))
                            d = '%s: %s with %s %d, operand %s' % (t, ex, con, v, kind)
                            if op in CMP:
                                yield mkfn([t], 'bool', body([s], '-> ' + ex), pr, 2, d)
                                if con == 'lit' and kind == 'param':
                                    yield mkfn([t], 'bool', body([s], 'if %s\n\t\t-> true\n\t;;\n\t-> false' % ex), pr, 2, d + ' in if')
                            else:
                                w = wide(t)
                                yield mkfn([t], w, body([s], '-> (%s : %s)' % (ex, w)), cast(pr, k, TY[w]), 2, d)


def ev(op, a, b, k):
    n = BITS[k]
    if op in '/%':
        if b == 0 or (k < 4 and a == -(1 << (n - 1)) and b == -1):
            return None
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return norm(q if op == '/' else a - b * q, k)
    if op in ('<<', '>>'):
        if not 0 <= b < n:
            return None
        return norm(a << b if op == '<<' else a >> b, k)
    f = {'+': a + b, '-': a - b, '*': a * b, '&': a & b, '|': a | b, '^': a ^ b, '==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    return int(f) if op in CMP else norm(f, k)


def gen_const(th):
    """both operands known to the compiler: literals, named constants, initializers; checked values"""
    for t in ITYPES:
        k = TY[t]
        ls = lits(t)
        w = wide(t)
        for op in ARITH + CMP:
            exs = []
            for i, x in enumerate(ls):
                for j, y in enumerate(ls):
                    v = ev(op, x, y, k)
                    if v is None:
                        continue
                    exs.append((i, j, x, y, v))
            # one function per pair would be a lot: chain the checks, return the 1-based index of the first wrong one
            for form in ('lit', 'const', 'mixed', 'localconst') if th else ('lit', 'mixed'):
                if form == 'localconst' and op in CMP:
                    continue            # not a supported initializer
                for blk in range(0, len(exs), 60):
                    b = []
                    pre = []
                    for q, (i, j, x, y, v) in enumerate(exs[blk:blk + 60]):
                        tl = lambda z: '(%d : %s)' % (z, t) if z >= 0 else '-(%d : %s)' % (-z, t)
                        if form == 'lit':
                            e = '%s %s %s' % (tl(x), op, tl(y))
                        elif form == 'const':
                            e = 'k%d_%s %s k%d_%s' % (i, t, op, j, t)
                        elif form == 'mixed':
                            e = 'k%d_%s %s %s' % (i, t, op, tl(y))
                        else:
                            e = 'c$_%d' % q
                            pre.append('const c$_%d : %s = %s %s %s' % (q, 'bool' if op in CMP else t, tl(x), op, tl(y)))
                        if op in CMP:
                            b.append('if (%s) != %s\n\t\t-> %d\n\t;;' % (e, 'true' if v else 'false', q + 1))
                        else:
                            b.append('if (%s : %s) != %d\n\t\t-> %d\n\t;;' % (e, w, v, q + 1))
                    b.append('-> 0')
                    f = mkfn([], 'uint64', '\n\t'.join(b), lit(0), 1, '%s: constants %s (%s), block %d' % (t, op, form, blk))
                    f.src = '\n'.join(pre) + '\n' + f.src
                    yield f
        # static initializers
        b = []
        pre = []
        q = 0
        for op in ARITH:
            for i, x in enumerate(ls):
                j = (i * 7 + 3) % len(ls)
                v = ev(op, x, ls[j], k)
                if v is None:
                    continue
                pre.append('var d$_%d : %s = %d %s %d' % (q, t, x, op, ls[j]))
                b.append('if (d$_%d : %s) != %d\n\t\t-> %d\n\t;;' % (q, w, v, q + 1))
                q += 1
        f = mkfn([], 'uint64', '\n\t'.join(b + ['-> 0']), lit(0), 1, '%s: static initializers' % t)
        f.src = '\n'.join(pre) + '\n' + f.src
        yield f


def gen_cast(th):
    for f in ALLT:
        for t in ALLT:
            for kind in KINDS if th or (f in ITYPES[:8] and t in ITYPES[:8]) else ('param', 'global', 'slice', 'call'):
                s, e = operand(kind, f, 'a', 'l')
                yield mkfn([f], t, body([s], '-> (%s : %s)' % (e, t)), cast(arg(0), TY[f], TY[t]), 2, 'cast %s %s to %s' % (f, kind, t))
            # through an operation, then back and forth
            for op in ('+', '>>', '/', '*', '%', '<<', '-'):
                for u in ('int64', 'uint64', 'int32', 'uint8') if not th else ALLT:
                    if BITS[TY[f]] > 32 and not th and u not in ('int64', 'uint64'):
                        continue
                    yield mkfn([f, f], u, '-> ((a %s b : %s) : %s)' % (op, t, u),
                               cast(cast(bop(op, TY[f], arg(0), arg(1)), TY[f], TY[t]), TY[t], TY[u]), 0, '%s: (a %s b) cast to %s then %s' % (f, op, t, u))
                yield mkfn([f, t], t, '-> (a : %s) %s b' % (t, op), bop(op, TY[t], cast(arg(0), TY[f], TY[t]), arg(1)), 0, '(a:%s : %s) %s b' % (f, t, op))
            for op in CMP:
                yield mkfn([f, t], 'bool', '-> (a : %s) %s b' % (t, op), bop(op, TY[t], cast(arg(0), TY[f], TY[t]), arg(1)), 1, '(a:%s : %s) %s b' % (f, t, op))
        for v in lits(f):
            for t in ALLT:
                e = '(%s(%d : %s) : %s)' % ('-' if v < 0 else '', abs(v), f, t)
                w = wide(t)
                yield mkfn([], w, '-> (%s : %s)' % (e, w), lit(norm(v, TY[t])), 1, 'literal cast %s' % e)
        # bool to integer
        yield mkfn(['bool'], f, '-> (a : %s)' % f, cast(arg(0), 8, TY[f]), 1, 'cast bool to %s' % f)
        for op in CMP:
            yield mkfn([f, f], 'int', '-> (a %s b : int)' % op, cast(bop(op, TY[f], arg(0), arg(1)), 8, TY['int']), 1, '%s: (a %s b : int)' % (f, op))


LVAL = {
    'param': ('', '{v}'),
    'local': ('var x : {t} = {v}', 'x'),
    'global': ('gl_{t} = {v}', 'gl_{t}'),
    'member': ('var x : s_{t}; x.p = 9; x.q = {v}; x.m = {v}', 'x.m'),
    'ptrmember': ('var w : s_{t}; w.m = {v}; var x = &w', 'x.m'),
    'array': ('var x : {t}[3]; x[2] = {v}; x[0] = {v}; x[1] = {v}', 'x[1]'),
    'arrayvar': ('var x : {t}[3]; x[gi] = {v}', 'x[gi]'),
    'slice': ('var w : {t}[3]; w[1] = {v}; var x = w[:]', 'x[gi]'),
    'deref': ('var w : {t} = {v}; var x = &w', 'x#'),
    'tuple': ('var x : (byte, {t}); x = (3, {v})', 'x.1'),
    'gmember': ('gs_{t}.m = {v}', 'gs_{t}.m'),
}
FUSED = [o + '=' for o in ARITH]


def gen_fused(th):
    for t in ITYPES if not th else ALLT:
        k = TY[t]
        for lk, (st, lv) in LVAL.items():
            st, lv = st.format(v='a', t=t), lv.format(v='a', t=t)
            for op in ARITH:
                for rk in ('param', 'global', 'array', 'call', 'deref', 'member') if t in ('int8', 'int32', 'uint64', 'uint16') or th else ('param', 'slice'):
                    if lk == 'global' and rk == 'global':
                        rs, re_ = operand(rk, t, 'b', 'r')
                    else:
                        rs, re_ = operand(rk, t, 'b', 'r')
                    yield mkfn([t, t], t, body([st, rs], '%s %s= %s\n\t-> %s' % (lv, op, re_, lv)), bop(op, k, arg(0), arg(1)), 1, '%s: %s %s= %s' % (t, lk, op, rk))
                for v in (1, 3, BITS[k] - 1):
                    yield mkfn([t], t, body([st], '%s %s= %d\n\t-> %s' % (lv, op, v, lv)), bop(op, k, arg(0), lit(v)), 2, '%s: %s %s= %d' % (t, lk, op, v))
                yield mkfn([t, t], t, body([st], 'var y : %s = (%s %s= b)\n\t-> y' % (t, lv, op)), bop(op, k, arg(0), arg(1)), 0, '%s: value of %s %s= b' % (t, lk, op))
            yield mkfn([t], t, body([st], '%s++\n\t-> %s' % (lv, lv)), bop('+', k, arg(0), lit(1)), 2, '%s: %s++' % (t, lk))
            yield mkfn([t], t, body([st], '%s--\n\t-> %s' % (lv, lv)), bop('-', k, arg(0), lit(1)), 2, '%s: %s--' % (t, lk))
            yield mkfn([t], t, body([st], 'var y = %s++\n\t-> y' % lv), arg(0), 2, '%s: value of %s++' % (t, lk))
            yield mkfn([t], t, body([st], 'var y = %s--\n\t-> y + %s' % (lv, lv)), bop('+', k, arg(0), bop('-', k, arg(0), lit(1))), 2, '%s: value of %s-- + after' % (t, lk))


PREC = {'<<': 9, '>>': 9, '*': 8, '/': 8, '%': 8, '+': 7, '-': 7, '&': 6, '|': 5, '^': 5,
        '==': 4, '!=': 4, '<': 4, '<=': 4, '>': 4, '>=': 4, '&&': 3, '||': 2}


def gen_tree(th):
    """all two-operator expressions, parenthesized both ways and without parentheses"""
    for t in ITYPES[:8]:
        k = TY[t]
        for o1 in ARITH:
            for o2 in ARITH + CMP:
                rt = 'bool' if o2 in CMP else t
                l = bop(o2, k, bop(o1, k, arg(0), arg(1)), arg(2))
                r = bop(o2, k, arg(0), bop(o1, k, arg(1), arg(2)))
                yield mkfn([t] * 3, rt, '-> (a %s b) %s c' % (o1, o2), l, 0, '%s: (a %s b) %s c' % (t, o1, o2))
                yield mkfn([t] * 3, rt, '-> a %s (b %s c)' % (o2, o1), r, 0, '%s: a %s (b %s c)' % (t, o2, o1))
                # literals in the middle
                for v in (1, 2, 8 if BITS[k] > 8 else 4, BITS[k] - 1):
                    zero = o1 == '%' and v == 1         # a constant zero divisor is refused
                    yield mkfn([t] * 2, rt, '-> (a %s %d) %s b' % (o1, v, o2), bop(o2, k, bop(o1, k, arg(0), lit(v)), arg(1)), 0, '%s: (a %s %d) %s b' % (t, o1, v, o2))
                    if not (zero and o2 in '/%'):
                        yield mkfn([t] * 2, rt, '-> b %s (a %s %d)' % (o2, o1, v), bop(o2, k, arg(1), bop(o1, k, arg(0), lit(v))), 0, '%s: b %s (a %s %d)' % (t, o2, o1, v))
    for t in ('int32', 'uint8', 'uint64', 'int16'):
        k = TY[t]
        for o1 in ARITH + CMP:
            for o2 in ARITH + CMP:
                if o1 in CMP and o2 in CMP:
                    continue
                if PREC[o1] >= PREC[o2]:
                    if o1 in CMP:
                        continue
                    pr = bop(o2, k, bop(o1, k, arg(0), arg(1)), arg(2))
                    rt = 'bool' if o2 in CMP else t
                else:
                    if o2 in CMP:
                        continue
                    pr = bop(o1, k, arg(0), bop(o2, k, arg(1), arg(2)))
                    rt = 'bool' if o1 in CMP else t
                yield mkfn([t] * 3, rt, '-> a %s b %s c' % (o1, o2), pr, 0, '%s: a %s b %s c without parentheses' % (t, o1, o2))
        for o1 in ARITH + CMP:
            rt = 'bool' if o1 in CMP else t
            for u in '-~':
                f = neg if u == '-' else bnot
                yield mkfn([t] * 2, rt, '-> %sa %s b' % (u, o1), bop(o1, k, f(arg(0), k), arg(1)), 1, '%s: %sa %s b' % (t, u, o1))
                yield mkfn([t] * 2, rt, '-> a %s %sb' % (o1, u), bop(o1, k, arg(0), f(arg(1), k)), 1, '%s: a %s %sb' % (t, o1, u))
                yield mkfn([t] * 2, rt, '-> %s%sa %s b' % ('~' if u == '-' else '-', u, o1), bop(o1, k, (bnot if u == '-' else neg)(f(arg(0), k), k), arg(1)), 1, '%s: double unary %s' % (t, o1))
        for c1 in CMP:
            for c2 in CMP:
                for lo in ('&&', '||'):
                    yield mkfn([t] * 3, 'bool', '-> a %s b %s b %s c' % (c1, lo, c2), bop(lo, 8, bop(c1, k, arg(0), arg(1)), bop(c2, k, arg(1), arg(2))), 0, '%s: a %s b %s b %s c' % (t, c1, lo, c2))
                    yield mkfn([t] * 3, 'bool', 'if !(a %s b) %s b %s c\n\t\t-> true\n\t;;\n\t-> false' % (c1, lo, c2), bop(lo, 8, lnot(bop(c1, k, arg(0), arg(1))), bop(c2, k, arg(1), arg(2))), 0, '%s: if !(a %s b) %s b %s c' % (t, c1, lo, c2))
    # rotations: x << n | x >> (w-n) and near misses, on every type and through casts
    for t in ITYPES[:8]:
        k = TY[t]
        n = BITS[k]
        for i in range(0, n, 1 if th else 3 if n < 64 else 7):
            for j in (n - i, n - i - 1, n - i + 1, i):
                if not 0 <= j < n:
                    continue
                for o in '|^+':
                    for first in ('<<', '>>'):
                        sec = '>>' if first == '<<' else '<<'
                        pr = bop(o, k, bop(first, k, arg(0), lit(i)), bop(sec, k, arg(0), lit(j)))
                        yield mkfn([t], t, '-> (a %s %d) %s (a %s %d)' % (first, i, o, sec, j), pr, 2, '%s: rotation (a %s %d) %s (a %s %d)' % (t, first, i, o, sec, j))
                        if o == '|':
                            u = t[1:] if t[0] == 'u' else 'u' + t
                            yield mkfn([t], u, '-> ((a %s %d) %s (a %s %d) : %s)' % (first, i, o, sec, j, u), cast(pr, k, TY[u]), 2, '%s: rotation cast to %s, %d/%d' % (t, u, i, j))
                            yield mkfn([t, t], t, '-> (a %s %d) | (b %s %d)' % (first, i, sec, j), bop(o, k, bop(first, k, arg(0), lit(i)), bop(sec, k, arg(1), lit(j))), 0, '%s: two-variable shift pair' % t)


def gen_bool(th):
    """all boolean expressions with up to three operators, in every context"""
    def exprs(d, vs):
        if d == 0:
            for v in vs:
                yield 'abcd'[v], arg(v)
            return
        for e, p in exprs(d - 1, vs):
            yield '!(%s)' % e, lnot(p)
        for l in range(d):
            for e, p in exprs(l, vs[:1 + l] if False else vs):
                for f, q in exprs(d - 1 - l, vs):
                    for op in ('&&', '||', '==', '!='):
                        yield '(%s %s %s)' % (e, op, f), bop(op, 8, p, q)
    seen = set()
    for d in (1, 2, 3) if th else (1, 2):
        for e, p in exprs(d, (0, 1, 2)):
            if e in seen:
                continue
            seen.add(e)
            us = BUSES if d < 3 else BUSES[:1]
            if d == 2 and not th:
                us = BUSES[:6]
            for nm, b in us:
                yield mkfn(['bool'] * 3, 'bool', b.format(e=e), p, 1, 'bool: %s in %s' % (e, nm))
    if not th:
        for e, p in exprs(3, (0, 1)):
            yield mkfn(['bool'] * 2, 'bool', 'if %s\n\t\t-> true\n\t;;\n\t-> false' % e, p, 1, 'bool: if %s' % e)


def body_(c):
    t = Tree('c')
    pre = prelude()
    th = c.thorough
    tot = [0, 0, 0]
    fams = {}
    for nm, g in (('binary', gen_bin(th)), ('uses', gen_uses()), ('literal', gen_lit(th)), ('constant', gen_const(th)), ('cast', gen_cast(th)),
                  ('fused', gen_fused(th)), ('trees', gen_tree(th)), ('bool', gen_bool(th))):
        n, ev_, sk, bad = run_fns(c, t, g, pre, per=700)
        fams[nm] = n
        tot[0] += n
        tot[1] += ev_
        tot[2] += sk
        if c.viol:
            break
    c.add(states=tot[0], transitions=tot[1], traces_validated_against_impl=tot[1], undefined_tuples_skipped=tot[2])
    c.cov['functions_by_family'] = fams
    c.cov['exhaustive'] = True
    c.sample('int8: (a % b) with a an array element and b a call result, all 65536 pairs')
    c.assume.append('division by zero, MIN / -1 and shift counts outside 0..width-1 are excluded; gcc fixed-width arithmetic is the reference')


main(body_, 'C01')
