#!/usr/bin/env python3
"""C03: a match runs the first clause whose pattern matches, with the right bindings."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *
from mcv.comp import *
from mcv.pats import *

SUBJ = ['param', 'call', 'global', 'field', 'deref', 'elt', 'tup']


def tocap(p):
    k = p[0]
    if k == '_':
        return X
    if k == 'con':
        return ('con', p[1], tocap(p[2])) if p[2] else p
    if k in ('tup', 'arr'):
        return (k, [tocap(q) for q in p[1]])
    if k == 'st':
        return (k, [(f, tocap(q)) for f, q in p[1]])
    if k == 'addr':
        return (k, tocap(p[1]))
    if k == 'or':
        return ('or', tocap(p[1]), tocap(p[2]))
    return p


def fixor(t, p):
    """captures are only allowed in or-patterns whose alternatives bind the same variables"""
    k = p[0]
    if k == 'or':
        a, b = caps(t, p[1]), caps(t, p[2])
        if [(n, s.src) for n, s in a] != [(n, s.src) for n, s in b]:
            return nocap(p)
        return p
    if k == 'con':
        return ('con', p[1], fixor(dict(t.cons)[p[1]], p[2])) if p[2] else p
    if k in ('tup', 'arr'):
        return (k, [fixor(s, q) for s, q in zip(t.subs, p[1])])
    if k == 'st':
        return (k, [(f, fixor(t.subs[t.fields.index(f)], q)) for f, q in p[1]])
    if k == 'addr':
        return (k, fixor(t.sub, p[1]))
    return p


def nocap(p):
    k = p[0]
    if k == 'v':
        return GAP
    if k == 'con':
        return ('con', p[1], nocap(p[2])) if p[2] else p
    if k in ('tup', 'arr'):
        return (k, [nocap(q) for q in p[1]])
    if k == 'st':
        return (k, [(f, nocap(q)) for f, q in p[1]])
    if k == 'addr':
        return (k, nocap(p[1]))
    if k == 'or':
        return ('or', nocap(p[1]), nocap(p[2]))
    return p


def subject(t, kind):
    """(function parameters/prologue, subject expression)"""
    return {'param': ('', 'v'), 'call': ('', 'id_%s(v)' % t.name), 'global': ('\tgv_%s = v\n' % t.name, 'gv_%s' % t.name),
            'field': ('\tvar q : h_%s\n\tq.m = v\n' % t.name, 'q.m'), 'deref': ('\tvar p = &v\n', 'p#'),
            'elt': ('\tvar q : %s[3]\n\tq[1] = v\n' % t.src, 'q[1]'), 'tup': ('\tvar q = (true, v)\n', 'q.1')}[kind]


def item(t, rows, kind, vals):
    rows = [fixor(t, rename(p, [0])) for p in rows]
    pro, sub = subject(t, kind)
    b = []
    for k, p in enumerate(rows):
        b.append('\t| %s: out(%d)%s' % (ppat(p), k, ''.join('; e_%s(%s)' % (s.name, n) for n, s in caps(t, p))))
    s = ('const t$ = {\n\tfor var i = 0; i < %d; i++\n\t\tf$(g_%s(i))\n\t;;\n}\nconst f$ = {v : %s\n%s\tmatch %s\n%s\n\t;;\n\tout(99)\n}\n'
         % (len(vals), t.name, t.src, pro, sub, '\n'.join(b)))

    def want():
        o = []
        for v in vals:
            for k, p in enumerate(rows):
                m = match(t, p, v)
                if m is not None:
                    o.append(k)
                    for n, s in caps(t, p):
                        o += m[n][0].enc(m[n][1])
                    break
            else:
                raise Exception('not exhaustive')
            o.append(99)
        return o
    return Item(s, want, 'match on %s (%s) with clauses %s' % (t.src, kind, ' | '.join(map(ppat, rows))))


def foritem(t, p, vals, kind):
    p = fixor(t, rename(p, [0]))
    body = 'out(1)%s' % ''.join('; e_%s(%s)' % (s.name, n) for n, s in caps(t, p))
    if kind == 'slice':
        s = 'const t$ = {\n\tvar a : %s[%d]\n\tfor var i = 0; i < %d; i++\n\t\ta[i] = g_%s(i)\n\t;;\n\tfor %s : a[:]\n\t\t%s\n\t;;\n\tout(99)\n}\n' % (t.src, len(vals), len(vals), t.name, ppat(p), body)
    else:
        s = 'const t$ = {\n\tfor %s : (0 : it_%s)\n\t\t%s\n\t;;\n\tout(99)\n}\n' % (ppat(p), t.name, body)

    def want():
        o = []
        for v in vals:
            m = match(t, p, v)
            if m is not None:
                o.append(1)
                for n, s in caps(t, p):
                    o += m[n][0].enc(m[n][1])
        return o + [99]
    return Item(s, want, 'for %s over all values of %s (%s)' % (ppat(p), t.src, kind))


def xdefs(t, vals):
    n = t.name
    r = 'var gv_%s : %s\ntype h_%s = struct\n\ta : byte\n\tm : %s\n\tz : byte\n;;\nconst id_%s = {v : %s -> %s; out(98); -> v}\n' % (n, t.src, n, t.src, n, t.src, t.src)
    r += ('type it_%s = int\nimpl iterable it_%s -> %s =\n\t__iternext__ = {p, o\n\t\tif (p# : int) >= %d; -> false ;;\n\t\to# = g_%s((p# : int))\n\t\tp# = ((p# : int) + 1 : it_%s)\n\t\t-> true\n\t}\n'
          '\t__iterfin__ = {p, o\n\t}\n;;\n') % (n, n, t.src, len(vals), n, n)
    return r


def body(c):
    tree = Tree('c')
    its = []
    fam = []
    for t in ALL:
        a = base(t, const=True)
        fam.append((t, a, 60000 if c.thorough else 8000))
        o = allors(t)[:8]
        if o:
            fam.append((t, o + [GAP] + [p for p in base(t) if p[0] != '_'][:5], 30000 if c.thorough else 5000))
    kinds = {}
    cov = {}
    for t, alpha, lim in fam:
        vals = t.values()
        for j, rows in enumerate(accepted(t, alpha, lim)):
            rs = [alpha[i] for i in rows]
            ks = SUBJ if len(rows) == 1 or c.thorough and j < 300 else [SUBJ[j % 7]]
            for k in ks:
                if t is V and k in ('deref', 'elt'):
                    continue
                it = item(t, [tocap(p) for p in rs], k, vals)
                if k == 'call':
                    w = it.want
                    it.want = (lambda w=w: sum(([98, x] if f else [x] for x, f in marked(w())), []))
                its.append(it)
            if j % 3 == 0:
                its.append(item(t, rs, 'param', vals))
            cov[t.name] = cov.get(t.name, 0) + 1
        for p in alpha:
            for kind in ('slice', 'iter') if t is not V else ():
                its.append(foritem(t, tocap(p), vals, kind))
    its += strings()
    its += wide()
    its += literal_subjects()
    its += orcaps()
    its += cells(c.thorough)
    pre = prelude(ALL) + CELLPRE + ''.join(valdefs(t, t.values()) + xdefs(t, t.values()) for t in ALL)
    st = run_items(c, tree, its, pre, per=500)
    c.add(states=len(its), transitions=st['outputs'], traces_validated_against_impl=st['outputs'])
    c.cov['matrices_per_type'] = cov
    c.cov['exhaustive'] = True
    c.sample('match on (bool, e3): first clause (true, x1), every value, each subject kind')


def marked(o):
    """pairs (output, does a new subject evaluation precede it)"""
    f = True
    for x in o:
        yield x, f
        f = x == 99


def strings():
    """string patterns with and without the empty string, bytes above 127, prefixes of one another"""
    al = [b'', b'a', b'ab', b'abc', b'b', b'\xff', b'a\xff', b'\x00', b'a\x00b']
    vals = al + [b'ac', b'abd', b'\x7f', b'abcd', b'\xfe']
    q = lambda b: '"%s"' % ''.join(chr(x) if 32 < x < 127 else '\\x%02x' % x for x in b)
    for n in (1, 2, 3):
        for rows in itertools.permutations(al, n):
            if n == 3 and rows[0] > rows[1]:
                continue
            src = 'const t$ = {\n%s\n}\nconst f$ = {v\n\tmatch v\n%s\n\t| x: out(50); outs(x)\n\t;;\n}\n' % (
                '\n'.join('\tf$(%s)' % q(v) for v in vals), '\n'.join('\t| %s: out(%d)' % (q(r), i) for i, r in enumerate(rows)))
            want = []
            for v in vals:
                want += [rows.index(v)] if v in rows else [50, v]
            yield Item(src, want, 'match on byte[:] with clauses %s' % (rows,))


def wide():
    """long strings, many constructors, many rows, wide tuples, arrays and structs, deep nesting"""
    q = lambda b: '"%s"' % b.decode()
    for n in (5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40):
        base_ = bytes(97 + i % 26 for i in range(n))
        var = [base_[:i] + b'#' + base_[i + 1:] for i in range(n)]
        for rows in ([base_], [base_] + var[-1:], var[:1] + [base_] + var[1:2], var):
            vals = [base_] + var + [base_[:-1], base_ + b'z']
            src = 'const t$ = {\n%s\n}\nconst f$ = {v\n\tmatch v\n%s\n\t| x: out(999); outs(x)\n\t;;\n}\n' % (
                '\n'.join('\tf$(%s)' % q(v) for v in vals), '\n'.join('\t| %s: out(%d)' % (q(r), i) for i, r in enumerate(rows)))
            want = []
            for v in vals:
                want += [rows.index(v)] if v in rows else [999, v]
            yield Item(src, want, 'match on strings of %d bytes, %d clauses' % (n, len(rows)))
    for n in (16, 127, 128, 129, 255, 256, 257, 300):
        for pay in (0, 1):
            decl = 'type uw%d%d = union\n%s;;\n' % (n, pay, ''.join('\t`C%d_%d%s\n' % (pay, i, ' uint16' if pay else '') for i in range(n)))
            con = lambda i: '`C%d_%d%s' % (pay, i, ' %d' % (i * 7) if pay else '')
            for order in (range(n), range(n - 1, -1, -1), [i * 7 % n for i in range(n)] if n % 7 else range(1, n)):
                order = list(order)[:-1] if len(list(order)) == n and order[0] != 0 else list(order)
                body = ''.join('\t| `C%d_%d%s: out(%d)%s\n' % (pay, i, ' x' if pay else '', i, '; out((x : uint64))' if pay else '') for i in order)
                if len(order) < n:
                    body += '\t| _: out(5000)\n'
                src = decl.replace('uw', 'uw$_').replace('`C', '`C$_') + 'const t$ = {\n%s}\nconst f$ = {v : uw$_%d%d\n\tmatch v\n%s\t;;\n}\n' % (
                    ''.join('\tf$(%s)\n' % con(i).replace('`C', '`C$_') for i in range(n)), n, pay, body.replace('`C', '`C$_'))
                want = []
                for i in range(n):
                    want += [i] + ([i * 7] if pay else []) if i in order else [5000]
                yield Item(src, want, 'match on a union of %d constructors' % n)
    for ty, lits in (('int', list(range(-150, 150))), ('uint64', [(1 << k) - 1 for k in range(64)] + [(1 << k) + 1 for k in range(2, 64)]), ('int64', [-(1 << k) for k in range(1, 63)] + [(1 << k) - 2 for k in range(2, 64)]),
                     ('char', list(range(0x3a0, 0x3f0)) + list(range(0x1f600, 0x1f640))), ('uint16', list(range(0xfff0, 0x10000)) + list(range(0, 0x2000, 0x100))), ('int16', list(range(-0x8000, -0x7ff0)) + list(range(-128, 128, 3))),
                     ('byte', list(range(0, 256, 2))), ('int8', list(range(-128, 128, 2)))):
        for rows in (lits, lits[::-1], lits[::2]):
            lt = lambda v: "'\\u{%x}'" % v if ty == 'char' else str(v)
            src = 'const t$ = {\n%s}\nconst f$ = {v : %s\n\tmatch v\n%s\t| _: out(5000)\n\t;;\n}\n' % (
                ''.join('\tf$(%s)\n' % lt(v) for v in lits), ty, ''.join('\t| %s: out(%d)\n' % (lt(v), i) for i, v in enumerate(rows)))
            ix = {v: i for i, v in enumerate(rows)}
            yield Item(src, [ix.get(v, 5000) for v in lits], 'match on %s with %d literal clauses' % (ty, len(rows)))
    # wide products: one clause per component
    for kind in ('tup', 'arr', 'st'):
        for n in (3, 5, 9, 12, 17):
            if kind == 'tup':
                decl, ty = '', '(%s)' % ', '.join(['bool'] * n)
                mk = lambda xs: '(%s)' % ', '.join(xs)
            elif kind == 'arr':
                decl, ty = '', 'bool[%d]' % n
                mk = lambda xs: '[%s]' % ', '.join(xs)
            else:
                decl, ty = 'type wst$ = struct\n%s;;\n' % ''.join('\tm%d : bool\n' % i for i in range(n)), 'wst$'
                mk = lambda xs: '[%s]' % ', '.join('.m%d=%s' % (i, x) for i, x in enumerate(xs) if x != '_')
            rows = [[('true' if j == i else '_') for j in range(n)] for i in range(n)]
            if kind == 'st':
                vals = 'const v$ = {i : int -> wst$\n\tvar r : wst$\n%s\t-> r\n}\n' % ''.join('\tr.m%d = i == %d\n' % (j, j) for j in range(n))
            else:
                vals = 'const v$ = {i : int -> %s; -> %s}\n' % (ty, mk(['i == %d' % j for j in range(n)]))
            for rev in (0, 1):
                rs = rows[::-1] if rev else rows
                src = decl + vals + 'const t$ = {\n\tfor var i = 0; i <= %d; i++\n\t\tf$(v$(i))\n\t;;\n}\nconst f$ = {v : %s\n\tmatch v\n%s\t| _: out(50)\n\t;;\n}\n' % (
                    n, ty, ''.join('\t| %s: out(%d)\n' % (mk(r), i) for i, r in enumerate(rs)))
                yield Item(src, [(n - 1 - i if rev else i) if i < n else 50 for i in range(n + 1)], 'match on a %s of %d bools' % (kind, n))


def cells(th):
    """every matrix of 2 (thorough 3) clauses over three bool components, then a catch-all: tests of different components share outcomes"""
    pv = ('_', 'true', 'false')
    rows = list(itertools.product(range(3), repeat=3))
    shapes = [('st', 'cst', '[.a=%s, .b=%s, .c=%s]'), ('tup', '(bool, bool, bool)', '(%s, %s, %s)'), ('arr', 'bool[3]', '[%s, %s, %s]'), ('nest', '(bool, (bool, bool))', '(%s, (%s, %s))'),
              ('un', 'cun', '`Cun (%s, %s, %s)'), ('ptr', '(cst#, bool)', None)]
    mt = lambda r, v: all(x == 0 or (x == 1) == bool(b) for x, b in zip(r, v))
    vals = list(itertools.product((0, 1), repeat=3))
    for kind, ty, f in shapes:
        ms = [m for m in itertools.product(rows, repeat=2)]
        if kind in ('st', 'tup') or th:
            # three clauses: those where the first names at least two components
            ms += [m for m in itertools.product(rows, repeat=3) if sum(x > 0 for x in m[0]) >= (1 if th else 2) and m[0][0] != 2 and all(sum(x > 0 for x in r) == 2 or th for r in m[1:])]
        pk = {}
        for m in ms:
            left, ok = vals, True
            for r in m:
                l2 = [v for v in left if not mt(r, v)]
                ok = ok and len(l2) < len(left)
                left = l2
            if not ok or not left:
                continue
            if kind == 'ptr':
                cl = ['(&[.a=%s, .b=%s], %s)' % tuple(pv[x] for x in r) for r in m]
            else:
                cl = [f % tuple(pv[x] for x in r) for r in m]
            mk = {'st': 'kcst(a, b, c)', 'tup': '(a, b, c)', 'arr': '[a, b, c]', 'nest': '(a, (b, c))', 'un': '`Cun (a, b, c)', 'ptr': '(&gcst, c)'}[kind]
            pro = '\tgcst = kcst(a, b, c)\n' if kind == 'ptr' else ''
            src = ('const t$ = {\n\tfor var i = 0; i < 8; i++\n\t\tf$(i & 4 != 0, i & 2 != 0, i & 1 != 0)\n\t;;\n}\nconst f$ = {a, b, c\n\tvar v : %s\n%s\tv = %s\n\tmatch v\n%s\t| _: out(9)\n\t;;\n}\n'
                   % (ty, pro, mk, ''.join('\t| %s: out(%d)\n' % (x, i) for i, x in enumerate(cl))))
            want = [next((i for i, r in enumerate(m) if mt(r, v)), 9) for v in vals]
            yield Item(src, want, 'match on %s with clauses %s | _' % (ty, ' | '.join(cl)))


def orcaps():
    """or-patterns whose alternatives bind the same variables at different places"""
    cons = ['A', 'B', 'C']
    for ncap in (1, 2, 3):
        pos = list(itertools.combinations(range(4), ncap))
        names = ['x', 'y', 'z'][:ncap]

        def pat(c, ps, lit=None):
            f = ['_'] * 4
            if lit is not None:
                f[[i for i in range(4) if i not in ps][0]] = str(lit)
            for n, q in zip(names, ps):
                f[q] = n
            return '`Oc%s (%s)' % (c, ', '.join(f))
        vals = [(c, tuple(100 * (i + 1) + 10 * j + k for j in range(4))) for i, c in enumerate(cons) for k in (1, 2)]
        ex = lambda v: '`Oc%s (%s)' % (v[0], ', '.join(map(str, v[1])))
        alts = []
        for p1 in pos:
            for p2 in pos:
                alts.append([('A', p1, None), ('B', p2, None)])
                if p1 != p2 and ncap < 3:
                    alts.append([('A', p1, None), ('B', p2, None), ('C', p1, None)])
                    alts.append([('B', p2, None), ('A', p1, 'lit'), ('C', p2, None)])
        for al in alts:
            def lit(c, ps):
                i = cons.index(c)
                j = [q for q in range(4) if q not in ps][0]
                return 100 * (i + 1) + 10 * j + 2
            ps = ' || '.join(pat(c, q, lit(c, q) if l else None) for c, q, l in al)

            def hit(v):
                for c, q, l in al:
                    if v[0] == c and (not l or v[1][[i for i in range(4) if i not in q][0]] == lit(c, q)):
                        return [v[1][i] for i in q]
                return None
            use = ''.join('; out((%s : uint64))' % n for n in names)
            for form in range(4):
                vv = vals
                if form == 0:
                    b = '\tmatch v\n\t| %s: out(0)%s\n%s\t;;\n' % (ps, use, '\t| _: out(9)\n' if len({a[0] for a in al if not a[2]}) < 3 else '')
                    want = sum(([0] + hit(v) if hit(v) is not None else [9] for v in vals), [])
                elif form == 1:
                    b = '\tmatch (flag$, v)\n\t| (true, %s): out(1)%s\n\t| (_, `OcB (_, _, _, w)): out(2); out((w : uint64))\n\t| _: out(9)\n\t;;\n' % ('PAT', use)
                    # or-patterns nest inside the tuple
                    b = b.replace('PAT', '(%s)' % ps)
                    want = sum(([1] + hit(v) if hit(v) is not None else [2, v[1][3]] if v[0] == 'B' else [9] for v in vals), [])
                elif form == 2:
                    b = '\tvar a : ocu[1]\n\ta[0] = v\n\tfor %s : a[:]\n\t\tout(3)%s\n\t;;\n' % (ps, use)
                    want = sum(([3] + hit(v) if hit(v) is not None else [] for v in vals), [])
                else:
                    b = '\tmatch &v\n\t| &(%s): out(4)%s\n%s\t;;\n' % (ps, use, '\t| _: out(9)\n' if len({a[0] for a in al if not a[2]}) < 3 else '')
                    want = sum(([4] + hit(v) if hit(v) is not None else [9] for v in vals), [])
                if form == 1 and len(al) == 3 and not any(a[2] for a in al):
                    # everything but the flag is covered
                    pass
                src = ('const flag$ = true\n' if False else 'var flag$ = true\n') + 'const t$ = {\n%s}\nconst f$ = {v : ocu\n%s}\n' % (''.join('\tf$(%s)\n' % ex(v) for v in vv), b)
                yield Item(src, want, 'match %d with the or-pattern %s' % (form, ps))


CELLPRE = '''type ocu = union
	`OcA (int, int, int, int)
	`OcB (int, int, int, int)
	`OcC (int, int, int, int)
;;
type cst = struct
	a : bool
	b : bool
	c : bool
;;
type cun = union
	`Cun (bool, bool, bool)
	`Cnil
;;
const kcst = {a, b, c -> cst
	var r : cst
	r = [.a=a, .b=b, .c=c]
	-> r
}
var gcst : cst
'''


def literal_subjects():
    for v, t in ((True, 'true'), (False, 'false')):
        yield Item('const t$ = {\n\tmatch %s\n\t| false: out(0)\n\t| true: out(1)\n\t;;\n}\n' % t, [int(v)], 'match on the literal %s' % t)
    for i, cn in enumerate('XYZ'):
        yield Item('const t$ = {\n\tmatch (`%s : e3)\n\t| `X: out(0)\n\t| `Y: out(1)\n\t| `Z: out(2)\n\t;;\n}\n' % cn, [i], 'match on the literal `%s' % cn)
    for a in (0, 1):
        for b in (0, 1):
            yield Item('const t$ = {\n\tmatch (%s, %s)\n\t| (true, x): out(1); e_bo(x)\n\t| (x, true): out(2); e_bo(x)\n\t| (x, y): out(3); e_bo(x); e_bo(y)\n\t;;\n}\n' % (('false', 'true')[a], ('false', 'true')[b]),
                       [1, b] if a else [2, a] if b else [3, a, b], 'match on a tuple literal')


main(body, 'C03')
