#!/usr/bin/env python3
"""C08: what a unit exports has the same type, value and behaviour in every unit that uses it, whether the use file is read
directly, through another unit's, or out of a library put together by muse; generics behave as if written there; what they
need comes along; what isn't exported stays out of reach."""
import os, sys, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *
from mcv.build import Tree
from mcv.aggs import *
from mcv.units import *

# ---------------------------------------------------------------- how the units are put together
# name -> (Layout, prefix of a's names in p, the units that wrap the using code)
LAY = {}
for l, pfx, wraps in (
        (Layout('direct', ('mc', 'a', 'a', []), ('mc', 'p', None, ['"a"'])), 'a.', ()),
        (Layout('no package', ('mc', 'a', None, []), ('mc', 'p', None, ['"a"'])), '', ()),
        (Layout('library', ('mc', 'a', 'a', []), ('muse', 'liba.use', 'a', ['a']), ('rm', 'a.use'), ('mc', 'p', None, ['a'])), 'a.', ()),
        (Layout('library, first of two', ('mc', 'a', 'a', []), ('mc', 'z', 'a', ['"a"']), ('muse', 'liba.use', 'a', ['a', 'z']), ('rm', 'a.use'), ('rm', 'z.use'), ('mc', 'p', None, ['a'])), 'a.', ()),
        (Layout('library, second of two', ('mc', 'a', 'a', []), ('mc', 'z', 'a', ['"a"']), ('muse', 'liba.use', 'a', ['z', 'a']), ('rm', 'a.use'), ('rm', 'z.use'), ('mc', 'p', None, ['a'])), 'a.', ()),
        (Layout('through a unit', ('mc', 'a', 'a', []), ('mc', 'b', 'b', ['"a"']), ('mc', 'p', None, ['"b"'])), 'a.', ('b',)),
        (Layout('through a unit and directly', ('mc', 'a', 'a', []), ('mc', 'b', 'b', ['"a"']), ('mc', 'p', None, ['"b"', '"a"'])), 'a.', ('b', 'p')),
        (Layout('directly and through a unit', ('mc', 'a', 'a', []), ('mc', 'b', 'b', ['"a"']), ('mc', 'p', None, ['"a"', '"b"'])), 'a.', ('p', 'b')),
        (Layout('through two units', ('mc', 'a', 'a', []), ('mc', 'b', 'b', ['"a"']), ('mc', 'd', 'd', ['"a"']), ('mc', 'p', None, ['"d"', '"b"'])), 'a.', ('b', 'd')),
        (Layout('through a unit of the same package', ('mc', 'a', 'a', []), ('mc', 'b', 'a', ['"a"']), ('mc', 'p', None, ['"b"', '"a"'])), 'a.', ('bs', 'p')),
        (Layout('through libraries', ('mc', 'a', 'a', []), ('muse', 'liba.use', 'a', ['a']), ('rm', 'a.use'), ('mc', 'b', 'b', ['a']), ('muse', 'libb.use', 'b', ['b']), ('rm', 'b.use'),
                ('mc', 'p', None, ['b', 'a'])), 'a.', ('b', 'p')),
        (Layout('through a library of two units', ('mc', 'a', 'a', []), ('mc', 'b', 'a', ['"a"']), ('muse', 'liba.use', 'a', ['a', 'b']), ('rm', 'a.use'), ('rm', 'b.use'), ('mc', 'p', None, ['a'])), 'a.', ('bs', 'p')),
        (Layout('through a library of two units, the other order', ('mc', 'a', 'a', []), ('mc', 'b', 'a', ['"a"']), ('muse', 'liba.use', 'a', ['b', 'a']), ('rm', 'a.use'), ('rm', 'b.use'), ('mc', 'p', None, ['a'])), 'a.', ('bs', 'p')),
):
    LAY[l.name] = (l, pfx, wraps)


# every entity is put through these in the quick check too, the others see part of them there
MAIN = ('direct', 'through a unit', 'through a library of two units', 'library', 'b uses a, p uses b', 'b uses a, p uses b and a', 'one library')


class Ent:
    """something unit a exports: the lines of its pkg block, its body, and code of another unit that uses it, with '@' before a's names.
    top: declarations the using unit needs; texp: lines for its pkg block when it is not the main unit"""
    def __init__(self, desc, ex, body, use, want, top='', texp='', tparam=True, only=None):
        self.desc, self.ex, self.body, self.use, self.want, self.top, self.texp, self.tparam, self.only = desc, ex, body, use, want, top, texp, tparam, only


def ind(s, n=1):
    return ''.join('\t' * n + l + '\n' for l in s.strip('\n').split('\n'))


def p_uses(lay):
    return [x.strip('"') for x in lay.steps[-1][3]]


def inst(e, name):
    """the UItems of an entity in a layout"""
    lay, pfx, wraps = LAY[name]
    if e.only and not e.only(name):
        return []
    code = lambda s, p: s.replace('@@', '\x01').replace('@', p).replace('\x01', '@')
    units = {'a': (code(e.ex, ''), code(e.body, ''))}
    if not wraps:
        return [UItem(code(e.top, pfx) + 'const t$ = {\n%s}\n' % code(ind(e.use), pfx), e.want, e.desc, units)]
    r = []
    # using code that is itself generic is compiled where it is instantiated, and needs a there too
    for gen in (False, True) if 'a' in p_uses(lay) else (False,):
        u, calls, want, top = dict(units), '', [], ''
        for w in wraps:
            want += e.want
            if w == 'p':
                top += code(e.top, pfx)
                calls += '\tif true\n%s\t;;\n' % ind(code(e.use, pfx), 2)
                continue
            same = w == 'bs'
            un = 'b' if same else w
            if un == 'd' and gen:
                ex, head = 'const w%s$ : (-> void)\n' % w, 'const w%s$ = {' % w
                calls += '\t%s.w%s$()\n' % (un, w)
            elif gen:
                ex, head = 'generic w%s$ : (zz$ : @zz$ -> void)\n' % w, 'generic w%s$ = {zz$ : @zz$' % w
                calls += '\t%s.w%s$(%s)\n' % ('a' if same else un, w, '1')
            else:
                ex, head = 'const w%s$ : (-> void)\n' % w, 'const w%s$ = {' % w
                calls += '\t%s.w%s$()\n' % ('a' if same else un, w)
            q = '' if same else pfx
            u[un] = (code(e.texp, q) + ex, code(e.top, q) + head + '\n' + code(ind(e.use), q) + '}\n')
        r.append(UItem(top + 'const t$ = {\n%s}\n' % calls, want, e.desc + (' (generic using code)' if gen else ' (plain using code)'), u))
    return r


# ---------------------------------------------------------------- every type: constants, variables, parameters, results, literals, members, pointers
def qual(t, s):
    """s with '@' before the named types and constructors t's declarations introduce"""
    seen = {}
    t.alldecls(seen)
    names = set(re.findall(r'^type (\w+)\$', '\n'.join(seen.values()), re.M))
    s = re.sub(r'(?<![\w`.])(%s)\$(?!\w)' % '|'.join(map(re.escape, names)), r'@\1$', s) if names else s
    s = re.sub(r'`K(\w+)\$_', r'`@K\1$_', s)
    return re.sub(r'\bfn(\d+)\b', r'@fn\1', s)


def types(thorough):
    r = []
    fam = family('full')
    for t in fam:
        c = [0]
        vs = [t.fresh(c) for _ in range(6)]
        seen = {}
        t.alldecls(seen)
        decl = ''.join(seen.values())
        ex = ''.join('const %s : %s\n' % m for m in re.findall(r'^const (e_\w+\$) = \{p : ([^;\n]*)', decl, re.M))
        ex = re.sub(r'^(const e_\w+\$ : )(.*)$', r'\1(p : \2 -> void)', ex, flags=re.M)
        exty = ''.join(m + '\n' for m in re.findall(r'^type \w+\$ = (?:struct\n(?:\t.*\n)*;;|union\n(?:\t.*\n)*;;|[^\n]*)', decl, re.M))
        body = re.sub(r'^type \w+\$ = (?:struct\n(?:\t.*\n)*;;|union\n(?:\t.*\n)*;;|[^\n]*)\n', '', decl, flags=re.M)
        s = t.src
        ex += 'const c$ : %s\nvar v$ : %s\nconst f$ : (x : %s, y : %s# -> %s)\nconst sv$ : (-> void)\nconst pv$ : (-> %s#)\ngeneric g$ : (x : @@g$ -> %s)\ngeneric hg$ : (x : @@h$, y : %s -> @@h$)\ngeneric id$ : (x : @@i$ -> @@i$)\n' % (s, s, s, s, s, s, s, s)
        body += ('const c$ = %s\nvar v$ = %s\nvar pr$ : %s\nconst f$ = {x : %s, y : %s#\n\te_%s$(&x)\n\te_%s$(y)\n\ty# = x\n\t-> %s\n}\nconst sv$ = {\n\te_%s$(&v$)\n}\nconst pv$ = {\n\tpr$ = %s\n\t-> &pr$\n}\n' % (
            t.lit(vs[0]), t.lit(vs[1]), s, s, s, t.name, t.name, t.lit(vs[2]), t.name, t.lit(vs[3])))
        body += 'generic g$ = {x : @@g$ -> %s\n\tvar t : %s = %s\n\te_%s$(&t)\n\tsv$()\n\t-> v$\n}\ngeneric hg$ = {x : @@h$, y : %s -> @@h$\n\tvar z = y\n\te_%s$(&z)\n\te_%s$(&pr$)\n\t-> x\n}\ngeneric id$ = {x : @@i$ -> @@i$\n\tvar b\n\n\tb = x\n\t-> b\n}\n' % (
            s, s, t.lit(vs[4]), t.name, s, t.name, t.name)
        q = lambda x: qual(t, x)
        E = lambda x: '@e_%s$(&%s)' % (t.name, x)
        use = ['var ax : %s = @c$' % q(s), E('ax'), E('@v$'), 'var b : %s = %s' % (q(s), q(t.lit(vs[5]))), E('b'),
               'ax = @f$(b, &@v$)', E('ax'), '@sv$()', 'var r = @pv$()', E('r#'), 'r# = b', E('@pv$()#'), 'ax = @g$(3)', E('ax'),
               '@v$ = @c$', '@sv$()', 'ax = @hg$(b, @c$)', E('ax'), 'ax = @id$(@id$(@c$))', E('ax'), 'out(sizeof(%s))' % q(s), 'ax = @id$(%s)' % q(t.lit(vs[2])) if not re.fullmatch(r'-?[\d.]+', t.lit(vs[2])) else 'ax = %s' % q(t.lit(vs[2])), E('ax'),
               '@v$ = %s' % q(t.lit(vs[1]))]
        e = t.enc
        want = e(vs[0]) + e(vs[1]) + e(vs[5]) + e(vs[5]) + e(vs[1]) + e(vs[2]) + e(vs[5]) + e(vs[3]) + e(vs[3]) + e(vs[4]) + e(vs[5]) + e(vs[5]) + e(vs[0]) + e(vs[0]) + e(vs[5]) + e(vs[5]) + e(vs[0]) + [t.size] + e(vs[2])
        # pv$ writes pr$ before every read but the two of hg$: r# = b, then pv$() again, so hg$ sees vs[3]
        want = e(vs[0]) + e(vs[1]) + e(vs[5]) + e(vs[5]) + e(vs[1]) + e(vs[2]) + e(vs[5]) + e(vs[3]) + e(vs[3]) + e(vs[4]) + e(vs[5]) + e(vs[5]) + e(vs[0]) + e(vs[0]) + e(vs[3]) + e(vs[5]) + e(vs[0]) + [t.size] + e(vs[2])
        for p, st, ix in t.paths()[1:]:
            use.insert(-1, '@e_%s$(&ax%s)' % (st.name, p))
            want = want + st.enc(t.get(vs[2], ix))
        r.append(Ent('type %s' % t.src, exty + ex, body, '\n'.join(use), want))
    return r


FNEX = ''.join('const fn%d : (-> uint64)\n' % i for i in range(NFN))
PRELUDE = {'a': (FNEX, FNS)}


# ---------------------------------------------------------------- constants: every form of initializer, in every place that wants its value
CFORMS = [  # private declarations, initializer, type, value
    ('', '7', 'int', 7), ('', '7', 'uint64', 7), ('', '7', 'byte', 7), ('', '-7', 'int64', -7), ('', '0xfedcba9876543210', 'uint64', 0xfedcba9876543210), ('', '-0x8000000000000000', 'int64', -1 << 63), ('', '0x80000001', 'uint32', 0x80000001),
    ('', '-128', 'int8', -128), ('', '0xffff', 'uint16', 0xffff), ('', "'\\u{10ffff}'", 'char', 0x10ffff), ('', "'a'", 'char', 97), ('', 'true', 'bool', 1), ('', 'false', 'bool', 0), ('', '3 + 4', 'int', 7), ('', '(1 << 40) - 1', 'uint64', (1 << 40) - 1),
    ('', '17 / 5 * 2 + 17 % 5', 'int', 8), ('', '5 & 0xff | 3 ^ 9', 'int', 14), ('', '-(3 - 10)', 'int32', 7), ('', '(-1 : uint64) >> 1', 'uint64', (1 << 63) - 1),
    ('const q$ = 7\n', 'q$', 'int', 7), ('const q$ : uint64 = 9\n', 'q$ * 3', 'uint64', 27), ('const q$ = 7\nconst r$ = q$ + 1\nconst s$ = r$ * q$\n', 's$ - r$', 'int', 48), ('const q$ : int64 = -9\n', '-q$ * 3 - 1', 'int64', 26), ("const q$ = 'z'\n", 'q$', 'char', 122),
    ('const q$ = true\n', 'q$', 'bool', 1), ('type nt$ = int\nconst q$ : nt$ = 12\n', '(q$ : int) + 1', 'int', 13), ('const q$ : byte = 200\n', '(q$ : int)', 'int', 200), ('const q$ : int8 = -3\n', '(q$ : int64)', 'int64', -3), ('const q$ : uint64 = 0x100000007\n', '(q$ : byte)', 'byte', 7),
]


def constants(thorough):
    r = []
    for priv, init, ty, val in CFORMS:
        u = val & M64
        num = ty not in ('bool', 'char')
        toU = lambda x: ('if %s; out(1); else; out(0) ;;' if ty == 'bool' else 'out((%s : uint64))') % x
        lit = lambda v: "'\\u{%x}'" % v if ty == 'char' else ('true' if v else 'false') if ty == 'bool' else str(v)
        other = 1 - val if ty == 'bool' else val + 1 if val + 1 not in (128, 1 << 16, 0x110000, 1 << 63) else val - 1
        ex, body = 'const k$ : %s\n' % ty, priv + 'const k$ = %s\n' % init
        uses = [('read', toU('@k$'), [u]),
                ('copied', 'var z : %s = @k$\n' % ty + toU('z'), [u]),
                ('member of a tuple', 'var z = (@k$, 3)\n' + toU('z.0'), [u]),
                ('address taken', 'var z = &@k$\n' + toU('z#'), [u]),
                ('in a closure', 'var w : %s = @k$\nvar z = {; -> (w, @k$)}\n' % ty + toU('z().0') + '\n' + toU('z().1'), [u, u])]
        arms = lambda k: 'match x\n\t| %s:\tout(1)\n\t| %s:\tout(2)\n\t%s;;\n\tmatch (3, x)\n\t| (3, %s):\tout(3)\n\t| z:\tout(4)\n\t;;' % (k, lit(other), '' if ty == 'bool' else '| _:\tout(5)\n\t', k)
        pat = lambda k: 'const chk = {x : %s\n\t%s\n}\nchk(%s)\nchk(%s)' % (ty, arms(k), lit(val), lit(other))
        uses.append(('pattern', pat('@k$'), [1, 3, 2, 4]))
        if num:
            uses += [('sum', toU('@k$ + @k$ - @k$'), [u]), ('compared', 'if @k$ == %s; out(1); else; out(0) ;;' % lit(val), [1])]
        if 0 < val < 200 and num:
            uses += [('size of an array', 'var z : int16[@k$]\nz[@k$ - 1] = 3\nout(z.len)\nout(sizeof(byte[@k$ + 2]))\nout((z[@k$ - 1] : uint64))', [u, u + 2, 3])]
        d0 = 'constant %s%s : %s' % (priv.replace('\n', '; '), init, ty)
        for d, code, w in uses:
            r.append(Ent('%s, %s' % (d0, d), ex, body, code, w))
        if num:
            r.append(Ent('%s, in another unit\'s initializers' % d0, ex, body, 'out((k2$ : uint64))\nout((k3$[1] : uint64))\nout((k4$.m : uint64))', [u, u, u],
                         top='const k2$ : %s = @k$\nconst k3$ : %s[2] = [0, @k$]\ntype k4t$ = struct\n\tm : %s\n;;\nvar k4$ : k4t$ = [.m = @k$]\n' % (ty, ty, ty)))
        # a constant made from another unit's, seen from a third unit
        r.append(Ent2('%s, made into another' % d0, ex, body, 'const k5$ : %s\n' % ty, 'const k5$ = @k$\n', toU('%k5$') + '\n' + pat('%k5$'), [u, 1, 3, 2, 4]))
    return r


def functions(thorough):
    """function constants made from functions, in initializers of the unit that uses them"""
    r = []
    for n in range(4):
        for pub in range(2):
            body = 'const f0$ = {; -> (5 : uint64)}\n' + ''.join('const f%d$%s = f%d$\n' % (i + 1, '' if pub or i + 1 == n else ' : (-> uint64)', i) for i in range(n))
            ex = ''.join('const f%d$ : (-> uint64)\n' % i for i in (range(n + 1) if pub else [n]))
            if not pub and n:
                body = body.replace('const f0$ =', 'const f0$ : (-> uint64) =')
            f = 'f%d$' % n
            d = 'function constant made in %d steps, the others %s' % (n, 'exported' if pub else 'private')
            top = 'const c2$ = @F\nvar v2$ : (-> uint64) = @F\nconst t2$ = [@F, @F]\ntype s2t$ = struct\n\tm : (-> uint64)\n;;\nconst s2$ : s2t$ = [.m = @F]\nconst c3$ = c2$\nconst t3$ = [c2$, c3$]\n'.replace('F', f)
            use = 'out(@F())\nvar l = @F\nout(l())\nvar a4 = [@F, l][:]\nout(a4[0]())\nout({g : (-> uint64) -> uint64; -> g()}(@F))\nout({; -> @F()}())'.replace('F', f)
            r.append(Ent(d + ', called', ex, body, use, [5] * 5))
            r.append(Ent(d + ', in initializers', ex, body, 'out(c2$())\nout(v2$())\nout(t2$[1]())\nout(s2$.m())\nout(c3$())\nout(t3$[0]())\nout(t3$[1]())', [5] * 7, top=top))
            r.append(Ent2(d + ', made into others', ex, body, 'const k6$ : (-> uint64)\nconst k7$ : (-> uint64)[2]\nconst k8$ : (-> uint64)\n', 'const k6$ = @F\nconst k7$ = [@F, k6$]\nconst k8$ = k6$\n'.replace('F', f), 'out(%k6$())\nout(%k7$[0]())\nout(%k7$[1]())\nout(%k8$())\nout(x2$())\nout(x3$[0]())', [5] * 6,
                          top='const x2$ = %k8$\nconst x3$ = [%k6$]\n'))
    return r


class Ent2:
    """a's package block and body; b's, with '@' before a's names; the code of a third unit, with '@' and '%' before a's and b's names"""
    def __init__(self, desc, ex, body, bex, bbody, use, want, top='', needa=False, only=None):
        self.desc, self.ex, self.body, self.bex, self.bbody, self.use, self.want, self.top, self.needa, self.only = desc, ex, body, bex, bbody, use, want, top, needa, only


LAY2 = {}
for l, apfx, bpfx, papfx, pbpfx in (
        (Layout('b uses a, p uses b', ('mc', 'a', 'a', []), ('mc', 'b', 'b', ['"a"']), ('mc', 'p', None, ['"b"'])), '', 'a.', None, 'b.'),
        (Layout('b uses a, p uses b and a', ('mc', 'a', 'a', []), ('mc', 'b', 'b', ['"a"']), ('mc', 'p', None, ['"b"', '"a"'])), '', 'a.', 'a.', 'b.'),
        (Layout('b uses a, p uses a and b', ('mc', 'a', 'a', []), ('mc', 'b', 'b', ['"a"']), ('mc', 'p', None, ['"a"', '"b"'])), '', 'a.', 'a.', 'b.'),
        (Layout('one package, p uses b and a', ('mc', 'a', 'a', []), ('mc', 'b', 'a', ['"a"']), ('mc', 'p', None, ['"b"', '"a"'])), '', '', 'a.', 'a.'),
        (Layout('one package, p uses a and b', ('mc', 'a', 'a', []), ('mc', 'b', 'a', ['"a"']), ('mc', 'p', None, ['"a"', '"b"'])), '', '', 'a.', 'a.'),
        (Layout('one library', ('mc', 'a', 'a', []), ('mc', 'b', 'a', ['"a"']), ('muse', 'liba.use', 'a', ['a', 'b']), ('rm', 'a.use'), ('rm', 'b.use'), ('mc', 'p', None, ['a'])), '', '', 'a.', 'a.'),
        (Layout('one library, the other order', ('mc', 'a', 'a', []), ('mc', 'b', 'a', ['"a"']), ('muse', 'liba.use', 'a', ['b', 'a']), ('rm', 'a.use'), ('rm', 'b.use'), ('mc', 'p', None, ['a'])), '', '', 'a.', 'a.'),
        (Layout('two libraries, p uses b', ('mc', 'a', 'a', []), ('muse', 'liba.use', 'a', ['a']), ('rm', 'a.use'), ('mc', 'b', 'b', ['a']), ('muse', 'libb.use', 'b', ['b']), ('rm', 'b.use'), ('mc', 'p', None, ['b'])), '', 'a.', None, 'b.'),
        (Layout('two libraries, p uses b and a', ('mc', 'a', 'a', []), ('muse', 'liba.use', 'a', ['a']), ('rm', 'a.use'), ('mc', 'b', 'b', ['a']), ('muse', 'libb.use', 'b', ['b']), ('rm', 'b.use'), ('mc', 'p', None, ['b', 'a'])), '', 'a.', 'a.', 'b.'),
        (Layout('no packages', ('mc', 'a', None, []), ('mc', 'b', None, ['"a"']), ('mc', 'p', None, ['"b"', '"a"'])), '', '', '', ''),
):
    LAY2[l.name] = (l, apfx, bpfx, papfx, pbpfx)


def inst2(e, name):
    lay, ap, bp, pa, pb = LAY2[name]
    if (pa is None and (e.needa or re.search(r'(?<!@)@(?!@)', e.use + e.top))) or (e.only and not e.only(name)):
        return []
    code = lambda s, p, q='': re.sub(r'%(?=[\w`])', q, s.replace('@@', '\x01').replace('@', p or '').replace('\x01', '@'))
    return [UItem(code(e.top, pa, pb) + 'const t$ = {\n%s}\n' % code(ind(e.use), pa, pb), e.want, e.desc, {'a': (code(e.ex, ap), code(e.body, ap)), 'b': (code(e.bex, bp), code(e.bbody, bp))})]


# ---------------------------------------------------------------- what exported generics use without exporting it
# an expression of type uint64 worth 5: (name, declarations as (pkg line, text), expression)
DEPS = [
    ('constant', [('const d$ : uint64', 'const d$ TY= 5')], '?d$'),
    ('constant made from another', [('const e$ : uint64', 'const e$ TY= 2'), ('const d$ : uint64', 'const d$ TY= e$ + 3')], '?d$'),
    ('string constant', [('const d$ : byte[:]', 'const d$ TY= "hello"')], '(?d$.len : uint64)'),
    ('array constant', [('const d$ : uint64[3]', 'const d$ TY= [4, 5, 6]')], '?d$[1]'),
    ('struct constant', [('type dt$ = struct\n\t\tm : uint64\n\t\tn : byte\n\t;;', ''), ('const d$ : dt$', 'const d$ TY= [.m = 5, .n = 7]')], '?d$.m'),
    ('variable', [('var d$ : uint64', 'var d$ TY= 5')], '?d$'),
    ('variable without initializer', [('var d$ : uint64', 'var d$ TY')], '(?d$ + 5)'),
    ('function', [('const d$ : (-> uint64)', 'const d$ = {; -> (5 : uint64)}')], '?d$()'),
    ('function calling another', [('const e$ : (-> uint64)', 'const e$ = {; -> (2 : uint64)}'), ('const d$ : (-> uint64)', 'const d$ = {; -> e$() + 3}')], '?d$()'),
    ('function constant', [('const e$ : (-> uint64)', 'const e$ = {; -> (5 : uint64)}'), ('const d$ : (-> uint64)', 'const d$ TY= e$')], '?d$()'),
    ('function variable', [('const e$ : (-> uint64)', 'const e$ = {; -> (5 : uint64)}'), ('var d$ : (-> uint64)', 'var d$ TY= e$')], '?d$()'),
    ('generic', [('generic d$ : (y : @@dd$ -> uint64)', 'generic d$ = {y : @@dd$ -> uint64\n\t-> (5 : uint64)\n}')], '?d$(true)'),
    ('generic using another', [('generic e$ : (y : @@ee$ -> uint64)', 'generic e$ = {y : @@ee$ -> uint64\n\t-> (sizeof(@@ee$) : uint64)\n}'), ('generic d$ : (y : @@dd$ -> uint64)', 'generic d$ = {y : @@dd$ -> uint64\n\t-> e$(y) + 4\n}')], '?d$(true)'),
    ('generic using a constant', [('const e$ : uint64', 'const e$ TY= 4'), ('generic d$ : (y : @@dd$ -> uint64)', 'generic d$ = {y : @@dd$ -> uint64\n\tvar k = e$\n\t-> k + (sizeof(@@dd$) : uint64)\n}')], '?d$(true)'),
    ('struct', [('type d$ = struct\n\t\tn : byte\n\t\tm : uint64\n\t;;', '')], 'y$.m', 'var y$ : ?d$ = [.m = 5, .n = 1]'),
    ('size of a struct', [('type e$ = struct\n\t\ta : byte[3]\n\t;;', ''), ('type d$ = struct\n\t\ta : e$\n\t\tm : byte[2]\n\t;;', '')], '(sizeof(?d$) : uint64)'),
    ('named type', [('type d$ = byte', '')], '(y$ : uint64)', 'var y$ : ?d$ = 5'),
    ('union built', [('type d$ = union\n\t\t`Da$\n\t\t`Db$ uint64\n\t;;', '')], 'y$', 'var y$ = 0\nmatch `?Db$ 5\n| `?Da$:\ty$ = 1\n| `?Db$ n:\ty$ = n\n;;'),
    ('union', [('type d$ = union\n\t\t`Da$\n\t\t`Db$ uint64\n\t;;', ''), ('const du$ : (x : d$ -> uint64)', 'const du$ = {x\n\tmatch x\n\t| `Da$:\t-> 1\n\t| `Db$ n:\t-> n\n\t;;\n}')], '?du$(`?Db$ 5)'),
    ('generic type', [('type d$(@@dt$) = struct\n\t\tm : @@dt$\n\t\tn : uint64\n\t;;', '')], 'y$.n', 'var y$ : ?d$(bool) = [.m = true, .n = 5]'),
    ('trait and its impl', [('trait dt$ @@dt$ =\n\t\tdtf$ : (x : @@dt$ -> uint64)\n\t;;', ''), ('impl dt$ int16', 'impl dt$ int16 =\n\tdtf$ = {x; -> (x : uint64) + 1}\n;;')], '?dtf$((4 : int16))'),
]
# statements around an expression X worth 5, of type uint64; what they output
PLACES = [
    ('out(X)', [5]), ('var v : uint64 = X\nout(v)', [5]), ('const v : uint64 = X\nout(v)', [5]), ('var v\nv = X\nout(v)', [5]), ('var v : uint64 = X, w = X + 1\nout(v + w)', [11]), ('if X == 5\n\tout(1)\nelse\n\tout(2)\n;;', [1]),
    ('if false\n\tout(0)\nelif X > 4\n\tout(1)\n;;', [1]), ('if true\n\tout(X)\n;;', [5]), ('if false\n\tout(1)\nelse\n\tout(X)\n;;', [5]), ('var i : uint64 = 3\nwhile i < X\n\tout(i++)\n;;', [3, 4]), ('var i = 0\nwhile i < 2\n\tout(X)\n\ti++\n;;', [5, 5]),
    ('for var i : uint64 = X; i < 7; i++\n\tout(i)\n;;', [5, 6]), ('for var i : uint64 = 3; i < X; i++\n\tout(i)\n;;', [3, 4]), ('for var i : uint64 = 0; i < 9; i += X\n\tout(i)\n;;', [0, 5]), ('for i : [1, X][:]\n\tout(i)\n;;', [1, 5]), ('for i : "ab"\n\tout(X + (i : uint64))\n;;', [102, 103]),
    ('match X\n| 5:\tout(1)\n| _:\tout(2)\n;;', [1]), ('match 3\n| 3:\tout(X)\n| _:\tout(2)\n;;', [5]), ('match (X, 1)\n| (n, 1):\tout(n)\n| _:\tout(2)\n;;', [5]), ('const f = {; -> X}\nout(f())', [5]), ('var f = {; -> X}\nout(f())', [5]), ('var k : uint64 = 2\nvar f = {j; -> j + k + X}\nout(f(1))', [8]),
    ('const f = {\n\tvar g = {; -> X}\n\t-> g()\n}\nout(f())', [5]), ('var o = (X, 1)\nout(o.0)', [5]), ('var ar = [1, X, 3]\nout(ar[1])', [5]), ('var ar = [.[1] = X, .[0] = 2]\nout(ar[1])', [5]), ('var ar = [1, 2, 3, 4, 5, 6]\nout((ar[X] : uint64))', [6]), ('var ar = [1, 2, 3, 4, 5, 6]\nar[X] = 9\nout((ar[5] : uint64))', [9]),
    ('out("abcdefg"[:X].len)', [5]), ('out("abcdefg"[X:].len)', [2]), ('out(("abcdefg"[X] : uint64))', [102]), ('if X == 5 && X != 4 || X < 3\n\tout(1)\n;;', [1]), ('if !(X == 5)\n\tout(1)\nelse\n\tout(2)\n;;', [2]), ('out(-X + 6)', [1]), ('out(X * 2 + X / 5)', [11]), ('out(((X : byte) : uint64))', [5]),
    ('var v : uint64 = 1\nv += X\nout(v)', [6]), ('var v : uint64 = 1\nvar p = &v\np# = X\nout(v)', [5]), ('var u = `So$ X\nmatch u\n| `So$ n:\tout(n)\n| `No$:\tout(0)\n;;', [5]), ('out(idf$(X))', [5]), ('out(idf$(idf$(X) + X))', [10]),
    ('var z : pairt$ = [.l = X, .r = 2]\nout(z.l)', [5]), ('var z : pairt$\nz = [.l = 1, .r = 2]\nz.r = X\nout(z.r)', [5]), ('while true\n\tif X == 5\n\t\tbreak\n\t;;\n;;\nout(1)', [1]), ('var i = 0\n:l\nif i++ < 2\n\tout(X)\n\tgoto l\n;;', [5, 5]),
    ('var k = [[X, 1], [2, 3]]\nout(k[0][0])', [5]), ('out({a, b; -> a + b}(X, 1))', [6]), ('if true\n\tvar q = X\n\tif q == 5\n\t\tconst r = X\n\t\tout(r + q)\n\t;;\n;;', [10]), ('out(ret$(X))', [5]),
]
HELP = 'type opt$ = union\n\t`No$\n\t`So$ uint64\n;;\ntype pairt$ = struct\n\tl : uint64\n\tr : uint64\n;;\ngeneric idf$ = {x : @@id$ -> @@id$\n\t-> x\n}\nconst ret$ = {x : uint64 -> uint64\n\t-> x\n}\n'


def decls_of(dep, mode):
    """(lines of the package block, body) of a's declarations; mode: private, pkglocal or exported"""
    ex = body = ''
    for line, text in dep:
        istype = line.startswith(('type', 'trait', 'impl'))
        if mode == 'private':
            if istype and not line.startswith('impl'):
                body += line.replace('\n\t', '\n') + '\n'
            if text:
                m = re.match(r'\w+ [^:]*: (.*)', line)
                body += text.replace(' TY', ' : ' + m.group(1) + ' ' if m else ' ') + '\n'
        else:
            ex += ('pkglocal ' if mode == 'pkglocal' and not line.startswith(('trait', 'impl')) else '') + line + '\n'
            body += text.replace(' TY', ' ') + '\n' if text else ''
    return ex, body


FORMS = [
    # a generic function; a method of a generic impl; a method of an impl
    ('generic', 'generic g$ : (zz : @@zz$ -> void)\n', 'generic g$ = {zz : @@zz$ -> void\n%s}\n', '%g$(1)'),
    ('method of a generic impl', 'trait tt$ @@ta$ =\n\ttf$ : (x : @@ta$ -> void)\n;;\ntype tb$(@@tb$) = struct\n\tm : @@tb$\n;;\nimpl tt$ tb$(@@tb$)\n', 'impl tt$ tb$(@@tb$) =\n\ttf$ = {zz\n%s\t}\n;;\n', 'var y : %tb$(int) = [.m = 1]\n%tf$(y)'),
    ('method of an impl', 'trait tt$ @@ta$ =\n\ttf$ : (x : @@ta$ -> void)\n;;\nimpl tt$ int16\n', 'impl tt$ int16 =\n\ttf$ = {zz\n%s\t}\n;;\n', '%tf$((1 : int16))'),
]


def hidden(thorough):
    r = []
    for fi, (fn, fex, fbody, call) in enumerate(FORMS):
        for di, (dn, dep, x, *pre) in enumerate(DEPS):
            for pi, (pl, want) in enumerate(PLACES):
                if fi and not thorough and (pi + di) % 8:
                    continue
                if 'const ' in pl and 'const f' not in pl and not re.fullmatch('constant( made from another)?', dn):
                    continue        # a local constant wants a constant
                code = ind(''.join(l + '\n' for l in pre) + pl.replace('X', x))
                hb = HELP if re.search(r'`So|pairt|idf|ret\$', pl) else ''
                desc = '%s, %s in: %s' % (fn, dn, pl.replace('\n', '; '))
                for mode in ('private', 'exported'):
                    if mode == 'private' and dn.startswith('trait'):
                        continue        # an impl is not exported with what uses it: its author does that
                    ex, body = decls_of(dep, mode)
                    r.append(Ent('%s, %s' % (desc, mode), ex + fex, body + hb + fbody % code.replace('?', ''), call.replace('%', '@'), want))
                for mode in ('pkglocal', 'exported'):
                    if mode == 'pkglocal' and dn.startswith(('trait', 'union')):
                        continue
                    ex, body = decls_of(dep, mode)
                    r.append(Ent2('%s, %s in another unit' % (desc, mode), ex, body, fex, hb + fbody % code.replace('?', '@'), call, want, needa=True, only=(lambda n: 'package' in n or 'one library' in n) if mode == 'pkglocal' else None))
    return r


# ---------------------------------------------------------------- traits, impls and generic types
# a type, what it needs, and how the trait's functions turn it into a number and back
IMPLS = [
    ('byte', '', '', '-> (x : uint64)', '-> (k : byte)'), ('int16', '', '', '-> (x : uint64)', '-> (k : int16)'), ('uint64', '', '', '-> x', '-> k'), ('flt64', '', '', '-> (x : uint64)', '-> (k : flt64)'),
    ('char', '', '', '-> (x : uint64)', '-> (k : char)'), ('bool', '', '', 'if x\n\t-> 1\n;;\n-> 0', '-> k > 5'),
    ('#st$', 'type st$ = struct\n\ta : byte\n\tm : uint64\n;;\n', '', '-> x.m', 'var r : #st$ = [.m = k, .a = 1]\n-> r'),
    ('#st$#', 'type st$ = struct\n\ta : byte\n\tm : uint64\n;;\n', 'var sv$ : #st$[64]\n', '-> x.m', 'sv$[k].m = k\n-> &sv$[k]'),
    ('#nt$', 'type nt$ = int32\n', '', '-> (x : uint64)', '-> (k : #nt$)'),
    ('#un$', 'type un$ = union\n\t`Ua$\n\t`Ub$ uint64\n;;\n', '', 'match x\n| `#Ua$:\t-> 0\n| `#Ub$ n:\t-> n\n;;', 'if k == 0\n\t-> `#Ua$\n;;\n-> `#Ub$ k'),
    ('#gt$(uint16)', 'type gt$(@@gt$) = struct\n\tm : @@gt$\n\tn : uint64\n;;\n', '', '-> x.n', 'var r : #gt$(uint16) = [.n = k, .m = 1]\n-> r'),
    ('#gt$(@@gx$)', 'type gt$(@@gt$) = struct\n\tn : uint64\n\tm : @@gt$\n;;\n', '', '-> x.n', 'var r : #gt$(@@gx$)\nr.n = k\n-> r'),
    ('#gu$(@@gx$)', 'type gu$(@@gt$) = union\n\t`Ga$ uint64\n\t`Gb$ @@gt$\n;;\n', '', 'match x\n| `#Ga$ n:\t-> n\n| `#Gb$ n:\t-> 0\n;;', '-> `#Ga$ k'),
    ('(byte, uint64)', '', '', '-> x.1', '-> (1, k)'), ('uint64[3]', '', '', '-> x[2]', '-> [1, 2, k]'),
    ('uint64[:]', '', 'var sl$ : uint64[64]\n', '-> x[0]', 'sl$[k] = k\n-> sl$[k:]'), ('@@gp$#', '', 'var pb$ : byte[64]\n', 'var z = (x : byte#)\n-> (z# : uint64)', 'var z = &pb$[k]\nz# = (k : byte)\n-> (z : @@gp$#)'),
]
TR = 'trait tr$ @@ta$ =\n\ttrf$ : (x : @@ta$ -> uint64)\n\ttrm$ : (k : uint64 -> @@ta$)\n\ttrs$ : (x : @@ta$, y : @@ta$ -> @@ta$)\n;;\n'
# generics with a constraint, one calling the other
TG = ('generic cg$ : (x : @@cg$ -> uint64) :: *tr$ @@cg$\ngeneric ch$ : (s : @@ch$[:], z : @@ci$ -> uint64) :: *tr$ @@ch$\n',
      'generic cg$ = {x : @@cg$ -> uint64 :: *tr$ @@cg$\n\t-> *trf$(*trs$(x, *trm$(3)))\n}\ngeneric ch$ = {s : @@ch$[:], z : @@ci$ -> uint64 :: *tr$ @@ch$\n\tvar n : uint64 = 0\n\tfor x : s\n\t\tn += cg$(x)\n\t;;\n\t-> n\n}\n')


def impl(ty, store, to, frm, tr):
    """the text of an impl: '#' before the type's names, '*' before the trait's"""
    w = lambda h, b: '\t%s\n%s\t}\n' % (h, ind(b, 2))
    fr = lambda e: frm.replace('k', e) if False else frm
    return store + 'impl *tr$ %s =\n%s%s%s;;\n' % (ty, w('trf$ = {x', to), w('trm$ = {k', frm), w('trs$ = {x, y', 'var k = *trf$(x) + *trf$(y)\n' + frm))


def traits(thorough):
    r = []
    for ty, tdecl, store, to, frm in IMPLS:
        v = 9 if ty == 'bool' else 5
        f = (lambda n: int(n > 5)) if ty == 'bool' else lambda n: n
        targ = ty.replace('@@gx$', 'int8').replace('@@gp$', 'int32')
        # '#': the type's names, '*': the trait's, '!': the generics', in the using code
        use = ('var v : %s = *trm$(%d)\nout(*trf$(v))\nvar w = *trs$(v, v)\nout(*trf$(w))\nout(!cg$(v))\nout(!ch$([v, w][:], true))\nvar f : (x : %s -> uint64) = *trf$\nout(f(v))\nout(lg$(v))\nout(*trf$(lm$(v)))\nout({; -> *trf$(v)}())' % (targ, v, targ))
        a, b = f(v), f(f(v) + f(v))
        g = lambda x: f(x + f(3))
        want = [a, b, g(a), g(a) + g(b), a, f(a + a) + a, f(4), a]
        top = ('generic lg$ = {x : @@lg$ -> uint64 :: *tr$ @@lg$\n\t-> *trf$(*trs$(x, x)) + *trf$(x)\n}\ngeneric lm$ = {x : @@lm$ -> @@lm$ :: *tr$ @@lm$\n\tvar y : @@lm$ = *trm$(4)\n\t-> y\n}\n')
        lg = 'generic lg$ : (x : @@lg$ -> uint64) :: *tr$ @@lg$\ngeneric lm$ : (x : @@lm$ -> @@lm$) :: *tr$ @@lm$\n'
        sub = lambda s, t, n, x: s.replace('#', '\x02') if False else s
        q = lambda s, n='', t='', x='': re.sub(r'#(?=\w)', n, s).replace('*', t).replace('!', x)
        body = impl(ty, store, to, frm, '')
        d = 'impl for %s' % ty.replace('#st', 'st').replace('@@', '@')
        # all of it in a
        r.append(Ent(d, TR + q(tdecl) + q(TG[0]) + 'impl tr$ %s\n' % q(ty), q(body) + q(TG[1]), q(use, '@', '@', '@'), want, top=q(top, '@', '@', '@')))
        # the trait in a, the rest in the using unit
        if True:
            r.append(Ent(d + ', in the using unit', TR + q(TG[0]), q(TG[1]), q(use, '', '@', '@'), want, top=q(tdecl + body + top, '', '@', '@'), only=lambda n: n in ('direct', 'no package', 'library', 'library, first of two', 'library, second of two')))
        # the trait in a, the type and its impl in b, used by p
        r.append(Ent2(d + ', the impl in another unit', TR + q(TG[0]), q(TG[1]), q(tdecl) + q('impl *tr$ %s\n' % ty, '', '@', '@'), q(body, '', '@', '@'), q(use, '%', '@', '@'), want, top=q(top, '%', '@', '@'), needa=True))
        # the trait and the type in a, generics and the impl in b
        r.append(Ent2(d + ', generics in another unit', TR + q(tdecl) + 'impl tr$ %s\n' % q(ty), q(body), q(TG[0], '@', '@', ''), q(TG[1], '@', '@', ''), q(use, '@', '@', '%'), want, top=q(top, '@', '@', '%'), needa=True))
    # impls with helpers of the same name in every unit
    for ty, t in (('int16', 'int16'), ('@@gp$#', 'byte#'), ('#gt$(@@gx$)', '#gt$(int8)')):
        for i in range(3):
            h = ('const h$ = {; -> (%d : uint64)}\nvar n$ : uint64 = %d\ngeneric hg$ = {x : @@hg$ -> uint64\n\t-> %d\n}\n', 'type gt$(@@gt$) = struct\n\tm : @@gt$\n;;\n')
            imp = 'impl *tr2$ %s =\n\ttrh$ = {x; -> h$() + n$ + hg$(x)}\n;;\n' % ty
            tr2 = 'trait tr2$ @@ta$ =\n\ttrh$ : (x : @@ta$ -> uint64)\n;;\ngeneric cc$ : (x : @@cc$ -> uint64) :: tr2$ @@cc$\n'
            cc = 'generic cc$ = {x : @@cc$ -> uint64 :: tr2$ @@cc$\n\t-> trh$(x) + h$() + n$ + hg$(x)\n}\n'
            hs = [h[0] % (10 ** u, 2 * 10 ** u, 5 * 10 ** u) for u in range(3)]
            where = 'abp'[i]
            ex = ['const h$ : (-> uint64)\nvar n$ : uint64\ngeneric hg$ : (x : @@hg$ -> uint64)\n', ''][i % 2]
            q = lambda s, n='', t='': re.sub(r'#(?=\w)', n, s).replace('*', t)
            ia, ib, ip = (q(imp, '', '') if where == 'a' else '', q(imp, '', '@') if where == 'b' else '', q(imp, '', '@') if where == 'p' else '')
            ty_ = h[1] if 'gt' in ty else ''
            pi = 'impl *tr2$ %s\n' % ty
            loc = {'a': '@', 'b': '%', 'p': ''}[where]
            hx = {'a': 1, 'b': 10, 'p': 100}[where] * 8
            r.append(Ent2('impl for %s in unit %s with helpers of the same name' % (ty, where), tr2 + ex + (ty_ + q(pi) if where == 'a' else ''), (hs[0] if not ex else hs[0].replace('n$ : uint64 =', 'n$ =')) + cc + ia, ty_ + q(pi, '', '@') if where == 'b' else 'const nop$ : (-> void)\n', hs[1] + (ib or 'const nop$ = {\n}\n'),
                          'var x : %s = %s\nout(@trh$(x))\nout(@cc$(x))\nout({; -> @trh$(x)}())\nout(h$() + n$ + hg$(x))' % (q(t, loc), '(0 : byte#)' if '#' == t[-1] else '5' if t == 'int16' else '[.m = 5]'), [hx, hx + 8, hx, 800],
                          top=(ty_ if where == 'p' else '') + hs[2] + ip, needa=True, only=lambda n: n.startswith('b uses a') or n.startswith('two lib')))
    # a trait with another type, and the built in ones
    aux = 'trait cv$ @@cf$ -> @@ct$ =\n\tcvf$ : (x : @@cf$ -> @@ct$)\n;;\nimpl cv$ int16 -> uint64\nimpl cv$ byte -> char\n'
    r.append(Ent('trait with two types', aux, 'impl cv$ int16 -> uint64 =\n\tcvf$ = {x; -> (x : uint64) + 7}\n;;\nimpl cv$ byte -> char =\n\tcvf$ = {x; -> (x : char)}\n;;\n',
                 'out(@cvf$((3 : int16)))\nout((@cvf$((97 : byte)) : uint64))', [10, 97]))
    it = 'type it$ = struct\n\tn : uint64\n;;\nconst byn$ : (n : uint64 -> it$)\nimpl iterable it$ -> uint64\n'
    itb = 'const byn$ = {n; -> [.n = n]}\nvar itl$ : uint64\nimpl iterable it$ -> uint64 =\n\t__iternext__ = {it, v\n\t\tif it.n == 0\n\t\t\t-> false\n\t\t;;\n\t\tv# = it.n--\n\t\t-> true\n\t}\n\n\t__iterfin__ = {it, v\n\t\tout(1000 + v#)\n\t}\n;;\n'
    r.append(Ent('iterator', it, itb, 'for x : @byn$(3)\n\tout(x)\n;;\nfor x : @byn$(2)\n\tfor y : @byn$(x)\n\t\tout(x * 10 + y)\n\t;;\n;;', [3, 1003, 2, 1002, 1, 1001, 22, 1002, 21, 1001, 1002, 11, 1001, 1001]))
    git = 'type gi$(@@gi$) = struct\n\ts : @@gi$[:]\n;;\ngeneric each$ : (s : @@gi$[:] -> gi$(@@gi$))\nimpl iterable gi$(@@gi$) -> @@gi$\n'
    gitb = 'generic each$ = {s : @@gi$[:] -> gi$(@@gi$)\n\t-> [.s = s]\n}\nimpl iterable gi$(@@gi$) -> @@gi$ =\n\t__iternext__ = {it, v\n\t\tif it.s.len == 0\n\t\t\t-> false\n\t\t;;\n\t\tv# = it.s[0]\n\t\tit.s = it.s[1:]\n\t\t-> true\n\t}\n\n\t__iterfin__ = {it, v\n\t}\n;;\n'
    r.append(Ent('generic iterator', git, gitb, 'var s : uint64[3] = [4, 5, 6]\nfor x : @each$(s[:])\n\tout(x)\n;;\nfor b : @each$("ab")\n\tout((b : uint64))\n;;\nfor (x, y) : @each$([((1 : uint64), true), (2, false)][:])\n\tif y\n\t\tout(x)\n\t;;\n;;', [4, 5, 6, 97, 98, 1]))
    ds = 'type ds$ = struct\n\tn : uint64\n;;\nconst mkds$ : (n : uint64 -> ds$)\nimpl disposable ds$\nimpl disposable ds$#\n'
    dsb = 'const mkds$ = {n; -> [.n = n]}\nimpl disposable ds$ =\n\t__dispose__ = {d; out(d.n)}\n;;\nimpl disposable ds$# =\n\t__dispose__ = {d; out(d.n + 100)}\n;;\n'
    r.append(Ent('disposable', ds, dsb, 'if true\n\tvar a1 = auto @mkds$(1)\n\tvar b1 = @mkds$(2)\n\tauto &b1\n\tauto @mkds$(3)\n\tout(9)\n;;\nout(8)', [9, 3, 102, 1, 8]))
    # generic types
    lst = 'type lst$(@@l$) = union\n\t`Nil$\n\t`Cons$ (@@l$, lst$(@@l$)#)\n;;\ngeneric llen$ : (l : lst$(@@l$) -> uint64)\ngeneric lsum$ : (l : lst$(@@l$), f : (x : @@l$ -> uint64) -> uint64)\n'
    lstb = ('generic llen$ = {l : lst$(@@l$) -> uint64\n\tmatch l\n\t| `Nil$:\t-> 0\n\t| `Cons$ (x, r):\t-> 1 + llen$(r#)\n\t;;\n}\n'
            'generic lsum$ = {l : lst$(@@l$), f : (x : @@l$ -> uint64) -> uint64\n\tmatch l\n\t| `Nil$:\t-> 0\n\t| `Cons$ (x, r):\t-> f(x) + lsum$(r#, f)\n\t;;\n}\n')
    r.append(Ent('recursive generic union', lst, lstb, 'var n : @lst$(byte) = `@Nil$\nvar l1 : @lst$(byte) = `@Cons$ (5, &n)\nvar l2 : @lst$(byte) = `@Cons$ (6, &l1)\nout(@llen$(n))\nout(@llen$(l2))\nout(@lsum$(l2, {x : byte -> uint64; -> (x : uint64)}))\n'
                 'match l2\n| `@Cons$ (6, r):\n\tmatch r#\n\t| `@Cons$ (x, _):\tout((x : uint64))\n\t| _:\tout(0)\n\t;;\n| _:\tout(1)\n;;\nout((sizeof(@lst$(uint64)) : uint64))', [0, 2, 11, 5, 24]))
    pr = 'type pr$(@@p$, @@q$) = struct\n\tl : @@p$\n\tr : @@q$\n;;\ntype pi$(@@z$) = pr$(@@z$, uint64)\ngeneric mkp$ : (x : @@p$, y : @@q$ -> pr$(@@p$, @@q$))\ngeneric swap$ : (p : pr$(@@p$, @@q$) -> pr$(@@q$, @@p$))\n'
    prb = 'generic mkp$ = {x : @@p$, y : @@q$ -> pr$(@@p$, @@q$)\n\t-> [.l = x, .r = y]\n}\ngeneric swap$ = {p : pr$(@@p$, @@q$) -> pr$(@@q$, @@p$)\n\t-> mkp$(p.r, p.l)\n}\n'
    r.append(Ent('generic struct of two types', pr, prb, 'var a1 = @mkp$((3 : byte), (7 : uint64))\nout(a1.r)\nvar b1 = @swap$(a1)\nout(b1.l)\nout((b1.r : uint64))\nvar c1 : @pi$(bool) = [.l = true, .r = 6]\nout(c1.r)\nout((sizeof(@pr$(byte, int16)) : uint64))\n'
                 'var d1 = @swap$(@mkp$(@mkp$((1 : uint64), true), (2 : uint64)))\nout(d1.l)\nout(d1.r.l)', [7, 7, 3, 6, 4, 2, 1]))
    return r


# ---------------------------------------------------------------- names that are not exported
HIDDEN = [
    ('constant', [('const d$ : uint64', 'const d$ TY= 5')], 'out(?d$)', 'var q$ : uint64 = d$'),
    ('string constant', [('const d$ : byte[:]', 'const d$ TY= "abcde"')], 'out((?d$.len : uint64))', 'var q$ = d$.len'),
    ('variable', [('var d$ : uint64', 'var d$ TY= 5')], 'out(?d$)', 'var q$ : uint64 = d$'),
    ('function', [('const d$ : (-> uint64)', 'const d$ = {; -> (5 : uint64)}')], 'out(?d$())', 'var q$ : uint64 = d$()'),
    ('generic', [('generic d$ : (y : @@dd$ -> uint64)', 'generic d$ = {y : @@dd$ -> uint64\n\t-> (5 : uint64)\n}')], 'out(?d$(true))', 'var q$ = d$(true)'),
    ('type', [('type d$ = struct\n\t\tm : uint64\n\t;;', '')], 'var y$ : ?d$ = [.m = 5]\nout(y$.m)', 'var q$ : d$ = [.m = 1]'),
    ('named type', [('type d$ = int', '')], 'var y$ : ?d$ = 5\nout((y$ : uint64))', 'var q$ : d$ = 1'),
    ('generic type', [('type d$(@@dt$) = struct\n\t\tm : @@dt$\n\t;;', '')], 'var y$ : ?d$(uint64) = [.m = 5]\nout(y$.m)', 'var q$ : d$(int) = [.m = 1]'),
    ('union', [('type d$ = union\n\t\t`Da$\n\t\t`Db$ uint64\n\t;;', '')], 'var y$ = `?Db$ 5\nout(1)', 'var q$ = `Db$ 1'),
    ('trait', [('trait d$ @@dt$ =\n\t\tdtf$ : (x : @@dt$ -> uint64)\n\t;;', '')], 'out(lg$(3))', 'var q$ = 1'),
]


def negatives():
    jobs = []
    for n in LAY:
        lay, pfx, wraps = LAY[n]
        if wraps or n == 'library, first of two':
            continue
        for dn, decl, use, ref in HIDDEN:
            for mode in ('private', 'private, used by an exported generic', 'pkglocal', 'exported'):
                if mode == 'pkglocal' and (dn in ('trait', 'union') or 'type' in dn or n in ('no package', 'direct')):
                    continue        # within a package a use file has everything; the attribute is one of declarations of values
                ex, bo = decls_of(decl, mode.split(',')[0])
                if 'generic' in mode:
                    if dn in ('trait', 'union'):        # a constructor is part of the type
                        continue
                    ex += 'generic gg$ : (x : @@gg$ -> void)\n'
                    bo += 'generic gg$ = {x : @@gg$ -> void\n\t%s\n}\n' % ref
                ex += 'const other$ : uint64\n'
                bo += 'const other$ = 1\n'
                top = ''
                if dn == 'trait':
                    top = 'impl ?d$ int =\n\tdtf$ = {x; -> (x : uint64)}\n;;\ngeneric lg$ = {x : @@lg$ -> uint64 :: ?d$ @@lg$\n\t-> ?dtf$(x)\n}\n'
                code = lambda s, p: s.replace('@@', '\x01').replace('?', p).replace('\x01', '@')
                it = UItem(code(top, pfx) + 'const t$ = {\n%s}\n' % code(ind(use), pfx), [3] if dn == 'trait' else [1] if dn == 'union' else [5],
                           '%s %s, referred to from another unit' % (mode, dn), {'a': (code(ex, ''), code(bo, ''))}, **({} if mode == 'exported' else {'status': 'reject'}))
                jobs.append((lay, it))
    return jobs


# ---------------------------------------------------------------- the programs of the other checks as bodies of exported generics
KW = set('auto break castto const continue elif else export extern false for generic goto if impl in match pkg sizeof static struct trait true type union use var void while noret'.split())
TY = re.compile(r'u?int(8|16|32|64)?|flt(32|64)|byte|char|bool')
TOK = re.compile(r"[A-Za-z_$][\w$]*|\d[\w.]*|\"[^\"]*\"|'[^']*'|[-+*/%&|^=<>!:#~?]+|[^ \t]", re.S)


def pick(items, n):
    """few items that have every sequence of n tokens that occurs in any"""
    seen, r = set(), []
    for it in items:
        if it.status == 'reject' or it.c or it.pre or it.src is None or it.key or '(iter)' in it.desc:
            continue
        t = [x if x in KW else ('T' if TY.fullmatch(x) else 'x') if x[0].isalpha() or x[0] in '_$' else '1' if x[0].isdigit() else x[0] if x[0] in '"\'' else x for x in TOK.findall(it.src)]
        g = {tuple(t[i:i + n]) for i in range(len(t) - n + 1)}
        if g - seen:
            seen |= g
            r.append(it)
    return r


def others(a):
    """-> [(prelude, [(src, want, desc, args, status)])] from the check of that name"""
    import runpy
    from mcv import check, comp
    name, n = a
    got, st = [], {}

    class None_:
        thorough = False
        cov, viol, assume, samples = {}, [], [], []
        add = sample = report = lambda *a, **k: None
    o = comp.run_items, check.main, comp.Tree
    rec = lambda c, tree, items, prelude='', **k: got.append((prelude, list(items))) or dict(programs=0, outputs=0, rejected=0, bad=0)
    comp.run_items, check.main, comp.Tree = rec, lambda b, n: None, lambda *a, **k: None
    try:
        b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), name + '.py'), run_name='items')['body']
        b.__globals__['run_items'], b.__globals__['Tree'] = rec, lambda *a, **k: None
        b(None_())
    finally:
        comp.run_items, check.main, comp.Tree = o
    r = []
    for p, its in got:
        l = []
        for it in pick(its, n):
            w = it.want() if callable(it.want) else it.want
            if all(type(v) in (int, bytes) for v in w):     # the name a type is printed as has its package
                l.append((it.src, w, it.desc, it.args, it.status))
        r.append((p, l))
    return r


def programs(c, tree):
    tot = [0, 0]
    names = ['C02', 'C03', 'C05', 'C06', 'C11', 'C16'] if c.thorough else ['C02', 'C05', 'C06', 'C11']
    for got in pmap(others, [(n, 6 if c.thorough else 4) for n in names]):
        for p, l in got:
            for n in MAIN[:4] if c.thorough else MAIN[2:3]:
                lay, pfx, wraps = LAY[n]
                if wraps and n != MAIN[2]:
                    continue
                items = []
                for k, (src, want, desc, args, status) in enumerate(l):
                    s, m = re.subn(r'const t\$ = \{\n', 'generic zg$ = {zz$ : @zz$\n', src)
                    assert m == 1
                    items.append(UItem('const t$ = {\n\t%szg$(1)\n}\n' % pfx, want, desc + ', as an exported generic', {'a': ('generic zg$ : (zz$ : @zz$ -> void)\n', s)}, args=args, status=status))
                st = run_units(c, tree, lay, items, {'a': p})
                tot = [tot[0] + st['programs'], tot[1] + st['outputs']]
    return tot


def body(c):
    tree = Tree('c')
    tot = [0, 0]
    for f in (types, constants, functions, hidden, traits):
        s = run_all(c, tree, f(c.thorough))
        tot = [tot[0] + s[0], tot[1] + s[1]]
    s = programs(c, tree)
    tot = [tot[0] + s[0], tot[1] + s[1]]
    for jobs in (negatives(),):
        st = run_each(c, tree, jobs)
        tot = [tot[0] + st['programs'], tot[1] + st['outputs']]
    c.add(executions=tot[0], transitions=tot[1])


def run_all(c, tree, ents, prelude=PRELUDE):
    tot = [0, 0]
    few = len(ents) > 400 and not c.thorough
    for lays, f, kind in ((LAY, inst, Ent), (LAY2, inst2, Ent2)):
        es = [e for e in ents if type(e) is kind]
        for k, n in enumerate(lays if es else ()):
            items = [i for e in (es[k % 8::8] if few and n not in MAIN else es) for i in f(e, n)]
            if items:
                st = run_units(c, tree, lays[n][0], items, prelude)
                tot[0] += st['programs']
                tot[1] += st['outputs']
    return tot


if __name__ == '__main__':
    main(body, 'C08')
