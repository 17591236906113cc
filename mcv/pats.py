"""A family of small Myrddin types with their (finite, representative) values, pattern alphabets, and the
reference semantics of `match`: first clause whose pattern matches, bindings, exhaustiveness, reachability.
Values: int/bool for scalars, bytes for byte[:], (tag, payload or None) for unions, tuples for tuples, structs and arrays,
('&', v) for pointers.  Patterns: see `ppat`.
"""
import itertools

GAP = ('_',)


class T:
    def __init__(self, name, src, decl=''):
        self.name, self.src, self.decl = name, src, decl

    def enc(self, v):
        """outputs of the Myrddin encoder e_<name>"""
        raise NotImplementedError


class Sc(T):
    """scalar with literal patterns; lits: [(text, value)], fresh: [(text, value)] values no pattern names"""
    def __init__(self, name, src, lits, fresh, decl=''):
        T.__init__(self, name, src, decl)
        self.lits, self.fresh = lits, fresh

    def values(self):
        return [v for _, v in self.lits] + [v for _, v in self.fresh]

    def expr(self, v):
        for t, x in self.lits + self.fresh:
            if x == v and type(x) == type(v):
                return '(%s : %s)' % (t, self.src) if isinstance(v, int) and not isinstance(v, bool) else t
        raise KeyError(v)

    def enc(self, v):
        return [v if isinstance(v, bytes) else int(v) & (1 << 64) - 1]

    def encdef(self):
        if self.src == 'byte[:]':
            b = 'outs(v)'
        elif self.src == 'bool':
            b = 'if v; out(1); else; out(0) ;;'
        else:
            b = 'out((v : uint64))'
        return 'const e_%s = {v : %s; %s}' % (self.name, self.src, b)

    def pats(self, subs, caps):
        return [('lit', t, v) for t, v in self.lits]


class Void(T):
    def values(self):
        return [None]

    def expr(self, v):
        return 'void'

    def enc(self, v):
        return [77]

    def encdef(self):
        return 'const e_%s = {v : void; out(77)}' % self.name


class Un(T):
    def __init__(self, name, cons, limit=None):
        self.cons = cons
        T.__init__(self, name, name, 'type %s = union\n%s;;' % (name, ''.join('\t`%s%s\n' % (c, ' ' + t.src if t else '') for c, t in cons)))
        self.limit = limit

    def values(self):
        r = []
        for c, t in self.cons:
            r += [(c, v) for v in t.values()] if t else [(c, None)]
        return r

    def expr(self, v):
        t = dict(self.cons)[v[0]]
        return '(`%s%s : %s)' % (v[0], ' ' + t.expr(v[1]) if t else '', self.src)

    def enc(self, v):
        i = [c for c, _ in self.cons].index(v[0])
        t = self.cons[i][1]
        return [1000 + i] + (t.enc(v[1]) if t else [])

    def encdef(self):
        return 'const e_%s = {v : %s\n\tmatch v\n%s\t;;\n}' % (self.name, self.src, ''.join(
            '\t| `%s%s: out(%d)%s\n' % (c, ' x' if t else '', 1000 + i, '; e_%s(x)' % t.name if t else '') for i, (c, t) in enumerate(self.cons)))


class Tup(T):
    def __init__(self, name, subs):
        self.subs = subs
        T.__init__(self, name, '(%s)' % ', '.join(s.src for s in subs))

    def values(self):
        return [v for v in itertools.product(*[s.values() for s in self.subs])]

    def expr(self, v):
        return '(%s)' % ', '.join(s.expr(x) for s, x in zip(self.subs, v))

    def enc(self, v):
        return sum((s.enc(x) for s, x in zip(self.subs, v)), [])

    def encdef(self):
        return 'const e_%s = {v : %s; %s}' % (self.name, self.src, '; '.join('e_%s(v.%d)' % (s.name, i) for i, s in enumerate(self.subs)))


class St(Tup):
    def __init__(self, name, fields):
        self.fields = [f for f, _ in fields]
        self.subs = [t for _, t in fields]
        T.__init__(self, name, name, 'type %s = struct\n%s;;' % (name, ''.join('\t%s : %s\n' % (f, t.src) for f, t in fields)))

    def expr(self, v):
        return 'k_%s(%s)' % (self.name, ', '.join(s.expr(x) for s, x in zip(self.subs, v)))

    def encdef(self):
        return 'const k_%s = {%s -> %s\n\tvar r : %s\n\tr = [%s]\n\t-> r\n}\n' % (
            self.name, ', '.join('a%d : %s' % (i, s.src) for i, s in enumerate(self.subs)), self.src, self.src,
            ', '.join('.%s = a%d' % (f, i) for i, f in enumerate(self.fields))) + \
            'const e_%s = {v : %s; %s}' % (self.name, self.src, '; '.join('e_%s(v.%s)' % (s.name, f) for f, s in zip(self.fields, self.subs)))


class Arr(Tup):
    def __init__(self, name, sub, n):
        self.subs = [sub] * n
        T.__init__(self, name, '%s[%d]' % (sub.src, n))

    def expr(self, v):
        return '[%s]' % ', '.join(s.expr(x) for s, x in zip(self.subs, v))

    def encdef(self):
        return 'const e_%s = {v : %s; %s}' % (self.name, self.src, '; '.join('e_%s(v[%d])' % (s.name, i) for i, s in enumerate(self.subs)))


class Ptr(T):
    def __init__(self, name, sub):
        self.sub = sub
        T.__init__(self, name, sub.src + '#')

    def values(self):
        return [('&', v) for v in self.sub.values()]

    def expr(self, v):
        return 'b_%s(%s)' % (self.name, self.sub.expr(v[1]))

    def enc(self, v):
        return self.sub.enc(v[1])

    def encdef(self):
        # a bump arena; values live for the whole item
        return ('var a_%(n)s : %(t)s[512]\nvar n_%(n)s = 0\n'
                'const b_%(n)s = {v : %(t)s -> %(t)s#\n\tn_%(n)s = (n_%(n)s + 1) & 511\n\ta_%(n)s[n_%(n)s] = v\n\t-> &a_%(n)s[n_%(n)s]\n}\n'
                'const e_%(n)s = {v : %(t)s#; e_%(s)s(v#)}') % dict(n=self.name, t=self.sub.src, s=self.sub.name)


# ---------------------------------------------------------------- patterns
def alt(p):
    """expand or-patterns: list of or-free patterns in order"""
    k = p[0]
    if k == 'or':
        return alt(p[1]) + alt(p[2])
    if k == 'con':
        return [('con', p[1], q) for q in alt(p[2])] if p[2] else [p]
    if k in ('tup', 'arr'):
        return [(k, list(q)) for q in itertools.product(*[alt(s) for s in p[1]])]
    if k == 'st':
        return [('st', list(zip([f for f, _ in p[1]], q))) for q in itertools.product(*[alt(s) for _, s in p[1]])]
    if k == 'addr':
        return [('addr', q) for q in alt(p[1])]
    return [p]


def match(t, p, v):
    """None or the dict of bindings name -> (type, value)"""
    k = p[0]
    if k == '_':
        return {}
    if k == 'v':
        return {p[1]: (t, v)}
    if k in ('lit', 'const'):
        return {} if p[2] == v and type(p[2]) == type(v) else None
    if k == 'or':
        r = match(t, p[1], v)
        return r if r is not None else match(t, p[2], v)
    if k == 'con':
        if v[0] != p[1]:
            return None
        return match(dict(t.cons)[p[1]], p[2], v[1]) if p[2] else {}
    if k == 'addr':
        return match(t.sub, p[1], v[1])
    if k == 'st':
        it = [(t.subs[t.fields.index(f)], q, v[t.fields.index(f)]) for f, q in p[1]]
    else:
        it = zip(t.subs, p[1], v)
    r = {}
    for s, q, x in it:
        m = match(s, q, x)
        if m is None:
            return None
        r.update(m)
    return r


def ppat(p):
    k = p[0]
    if k == '_':
        return '_'
    if k in ('v', 'lit', 'const'):
        return p[1]
    if k == 'con':
        return '`%s' % p[1] + (' ' + (ppat(p[2]) if p[2][0] != 'or' else '(%s)' % ppat(p[2])) if p[2] else '')
    if k == 'tup':
        return '(%s)' % ', '.join(map(ppat, p[1]))
    if k == 'arr':
        return '[%s]' % ', '.join(map(ppat, p[1]))
    if k == 'st':
        return '[%s]' % ', '.join('.%s=%s' % (f, ppat(q)) for f, q in p[1])
    if k == 'addr':
        return '&%s' % (ppat(p[1]) if p[1][0] in ('_', 'v', 'lit', 'const', 'tup') else '(%s)' % ppat(p[1]))
    return '%s || %s' % (ppat(p[1]), ppat(p[2]))


def rename(p, c):
    """give every capture a fresh name x<i>"""
    k = p[0]
    if k == 'v':
        c[0] += 1
        return ('v', 'x%d' % c[0])
    if k == 'con':
        return ('con', p[1], rename(p[2], c)) if p[2] else p
    if k in ('tup', 'arr'):
        return (k, [rename(q, c) for q in p[1]])
    if k == 'st':
        return (k, [(f, rename(q, c)) for f, q in p[1]])
    if k == 'addr':
        return (k, rename(p[1], c))
    if k == 'or':
        d = [c[0]]
        a = rename(p[1], d)
        b = rename(p[2], c)
        return ('or', a, b)
    return p


def caps(t, p):
    """ordered [(name, type)] of the captures of p (first alternative of or-patterns)"""
    k = p[0]
    if k == 'v':
        return [(p[1], t)]
    if k == 'con':
        return caps(dict(t.cons)[p[1]], p[2]) if p[2] else []
    if k in ('tup', 'arr'):
        return sum((caps(s, q) for s, q in zip(t.subs, p[1])), [])
    if k == 'st':
        return sum((caps(t.subs[t.fields.index(f)], q) for f, q in p[1]), [])
    if k == 'addr':
        return caps(t.sub, p[1])
    if k == 'or':
        return caps(t, p[1])
    return []


def prod(mk, *alph):
    return [mk(list(x)) for x in itertools.product(*alph)]


def verdict(t, rows, vals=None):
    """'ok', 'nonexhaustive', 'unreachable' or 'ambiguous' (only an alternative of an or-pattern is redundant)"""
    vals = t.values() if vals is None else vals
    left = list(vals)
    amb = False
    for p in rows:
        hit = False
        for a in alt(p):
            rest = [v for v in left if match(t, a, v) is None]
            if len(rest) == len(left):
                amb = True
            else:
                hit = True
            left = rest
        if not hit:
            return 'unreachable'
    if left:
        return 'nonexhaustive'
    return 'ambiguous' if amb else 'ok'


# ---------------------------------------------------------------- the family
X = ('v', 'x')


def lit(s):
    return lambda text: [('lit', t, v) for t, v in s.lits if t == text][0]


Bo = Sc('bo', 'bool', [('true', True), ('false', False)], [])
By = Sc('by', 'byte', [('0', 0), ('1', 1), ('255', 255)], [('7', 7), ('128', 128)])
I8 = Sc('i8', 'int8', [('-1', -1), ('0', 0), ('127', 127)], [('-128', -128), ('5', 5)])
In = Sc('in', 'int', [('-1', -1), ('0', 0), ('2147483647', 2147483647)], [('1', 1), ('-2147483647', -2147483647), ('256', 256)])
U64 = Sc('u64', 'uint64', [('0', 0), ('1', 1), ('0x100000000', 1 << 32), ('0x8000000000000000', 1 << 63)], [('2', 2), ('0x100000001', (1 << 32) + 1)])
I64 = Sc('i64', 'int64', [('-1', -1), ('0x7fffffffffffffff', (1 << 63) - 1), ('0x100000000', 1 << 32)], [('0', 0), ('0xffffffff', (1 << 32) - 1)])
Ch = Sc('ch', 'char', [("'a'", 97), ("'\\u{3bb}'", 0x3bb), ("'\\0'", 0)], [("'b'", 98), ("'\\u{1f600}'", 0x1f600)])
S = Sc('s', 'byte[:]', [('""', b''), ('"a"', b'a'), ('"ab"', b'ab'), ('"b"', b'b'), ('"\\xff"', b'\xff')], [('"a\\0"', b'a\0'), ('"ba"', b'ba'), ('"abc"', b'abc'), ('"\\x7f"', b'\x7f')])
V = Void('vo', 'void')
E3 = Un('e3', [('X', None), ('Y', None), ('Z', None)])
E2 = Un('e2', [('P', None), ('Q', None)])
E1 = Un('e1', [('Only', None)])
U3 = Un('u3', [('A', None), ('B', Bo), ('C', Tup('bobo', [Bo, Bo]))])
BB = Tup('bobo', [Bo, Bo])
UI = Un('ui', [('M', In), ('N', In), ('O', None)])
O1 = Un('o1', [('Sm', Bo), ('No', None)])
O2 = Un('o2', [('Sm2', O1), ('No2', None)])
W1 = Un('w1', [('W', E3)])
US = Un('us', [('Str', S), ('Num', By), ('Nil', None)])
UV = Un('uv', [('Vd', V), ('Nv', None)])
BE = Tup('boe3', [Bo, E3])
EE = Tup('e3e2', [E3, E2])
BBB = Tup('bobobo', [Bo, Bo, Bo])
BU = Tup('bou3', [Bo, U3])
UU = Tup('o1o1', [O1, O1])
YY = Tup('byby', [By, By])
SB = Tup('sbo', [S, Bo])
SE = Tup('e2s', [E2, S])
T1 = Tup('tt', [BB, Bo])
ST = St('st2', [('a', Bo), ('b', E2)])
ST3 = St('st3', [('p', By), ('q', Bo), ('r', O1)])
A2 = Arr('abo', Bo, 2)
A3 = Arr('aby', By, 2)
AE = Arr('ae', E2, 2)
PB = Ptr('pbo', Bo)
PU = Ptr('pu3', U3)
PT = Tup('ppt', [Ptr('pe2', E2), Bo])
UP = Un('up', [('Pb', PB), ('Np', None)])
ALL = [Bo, By, I8, In, U64, I64, Ch, S, V, E3, E2, E1, BB, U3, UI, O1, O2, W1, US, UV, BE, EE, BBB, BU, UU, YY, SB, SE, T1, ST, ST3, A2, A3, AE, PB, PU,
       PT.subs[0], PT, UP]


def deps(t, seen=None):
    seen = [] if seen is None else seen
    subs = getattr(t, 'subs', None) or ([t.sub] if hasattr(t, 'sub') else [s for _, s in getattr(t, 'cons', []) if s])
    for s in subs:
        deps(s, seen)
    if all(t.name != s.name for s in seen):
        seen.append(t)
    return seen


def prelude(types):
    seen = []
    for t in types:
        deps(t, seen)
    s = 'const k_t = true\nconst k_f = false\nconst k_1 : int = 0\nconst k_b : byte = 1\nconst k_s = "a"\n'
    s += ''.join(t.decl + '\n' for t in seen if t.decl)
    s += ''.join(t.encdef() + '\n' for t in seen)
    return s


def valdefs(t, vals):
    # a chain of ifs split in groups keeps the functions small
    return 'const g_%s = {i : int -> %s\n%s\n\t-> %s\n}\n' % (
        t.name, t.src, '\n'.join('\tif i == %d; -> %s ;;' % (i, t.expr(v)) for i, v in enumerate(vals[:-1])), t.expr(vals[-1]))


# sub-alphabets
def base(t, cap=False, const=False, consts={}):
    """gap, (capture) and the constructors of t with gap (or capture) payloads"""
    r = [GAP] + ([X] if cap else [])
    if isinstance(t, Sc):
        r += t.pats(None, None)
        if const and t is Bo:
            r.append(('const', 'k_t', True))
        if const and t is In:
            r.append(('const', 'k_1', 0))
        if const and t is By:
            r.append(('const', 'k_b', 1))
        if const and t is S:
            r.append(('const', 'k_s', b'a'))
    elif isinstance(t, Void):
        r.append(('lit', 'void', None))
    elif isinstance(t, Un):
        for c, s in t.cons:
            if s is None:
                r.append(('con', c, None))
            else:
                r += [('con', c, q) for q in base(s, cap, const)]
    elif isinstance(t, Arr):
        r += prod(lambda x: ('arr', x), *[base(s, cap, const) for s in t.subs])
    elif isinstance(t, St):
        for sel in itertools.product(*[[None] + base(s, cap, const) for s in t.subs]):
            x = [(f, q) for f, q in zip(t.fields, sel) if q is not None]
            if x:
                r.append(('st', x))
    elif isinstance(t, Tup):
        r += prod(lambda x: ('tup', x), *[base(s, cap, const) for s in t.subs])
    elif isinstance(t, Ptr):
        r += [('addr', q) for q in base(t.sub, cap, const)]
    return r


def ors(a, t):
    """or-patterns of two distinct constructor patterns, also nested in a composite"""
    r = []
    c = [p for p in a if p[0] in ('lit', 'con', 'const') or (p[0] in ('tup', 'arr') and all(q[0] == 'lit' for q in p[1]))][:4]
    for p, q in itertools.combinations(c, 2):
        r.append(('or', p, q))
    return r


def nested(t):
    """composites with an or-pattern inside"""
    r = []
    if isinstance(t, Tup) and not isinstance(t, (St,)):
        k = 'arr' if isinstance(t, Arr) else 'tup'
        for i, s in enumerate(t.subs):
            o = ors(base(s), s)[:2]
            for q in o:
                for rest in itertools.product(*[[GAP] + [p for p in base(x) if p[0] in ('lit', 'con')][:2] for j, x in enumerate(t.subs) if j != i]):
                    rest = list(rest)
                    rest.insert(i, q)
                    r.append((k, rest))
    elif isinstance(t, St):
        for i, s in enumerate(t.subs):
            for q in ors(base(s), s)[:2]:
                for j, x in enumerate(t.subs):
                    if j != i:
                        for p in [p for p in base(x) if p[0] in ('lit', 'con')][:1]:
                            r.append(('st', [(t.fields[i], q), (t.fields[j], p)]))
    elif isinstance(t, Un):
        for c, s in t.cons:
            if s is not None:
                r += [('con', c, q) for q in ors(base(s), s)[:2] + nested(s)[:2]]
    elif isinstance(t, Ptr):
        r += [('addr', q) for q in ors(base(t.sub), t.sub)[:2]]
    return r


def explore(t, alpha, limit, deep=99):
    """breadth first over row sequences: yields (rows, verdict).  Only useful, inexhaustive prefixes are extended."""
    vals = t.values()
    full = (1 << len(vals)) - 1

    def mask(p):
        m = 0
        for i, v in enumerate(vals):
            if match(t, p, v) is not None:
                m |= 1 << i
        return m
    masks = [[mask(a) for a in alt(p)] for p in alpha]
    tot = [0] * len(alpha)
    for i, ms in enumerate(masks):
        for m in ms:
            tot[i] |= m
    gap = alpha.index(GAP)
    level = [((), 0, False)]
    n = depth = 0
    while level and depth < deep:
        if depth and n + len(level) * len(alpha) > limit:
            break
        nxt = []
        for rows, cov, amb in level:
            for i in range(len(alpha)):
                r = rows + (i,)
                n += 1
                if not tot[i] & ~cov:
                    if not amb:
                        # completed by a catch-all, so that only the unreachable clause is wrong
                        yield r + ((gap,) if cov != full else ()), 'unreachable'
                    continue
                a, c = amb, cov
                for m in masks[i]:
                    if not m & ~c:
                        a = True
                    c |= m
                if c == full:
                    if not a:
                        yield r, 'ok'
                else:
                    if not a:
                        yield r, 'nonexhaustive'
                    nxt.append((r, c, a))
        level = nxt
        depth += 1
    explore.depth = depth if level else 99


def allors(t):
    return ors(base(t), t)[:3] + nested(t)[:6]


def accepted(t, alpha, limit):
    """the row sequences (indices into alpha) which a correct compiler accepts"""
    for rows, v in explore(t, alpha, limit):
        if v == 'ok':
            yield rows
