"""Aggregate types: structs, tuples, arrays, unions over scalars, with layout, values, literals, encoders and paths.
'$' in names is replaced by the item's number.  Values: scalars int | float | bytes | ('fn', i); composites lists; unions (index, payload)."""
import struct
M64 = (1 << 64) - 1


def al(x, a):
    return (x + a - 1) // a * a


class Ty:
    def __init__(self, name, src, size, align, decls=()):
        self.name, self.src, self.size, self.align, self.decls = name, src, size, align, list(decls)

    def alldecls(self, seen):
        """declarations of this type and everything below it, once each"""
        for s in self.subtypes():
            s.alldecls(seen)
        if self.name not in seen:
            seen[self.name] = '\n'.join(self.decls + [self.encdef()]) + '\n'
        return seen

    def subtypes(self):
        return []

    def paths(self):
        """[(suffix, type, index path)] of every sub-object that can be named, itself first"""
        return [('', self, ())]

    def get(self, v, ix):
        return v

    def put(self, v, ix, new):
        """a copy of v with the sub-object at ix replaced"""
        return new


SCAL = {  # name: source, size
    'by': ('byte', 1), 'i8': ('int8', 1), 'h': ('int16', 2), 'uh': ('uint16', 2), 'w': ('int32', 4), 'uw': ('uint32', 4), 'q': ('int64', 8), 'uq': ('uint64', 8), 'f': ('flt32', 4), 'd': ('flt64', 8),
    'bo': ('bool', 1), 'ch': ('char', 4), 'p': ('byte#', 8), 'sl': ('byte[:]', 16), 'fn': ('(-> uint64)', 16), 'in': ('int', 4)}
NFN = 24
FNS = ''.join('const fn%d = {; -> %d}\n' % (i, 1000 + i) for i in range(NFN))


CT = {'by': 'uint8_t', 'i8': 'int8_t', 'h': 'int16_t', 'uh': 'uint16_t', 'w': 'int32_t', 'uw': 'uint32_t', 'q': 'int64_t', 'uq': 'uint64_t', 'f': 'float', 'd': 'double', 'bo': '_Bool', 'ch': 'uint32_t', 'p': 'void *', 'in': 'int'}


def cdecls(*tys):
    """C declarations of the types and their encoders, None when one has no C equivalent"""
    seen = {}
    for t in tys:
        if not t.cdef(seen):
            return None
    return ''.join(seen.values())


class Sc(Ty):
    def cdef(self, seen):
        return self.name in CT

    def cty(self, var):
        return '%s %s' % (CT[self.name], var)

    def cenc(self, x):
        return {'f': 'out(fbits(%s));', 'd': 'out(dbits(%s));'}.get(self.name, 'out((uint64_t)(%s));') % x

    def __init__(self, k):
        src, size = SCAL[k]
        Ty.__init__(self, k, src, size, min(size, 8))

    def fresh(self, c):
        c[0] += 1
        n = c[0]
        k = self.name
        if k in ('by', 'uh', 'uw', 'uq', 'i8', 'h', 'w', 'q', 'in'):
            b = 8 * self.size
            v = (n * 0x9e3779b97f4a7c15 + 0x1234567) & M64
            v = (v >> (64 - b)) | 1
            if k in ('i8', 'h', 'w', 'q', 'in'):
                v = v - (1 << b) if v >> (b - 1) else v
                return v
            return v
        if k == 'bo':
            return n * 5 // 3 & 1
        if k == 'ch':
            return 0x100 + n * 77 % 0xc000
        if k == 'p':
            return (0x10000 * n & 0x7fffffff) + 0x123
        if k == 'f':
            return n * 0.25 - 3
        if k == 'd':
            return n * 0.125 - 7
        if k == 'sl':
            return b'' if n % 7 == 0 else b's%d' % n
        return ('fn', n % NFN)

    def lit(self, v):
        k = self.name
        if k == 'bo':
            return 'true' if v else 'false'
        if k == 'ch':
            return "'\\u{%x}'" % v
        if k == 'p':
            return '(0x%x : byte#)' % v
        if k in 'fd':
            return repr(float(v)) if v >= 0 else '-' + repr(float(-v))
        if k == 'sl':
            return '"%s"' % v.decode()
        if k == 'fn':
            return 'fn%d' % v[1]
        return str(v)

    def enc(self, v):
        k = self.name
        if k == 'f':
            return [struct.unpack('<I', struct.pack('<f', v))[0]]
        if k == 'd':
            return [struct.unpack('<Q', struct.pack('<d', v))[0]]
        if k == 'sl':
            return [v]
        if k == 'fn':
            return [1000 + v[1]]
        return [int(v) & M64]

    def encdef(self):
        k, s = self.name, self.src
        b = {'f': 'out(((p : uint32#)# : uint64))', 'd': 'out((p : uint64#)#)', 'sl': 'outs(p#)', 'fn': 'out(p#())', 'bo': 'if p#; out(1); else; out(0) ;;'}.get(k, 'out((p# : uint64))')
        return 'const e_%s$ = {p : %s#; %s}' % (k, s, b)


class St(Ty):
    def cdef(self, seen):
        if self.name in seen:
            return True
        if not all(s.cdef(seen) for s in self.subs):
            return False
        seen[self.name] = 'typedef struct { %s } T%s$; static inline void ce_%s$(const T%s$ *p) { %s }\n' % (
            ' '.join(s.cty('m%d' % i) + ';' for i, s in enumerate(self.subs)), self.name, self.name, self.name, ' '.join(s.cenc('p->m%d' % i) for i, s in enumerate(self.subs)))
        return True

    def cty(self, var):
        return 'T%s$ %s' % (self.name, var)

    def cenc(self, x):
        return 'ce_%s$(&%s);' % (self.name, x)

    def __init__(self, name, subs):
        self.subs = subs
        o, a = 0, 1
        self.offs = []
        for s in subs:
            a = max(a, s.align)
            o = al(o, s.align)
            self.offs.append(o)
            o += s.size
        Ty.__init__(self, name, name + '$', al(o, a), a, ['type %s$ = struct\n%s;;' % (name, ''.join('\tm%d : %s\n' % (i, s.src) for i, s in enumerate(subs)))])
        self.acc = ['.m%d' % i for i in range(len(subs))]

    def subtypes(self):
        return self.subs

    def fresh(self, c):
        return [s.fresh(c) for s in self.subs]

    def lit(self, v):
        return '[%s]' % ', '.join('.m%d=%s' % (i, s.lit(x)) for i, (s, x) in enumerate(zip(self.subs, v)))

    def enc(self, v):
        return sum((s.enc(x) for s, x in zip(self.subs, v)), [])

    def encdef(self):
        return 'const e_%s$ = {p : %s#\n%s}' % (self.name, self.src, ''.join('\te_%s$(&p#%s)\n' % (s.name, a) for s, a in zip(self.subs, self.acc)))

    def paths(self):
        r = [('', self, ())]
        for i, (s, a) in enumerate(zip(self.subs, self.acc)):
            r += [(a + p, t, (i,) + ix) for p, t, ix in s.paths()]
        return r

    def get(self, v, ix):
        return self.subs[ix[0]].get(v[ix[0]], ix[1:]) if ix else v

    def put(self, v, ix, new):
        if not ix:
            return new
        v = list(v)
        v[ix[0]] = self.subs[ix[0]].put(v[ix[0]], ix[1:], new)
        return v

    def offset(self, ix):
        return self.offs[ix[0]] + (self.subs[ix[0]].offset(ix[1:]) if len(ix) > 1 else 0)


class Tup(St):
    def __init__(self, name, subs):
        St.__init__(self, name, subs)
        self.src = '(%s)' % ', '.join(s.src for s in subs)
        self.decls = []
        self.acc = ['.%d' % i for i in range(len(subs))]

    def lit(self, v):
        return '(%s)' % ', '.join(s.lit(x) for s, x in zip(self.subs, v))


class Arr(St):
    def __init__(self, name, sub, n):
        St.__init__(self, name, [sub] * n)
        self.src = '%s[%d]' % (sub.src, n)
        self.decls = []
        self.acc = ['[%d]' % i for i in range(n)]
        self.sub, self.n = sub, n

    def lit(self, v):
        return '[%s]' % ', '.join(self.sub.lit(x) for x in v)

    def cdef(self, seen):
        return self.sub.cdef(seen)

    def cty(self, var):
        return self.sub.cty('%s[%d]' % (var, self.n))

    def cenc(self, x):
        return ' '.join(self.sub.cenc('%s[%d]' % (x, i)) for i in range(self.n))

    def encdef(self):
        return 'const e_%s$ = {p : %s#\n\tfor var i = 0; i < %d; i++\n\t\te_%s$(&p#[i])\n\t;;\n}' % (self.name, self.src, self.n, self.sub.name)

    def paths(self):
        if self.n <= 4:
            return St.paths(self)
        r = [('', self, ())]
        for i in (0, 1, self.n // 2, self.n - 1):
            r += [(self.acc[i] + p, t, (i,) + ix) for p, t, ix in self.sub.paths()]
        return r


class Nm(Ty):
    """a named type for another one"""
    def cdef(self, seen):
        return self.sub.cdef(seen)

    def cty(self, var):
        return self.sub.cty(var)

    def cenc(self, x):
        return self.sub.cenc(x)

    def __init__(self, name, sub):
        self.sub = sub
        Ty.__init__(self, name, name + '$', sub.size, sub.align, ['type %s$ = %s' % (name, sub.src)])

    def subtypes(self):
        return [self.sub]

    def fresh(self, c):
        return self.sub.fresh(c)

    def lit(self, v):
        return self.sub.lit(v)

    def enc(self, v):
        return self.sub.enc(v)

    def encdef(self):
        return 'const e_%s$ = {p : %s#; e_%s$((p : %s#))}' % (self.name, self.src, self.sub.name, self.sub.src)


class Un(Ty):
    def cdef(self, seen):
        return not any(self.subs)

    def cty(self, var):
        return 'int32_t ' + var

    def cenc(self, x):
        return 'out(7000 + %s);' % x

    def __init__(self, name, subs):
        """subs: payload types or None"""
        self.subs = subs
        a = max([4] + [s.align for s in subs if s])
        sz = max([4] + [al(4, s.align) + s.size for s in subs if s])
        Ty.__init__(self, name, name + '$', al(sz, a), a, ['type %s$ = union\n%s;;' % (name, ''.join('\t`K%s$_%d%s\n' % (name, i, ' ' + s.src if s else '') for i, s in enumerate(subs)))])

    def subtypes(self):
        return [s for s in self.subs if s]

    def fresh(self, c, k=None):
        c[0] += 1
        i = (c[0] % len(self.subs)) if k is None else k
        return (i, self.subs[i].fresh(c) if self.subs[i] else None)

    def lit(self, v):
        s = self.subs[v[0]]
        return '`K%s$_%d%s' % (self.name, v[0], ' (%s)' % s.lit(v[1]) if s and s.lit(v[1])[0] not in '([' else ' ' + s.lit(v[1]) if s else '')

    def enc(self, v):
        return [7000 + v[0]] + (self.subs[v[0]].enc(v[1]) if self.subs[v[0]] else [])

    def encdef(self):
        return 'const e_%s$ = {p : %s#\n\tmatch p#\n%s\t;;\n}' % (self.name, self.src, ''.join(
            '\t| `K%s$_%d%s: out(%d)%s\n' % (self.name, i, ' x' if s else '', 7000 + i, '; e_%s$(&x)' % s.name if s else '') for i, s in enumerate(self.subs)))


S = {k: Sc(k) for k in SCAL}


def decls(*tys):
    seen = {}
    for t in tys:
        t.alldecls(seen)
    return ''.join(seen.values())


def family(kind):
    """kind: 'small' for use inside other enumerations, 'full'"""
    r = []
    k1 = ['by', 'h', 'w', 'q', 'f', 'd', 'bo', 'ch', 'p', 'sl', 'fn', 'uq', 'uw', 'uh', 'i8', 'in']
    base = ['by', 'h', 'w', 'q', 'f', 'd', 'sl', 'fn'] if kind == 'full' else ['by', 'h', 'w', 'q', 'f', 'd', 'sl']
    if kind == 'full':
        r += [S[k] for k in k1]
    for k in k1 if kind == 'full' else base:
        r.append(St('s_' + k, [S[k]]))
    for a in base:
        for b in base:
            r.append(St('s_%s_%s' % (a, b), [S[a], S[b]]))
            if kind == 'full':
                r.append(Tup('t_%s_%s' % (a, b), [S[a], S[b]]))
    b3 = ['by', 'h', 'w', 'f', 'd'] if kind == 'full' else ['by', 'w', 'd']
    for a in b3:
        for b in b3:
            for c in b3:
                r.append(St('s_%s_%s_%s' % (a, b, c), [S[a], S[b], S[c]]))
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65) if kind == 'full' else (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15, 16, 17, 31):
        r.append(St('sb%d' % n, [Arr('ab%d' % n, S['by'], n)]))
        if kind == 'full':
            r.append(Arr('ab%d' % n, S['by'], n))
    for k in base:
        for n in (1, 2, 3):
            r.append(Arr('a%s%d' % (k, n), S[k], n))
    for k in base:
        r.append(Un('u_' + k, [S[k], None]))
        r.append(Un('un_' + k, [None, S[k]]))
    for a in base:
        for b in base:
            if a < b:
                r.append(Un('u_%s_%s' % (a, b), [S[a], S[b], None]))
    r.append(Un('en', [None, None, None]))
    r.append(Un('en1', [None]))
    r.append(Un('u1', [S['w']]))
    inner = [St('s_by_w', [S['by'], S['w']]), St('s_by_h_by', [S['by'], S['h'], S['by']]), Tup('t_by_d', [S['by'], S['d']]), Un('u_by', [S['by'], None]), Un('u_d', [S['d'], None]), Un('u_sl', [S['sl'], None]), Arr('ah3', S['h'], 3), Arr('ab5', S['by'], 5),
             Arr('af3', S['f'], 3), St('s_f_f', [S['f'], S['f']]), St('sb3', [Arr('ab3', S['by'], 3)]), Un('en', [None, None, None]), St('s_q_q', [S['q'], S['q']]), Un('u_h', [S['h'], None])]
    for i in inner:
        for o in ('by', 'd', 'f') if kind == 'full' else ('by', 'f'):
            r.append(St('n1_%s_%s' % (i.name, o), [S[o], i]))
            r.append(St('n2_%s_%s' % (i.name, o), [i, S[o]]))
            if kind == 'full':
                r.append(Tup('n3_%s_%s' % (i.name, o), [S[o], i, S[o]]))
        r.append(Arr('na_' + i.name, i, 2))
        r.append(Un('nu_' + i.name, [i, S['by'], None]))
        if kind == 'full':
            if type(i) is St:
                r.append(Nm('nn_' + i.name, i))
            r.append(Arr('naa_' + i.name, Arr('na_' + i.name, i, 2), 3))
            r.append(St('nsa_' + i.name, [S['by'], Arr('na_' + i.name, i, 2), S['h']]))
            r.append(Un('nuu_' + i.name, [Un('nu_' + i.name, [i, S['by'], None]), None]))
            r.append(St('nst_' + i.name, [Tup('tt_' + i.name, [i, S['by']]), i]))
    for i in inner[:8]:
        for j in inner[:8]:
            if i is not j and kind == 'full':
                r.append(St('p_%s_%s' % (i.name, j.name), [i, j]))
    return r
