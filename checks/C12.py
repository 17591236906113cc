#!/usr/bin/env python3
"""C12: literals denote the values the language defines; malformed ones are rejected."""
import os, sys, re, struct, shutil, itertools
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *
from mcv.comp import *

DOLLAR = '\ue000'
TYP = {'l': 'int64', 'i': 'int32', 's': 'int16', 'b': 'int8', 'ul': 'uint64', 'ui': 'uint32', 'us': 'uint16', 'ub': 'uint8'}
INTS = {'int8': (8, 1), 'int16': (16, 1), 'int32': (32, 1), 'int': (32, 1), 'int64': (64, 1), 'byte': (8, 0), 'uint8': (8, 0), 'uint16': (16, 0),
        'uint32': (32, 0), 'uint': (32, 0), 'uint64': (64, 0)}
M64 = (1 << 64) - 1
DEC = re.compile(r'([0-9][0-9_]*)(u?[lisb])?$', re.I)
HEX = re.compile(r'0x([0-9a-f_]*[0-9a-f][0-9a-f_]*)(u?[lis]|u[b])?$', re.I)
OCT = re.compile(r'0o([0-7_]*[0-7][0-7_]*)(u?[lisb])?$', re.I)
BIN = re.compile(r'0b([01_]*[01][01_]*)(u?[lisb])?$', re.I)
FLT = re.compile(r'([0-9][0-9_]*)(\.[0-9_]*)?(e[+-]?[0-9_]*[0-9][0-9_]*)?$', re.I)
NICE = re.compile(r'[0-9a-z]+(_[0-9a-z]+)*$')
FNICE = re.compile(r'[0-9]+(_[0-9]+)*\.[0-9]+(_[0-9]+)*(e-?[0-9]+)?$')


def number(t):
    """('int', value, type or None, must) | ('flt', value, must) | None (malformed)"""
    for r, b in ((BIN, 2), (OCT, 8), (HEX, 16), (DEC, 10)):
        m = r.match(t)
        if m and not (b == 10 and t[1:2] in ('x', 'o', 'b') and t[0] == '0' and r is DEC and not m.group(2)):
            v = int(m.group(1).replace('_', '') or '0', b)
            # past the prefix every run of digits is one or more digits
            body = t[2:] if b != 10 else t
            if v > M64:
                return None
            return 'int', v, TYP[m.group(2).lower()] if m.group(2) else None, bool(NICE.match(body)) and (b != 10 or t[0] != '_')
    m = FLT.match(t)
    if m and (m.group(2) or m.group(3)):
        return 'flt', t.replace('_', ''), bool(FNICE.match(t))
    return None


def f32(x):
    """the flt32 bit pattern nearest to the decimal text x"""
    v = Fraction(x)
    lo, hi = 0, 0x7f800000
    def val(b):
        if b >= 0x7f800000:
            return Fraction(2) ** 128
        e, m = b >> 23, b & 0x7fffff
        return Fraction(m, 1 << 149) if e == 0 else Fraction(m | 1 << 23) * Fraction(2) ** (e - 150)
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if val(mid) <= v:
            lo = mid
        else:
            hi = mid - 1
    if lo >= 0x7f800000:
        return lo
    a, b = v - val(lo), val(lo + 1) - v
    return lo if a < b or (a == b and lo % 2 == 0) else lo + 1


def f64(x):
    return struct.unpack('<Q', struct.pack('<d', float(x)))[0]


FP = '''const b32$ = {v : flt32
	var p = (&v : uint32#)
	out((p# : uint64))
}
const b64$ = {v : flt64
	var p = (&v : uint64#)
	out(p#)
}
'''.replace('$', '')


def intitem(t, v, ty, desc, maybe=False):
    n, s = INTS[ty]
    w = v & (1 << n) - 1
    if s and w >> n - 1:
        w -= 1 << n
    w &= M64
    return It('var g$ : %s = %s\nconst t$ = {\n\tvar x : %s = %s\n\tout((x : uint64))\n\tout((g$ : uint64))\n\tx = 3\n\tx = x + (%s) - 3\n\tout((x : uint64))\n}\n' % (ty, t, ty, t, t), [w] * 3, desc, maybe=maybe)


class It(Item):
    __slots__ = ('maybe',)

    def __init__(self, *a, **k):
        self.maybe = k.pop('maybe', False)
        Item.__init__(self, *a, **k)


def numtexts(thorough):
    seen = set()
    fam = [('01', '012789afxobulise.E+-_', 3), ('017', '01278afxobuls.e+-_', 4), ('01', '01.e-_5', 5), ('0', 'xo1_ub8', 5), ('0', 'b01_us2', 5), ('0', 'x1fFb_s', 5)]
    if thorough:
        fam += [('019', '0189afxobuls.eE+-_', 5), ('019', '0159.e-+_', 6), ('01', 'xob1_aul7', 6)]
    for first, al, n in fam:
        for k in range(0, n):
            for a in first:
                for r in itertools.product(al, repeat=k):
                    t = a + ''.join(r)
                    if t not in seen:
                        seen.add(t)
                        yield t


def num_items(thorough):
    for t in numtexts(thorough):
        if t == '0b':
            continue
        r = number(t)
        d = 'literal %s' % t
        if r is None:
            if re.search('[+-]', re.sub('[eE][+-][0-9]', 'e1', t)) or re.match('0x[0-9a-f_]*e[+-]', t):
                continue        # an expression, or not a literal at all
            if re.search('[eE][+-]', t) and t[:2] in ('0x', '0b', '0o'):
                continue
            yield It('const t$ = {\n\tvar x = %s\n\tout((x : uint64))\n}\n' % t, [], d, status='reject')
        elif r[0] == 'int':
            _, v, ty, must = r
            if ty:
                n, s = INTS[ty]
                if v >> (n - s) and not (s and v == 1 << n - 1):
                    yield It('const t$ = {\n\tvar x = %s\n\tout((x : uint64))\n}\n' % t, [], d, status='reject')
                    continue
            yield intitem(t, v, ty or 'uint64', d, not must)
        else:
            _, x, must = r
            src = ('var g$ : flt32 = %s\nvar h$ : flt64 = %s\nconst t$ = {\n\tvar x : flt32 = %s, y : flt64 = %s, z = %s\n\tb32(x)\n\tb32(g$)\n\tb64(y)\n\tb64(z)\n\tb64(h$)\n}\n' % ((t,) * 5))
            yield It(src, [f32(x)] * 2 + [f64(x)] * 3, d, maybe=not must)


def range_items():
    """every type against every boundary value, in every base"""
    vals = sorted({v for k in list(range(0, 9)) + [15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 80] for v in ((1 << k) - 1, 1 << k, (1 << k) + 1)} | {9, 10, 99, 255, 1000, 10 ** 19, 10 ** 20, 99999999999999999999999})
    for ty, (n, s) in INTS.items():
        for v in vals:
            for k, f in enumerate(('%d', '0x%x', '0o%o', '0b{:b}')):
                t = f.format(v) if '{' in f else f % v
                for neg in (0, 1):
                    if neg and not s:
                        continue
                    top = 1 << n - s
                    ok = v <= top if neg else v < top
                    lit = ('-' if neg else '') + t
                    d = 'literal %s of type %s' % (lit, ty)
                    if ok:
                        yield intitem(lit, -v if neg else v, ty, d, maybe=(neg and ty == 'int64' and v == top))
                        if k == 0:
                            w = (-v if neg else v) & M64
                            yield It('type n$ = %s\nvar g$ : n$ = %s\nconst t$ = {\n\tvar x : n$ = %s\n\tout((x : uint64))\n\tout((g$ : uint64))\n}\n' % (ty, lit, lit), [w, w], 'literal %s of a named %s' % (lit, ty))
                    elif v == top and s and not neg:
                        continue        # one past the largest value is let through for unary minus
                    elif ty == 'int64' and v <= M64:
                        continue        # bit patterns of 64 bits are let through
                    elif k == 0 or v > M64:
                        yield It('const t$ = {\n\tvar x : %s = %s\n\tout((x : uint64))\n}\n' % (ty, lit), [], d, status='reject')
                        if k == 0:
                            yield It('type n$ = %s\nconst t$ = {\n\tvar x : n$ = %s\n\tout((x : uint64))\n}\n' % (ty, lit), [], 'literal %s of a named %s' % (lit, ty), status='reject')
    # a suffix fixes the type
    for s, st in TYP.items():
        for ty in INTS:
            for t in ('7' + s, '0x1_1' + s if s != 'b' else '0o11b'):
                if ty == st:
                    yield intitem(t, number(t)[1], ty, 'literal %s of type %s' % (t, ty))
                elif ty not in ('int', 'uint', 'byte') or True:
                    yield It('const t$ = {\n\tvar x : %s = %s\n\tout((x : uint64))\n}\n' % (ty, t), [], 'literal %s where %s is wanted' % (t, ty), status='reject')


def flt_items():
    """values where the decimal reading matters"""
    ts = ['0.1', '0.2', '0.3', '1.1', '3.14159265358979323846', '2.718281828459045', '1e22', '1e23', '9007199254740993.0', '9007199254740992.5', '123456789012345678901234567890.0',
          '1.7976931348623157e308', '2.2250738585072014e-308', '4.9e-324', '5e-324', '2.4703282292062327e-324', '2.5e-324', '1.5e-45', '3.4028234e38', '1.17549435e-38', '0.5', '0.25', '1.0', '65504.0',
          '4.35', '0.000001', '8.5e-05', '1000000000000000.1', '5.000000000000000000000000000000000000000001', '0.30000000000000004', '100.0', '33554433.0', '16777217.0', '16777216.5', '16777219.0', '1.00000000000000011102230246251565404236316680908203125',
          '1.00000000000000011102230246251565404236316680908203124', '1.00000000000000011102230246251565404236316680908203126', '0.0', '000.5', '1_0.2_5', '1_000.5e1_0']
    for e in range(-30, 31):
        ts += ['1.0e%d' % e, '7.3e%d' % e, '9.999999e%d' % e]
    for e in range(-44, 38, 3):
        ts += ['1.25e%d' % e]
    for e in range(-320, 308, 7):
        ts += ['1.7e%d' % e]
    for t in ts:
        x = t.replace('_', '')
        b32, b64 = f32(x), f64(x)
        e = float(x)
        if b32 == 0x7f800000:
            for neg in (0, 1):
                l = ('-' if neg else '') + t
                sg = neg << 63
                yield It('var h$ : flt64 = %s\nconst t$ = {\n\tvar y : flt64 = %s\n\tb64(y)\n\tb64(h$)\n}\n' % (l, l), [b64 | sg] * 2, 'literal %s' % l)
        else:
            for neg in (0, 1):
                l = ('-' if neg else '') + t
                yield It('var g$ : flt32 = %s\nvar h$ : flt64 = %s\nvar a$ = [1.0, %s, 2.0]\nconst t$ = {\n\tvar x : flt32 = %s, y : flt64 = %s\n\tb32(x)\n\tb32(g$)\n\tb64(y)\n\tb64(h$)\n\tb64(a$[1])\n}\n' % (l, l, l, l, l),
                         [b32 | neg << 31] * 2 + [b64 | neg << 63] * 3, 'literal %s' % l)


# ---- characters
def chartexts(u):
    """the ways of writing a code point"""
    if not 0xd800 <= u < 0xe000:
        c = chr(u)
        if c == '$':
            yield "'%s'" % DOLLAR
        elif u >= 0xe000 and u == 0xe000:
            pass
        elif c not in "\n'\\":
            yield "'%s'" % c
        yield "'\\u{%x}'" % u
    if u < 0x100:
        yield "'\\x%02x'" % u
        yield "'\\x%02X'" % u
    e = {10: 'n', 13: 'r', 9: 't', 8: 'b', 34: '"', 39: "'", 11: 'v', 92: '\\', 0: '0'}
    if u in e:
        yield "'\\%s'" % e[u]


def char_items(thorough):
    us = list(range(0x110000)) if thorough else list(range(0x1200)) + list(range(0x1200, 0x110000, 0x17)) + \
        [b + d for b in (0x3000, 0xd7ff, 0xe001, 0xffff, 0x10000, 0x1ffff, 0x20000, 0x10ffff) for d in (-1, 0) ]
    us = sorted(set(us) - set(range(0xd800, 0xe000)) - {0xe000})
    for k in range(0, len(us), 100):
        part = us[k:k + 100]
        ts = [(u, t) for u in part for t in chartexts(u)]
        src = 'var g$ = [\n%s]\nconst t$ = {\n\tvar n : char = \'a\'\n%s\tfor var i = 0; i < g$.len; i++\n\t\tout((g$[i] : uint64))\n\t;;\n}\n' % (
            ''.join('\t%s,\n' % t for u, t in ts), ''.join('\tn = %s\n\tout((n : uint64))\n' % t for u, t in ts))
        yield It(src, [u for u, t in ts] * 2, 'characters U+%04X to U+%04X' % (part[0], part[-1]))
    for t in ("''", "'", "'ab'", "'a", "'\\'", "'\\u{110000}'", "'\\u{ffffffff41}'", "'\\u{100000041}'", "'\\u41'", "'\\u{41'", "'\\u{4g}'", "'\\x4'", "'\\x'", "'\\xg1'", "'\\x1g'", "'\\u{41}\\u{42}'", "'\\n\\n'", "'a\\n'", "'\n'", "'\udc80'", "'\udcff'", "'\udcc3'", "'\udcc3a'", "'\udce2\udc82'",
              "'\udcf8\udc88\udc80\udc80\udc80'", "'\udcc3\udca9\udcc3\udca9'"):
        yield It('const t$ = {\n\tvar x = %s\n\tout((x : uint64))\n}\n' % t, [], 'character literal %r' % t, status='reject')
    good = b'"\'0\\bnrtuvx'
    for b in range(256):
        if b not in good:
            e = bytes([b]).decode('utf-8', 'surrogateescape').replace('$', DOLLAR)
            yield It('const t$ = {\n\tvar x = \'\\%s\'\n\tout((x : uint64))\n}\n' % e, [], 'character escape \\%r' % e, status='reject')
            yield It('const t$ = {\n\tvar x = "a\\%sb"\n\tout(x.len)\n}\n' % e, [], 'string escape \\%r' % e, status='reject')


# ---- strings
def raw(b):
    return bytes(b).decode('utf-8', 'surrogateescape').replace('$', DOLLAR)


ESC = [('\\n', b'\n'), ('\\r', b'\r'), ('\\t', b'\t'), ('\\b', b'\b'), ('\\"', b'"'), ("\\'", b"'"), ('\\v', b'\v'), ('\\\\', b'\\'), ('\\0', b'\0'), ('\\x41', b'A'), ('\\xff', b'\xff'), ('\\xFF', b'\xff'), ('\\x80', b'\x80'), ('\\x00', b'\0'),
       ('\\x22', b'"'), ('\\x5c', b'\\'), ('\\u{0}', b'\0'), ('\\u{41}', b'A'), ('\\u{7f}', b'\x7f'), ('\\u{80}', b'\xc2\x80'), ('\\u{7FF}', b'\xdf\xbf'), ('\\u{800}', b'\xe0\xa0\x80'), ('\\u{ffff}', b'\xef\xbf\xbf'), ('\\u{10000}', b'\xf0\x90\x80\x80'),
       ('\\u{10ffff}', b'\xf4\x8f\xbf\xbf'), ('\\u{00041}', b'A')]
RAW = [bytes([b]) for b in b'0179afxnu{}/*;\'%? \t\r' + bytes([0, 1, 0x7f, 0x80, 0xc3, 0xfe, 0xff])] + [b'\xc3\xa9', b'//', b'/*', b'*/', b'??=', b'%d', b';;']
PIECES = ESC + [(raw(b), b) for b in RAW]


def stritem(texts, want, desc, alltext=None):
    """texts: list of literal texts, want: list of bytes"""
    src = 'var g$ : byte[:][%d] = [\n%s]\nconst t$ = {\n\tvar s\n%s\tfor var i = 0; i < g$.len; i++\n\t\tout(g$[i].len)\n\t\touts(g$[i])\n\t;;\n}\n' % (
        len(texts), ''.join('\t%s,\n' % t for t in texts), ''.join('\ts = %s\n\tout(s.len)\n\touts(s)\n' % t for t in texts))
    w = [x for b in want for x in (len(b), b)]
    return It(src, w * 2, desc)


def group(pairs, desc, n=40):
    pairs = list(pairs)
    for k in range(0, len(pairs), n):
        p = pairs[k:k + n]
        yield stritem([t for t, b in p], [b for t, b in p], '%s (%r to %r)' % (desc, p[0][0], p[-1][0]))


def str_items(thorough):
    one = [('"%s"' % raw([b]), bytes([b])) for b in range(256) if b not in b'\n"\\']
    one += [('"\\x%02x"' % b, bytes([b])) for b in range(256)] + [('"\\x%02X"' % b, bytes([b])) for b in range(256)]
    one += [('"a%sb"' % raw([b]), b'a%cb' % b) for b in range(256) if b not in b'\n"\\']
    yield from group(one, 'strings of one byte')
    us = list(range(0x900)) + list(range(0x900, 0x110000, 0x3b if thorough else 0x111)) + [0xfffe, 0xffff, 0x10000, 0x10ffff]
    us = [u for u in us if not 0xd800 <= u < 0xe000]
    yield from group([('"%s\\u{%x}%s"' % (a, u, b), ('%s%c%s' % (a, u, b)).encode()) for i, u in enumerate(us) for a, b in [(('', ''), ('x', '0'), ('0', 'a'))[i % 3]]], 'unicode escapes')
    yield from group([('"%s%s"' % (a, b), x + y) for a, x in PIECES for b, y in PIECES], 'two pieces')
    few = [PIECES[i] for i in (0, 7, 8, 10, 17, 19, 24)] + [(raw(b), b) for b in (b'0', b'a', b'\xff', b'\x00', b'}')]
    n = 4 if thorough else 3
    yield from group([('"%s"' % ''.join(p[0] for p in s), b''.join(p[1] for p in s)) for s in itertools.product(few, repeat=n)], 'pieces')
    # lengths, around every buffer size
    ls = sorted(set(range(0, 140)) | {k * 2 ** e + d for e in range(7, 14) for k in (1, 3) for d in (-2, -1, 0, 1)} | ({59999, 60000} if thorough else {50000}))
    yield from group([('"%s"' % ''.join(chr(97 + i % 23) for i in range(l)), bytes(97 + i % 23 for i in range(l))) for l in ls], 'lengths', 10)
    yield from group([('"%s"' % ('\\x%02x' % (l % 256) * l), bytes([l % 256]) * l) for l in range(0, 200)], 'lengths in escapes', 20)
    # merging
    seps = ['', ' ', '\t', '\\\n', ' \\\n\t', '/* " */', '\\\n\\\n', '/*\n*/', ' \\ // "x"\n']
    pcs = [('""', b''), ('"a"', b'a'), ('"\\0"', b'\0'), ('"\\x4"'.replace('4', '41'), b'A'), ('"0"', b'0')]
    yield from group([(a + s + b, x + y) for a, x in pcs for b, y in pcs for s in seps], 'two merged')
    yield from group([(a + s + b + r + d, x + y + z) for a, x in pcs for b, y in pcs for d, z in pcs for s in seps for r in seps[:5] + seps[5:] * thorough], 'three merged')
    yield from group([(' '.join(['"%s"' % chr(97 + i % 26) for i in range(k)]), bytes(97 + i % 26 for i in range(k))) for k in range(1, 60)], 'merged')
    yield from group([('"%s" "%s"' % ('x' * k, 'y' * (70 - k)), b'x' * k + b'y' * (70 - k)) for k in range(71)], 'merged lengths')
    for t in ('"a', '"a\n"', '"a\\', '"\\u{110000}"', '"\\u{100000041}"', '"\\u41"', '"\\u{41"', '"\\u{4g}"', '"\\x4"', '"\\x"', '"\\xg1"', '"\\x1g"', '"a\\\nb"', '"\\u{-1}"', '"\\u"', '"\\', '"a" 1', '"a" \'b\''):
        yield It('const t$ = {\n\tvar x : byte[:]\n\tx = %s\n\tout(x.len)\n}\n' % t, [], 'string literal %r' % t, status='reject')
    # the same contents twice, and contents that agree up to a nul
    yield stritem(['"ab\\0cd"', '"ab"', '"ab\\0ce"', '"ab\\0"', '"ab\\0\\0"', '"ab\\0cd"', '"\\0"', '"\\0\\0"', '""'], [b'ab\0cd', b'ab', b'ab\0ce', b'ab\0', b'ab\0\0', b'ab\0cd', b'\0', b'\0\0', b''], 'strings that agree up to a nul')


# ---- comments and identifiers
def closes(s):
    """index just after the end of the comment that starts s, or None"""
    d, i = 0, 0
    while i < len(s):
        if s.startswith('/*', i):
            d += 1
            i += 2
        elif s.startswith('*/', i):
            d -= 1
            i += 2
            if d == 0:
                return i
        else:
            i += 1
    return None


def comment_items(thorough):
    good = []
    for n in range(0, 8 if thorough else 7):
        for r in itertools.product('/*a\n', repeat=n):
            b = '/*' + ''.join(r) + '*/'
            e = closes(b)
            if e == len(b):
                good.append(b)
            elif e is None and n <= 4:
                yield It('const t$ = {\n\tout(1) %s\n\tout(2)\n}\n' % b, [], 'comment %r' % b, status='reject')
    for k in range(0, len(good), 50):
        p = good[k:k + 50]
        yield It('const t$ = {\n\tvar x : uint64\n%s}\n' % ''.join('\tx = %s %d %s + 1; out(x) %s\n' % (b.replace('\n', '') if '\n' in b else b, i, b, b) for i, b in enumerate(p) if closes(b.replace('\n', '')) == len(b.replace('\n', ''))),
                 [i + 1 for i, b in enumerate(p) if closes(b.replace('\n', '')) == len(b.replace('\n', ''))], 'comments %r to %r' % (p[0], p[-1]))
    for s, w in (('// x /* y', 1), ('// */', 1), ('//', 1), ('// "', 1), ("// '", 1), ('/* " */', 1), ("/* ' */", 1), ('/* // */', 1), ('/* \udcff */', 1), ('// \udcff', 1), ('// \\', 1)):
        yield It('const t$ = {\n\tout(1) %s\n\tout(2)\n}\n' % s, [1, 2], 'comment %r' % s)
    for s in ('"/*"', '"*/"', '"//"'):
        yield stritem([s], [s[1:-1].encode()], 'string %s' % s)


KW = '_ auto break const continue elif else extern false for generic goto if impl match pkg pkglocal sizeof struct trait true type union use var void while $noret'.split()


def ident_items():
    names = set()
    for k in KW:
        if k in ('_', '$noret'):
            continue
        names |= {k + x for x in ('s', '_', '1', 'e')} | {x + k for x in ('_', 'x', 'a')} | {k[:-1], k.upper(), k.capitalize()}
    names |= {chr(c) for c in range(97, 123)} | {chr(c) for c in range(65, 91)} | {'__', '_1', 'a_b', 'x0y1', DOLLAR + 'x', 'x' + DOLLAR}
    names -= set(KW)
    names = sorted(n for n in names if n not in ('in', 'out', 'outs', 'arg', 'rep') and n)
    for n in names:
        yield It('const t$ = {\n\tvar %s : uint64 = 7\n\t%s++\n\tout(%s)\n}\n' % (n, n, n), [8], 'identifier %s' % n)
    for k in KW:
        yield It('const t$ = {\n\tvar %s : uint64 = 7\n\tout(%s)\n}\n' % ((k.replace('$', DOLLAR),) * 2), [], 'keyword %s as a name' % k, status='reject')
    for l in list(range(1, 70)) + [126, 127, 128, 129, 254, 255, 256, 257, 510, 511, 512, 513, 900, 1000]:
        a, b = 'a' * l + 'x', 'a' * l + 'y'
        yield It('const t$ = {\n\tvar %s : uint64 = 7\n\tvar %s : uint64 = 9\n\tout(%s)\n\tout(%s)\n}\n' % (a, b, a, b), [7, 9], 'names of %d characters' % (l + 1))
        if l <= 900:
            yield It('const f%s$ = {; -> (7 : uint64)}\nvar g%s$ : uint64 = 9\ntype s%s$ = struct\n\tm%s : uint64\n;;\nconst t$ = {\n\tvar v : s%s$\n\tout(f%s$())\n\tout(g%s$)\n\tv.m%s = 3\n\tout(v.m%s)\n}\n' % ((a,) * 9), [7, 9, 3], 'global names of %d characters' % (l + 1))
    for l in (1022, 1023, 1024, 1025, 2047, 2048, 5000):
        yield It('const t$ = {\n\tvar %s : uint64 = 7\n\tout(%s)\n}\n' % ('a' * l, 'a' * l), [7], 'names of %d characters' % l, maybe=True)
        yield It('const t$ = {\n\tvar %s\n\t%sx = (7 : uint64)\n\tout(%sy)\n}\n' % ('a' * l, 'a' * l, 'a' * l), [7], 'names of %d characters' % l, status='reject')


def body(c):
    tree = Tree('c')
    fams = [('numbers', num_items(c.thorough)), ('ranges', range_items()), ('floats', flt_items()), ('characters', char_items(c.thorough)), ('strings', str_items(c.thorough)), ('comments', comment_items(c.thorough)), ('names', ident_items())]
    good, bad, per = [], [], {}
    for n, g in fams:
        l = list(g)
        per[n] = len(l)
        for it in l:
            (bad if it.status == 'reject' or getattr(it, 'maybe', False) else good).append(it)
    # what may be accepted is resolved one at a time with what must be refused
    a = run_items(c, tree, good, FP, per=400, timeout=120)
    may = [it for it in bad if it.status != 'reject']
    rej = [it for it in bad if it.status == 'reject']
    nbad, nok = refuse(c, tree, rej)
    m2 = [it for it, ok in zip(may, accepts(tree, may)) if ok]
    b = run_items(c, tree, m2, FP, per=400, timeout=120)
    c.add(states=len(good) + len(bad), transitions=a['outputs'] + b['outputs'] + nok, traces_validated_against_impl=a['outputs'] + b['outputs'])
    c.cov.update(per)
    c.cov['malformed texts refused'] = nok
    c.cov['tolerated spellings'] = len(m2)
    c.cov['exhaustive'] = True
    c.sample('every text of up to 4 characters over 017 / 01278afxobuls.e+-_ : value in a local, an initialiser and an operand, or refusal')


def alone(tree, its):
    """(exit status, output) of the compiler on each item by itself"""
    def job(a):
        k, part = a
        wd = os.path.join(tree.scratch, 'r%d.%d' % (os.getpid(), k))
        os.makedirs(wd)
        res = []
        for it in part:
            with open(wd + '/p.myr', 'wb') as f:
                f.write(source([it], 0, FP).encode('utf-8', 'surrogateescape'))
            res.append(mc(tree, wd, 'p.myr', timeout=20))
        shutil.rmtree(wd)
        return res
    n = max(1, (len(its) + 63) // 64)
    return [r for x in pmap(job, [(k, its[k:k + n]) for k in range(0, len(its), n)]) for r in x]


def refuse(c, tree, its):
    ok = 0
    for it, (rc, out) in zip(its, alone(tree, its)):
        if rc == 1:
            ok += 1
        elif len(c.viol) < 4 or it.key:
            c.report('%s: %s' % (it.desc, 'accepted although malformed' if rc == 0 else 'the compiler died (status %s): %s' % (rc, out[-200:])), source([it], 0, FP), key=it.key)
    return len(its) - ok, ok


def accepts(tree, its):
    return [rc == 0 for rc, out in alone(tree, its)]


if __name__ == '__main__':
    main(body, 'C12')
