#!/usr/bin/env python3
"""S08: UTF-8 encode/decode/step over every code point and every byte sequence over a boundary alphabet; character classes."""
import itertools, os, sys, unicodedata
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *

BAD = 0xffffffff


def enc(c):
    return chr(c).encode('utf8', 'surrogatepass')


def step(b):
    """reference: (char, consumed)"""
    if not b:
        return BAD, 0
    c = b[0]
    n = 1 if c < 0x80 else 2 if c & 0xe0 == 0xc0 else 3 if c & 0xf0 == 0xe0 else 4 if c & 0xf8 == 0xf0 else 0
    if n == 0 or n > len(b):
        return BAD, 1
    if n == 1:
        return c, 1
    v = c & (0xff >> (n + 1))
    for x in b[1:n]:
        if x & 0xc0 != 0x80:
            return None, None   # ill-formed continuation: value unspecified
        v = v << 6 | x & 0x3f
    return v, n


def wellformed(b):
    try:
        b.decode('utf8', 'surrogatepass')
        return True
    except UnicodeDecodeError:
        return False


def job(a):
    kind, lo, hi, binary, tier = a
    n = tr = 0
    if kind == 'E':
        lines = ['E %d %d' % (c, min(256, hi - c)) for c in range(lo, hi, 256)]
        for l, o in zip(lines, drive(binary, lines)):
            f = l.split()
            c0, k = int(f[1]), int(f[2])
            want = []
            for c in range(c0, c0 + k):
                e = enc(c)
                want.append('%d x%s %d -1 T' % (len(e), (e + b'\xee' * 8)[:8].hex(), len(e)))
            if o != ' '.join(want):
                g = o.split(' ')
                for i in range(k):
                    if ' '.join(g[5 * i:5 * i + 5]) != want[i]:
                        raise Violation('encode(U+%04X): got %s want %s' % (c0 + i, g[5 * i:5 * i + 5], want[i]), l)
                raise Violation('encode range %s: %s' % (l, o[:200]), l)
            n += k
        return n, n
    if kind == 'D':
        # every valid code point decodes back, alone and followed by another byte
        cases = []
        for c in range(lo, hi):
            e = enc(c)
            cases.append((c, e))
        lines = ['S ' + X(b''.join(e for _, e in cases[i:i + 64])) for i in range(0, len(cases), 64)]
        for i, (l, o) in enumerate(zip(lines, drive(binary, lines))):
            grp = cases[i * 64:i * 64 + 64]
            off, w = 0, ['%d' % grp[0][0]]
            for c, e in grp:
                off += len(e)
                w.append('%d %d' % (c, off))
            w.append('|')
            w += ['%d' % c for c, e in grp]
            if o != ' '.join(w):
                raise Violation('decoding U+%04X..: got %s want %s' % (grp[0][0], o[:300], ' '.join(w)[:300]), l)
            n += len(grp)
        return n, n
    if kind == 'S':
        alpha = ALPHA if tier == 'quick' else ALPHA + [0x20, 0x81, 0xbe, 0xc1, 0xe1, 0xf1, 0xf8, 0xfe]
        L = 4
        seqs = []
        for k in range(0, L + 1):
            for i, t in enumerate(itertools.product(alpha, repeat=k)):
                if i % hi == lo:
                    seqs.append(bytes(t))
        # long truncations and resync tails
        lines = ['S ' + X(b) for b in seqs]
        for b, l, o in zip(seqs, lines, drive(binary, lines)):
            if o.startswith(('CRASH', 'HANG')):
                raise Violation('stepping through %s: %s' % (b.hex(), o), l)
            g = o.split(' ')
            try:
                cut = g.index('|')
                first = int(g[0])
                steps = [(int(g[j]), int(g[j + 1])) for j in range(1, cut, 2)]
                it = [int(x) for x in g[cut + 1:] if x]
            except (ValueError, IndexError):
                raise Violation('stepping through %s: unreadable %r' % (b.hex(), o), l)
            pos = 0
            if not b:
                if first != BAD or steps or it:
                    raise Violation('empty string: %r' % o, l)
            for j, (c, off) in enumerate(steps):
                wc, wn = step(b[pos:])
                if j == 0 and first != c:
                    raise Violation('decode(%s)=%x but charstep gives %x' % (b.hex(), first, c), l)
                if off <= pos or off > len(b):
                    raise Violation('stepping through %s: offset %d after %d' % (b.hex(), off, pos), l)
                if wc is not None and (c != wc or off - pos != wn):
                    raise Violation('stepping through %s at %d: got U+%x, %d bytes; want U+%x, %d' % (b.hex(), pos, c, off - pos, wc, wn), l)
                pos = off
            if pos != len(b):
                raise Violation('stepping through %s stopped at %d' % (b.hex(), pos), l)
            if it != [c for c, _ in steps]:
                raise Violation('bychar over %s: %s' % (b.hex(), it), l)
            n += 1
            tr += len(steps)
        return n, tr
    if kind == 'G':
        al = [b'a', '\u0301'.encode(), '\u4e00'.encode(), '\u00e9'.encode(), b'\n', b'\t', '\U0001f600'.encode(), b'\x80'] + ([b'\r', b'\x01', '\u200d'.encode()] if tier != 'quick' else [])
        seqs = [b''.join(t) for k in range(0, 6) for i, t in enumerate(itertools.product(al, repeat=k)) if i % hi == lo]
        lines = ['G ' + X(b) for b in seqs]
        for b, l, o in zip(seqs, lines, drive(binary, lines)):
            g = o.split(' ')
            if '|' not in g:
                raise Violation('graphemes of %s: %s' % (b.hex(), o), l)
            cl = [bytes.fromhex(x[1:]) for x in g[:g.index('|')]] if 'STUCK' not in o else None
            if cl is None or b''.join(cl) != b or any(not x for x in cl):
                raise Violation('graphemes of %s do not partition it: %s' % (b.hex(), o), l)
            if wellformed(b):
                want = []
                for ch in b.decode('utf8'):
                    if want and want[-1] not in '\n\t\r' and ch == '\u0301':
                        want[-1] += ch
                    elif ch == '\x01' or ch == '\u200d':
                        want = None
                        break
                    else:
                        want.append(ch)
                if want is not None and cl != [w.encode() for w in want]:
                    raise Violation('graphemes of %r: got %s want %s' % (b.decode(), [x.decode() for x in cl], want), l)
            n += 1
            tr += len(cl)
        return n, tr
    if kind == 'K':
        ex = json.load(open(VERIF + '/data/s08_excluded.json'))
        ex = {k: set(v) for k, v in ex.items()}
        u3 = unicodedata.ucd_3_2_0
        lines = ['K %d %d' % (c, min(512, hi - c)) for c in range(lo, hi, 512)]
        for l, o in zip(lines, drive(binary, lines)):
            f = l.split()
            c0, k = int(f[1]), int(f[2])
            g = o.split(' ')
            if len(g) != 4 * k:
                raise Violation('character classes from U+%04X: %s' % (c0, o[:300]), l)
            for i in range(k):
                c = c0 + i
                fl, lw, up, w = map(int, g[4 * i:4 * i + 4])
                ch = chr(c)

                def no(what, got, want):
                    raise Violation('%s(U+%04X) = %s, want %s' % (what, c, got, want), l)
                has = lambda b: bool(fl & b)
                n += 1
                if has(2) != (0x30 <= c <= 0x39):
                    no('isdigit', has(2), not has(2))
                if has(4) != (ch in '0123456789abcdefABCDEF'):
                    no('isxdigit', has(4), not has(4))
                if has(512) != (c < 128):
                    no('isascii', has(512), not has(512))
                if has(16) != (has(1) or has(8)):
                    no('isalnum', has(16), has(1) or has(8))
                if has(32) != (has(64) or c == 10):
                    no('isspace', has(32), not has(32))
                if c < 128:
                    if has(1) != ch.isalpha():
                        no('isalpha', has(1), ch.isalpha())
                    if has(64) != (ch in ' \t'):
                        no('isblank', has(64), not has(64))
                if 0xd800 <= c < 0xe000 or c > 0xffff or u3.category(ch) == 'Cn':
                    continue
                pl, pu = ch.lower(), ch.upper()
                pl = pl if len(pl) == 1 else ch
                pu = pu if len(pu) == 1 else ch
                if c not in ex['lo'] and ord(pl) != lw:
                    no('tolower', hex(lw), hex(ord(pl)))
                if c not in ex['up'] and ord(pu) != up:
                    no('toupper', hex(up), hex(ord(pu)))
                cat = unicodedata.category(ch)
                if c not in ex['isup'] and has(256) != (cat == 'Lu'):
                    no('isupper', has(256), cat == 'Lu')
                if c not in ex['islo'] and has(128) != (cat == 'Ll'):
                    no('islower', has(128), cat == 'Ll')
                if has(8) != (cat == 'Nd'):
                    no('isnum', has(8), cat == 'Nd')
                if (has(128) or has(256)) and not has(1):
                    no('isalpha', False, True)
                if c not in (0x180e, 0x200b, 0x2028, 0x2029, 0xfeff, 0x9, 0xa, 0x85) and has(32) != (cat == 'Zs'):
                    no('isspace', has(32), cat == 'Zs')
                if c not in ex['w'] and (w == 2) != (unicodedata.east_asian_width(ch) in 'WF'):
                    no('cellwidth', w, unicodedata.east_asian_width(ch))
        return n, n
    if kind == 'V':
        o = drive(binary, ['V'])[0].split(' ')
        j = 0
        for b in range(2, 37):
            for c in range(0x180):
                ch = chr(c)
                v = -1
                if ch.isascii() and ch.isalnum():
                    v = int(ch, 36)
                if v >= b:
                    v = -1
                if int(o[j]) != v or int(o[j + 1]) != v & 255:
                    raise Violation('charval(U+%04X, base %d) = %s/%s want %d' % (c, b, o[j], o[j + 1], v), 'V')
                j += 2
                n += 1
        return n, n


ALPHA = [0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xef, 0xf0, 0xf4, 0xf7, 0xff]


def body(c):
    t = Tree('boot')
    b = t.harness(HARN + '/s08.myr', more=[HARN + '/drv.myr'])
    jobs = []
    step = 0x110000 // 8
    for k in 'ED':
        jobs += [(k, i * step, (i + 1) * step, b, c.tier) for i in range(8)]
    jobs += [('S', i, 8, b, c.tier) for i in range(8)]
    jobs += [('G', i, 8, b, c.tier) for i in range(8)]
    jobs += [('K', i * 8192, (i + 1) * 8192, b, c.tier) for i in range(8 if not c.thorough else 136)]
    jobs += [('V', 0, 0, b, c.tier)]
    res = pmap(job, jobs)
    c.add(states=sum(r[0] for r in res), transitions=sum(r[1] for r in res), traces_validated_against_impl=sum(r[0] for r in res))
    c.cov['code_points'] = 0x110000
    c.cov['byte_sequences'] = sum(r[0] for r, j in zip(res, jobs) if j[0] == 'S')
    c.cov['exhaustive'] = True
    c.sample({'byte sequence': 'e2 82', 'meaning': 'truncated 3-byte character: both bytes reported bad, one step each'})
    c.assume.append('well-formedness of continuation bytes is not claimed; case tables are compared on the code points the shipped tables cover')


main(body, 'S08')
