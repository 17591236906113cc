#!/usr/bin/env python3
"""S09: every short string x needle through the string library, against Python references."""
import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *

SPACES = '\t \x85\xa0\u1680\u180e\u2028\u2029\u202f\u205f\u3000\ufeff' + ''.join(map(chr, range(0x2000, 0x200c)))


def words(alpha, lo, hi):
    for k in range(lo, hi + 1):
        for t in itertools.product(alpha, repeat=k):
            yield ''.join(t).encode('utf8')


def cmp(a, b):
    return '<' if a < b else '=' if a == b else '>'


def fold(b):
    return [ord(c.upper()) if len(c.upper()) == 1 else ord(c) for c in b.decode('utf8')]


def casecmp(a, b):
    x, y = fold(a), fold(b)
    for p, q in zip(x, y):
        if p != q:
            return '<' if p < q else '>'
    # remaining lengths in bytes
    k = min(len(x), len(y))
    ra = len(a.decode()[k:].encode())
    rb = len(b.decode()[k:].encode())
    return cmp(ra, rb)


def lst(l):
    return [str(len(l))] + [X(s) for s in l]


def opt(i):
    return 'N' if i < 0 else str(i)


def B(v):
    return 'T' if v else 'F'


def refF(h, n):
    r = [opt(h.find(n)), opt(h.rfind(n)), B(n in h), B(h.startswith(n)), B(h.endswith(n)), B(h.startswith(n)),
         X(h[len(n):] if h.startswith(n) else h), cmp(h, n), casecmp(h, n)]
    r += [cmp(h[:k], n[:k]) for k in range(4)]
    return r + [X(h + n)]


def refP(h, n, rep):
    parts = h.split(n) if h else []
    r = lst(parts) + [X(n.join(parts)), X(b'<>'.join(parts))]
    for k in range(1, 5):
        r += lst(h.split(n, k - 1) if h else [])
    it = h.split(n)
    if it[-1] == b'':
        it.pop()
    return r + [X(s) for s in it] + ['|', X(h.replace(n, rep))]


def toks(s):
    out, cur = [], ''
    for c in s:
        if c in SPACES or c == '\n':
            if cur:
                out.append(cur)
            cur = ''
        else:
            cur += c
    if cur:
        out.append(cur)
    return out


def refT(h):
    s = h.decode('utf8')
    t = toks(s)
    r = lst([x.encode() for x in t])
    for k in range(1, 4):
        if len(t) <= k - 1:
            w = t
        else:
            # first k-1 tokens, then the rest of the text stripped on the right
            rest = s
            w = []
            for j in range(k - 1):
                rest = rest.lstrip(SPACES + '\n')
                w.append(t[j])
                rest = rest[len(t[j]):]
            w.append(rest.lstrip(SPACES + '\n').rstrip(SPACES + '\n'))
        r += lst([x.encode() for x in w])
    r += [X(x.encode()) for x in t] + ['|']
    r += [X(s.lstrip(SPACES).rstrip(SPACES + '\n').encode()), X(s.lstrip(SPACES).encode()), X(s.rstrip(SPACES + '\n').encode())]
    off = 0
    for c in s:
        r += [str(ord(c)), str(off)]
        off += len(c.encode())
    return r + ['|'] + [str(ord(c)) for c in s]


def refB(cap, ops):
    buf = b''
    r = []
    for o in ops:
        k, v = o[:1], o[1:]
        if k in b'cb':
            ok = cap < 0 or len(buf) + len(v) <= cap
            if ok:
                buf += v
            r.append(B(ok))
        elif k == b's':
            ok = cap < 0 or len(buf) + len(v) <= cap
            buf += v if cap < 0 else v[:cap - len(buf)]
            r.append(B(ok))
        else:
            n = v[0] - 64
            if n < 0:
                buf = buf[:len(buf) + n]
            else:
                buf = buf[:n]
        r.append(X(buf))
    r.append(X(buf) if cap < 0 else '0')
    return r


def cases(tier):
    th = tier == 'thorough'
    # search / compare
    hs = list(words(['a', 'b', '\u00e9'], 0, 8 if th else 6)) + list(words('ab', 7, 11 if th else 9))
    ns = list(words(['a', 'b', '\u00e9'], 0, 3))
    for h in hs:
        for n in ns:
            yield 'F', (h, n)
    cs = list(words(['a', 'A', 'b', 'B', '\u00e9', '\u00c9', '\u0101', '\u0100', '['], 0, 2 if not th else 3))
    for h in cs:
        for n in cs:
            yield 'F', (h, n)
    by = [bytes(t) for k in range(0, 3) for t in itertools.product([0, 1, 0x7f, 0x80, 0xff], repeat=k)]
    for h in by:
        for n in by:
            if all(x < 0x80 for x in h + n):
                yield 'F', (h, n)
    # split / replace
    hs = list(words([',', 'a', ';', '\u00e9'], 0, 7 if th else 6))
    for h in hs:
        for n in (b',', b',;', b',,', b'a,', b';;', '\u00e9'.encode()):
            yield 'P', (h, n, b'-')
        yield 'P', (h, b',', b',,')
        yield 'P', (h, b'a', b'')
        yield 'P', (h, b';,;', b'xyz')
    for h in words(['a', ' ', '\u2003', '\n', '\u00e9', '\u00a0'], 0, 7 if th else 6):
        yield 'T', (h,)
    for sp in SPACES + '\n\r\x0b\x0c\u2007\u200c\u2060':
        for h in words(['x', sp, '\u00e9'], 0, 4):
            yield 'T', (h,)
    ops = [b'ca', b'c' + '\u00e9'.encode(), b'c' + '\U0001f600'.encode(), b'bz', b'sabc', b's', b'sqw', b't' + bytes([64]), b't' + bytes([66]), b't' + bytes([63]), b't' + bytes([69])]
    for cap in (-1, 0, 1, 2, 3, 4, 5, 8):
        for k in range(0, 5 if th else 4):
            for o in itertools.product(ops, repeat=k):
                n = 0
                ok = True
                for i in range(len(o)):        # a negative trim longer than the buffer is out of contract
                    if o[i] == b't\x3f' and refB(cap, o[:i])[-2 if i else -1] in ('x', '0', 'T', 'F') or (o[i] == b't\x3f' and i == 0):
                        ok = False
                if ok:
                    yield 'B', (cap,) + o
    # growth of long buffers
    for k in (15, 16, 17, 63, 64, 65, 1000):
        for o in ([b's' + b'y' * k], [b'ca'] * k, [b's' + b'q' * k, b'c' + '\u00e9'.encode(), b's' + b'r' * k]):
            if len(o) < 32:
                yield 'B', (-1,) + tuple(o)


REF = {'F': refF, 'P': refP, 'T': refT}


def job(a):
    sh, n, binary, tier = a
    cs = [c for i, c in enumerate(cases(tier)) if i % n == sh]
    lines = []
    for op, arg in cs:
        if op == 'B':
            lines.append('B %d %s' % (arg[0], ' '.join(X(o) for o in arg[1:])) if len(arg) > 1 else 'B %d' % arg[0])
        else:
            lines.append(op + ' ' + ' '.join(X(x) for x in arg))
    out = drive(binary, lines)
    tr = 0
    for (op, arg), l, o in zip(cs, lines, out):
        w = ' '.join(refB(arg[0], arg[1:]) if op == 'B' else REF[op](*arg))
        tr += o.count(' ') + 1
        if o != w:
            raise Violation('%s %r: got %s want %s' % (op, arg, o, w), 'driver line: %s\ngot:  %s\nwant: %s' % (l, o, w))
    return len(cs), tr


def body(c):
    t = Tree('boot')
    b = t.harness(HARN + '/s09.myr', more=[HARN + '/drv.myr'])
    res = pmap(job, [(i, 8, b, c.tier) for i in range(8)])
    c.add(states=sum(r[0] for r in res), transitions=sum(r[1] for r in res), traces_validated_against_impl=sum(r[0] for r in res))
    c.cov['exhaustive'] = True
    c.sample({'op': 'F', 'haystack': 'ab\u00e9a', 'needle': 'a'})
    c.sample({'op': 'P', 'text': ',a;;', 'delimiter': ',;'})
    c.sample({'op': 'B', 'fixed capacity': 2, 'ops': ['putc \u00e9', 'puts abc', 'trim 2']})


main(body, 'S09')
