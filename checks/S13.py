#!/usr/bin/env python3
"""S13: structured and short address strings against Python's ipaddress."""
import ipaddress, itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *


def v4(s):
    try:
        return '4 ' + X(ipaddress.IPv4Address(s).packed)
    except ValueError:
        return 'N'


def v6(s):
    if '%' in s or '/' in s or ('.' in s):
        return 'N'
    try:
        return '6 ' + X(ipaddress.IPv6Address(s).packed)
    except ValueError:
        return 'N'


def cases(th):
    nums = ['0', '1', '9', '10', '99', '100', '199', '249', '255', '256', '300', '999', '1000', '', '-1', '1_0', ' 1', 'a', '0x1', '65536', '4294967296', '18446744073709551617']
    for n in range(1, 6):
        for pos in range(n):
            for v in nums:
                t = ['1', '20', '255', '0', '7'][:n]
                t[pos] = v
                yield '4', '.'.join(t)
    for t in itertools.product(['0', '255', '256', '', '12'], repeat=4):
        yield '4', '.'.join(t)
    for k in range(0, 8 if th else 7):
        for t in itertools.product('1.2', repeat=k):
            yield '4', ''.join(t)
    for k in range(0, 6):
        for t in itertools.product('1.-_ a', repeat=k):
            yield '4', ''.join(t)
    yield from (('4', s) for s in ('1.2.3.4.', '.1.2.3.4', '1..2.3', '1.2.3.4 ', '1.2.3.4\n', '1,2,3,4', '1.2.3.4.5.6'))
    # v6: every presence/absence of '::', every group count
    for n in range(0, 10):
        g = ['1', 'ab', 'fFff', '0', '2', '3c', '4', '5d6', '7'][:n]
        yield '6', ':'.join(g)
        yield '6', ':' + ':'.join(g)
        yield '6', ':'.join(g) + ':'
        for i in range(n + 1):
            s = ':'.join(g[:i]) + '::' + ':'.join(g[i:])
            yield '6', s
            yield '6', s + ':'
            yield '6', ':' + s
            for j in range(i, n + 1):
                yield '6', ':'.join(g[:i]) + '::' + ':'.join(g[i:j]) + '::' + ':'.join(g[j:])
        for i in range(n):
            for v in ('10000', 'g', '-1', '', '0', 'ffff', 'FFFF', '0001', '1_1', '0x1', ' 1', '1 ', '65536', '1.2.3.4', '+1', '\u0661'):
                h = list(g)
                h[i] = v
                yield '6', ':'.join(h)
                if n < 8:
                    for j in range(n + 1):
                        yield '6', ':'.join(h[:j]) + '::' + ':'.join(h[j:])
    for k in range(0, 10 if th else 9):
        for t in itertools.product('1:f', repeat=k):
            yield '6', ''.join(t)
    for k in range(9, 18 if th else 17):
        for t in itertools.product(('1', ':'), repeat=k) if k < 13 else ():
            yield '6', ''.join(t)
    for a in range(0, 65536, 1 if th else 251):
        yield '6', '%x::%X' % (a, 65535 - a)


def job(a):
    sh, n, binary, th = a
    cs = [c for i, c in enumerate(cases(th)) if i % n == sh]
    lines = ['%s %s' % (k, X(s.encode())) for k, s in cs]
    acc = 0
    for (k, s), l, o in zip(cs, lines, drive(binary, lines)):
        if k == '4':
            w = v4(s) if ':' not in s else v6(s)
            w = w + ' ' + v4(s)
        else:
            w = v6(s) if ':' in s else v4(s)
            w = w + ' ' + v6(s)
        acc += o[0] != 'N'
        if o != w:
            raise Violation('parse %r: got %s want %s' % (s, o, w), l)
    return len(cs), acc


def body(c):
    t = Tree('boot')
    b = t.harness(HARN + '/s13.myr', more=[HARN + '/drv.myr'])
    res = pmap(job, [(i, 8, b, c.thorough) for i in range(8)])
    n = sum(r[0] for r in res)
    c.add(states=n, transitions=n, traces_validated_against_impl=n, well_formed=sum(r[1] for r in res))
    c.cov['exhaustive'] = True
    c.sample('1:ab::fFff:0:2:3c:4 accepted, 1::2::3 rejected, 1:2:3:4:5:6:7::8 rejected')
    c.assume.append('not covered: numerals with superfluous leading zeros, IPv6 with an embedded dotted quad, zone ids')


main(body, 'S13')
