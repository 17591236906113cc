#!/usr/bin/env python3
"""S01: allocation histories on the real allocator with a shadow of every live block."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *

NS = {0: 2, 1: 2, 2: 3, 3: 3, 4: 3, 5: 3}


def body(c):
    t = Tree('boot')
    b = t.harness(HARN + '/s01.myr', more=[HARN + '/drv.myr'])
    sets = [('w',), ('g',)]
    for cfg in range(6):
        nops = NS[cfg] * 3 + 4
        d = {10: 5, 13: 4}[nops] if cfg in (0, 1, 2, 4) else 4
        if cfg == 3:
            d = 3
        if c.thorough:
            d += 1
        n = nops ** d
        k = max(1, min(8, n // 3000))
        for sh in range(k):
            sets.append(('b', sh, k, d, cfg))
    for cfg in range(5):
        d = (4 if cfg < 4 else 2) + (1 if c.thorough and cfg else 0)
        for sh in range(4):
            sets.append(('s', sh, 4, d, cfg))
    res = selfrun(b, sets, mem=3 << 30)
    n = sum(r[0][0] for r in res)
    c.add(states=n, transitions=sum(r[0][1] for r in res), traces_validated_against_impl=n)
    c.cov['exhaustive'] = True
    c.cov['histories'] = {' '.join(map(str, s)): r[0][0] for s, r in zip(sets, res)}
    c.sample('alloc 128K x3, free middle, zalloc 128K+1, free all but one, alloc 128K: no overlap, contents kept, zeroed')
    c.sample('slot0 = slzalloc 3; slgrow 14; slot1 = slalloc 5; slzgrow slot0 5 -> prefix kept, new entries zero')
    c.assume.append('blocks over 512 bytes are compared at both ends and on a stride')


main(body, 'S01')
