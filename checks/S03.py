#!/usr/bin/env python3
"""S03: all put/delete histories on the real hash table against a map model."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *


def body(c):
    t = Tree('boot')
    b = t.harness(HARN + '/s03.myr', more=[HARN + '/drv.myr'])
    b2 = t.harness(HARN + '/s03b.myr', more=[HARN + '/drv.myr'])
    d = 5 if not c.thorough else 6
    sets = []
    for cfg in range(20):
        dd = d if cfg % 4 < 2 or cfg < 4 else d - 1
        for sh in range(2 if dd == d else 1):
            sets.append((cfg, sh, 2 if dd == d else 1, dd))
    res = selfrun(b, sets)
    res2 = selfrun(b2, [(k, 40 if not c.thorough else 90) for k in range(4)])
    n = sum(r[0][0] for r in res) + sum(r[0][0] for r in res2)
    c.add(states=n, transitions=sum(r[0][1] for r in res + res2), traces_validated_against_impl=n)
    c.cov['histories_per_configuration'] = {'config %d depth %d' % (s[0], s[3]): r[0][0] for s, r in zip(sets, res) if s[1] == 0}
    c.cov['exhaustive'] = True
    c.sample('fill 12 (7 deleted): put A, put B (same hash), del A, put B, del B -> all lookups, listing, count, iteration')
    c.assume.append('key hash patterns: equal hash, equal bucket, neighbouring bucket, wrap-around, remapped zero hash')


main(body, 'S03')
