#!/usr/bin/env python3
"""S10: every short key sequence through sort and the searches."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *


def body(c):
    t = Tree('boot')
    b = t.harness(HARN + '/s10.myr', more=[HARN + '/drv.myr'])
    res = selfrun(b, [(i, 8, 1 if c.thorough else 0) for i in range(8)])
    n = sum(r[0][0] for r in res)
    c.add(states=n, transitions=sum(r[0][1] for r in res), traces_validated_against_impl=n)
    c.cov['exhaustive'] = True
    c.sample('keys 4 0 3 3 1 0 sorted by natural, reversed and coarse orders: permutation, ordered, neighbours untouched')
    c.sample('bsearch for -1..8 in every sequence of length <= 5 over 8 keys')


main(body, 'S10')
