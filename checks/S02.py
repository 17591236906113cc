#!/usr/bin/env python3
"""S02: histories of slice operations on the real library against a sequence model."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *


def body(c):
    t = Tree('boot')
    b = t.harness(HARN + '/s02.myr', more=[HARN + '/drv.myr'])
    sets = []
    for ty in range(9):
        d = 4 if ty < 5 else 3
        if c.thorough:
            d += 1
        k = 4 if ty < 5 or c.thorough else 1
        sets += [(ty, sh, k, d) for sh in range(k)]
    res = selfrun(b, sets)
    n = sum(r[0][0] for r in res)
    c.add(states=n, transitions=sum(r[0][1] for r in res), traces_validated_against_impl=n)
    c.cov['exhaustive'] = True
    c.cov['element_types'] = ['byte', 'uint64', 'struct{byte[3]}', 'struct of 24 bytes', 'byte[:]', 'uint32', 'int16', 'bool', 'char']
    c.sample('15 elements: push, put at middle, join slot1, delete first -> both slots equal the model sequence')


main(body, 'S02')
