"""Programs the compiler must accept or refuse, in bulk."""
import os, shutil, subprocess
from . import build
from .build import CORES
from .check import HARN, pmap


class Acc:
    """src: declarations with '$' for the number of the program; ok: must it be accepted?"""
    __slots__ = ('src', 'ok', 'desc', 'key', 'pre')

    def __init__(self, src, ok, desc, key=None, pre=''):
        self.src, self.ok, self.desc, self.key, self.pre = src, ok, desc, key, pre


def text(items, prelude):
    pre = ''.join(it.pre.replace('$', str(i)) for i, it in enumerate(items) if it.pre)
    return ('pkg =\n' + pre + ';;\n' if pre else '') + prelude + ''.join(it.src.replace('$', str(i)) + '\n' for i, it in enumerate(items))


def harness(tree):
    if not os.path.exists(tree.scratch + '/many'):
        build.run(['cc', '-O2', '-o', tree.scratch + '/many', HARN + '/many.c'], '/')


def many(tree, wd, srcs, extra=(), path=None, twice=False):
    """-> [(status, output)] of the compiler for each source; path: where it looks for the assembler"""
    if not srcs:
        return []
    os.makedirs(wd, exist_ok=True)
    with open(wd + '/list', 'wb') as f:
        for s in srcs:
            f.write(s.encode('utf-8', 'surrogateescape') + b'\0')
    p = subprocess.run([tree.scratch + '/many', 'list', tree.mc] + list(extra) + ['p.myr'], cwd=wd, env=dict(build.ENV, TMPDIR=wd, **({'PATH': path} if path else {}), **({'MANY_TWICE': '1'} if twice else {})),
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    r = []
    for x in p.stdout.split(b'\0')[:-1]:
        st, _, out = x.partition(b' ')
        r.append((int(st), out.decode('latin1')))
    if len(r) != len(srcs):
        raise build.BuildError('many: %d results for %d programs (%d)' % (len(r), len(srcs), p.returncode))
    return r


def says(it, st, out):
    """what is wrong about the compiler's answer"""
    o = ' '.join(out.split())[:200]
    if st == 9999:
        return 'the compiler hangs'
    if st < 0 or st > 1:
        return 'the compiler crashes (status %d): %s' % (st, o)
    if it.ok:
        return None if st == 0 else 'refused: %s' % o
    if st == 0:
        return 'accepted'
    if 'syntax error' in o:
        return 'not refused for what it means: %s' % o
    return None if o else 'refused without a word'


def run_acc(c, tree, items, prelude='', per=60, maxviol=4):
    items = list(items)
    harness(tree)
    good = [i for i, it in enumerate(items) if it.ok]
    bad = [i for i, it in enumerate(items) if not it.ok]
    jobs = [('g', good[k:k + per]) for k in range(0, len(good), per)]
    step = max(1, min(400, (len(bad) + CORES - 1) // CORES))
    jobs += [('b', bad[k:k + step]) for k in range(0, len(bad), step)]

    def job(j):
        kind, ix = j
        wd = os.path.join(tree.scratch, 'acc%d.%s%d' % (os.getpid(), kind, ix[0]))
        r = []
        try:
            if kind == 'g':
                if many(tree, wd, [text([items[i] for i in ix], prelude)])[0][0] == 0:
                    return [], 1
            for i, (st, out) in zip(ix, many(tree, wd, [text([items[i]], prelude) for i in ix])):
                w = says(items[i], st, out)
                if w:
                    r.append((i, w))
            if kind == 'g' and not r:
                # each alone is accepted: halves of the batch must be, too
                h = ix
                while len(h) > 1:
                    a, b = h[:len(h) // 2], h[len(h) // 2:]
                    ra = many(tree, wd, [text([items[i] for i in a], prelude), text([items[i] for i in b], prelude)])
                    n = a if ra[0][0] else b if ra[1][0] else None
                    if n is None:
                        break
                    h = n
                r.append((h[0], 'accepted alone, but %d such together are refused' % len(h)))
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        return r[:300], len(ix) + 1
    res = pmap(job, jobs)
    wrong = [x for r in res for x in r[0]]
    stats = dict(programs=len(items), accepted=len(good), refused=len(bad), runs=sum(r[1] for r in res))
    if c is None:
        return stats, [(items[i], w) for i, w in wrong]
    for i, w in wrong:
        it = items[i]
        if it.key is None and len(c.viol) >= maxviol:
            continue
        c.report('%s: %s' % (it.desc, w), text([it], prelude), key=it.key)
    return stats
