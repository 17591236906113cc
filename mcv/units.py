"""Programs in several separately compiled units, on top of comp.py.

A UItem is an Item whose other units are given as {unit: (exports, body)} ('$' is the item's number, as in
src).  A Layout says how the units are built; the units of all the items of a group are put together."""
import os, re, shutil, subprocess
from . import build, comp
from .comp import Item, ST, PRE, judge, mc, crt, parse_stream, _table, KNOWN
from .check import run_bin, pmap, CORES


def sp(cmd, wd):
    p = subprocess.run(cmd, cwd=wd, env=build.ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    return p.returncode, p.stdout.decode('latin1')


class UItem(Item):
    __slots__ = ('units', 'text')

    def __init__(self, src, want, desc, units, **kw):
        Item.__init__(self, src, want, desc, **kw)
        self.units = units


class Layout:
    """steps: a list of ('mc', unit, package or None, [uses]) | ('muse', file, package, [units]) | ('rm', file); the main unit is 'p' with no package"""
    def __init__(self, name, *steps):
        self.name, self.steps = name, steps


def texts(lay, items, prelude=''):
    """-> [(unit, text)]; prelude: text, or {unit: text or (lines of the pkg block, text)}"""
    r = []
    for s in lay.steps:
        if s[0] != 'mc':
            continue
        u, pkg, uses = s[1:]
        t = ''.join('use %s\n' % x for x in uses)
        pe, pb = prelude.get(u, '') if isinstance(prelude, dict) else prelude, ''
        pe, pb = pe if isinstance(pe, tuple) else ('', pe)
        ex, bo = [pe], []
        for i, it in enumerate(items):
            e, b = (''.join('\tconst t$ : (-> void)\n'), it.src) if u == 'p' else it.units.get(u, ('', ''))
            ex.append(e.replace('$', str(i)))
            bo.append(b.replace('$', str(i)).replace('\ue000', '$'))
        if u == 'p':
            t += 'pkg =\n%s;;\n' % ''.join(ex)
        else:
            t += 'pkg %s =\n%s;;\n' % (pkg or '', ''.join(ex))
        t += ''.join(l[1:] + '\n' for l in PRE.split('\n') if l)
        t += pb + '\n' + '\n'.join(bo)
        r.append((u, t))
    return r


def _compile(tree, wd, lay, items, prelude):
    """-> (None or (rc, output), linker flags)"""
    pk = {s[1]: s[2] for s in lay.steps if s[0] == 'mc'}
    defs = set()
    for u, t in texts(lay, items, prelude):
        if pk[u]:       # inside a package the name of an extern is mangled
            defs |= {'--defsym=%s$%s=%s' % (pk[u], x, x) for x in re.findall(r'^extern const (\w+)', t, re.M)}
        os.makedirs(os.path.dirname('%s/%s' % (wd, u)), exist_ok=True)
        with open('%s/%s.myr' % (wd, u), 'wb') as f:
            f.write(t.encode('utf-8', 'surrogateescape'))
    for s in lay.steps:
        if s[0] == 'mc':
            rc, out = mc(tree, wd, s[1] + '.myr', ['-I', '.'])
            if rc:
                return (rc, '%s: %s' % (s[1], out)), []
        elif s[0] == 'muse':
            rc, out = sp([tree.muse, '-o', s[1], '-p', s[2]] + list(s[4:]) + ['%s.use' % x for x in s[3]], wd)
            if rc:
                return (rc, 'muse: ' + out), []
        elif s[0] == 'rm':
            os.unlink(wd + '/' + s[1])
    return None, sorted(defs)


def _build_run(tree, wd, lay, items, prelude, timeout, nfail=None):
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    nfail = [0] if nfail is None else nfail
    if nfail[0] > 12:
        return [('skip', None, None)] * len(items)
    bad, defs = _compile(tree, wd, lay, items, prelude)
    if bad:
        if len(items) == 1:
            nfail[0] += 1
            return [('compile', bad, None)]
        h = (len(items) + 1) // 2
        return _build_run(tree, wd, lay, items[:h], prelude, timeout, nfail) + _build_run(tree, wd, lay, items[h:], prelude, timeout, nfail)
    _table(wd, items)
    objs = ['%s.o' % s[1] for s in lay.steps if s[0] == 'mc']
    rc, out = sp(['ld', '-z', 'noexecstack', '-o', 'p', crt(tree), 'tab.o'] + objs + defs, wd)
    if rc:
        if len(items) == 1:
            nfail[0] += 1
            return [('compile', (rc, 'ld: ' + out), None)]
        h = (len(items) + 1) // 2
        return _build_run(tree, wd, lay, items[:h], prelude, timeout, nfail) + _build_run(tree, wd, lay, items[h:], prelude, timeout, nfail)
    os.chmod(wd, 0o755)
    r = run_bin([wd + '/p'], timeout=timeout)
    recs = {a: (b, c) for a, b, c in parse_stream(r.out)}
    res = [('run', recs[i][0], recs[i][1]) if i in recs and recs[i][1] is not None else None for i in range(len(items))]
    missing = [i for i in range(len(items)) if res[i] is None]
    if missing:
        if len(items) == 1:
            return [('dead', recs.get(0, ([], None))[0], r.rc)]
        for i in missing[:8]:
            res[i] = _build_run(tree, wd, lay, [items[i]], prelude, timeout, nfail)[0]
        for i in missing[8:]:
            res[i] = ('skip', None, None)
    return res


def run_each(c, tree, jobs, prelude='', timeout=60, maxviol=4, anyunit=False):
    """jobs: [(layout, item)], each a program of its own"""
    crt(tree)

    def job(a):
        k, (lay, it) = a
        wd = os.path.join(tree.scratch, 'e%d.%d' % (os.getpid(), k))
        try:
            r = _build_run(tree, wd, lay, [it], prelude, timeout)[0]
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        w = judge(it, r)
        if w is None and it.status == 'reject' and not anyunit and not r[1][1].startswith('p: '):
            w = 'compiler rejects another unit than the erroneous one: %s' % r[1][1][-300:]
        return len(r[1]) if r[0] == 'run' else 0, w
    res = pmap(job, list(enumerate(jobs)))
    bad = [(j, w) for j, (n, w) in zip(jobs, res) if w is not None]
    if c is None:
        return dict(programs=len(jobs), outputs=sum(n for n, w in res), bad=len(bad)), bad
    for (lay, it), w in bad[:maxviol]:
        c.report('%s [%s]: %s' % (it.desc, lay.name, w), '# %s\n%s' % (lay.steps, ''.join('----- %s.myr\n%s\n' % x for x in texts(lay, [it], prelude))))
    return dict(programs=len(jobs), outputs=sum(n for n, w in res), bad=len(bad))


def run_units(c, tree, lay, items, prelude='', per=60, timeout=60, maxviol=4):
    items = list(items)
    crt(tree)
    n = len(items)
    per = max(1, min(per, (n + CORES - 1) // CORES))
    chunks = [(k, items[k:k + per]) for k in range(0, n, per)]

    def job(a):
        k, its = a
        wd = os.path.join(tree.scratch, 'u%d.%d' % (os.getpid(), k))
        try:
            rs = _build_run(tree, wd, lay, its, prelude, timeout)
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        bad, nout, comp_ = [], 0, 0
        for i, (it, r) in enumerate(zip(its, rs)):
            if r[0] == 'run':
                nout += len(r[1])
            if r[0] == 'compile':
                comp_ += 1
            w = judge(it, r)
            if w is not None:
                bad.append((k + i, w))
        return nout, comp_, bad[:200]
    res = pmap(job, chunks)
    bad = [b for r in res for b in r[2]]
    stats = dict(programs=n, outputs=sum(r[0] for r in res), rejected=sum(r[1] for r in res), bad=len(bad))
    if c is None:
        return stats, [(items[i], w) for i, w in bad]
    for i, w in bad:
        it = items[i]
        key = it.key
        if isinstance(key, tuple):
            key = key[0] if w.startswith(KNOWN) else None
        if key is None and len(c.viol) >= maxviol:
            continue
        txt = ''.join('----- %s.myr\n%s\n' % (u, t) for u, t in texts(lay, [it], prelude))
        c.report('%s [%s]: %s' % (it.desc, lay.name, w), '# %s\n%s' % (lay.steps, txt), key=key)
    return stats
