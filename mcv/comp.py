"""Compile-and-run engine for generated Myrddin programs.

A generated program is a list of items.  An item has source text defining `t$ : (-> void)` ('$' is
replaced by a unique number), a list of expected outputs (integers from out(), bytes from outs()) and
an expected final status (0 = returns).  Items are compiled in groups; when a group does not compile the
culprits are isolated by bisection.  Nothing but the compiler, gas, ld and a small C run time takes part.
"""
import os, shutil, subprocess, struct, time
from . import build
from .build import Tree, scratch, CORES, BuildError
from .check import run_bin, pmap, Violation, HARN, _limits

STATUS = {0: 'returns', 1: 'bounds abort', 2: 'SIGSEGV/SIGBUS', 3: 'SIGFPE', 4: 'SIGILL', 5: 'endless', 6: 'caller state damaged'}
PRE = '''\textern const out : (v : uint64 -> void)
\textern const outs : (v : byte[:] -> void)
\textern const arg : (i : uint64 -> uint64)
\textern const rep : (-> uint64)
'''


CPRE = '''#include <stdint.h>
extern void out(uint64_t);
static inline uint32_t fbits(float f) { union { float f; uint32_t u; } x; x.f = f; return x.u; }
static inline uint64_t dbits(double f) { union { double f; uint64_t u; } x; x.f = f; return x.u; }
static inline void stk(void) { if ((uintptr_t)__builtin_frame_address(0) & 15) out(0xbad57ac); }
'''


class Item:
    __slots__ = ('src', 'want', 'status', 'desc', 'key', 'pre', 'anyout', 'args', 'c')

    def __init__(self, src, want, desc='', status=0, key=None, pre='', anyout=False, args=None, c=None):
        self.c = c          # C source linked with the item
        self.args = args    # a list of tuples: the item is run once for each, reading it with arg(i); each run ends with the output ST(status)
        self.src, self.want, self.desc, self.status, self.key, self.pre, self.anyout = src, want, desc, status, key, pre, anyout


def crt(tree):
    o = os.path.join(tree.scratch, 'crt.o')
    if not os.path.exists(o):
        build.run(['gcc', '-O1', '-c', '-ffreestanding', '-fno-stack-protector', '-fno-pic', '-mno-red-zone', '-mno-sse',
                   '-o', o + '.tmp', HARN + '/crt.c'], tree.scratch)
        os.rename(o + '.tmp', o)
    return o


def ST(status=0):
    return 0xee00000000000000 + status


def mc(tree, wd, name, extra=(), timeout=60, mem=4 << 30):
    """run 6m; returns (rc, output); rc<0 is a signal, None a hang"""
    p = subprocess.Popen([tree.mc] + list(extra) + [name], cwd=wd, env=dict(build.ENV, TMPDIR=wd), stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=_limits(int(timeout) + 2, mem, 1 << 30))
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return None, out.decode('latin1')
    return p.returncode, out.decode('latin1')


def source(items, base=0, prelude=''):
    s = ['pkg =\n', PRE]
    for i in range(len(items)):
        s.append('\tconst t%d : (-> void)\n' % (base + i))
    for i, it in enumerate(items):
        if it.pre:
            s.append(it.pre.replace('$', str(base + i)))
    s.append(';;\n' + prelude + '\n')
    for i, it in enumerate(items):
        s.append(it.src.replace('$', str(base + i)).replace('\ue000', '$'))
        s.append('\n')
    return ''.join(s)


def parse_stream(b):
    """-> list of (idx, [outputs], status or None)"""
    res = []
    i, n = 0, len(b)
    cur = None
    while i < n:
        t = b[i]
        if t == 73 and i + 5 <= n:
            cur = [struct.unpack_from('<I', b, i + 1)[0], [], None]
            res.append(cur)
            i += 5
        elif t == 86 and i + 9 <= n:
            cur[1].append(struct.unpack_from('<Q', b, i + 1)[0])
            i += 9
        elif t == 83 and i + 5 <= n:
            l = struct.unpack_from('<I', b, i + 1)[0]
            cur[1].append(b[i + 5:i + 5 + l])
            i += 5 + l
        elif t == 69 and i + 2 <= n:
            cur[2] = b[i + 1]
            i += 2
        else:
            break
    return res


def _table(wd, items):
    n = len(items)
    with open(wd + '/tab.s', 'w') as f:
        f.write('.data\n.globl items\nitems:\n')
        for i in range(n):
            f.write('\t.quad t%d\n' % i)
        f.write('\t.quad 0\n.globl nitems\nnitems:\t.quad %d\n.globl reps\nreps:\n' % n)
        for i, it in enumerate(items):
            f.write('\t.quad %d, %d, v%d\n' % (len(it.args), len(it.args[0]), i) if it.args else '\t.quad 0, 0, 0\n')
        for i, it in enumerate(items):
            if it.args:
                f.write('v%d:\n' % i)
                fl = [v & (1 << 64) - 1 for a in it.args for v in a]
                for k in range(0, len(fl), 64):
                    f.write('\t.quad %s\n' % ','.join('0x%x' % v for v in fl[k:k + 64]))
    build.run(['as', '-o', 'tab.o', 'tab.s'], wd)


def _build_run(tree, wd, items, prelude, timeout, more=(), nfail=None):
    """compile+run a list of items.  -> list of (kind, outputs, status) aligned with items."""
    os.makedirs(wd, exist_ok=True)
    nfail = [0] if nfail is None else nfail
    if nfail[0] > 12 and not any(it.status == 'reject' for it in items):
        return [('skip', None, None)] * len(items)
    with open(wd + '/p.myr', 'wb') as f:
        f.write(source(items, 0, prelude).encode('utf-8', 'surrogateescape'))
    rc, out = mc(tree, wd, 'p.myr')
    if rc != 0:
        if len(items) == 1:
            nfail[0] += 1
            return [('compile', (rc, out), None)]
        h = (len(items) + 1) // 2
        return _build_run(tree, wd, items[:h], prelude, timeout, more, nfail) + _build_run(tree, wd, items[h:], prelude, timeout, more, nfail)
    _table(wd, items)
    more = list(more)
    if any(it.c for it in items):
        with open(wd + '/c.c', 'w') as f:
            f.write(CPRE)
            for i, it in enumerate(items):
                if it.c:
                    f.write(it.c.replace('$', str(i)))
        build.run(['gcc', '-O1', '-w', '-c', '-ffreestanding', '-fno-stack-protector', '-fno-pic', '-o', 'c.o', 'c.c'], wd)
        build.run(['objcopy', '-w', '--globalize-symbol=f[0-9]*', 'p.o'], wd)
        more.append('c.o')
    build.run(['ld', '-z', 'noexecstack', '-o', 'p', crt(tree), 'tab.o', 'p.o'] + more, wd)
    os.chmod(wd, 0o755)
    r = run_bin([wd + '/p'], timeout=timeout)
    recs = {a: (b, c) for a, b, c in parse_stream(r.out)}
    res = []
    for i in range(len(items)):
        if i in recs and recs[i][1] is not None:
            res.append(('run', recs[i][0], recs[i][1]))
        else:
            res.append(None)
    missing = [i for i in range(len(items)) if res[i] is None]
    if missing:
        if len(items) == 1:
            return [('dead', recs.get(0, ([], None))[0], r.rc)]
        for i in missing[:8]:
            res[i] = _build_run(tree, wd, [items[i]], prelude, timeout, more, nfail)[0]
        for i in missing[8:]:
            res[i] = ('skip', None, None)
    return res


class Name:
    """an expected string holding the item's number where it has '$'"""
    def __init__(self, s):
        self.s = s.split('$')

    def match(self, b):
        import re
        return re.fullmatch('[0-9]+'.join(self.s), b.decode('latin1')) is not None

    def __repr__(self):
        return '$'.join(self.s)


def fmt(v):
    if isinstance(v, Name):
        return repr(v)
    if isinstance(v, (bytes, bytearray)):
        return repr(bytes(v))
    if v >> 8 == 0xee000000000000:
        return '<%s>' % STATUS.get(v & 255, v & 255)
    return '%d(0x%x)' % (v, v)


KNOWN = 'the known finding: '


def judge(it, r, prelude=''):
    """None when the item behaved as expected, else a description"""
    kind, outs, st = r
    if kind == 'skip':
        return None
    if callable(it.want):
        it.want = it.want()
    if kind == 'compile':
        if it.status == 'reject':
            if outs[0] == 1:
                return None
            return 'compiler died (status %s): %s' % (outs[0], outs[1][-300:])
        return 'compiler rejects it or fails (status %s): %s' % (outs[0], outs[1][-400:])
    if it.status == 'reject':
        return 'compiler accepts an erroneous program'
    if kind == 'dead':
        return 'program killed the process (status %s) after outputs %s' % (st, outs[-3:])
    if st != it.status:
        return 'ended with "%s", expected "%s"; outputs %s want %s' % (STATUS.get(st, st), STATUS.get(it.status, it.status), [fmt(v) for v in outs[:8]], [fmt(v) for v in it.want[:8]] if isinstance(it.want, list) else it.want)
    if hasattr(it.want, 'judge'):
        return it.want.judge(outs)
    if not it.anyout and outs != it.want:
        if len(outs) == len(it.want) and all(a == b or (isinstance(b, Name) and isinstance(a, bytes) and b.match(a)) for a, b in zip(outs, it.want)):
            return None
        if isinstance(it.key, tuple) and outs == it.key[1]():
            return KNOWN + 'outputs %s..., expected %s...' % ([fmt(v) for v in outs[:6]], [fmt(v) for v in it.want[:6]])
        for k in range(max(len(outs), len(it.want))):
            a = outs[k] if k < len(outs) else None
            b = it.want[k] if k < len(it.want) else None
            if a != b and not (isinstance(b, Name) and isinstance(a, bytes) and b.match(a)):
                return 'output %d is %s, expected %s' % (k, 'missing' if a is None else fmt(a), 'none' if b is None else fmt(b))
    return None


def run_items(c, tree, items, prelude='', per=300, timeout=60, more=(), maxviol=4, procs=None):
    """Compile and run every item, compare, report violations on check c.  Returns statistics."""
    items = list(items)
    if c is not None:
        items = [it for it in items if it.src is not None]
    crt(tree)
    n = len(items)
    per = max(1, min(per, (n + CORES - 1) // CORES))
    chunks = [(k, items[k:k + per]) for k in range(0, n, per)]

    def job(a):
        k, its = a
        wd = os.path.join(tree.scratch, 'c%d.%d' % (os.getpid(), k))
        try:
            rs = _build_run(tree, wd, its, prelude, timeout, more)
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        bad = []
        nout = 0
        comp = 0
        for i, (it, r) in enumerate(zip(its, rs)):
            if r[0] == 'run':
                nout += len(r[1])
            if r[0] == 'compile':
                comp += 1
            w = judge(it, r)
            if w is not None:
                bad.append((k + i, w))
        return nout, comp, bad[:200], sum(r[0] == 'skip' for r in rs)
    res = pmap(job, chunks, procs)
    bad = [b for r in res for b in r[2]]
    stats = dict(programs=n, outputs=sum(r[0] for r in res), rejected=sum(r[1] for r in res), bad=len(bad))
    if c is None:
        return stats, [(items[i], w) for i, w in bad]
    for i, w in bad:
        it = items[i]
        key = it.key
        if isinstance(key, tuple):      # (key, the outputs of the known finding): anything else is not the finding
            key = key[0] if w.startswith(KNOWN) else None
        if key is None and len(c.viol) >= maxviol:
            continue
        c.report('%s: %s' % (it.desc, w), '%s\n' % source([it], 0, prelude), key=key)
    return stats
