"""Common machinery for every check: evidence, violations, known findings, sharded execution."""
import json, os, resource, signal, subprocess, sys, time, traceback, shutil, multiprocessing
from . import build
from .build import Tree, BuildError, scratch, CORES

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(VERIF, 'harness')
NOBODY = 65534


def _limits(cpu, mem, fsize):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


class Res:
    __slots__ = ('rc', 'out', 'err', 'timeout')

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def run_bin(cmd, stdin=b'', timeout=60, cwd=None, env=None, mem=4 << 30, fsize=1 << 30, user=True,
            merge=False):
    """Run a binary under test, unprivileged, with limits.  user=True drops to nobody."""
    kw = {}
    if user and os.geteuid() == 0:
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[])
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT if merge else subprocess.PIPE,
                         cwd=cwd or '/', env=env if env is not None else {'PATH': '/usr/bin:/bin'},
                         preexec_fn=_limits(int(timeout) + 5, mem, fsize), **kw)
    to = False
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.kill()
        out, err = p.communicate()
    return Res(p.returncode, out, err or b'', to)


def scratch_for_nobody(parent, name):
    d = os.path.join(parent, name)
    os.makedirs(d, exist_ok=True)
    if os.geteuid() == 0:
        os.chown(d, NOBODY, NOBODY)
    return d


class Violation(Exception):
    def __init__(self, what, replay, key=None):
        Exception.__init__(self, what)
        self.what, self.replay, self.key = what, replay, key


def load_known():
    r = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known: '):
                f = ln.split(None, 3)
                prop = f[1].split('=', 1)[1]
                key = f[2].split('=', 1)[1]
                r.append((prop, key, f[3] if len(f) > 3 else ''))
    return r


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.known = [(k, w) for p, k, w in load_known() if p == prop]
        self.hit = {}
        self.viol = []
        self.cov = {}
        self.assume = []
        self.samples = []

    # -- reporting
    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def report(self, what, replay, key=None):
        """Record a violation, or a known finding when its key is listed."""
        if key is not None:
            for k, w in self.known:
                if k == key:
                    self.hit[k] = w
                    return
        self.viol.append((what, replay, key))

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def finish(self):
        cov = dict(self.cov)
        cov['samples'] = self.samples
        if self.level == 'model_checking':
            for k in ('states', 'transitions', 'traces_validated_against_impl'):
                cov.setdefault(k, 0)
        else:
            for k in ('evaluations', 'distinct_nontrivial'):
                cov.setdefault(k, 0)
            cov.setdefault('rule', '')
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assume,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % self.prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
        os.rename(tmp, os.path.join(VERIF, 'evidence', self.prop + '.json'))
        for k, w in self.known:
            if k in self.hit:
                print('KNOWN-FINDING: property=%s %s %s' % (self.prop, k, w))
            else:
                print('note: known finding %s was not reproduced in this run' % k)
        if self.viol:
            rd = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            for i, (what, replay, key) in enumerate(self.viol[:5]):
                p = os.path.join(rd, '%s-%d.txt' % (self.prop, i))
                with open(p, 'w', encoding='utf-8', errors='backslashreplace') as f:
                    f.write('property: %s\nkey: %s\nwhat: %s\n\n%s\n' % (self.prop, key, what, replay))
                print('# %s' % what.replace('\n', '\n# ')[:1500])
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
        else:
            print('%s: held (%s, %.1f s): %s' % (self.prop, self.tier, time.time() - self.t0,
                  ', '.join('%s=%s' % (k, v) for k, v in cov.items() if k != 'samples' and not isinstance(v, (list, dict)) and len(str(v)) < 40)))
        sys.stdout.flush()
        return 1 if self.viol else 0


def main(fn, prop, level='model_checking'):
    c = Check(prop, level)
    try:
        fn(c)
    except Violation as v:
        c.report(v.what, v.replay, v.key)
    except BuildError as e:
        print('%s: build failed: %s' % (prop, e))
        build._cleanup()
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        build._cleanup()
        sys.exit(2)
    rc = c.finish()
    build._cleanup()
    sys.exit(rc)


def _child(fn, a, conn):
    try:
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        r = ('ok', fn(a))
    except Violation as v:
        r = ('viol', (v.what, v.replay, v.key))
    except BaseException:
        r = ('err', traceback.format_exc())
    try:
        conn.send(r)
        conn.close()
    finally:
        os._exit(0)


def pmap(fn, items, procs=None):
    """fork-based parallel map preserving order; worker exceptions are re-raised here."""
    items = list(items)
    procs = procs or CORES
    res = [None] * len(items)
    from multiprocessing.connection import wait as cwait
    nxt, live = 0, {}
    sys.stdout.flush()
    while nxt < len(items) or live:
        while nxt < len(items) and len(live) < procs:
            r, w = multiprocessing.Pipe(False)
            pid = os.fork()
            if pid == 0:
                r.close()
                _child(fn, items[nxt], w)
            w.close()
            live[r] = (nxt, pid)
            nxt += 1
        for r in cwait(list(live)):
            i, pid = live.pop(r)
            try:
                res[i] = r.recv()
            except EOFError:
                res[i] = ('err', 'worker %d died' % i)
            r.close()
            os.waitpid(pid, 0)
    out = []
    for t, v in res:
        if t == 'viol':
            raise Violation(*v)
        if t == 'err':
            raise RuntimeError('worker failed:\n' + v)
        out.append(v)
    return out


# ---- line drivers -------------------------------------------------------------------------

def X(b):
    """bytes argument of a driver line"""
    return 'x' + b.hex()


def drive(binary, lines, timeout=60, args=(), maxcrash=6, **kw):
    """Feed case lines to a driver; returns list of result lines (str) or raises on breakage.

    The driver answers one line per case.  When it dies or hangs, the case is isolated by rerunning
    with per-line flushing, and the result of that case is 'CRASH ...' or 'HANG'."""
    lines = list(lines)
    out = []
    pos = 0
    guard = 0
    while pos < len(lines):
        r = run_bin([binary] + list(args), ('\n'.join(lines[pos:]) + '\n').encode(), timeout=timeout, **kw)
        got = r.out.decode('latin1').split('\n')
        last = got.pop()
        if r.rc == 0 and not r.timeout and len(got) == len(lines) - pos:
            out += got
            return out
        # isolate
        r = run_bin([binary, '-f'] + list(args), ('\n'.join(lines[pos:]) + '\n').encode(),
                    timeout=timeout * 3, **kw)
        got = r.out.decode('latin1').split('\n')
        last = got.pop()
        got = got[:len(lines) - pos]
        out += got
        pos += len(got)
        if pos >= len(lines):
            if r.rc != 0:
                raise Violation('driver died after its last case (rc=%s)' % r.rc, repr(r.err[-500:]))
            return out
        # confirm alone
        r1 = run_bin([binary, '-f'] + list(args), (lines[pos] + '\n').encode(), timeout=timeout, **kw)
        g1 = r1.out.decode('latin1').split('\n')
        if r.timeout and not r1.timeout and r1.rc == 0:
            # slow as a whole, not hung on this case
            out.append(g1[0])
        elif r.timeout:
            out.append('HANG')
        elif r1.rc == 0 and len(g1) == 2:
            out.append('CRASH (only after preceding cases) rc=%s %s' % (r.rc, r.err[-200:].decode('latin1').replace('\n', ' ')))
        else:
            out.append('CRASH rc=%s %s' % (r1.rc, r1.err[-200:].decode('latin1').replace('\n', ' ')))
        pos += 1
        guard += 1
        if guard > maxcrash:
            raise Violation('driver crashes or hangs on many cases; first: %s -> %s' %
                            next((l, o) for l, o in zip(lines, out) if o.startswith(('CRASH', 'HANG'))),
                            '\n'.join('%s -> %s' % (l, o) for l, o in zip(lines, out) if o.startswith(('CRASH', 'HANG'))))
    return out


def selfrun(binary, argsets, timeout=120, retry=4, what='', **kw):
    """Run self-driving harnesses in parallel.  Each prints 'OK a b ...' or '... BAD msg'.
    A death or hang is repeated (alone, with a longer limit) before it counts."""
    def one(a):
        cmd = [binary] + [str(x) for x in a]
        r = run_bin(cmd, timeout=timeout, **kw)
        out = r.out.decode('latin1')
        if r.rc == 0 and not r.timeout and out.rstrip().rsplit('\n', 1)[-1].startswith('OK'):
            return [int(x) for x in out.rstrip().rsplit('\n', 1)[-1].split()[1:]], out
        r2 = run_bin(cmd, timeout=timeout * retry, **kw)
        out2 = r2.out.decode('latin1')
        if r2.rc == 0 and not r2.timeout and out2.rstrip().rsplit('\n', 1)[-1].startswith('OK'):
            return [int(x) for x in out2.rstrip().rsplit('\n', 1)[-1].split()[1:]], out2
        msg = out2.strip()[-1500:] or ('hang' if r2.timeout else 'no output')
        raise Violation('%s%s: rc=%s %s %s' % (what, ' '.join(cmd[1:]), r2.rc, 'TIMEOUT' if r2.timeout else '', msg),
                        'harness args: %s\nfirst run: rc=%s timeout=%s\n%s\n%s' % (' '.join(cmd[1:]), r.rc, r.timeout, msg, r2.err[-1000:].decode('latin1')))
    return pmap(one, argsets)
