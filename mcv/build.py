"""Rebuild oridb/mc from /repo's current working tree in a private scratch directory.

The C tool chain is built with the project's own makefile; the Myrddin libraries are built by
running the steps of the project's own bootstrap script (as a DAG, in parallel) and then, for the
libraries that script does not cover, by the freshly built mbld.
"""
import os, re, shutil, subprocess, sys, tempfile, atexit, signal, threading, time
from concurrent.futures import ThreadPoolExecutor, wait, FIRST_COMPLETED

REPO = os.environ.get('MCV_REPO', '/repo')
CORES = os.cpu_count() or 1
ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
       'HOME': '/root', 'LC_ALL': 'C.UTF-8'}


class BuildError(Exception):
    pass


_scratch = []


def _cleanup():
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)
    del _scratch[:]


def scratch(prefix='mcv.'):
    d = tempfile.mkdtemp(prefix=prefix, dir='/tmp')
    os.chmod(d, 0o755)
    if not _scratch:
        atexit.register(_cleanup)

        def onsig(n, f):
            sys.exit(2)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            try:
                signal.signal(s, onsig)
            except ValueError:
                pass
    _scratch.append(d)
    return d


def run(cmd, cwd, env=None, timeout=300, check=True):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if check and p.returncode != 0:
        raise BuildError('%r in %s: exit %d\n%s' % (cmd, cwd, p.returncode,
                         p.stdout[-4000:].decode('utf8', 'replace')))
    return p.stdout


def copy_tree(dst, repo=None):
    """Copy what git considers source (tracked + untracked, not ignored)."""
    repo = repo or REPO
    out = subprocess.run(['git', '-c', 'safe.directory=*', '-c', 'core.quotepath=off', '-C', repo,
                          'ls-files', '-co', '--exclude-standard', '-z'],
                         stdout=subprocess.PIPE, check=True).stdout
    dirs = set()
    for f in sorted(set(out.split(b'\0'))):
        if not f:
            continue
        f = os.fsdecode(f)
        s = os.path.join(repo, f)
        if not os.path.lexists(s) or (os.path.isdir(s) and not os.path.islink(s)):
            continue
        d = os.path.join(dst, os.path.dirname(f))
        if d not in dirs:
            os.makedirs(d, exist_ok=True)
            dirs.add(d)
        shutil.copy2(s, os.path.join(dst, f), follow_symlinks=False)


def _bootstrap_dag(root):
    """Run the bootstrap script's commands as a dependency DAG."""
    script = os.path.join(root, 'mk/bootstrap/bootstrap+Linux-x86_64.sh')
    steps = []
    for ln in open(script):
        s = ln.strip()
        if s.startswith('mkdir -p '):
            os.makedirs(os.path.join(root, s.split()[2]), exist_ok=True)
        elif s.startswith(('$pwd/', 'as ', 'ar ', 'ld ')):
            steps.append(s.replace('$pwd', root))
        elif s in ('', 'true', 'set -x', 'pwd=`pwd`') or s.startswith('#'):
            pass
        else:
            raise BuildError('bootstrap script: unexpected line %r' % s)
    n = len(steps)
    prod = {}
    info = []
    for i, s in enumerate(steps):
        a = s.split()
        t = os.path.basename(a[0])
        src = a[-1]
        d = None
        if t == '6m':
            b = os.path.basename(src)
            b = re.sub(r'(\+[^/]*)?\.myr$', '', b)
            d = os.path.dirname(src)
            prod[('use', d, b)] = i
        elif t == 'as':
            d = os.path.dirname(src)
        info.append((t, d, src, a))
    deps = [set() for _ in range(n)]
    libidx = {}
    for i, (t, d, src, a) in enumerate(info):
        if t == 'muse':
            o = a[a.index('-o') + 1]
            libidx[os.path.dirname(o)] = i
    for i, (t, d, src, a) in enumerate(info):
        if t == '6m':
            txt = open(os.path.join(root, src), encoding='utf8', errors='replace').read()
            for m in re.finditer(r'^\s*use\s+"([^"]+)"', txt, re.M):
                k = ('use', d, re.sub(r'\.use$', '', m.group(1)))
                if k in prod:
                    deps[i].add(prod[k])
            for j, x in enumerate(a):
                if x == '-I' and a[j + 1] in libidx:
                    deps[i].add(libidx[a[j + 1]])
        elif t == 'muse':
            for x in a:
                if x.endswith('.use') and x != a[a.index('-o') + 1]:
                    k = ('use', os.path.dirname(x)[len('obj/'):], os.path.basename(x)[:-4])
                    if k in prod:
                        deps[i].add(prod[k])
            for j, x in enumerate(a):
                for od, li in libidx.items():
                    if li < i and x == '-l':
                        deps[i].add(li)
        elif t in ('ar', 'ld'):
            deps[i] |= set(range(i))
    done, running, err = set(), {}, []
    with ThreadPoolExecutor(CORES) as ex:
        pend = set(range(n))
        while pend or running:
            if not err:
                for i in sorted(pend):
                    if deps[i] <= done:
                        pend.discard(i)
                        running[ex.submit(run, ['sh', '-c', steps[i]], root)] = i
            if not running:
                break
            fin, _ = wait(list(running), return_when=FIRST_COMPLETED)
            for f in fin:
                i = running.pop(f)
                if f.exception():
                    err.append(f.exception())
                else:
                    done.add(i)
        if err:
            raise err[0]
        if pend:
            raise BuildError('bootstrap DAG stuck: %r' % [steps[i] for i in sorted(pend)][:5])


class Tree:
    """A private build of the current tree."""

    def __init__(self, level='std', repo=None, cflags=None, src=None):
        """level: 'c' (6m, muse, rt), 'boot' (+sys std bio regex thread mbld), 'all' (all libs)."""
        self.scratch = scratch()
        self.root = os.path.join(self.scratch, 'src')
        t0 = time.time()
        if os.environ.get('MCV_DEVTREE'):       # development only: reuse a built tree
            self.root = os.environ['MCV_DEVTREE']
            self._paths()
            self.build_s = 0
            return
        os.mkdir(self.root)
        copy_tree(self.root, repo)
        run(['./configure', '--prefix=/usr/local'], self.root)
        if cflags:
            run(['make', '-j%d' % CORES, 'subdirs', 'CFLAGS=' + cflags], self.root)
        else:
            run(['make', '-j%d' % CORES, 'subdirs'], self.root)
        self._paths()
        if level != 'c':
            try:
                _bootstrap_dag(self.root)
            except (BuildError, ValueError, IndexError, OSError) as e:
                # our reading of the script may be at fault: run it the project's own way
                shutil.rmtree(self.root + '/obj', ignore_errors=True)
                run(['sh', '-e', './mk/bootstrap/bootstrap+Linux-x86_64.sh'], self.root)
            shutil.copy2(self.root + '/obj/mbld/mbld', self.root + '/xmbld')
        if level == 'all':
            run(['./mbldwrap.sh'], self.root, env=dict(ENV, MBLD='./xmbld'))
        self._paths()
        self.build_s = time.time() - t0

    def _paths(self):
        self.mc = self.root + '/6/6m'
        self.muse = self.root + '/muse/muse'
        self.rt = self.root + '/rt/_myrrt.o'
        self.libs = {}
        for d in ('sys', 'std', 'bio', 'regex', 'thread', 'crypto', 'date', 'escfmt', 'fileutil',
                  'flate', 'http', 'inifile', 'iter', 'json', 'math', 'testr'):
            p = os.path.join(self.root, 'obj/lib', d)
            if os.path.exists(os.path.join(p, d)) or os.path.exists(os.path.join(p, 'lib%s.a' % d)):
                self.libs[d] = p

    LINKORDER = ['http', 'json', 'inifile', 'date', 'escfmt', 'flate', 'fileutil', 'crypto', 'iter', 'testr',
                 'math', 'regex', 'bio', 'thread', 'std', 'sys']

    def compile(self, src, libs, out=None, extra=(), check=True, timeout=120):
        """Compile one .myr file (absolute path); object and .use land beside it."""
        cmd = [self.mc]
        for l in libs:
            cmd += ['-I', self.libs[l]]
        cmd += list(extra) + [src]
        return run(cmd, os.path.dirname(src), timeout=timeout, check=check)

    def link(self, out, objs, libs):
        cmd = ['ld', '-o', out, self.rt] + list(objs)
        for l in self.LINKORDER:
            if l in libs:
                cmd += ['-L' + self.libs[l]]
        cmd += ['--start-group'] + ['-l' + l for l in self.LINKORDER if l in libs] + ['--end-group']
        run(cmd, os.path.dirname(out))
        os.chmod(out, 0o755)
        return out

    def harness(self, src, libs=('std', 'sys'), workdir=None, name=None, more=()):
        """Copy a harness (and helper modules, in dependency order) to scratch, build a binary."""
        wd = workdir or os.path.join(self.scratch, 'h')
        os.makedirs(wd, exist_ok=True)
        objs = []
        libs = list(libs)
        for l in ('std', 'sys'):
            if l not in libs:
                libs.append(l)
        for s in list(more) + [src]:
            b = os.path.basename(s)
            d = os.path.join(wd, b)
            if os.path.abspath(s) != d:
                shutil.copy(s, d)
            if s.endswith('.s'):
                run(['as', '-o', d[:-2] + '.o', d], wd)
                objs.append(d[:-2] + '.o')
            elif s.endswith('.c'):
                run(['gcc', '-O1', '-c', '-ffreestanding', '-fno-stack-protector', '-fno-pic', '-mno-red-zone', '-o', d[:-2] + '.o', d], wd)
                objs.append(d[:-2] + '.o')
            else:
                self.compile(d, libs, extra=['-I', wd])
                objs.append(d[:-4] + '.o')
        out = os.path.join(wd, name or (os.path.basename(src)[:-4] + '.x'))
        return self.link(out, objs, libs)
