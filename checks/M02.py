#!/usr/bin/env python3
"""M02: mbld against stand-ins for the tools it runs, which do (finish, fail, crash) what the checker tells them, when it tells them.

Every use graph over the files of a program, several over libraries, and every order in which the running steps can come to an end: no
step may start before all it needs has ended well, the build must not stall, and must end with everything built; with a step failing or crashing
at any point, nothing that needs it may start and the build must fail.  Every cyclic graph, and every missing input, is refused before anything
is run.  Every set of variants of a file under every set of tags; every small set of rules for tags; every short transcript of a test.
"""
import os, sys, shutil, subprocess, socket, select, time
from itertools import product, combinations, permutations
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *
from mcv.build import Tree

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def prog(n, edges, order=None):
    """a program of n files, where file i uses each j of edges[i]; and what each step needs"""
    fs = {'bld.proj': 'bin p = %s ;;\n' % ' '.join('f%d.myr' % i for i in (order or range(n)))}
    need = {}
    for i in range(n):
        fs['f%d.myr' % i] = ''.join('use "f%d"\n' % j for j in edges[i]) + 'const v%d = %d\n' % (i, i)
        need['6m f%d.myr' % i] = {'6m f%d.myr' % j for j in edges[i]}
    need['ld obj/p'] = {'6m f%d.myr' % i for i in range(n)}
    return fs, need


def libs(in_a, b_a, p_a, p_b, second, order):
    """libraries a (a2 uses a1 if in_a) and b (uses a if b_a), and a program with a file using a if p_a and one using b if p_b (a second file if second)"""
    subs = ['liba', 'libb', 'prog']
    fs = {'bld.proj': 'sub = %s ;;\n' % ' '.join(subs[i] for i in order), 'liba/bld.sub': 'lib a = a2.myr a1.myr ;;\n', 'liba/a1.myr': 'pkg a =\n;;\n', 'liba/a2.myr': 'use "a1"\n' * in_a + 'pkg a =\n;;\n',
          'libb/bld.sub': 'lib b = b1.myr %s;;\n' % ('lib ../liba:a ' * b_a), 'libb/b1.myr': 'use a\n' * b_a + 'pkg b =\n;;\n',
          'prog/bld.sub': 'bin p = main.myr %s%s%s;;\n' % ('o.myr ' * second, 'lib ../liba:a ' * (p_a or second), 'lib ../libb:b ' * p_b), 'prog/main.myr': 'use a\n' * p_a + 'use b\n' * p_b + 'use "o"\n' * second, 'prog/o.myr': 'use a\n' * second}
    A, B = {'ar obj/liba/liba.a', 'muse obj/liba/liba.use'}, {'ar obj/libb/libb.a', 'muse obj/libb/libb.use'}
    need = {'6m liba/a1.myr': set(), '6m liba/a2.myr': {'6m liba/a1.myr'} if in_a else set(), '6m libb/b1.myr': set(A) if b_a else set(),
            '6m prog/main.myr': (A if p_a else set()) | (B if p_b else set()) | ({'6m prog/o.myr'} if second else set())}
    for x in A:
        need[x] = {'6m liba/a1.myr', '6m liba/a2.myr'}
    for x in B:
        need[x] = {'6m libb/b1.myr'}
    need['ld obj/prog/p'] = {'6m prog/main.myr'}
    if second:
        need['6m prog/o.myr'] = set(A)
        need['ld obj/prog/p'] = {'6m prog/main.myr', '6m prog/o.myr'}
    else:
        fs.pop('prog/o.myr')
    return fs, need


def step(argv):
    tool, a = argv[0], argv[1:]
    if tool == '6m':
        return '6m ' + a[-1]
    return '%s %s' % (tool, a[a.index('-rcs' if tool == 'ar' else '-o') + 1])


class Bench:
    def __init__(self, tree, k):
        self.tree = tree
        self.base = '%s/m02.%d' % (tree.scratch, k)
        shutil.rmtree(self.base, ignore_errors=True)
        os.makedirs(self.base + '/tools')
        os.chmod(self.base, 0o755)
        for t in ('6m', 'muse', 'ar', 'ld'):
            shutil.copy2(tree.scratch + '/fakebin', '%s/tools/%s' % (self.base, t))
            os.utime('%s/tools/%s' % (self.base, t), (10 ** 9, 10 ** 9))
        self.env = {'PATH': self.base + '/tools:/usr/bin:/bin', 'MYR_RT': tree.rt}
        self.d = self.base + '/p'
        self.runs = 0
        self.bad = []

    def fill(self, fs):
        shutil.rmtree(self.d, ignore_errors=True)
        os.mkdir(self.d)
        for f, text in fs.items():
            p = os.path.join(self.d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as h:
                h.write(text)
        for at, ds, ff in os.walk(self.d):
            os.chown(at, NOBODY, NOBODY)
            for f in ff:
                os.chown(os.path.join(at, f), NOBODY, NOBODY)
        for k in os.listdir(self.base):
            if k in ('log', 'sock'):
                os.unlink(self.base + '/' + k)
        with open(self.base + '/log', 'w'):
            pass
        os.chmod(self.base + '/log', 0o666)

    def mbld(self, *args, **env):
        """mbld with tools that do as they like; (status, output, [argv of every tool])"""
        self.runs += 1
        p = subprocess.run([self.tree.root + '/xmbld'] + list(args), cwd=self.d, env=dict(self.env, MCV_LOG=self.base + '/log', **env), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=60, user=NOBODY, group=NOBODY, extra_groups=[])
        with open(self.base + '/log') as h:
            log = [l.rstrip('\n').split('\t') for l in h]
        return p.returncode, p.stdout.decode(errors='replace'), log

    def fail(self, what, detail):
        self.bad.append((what, detail))

    def run(self, fs, need, jobs, choices, what):
        """one build; choices says which of the running steps ends next, and how.  The choices there were."""
        self.fill(fs)
        self.runs += 1
        srv = socket.socket(socket.AF_UNIX)
        srv.bind(self.base + '/sock')
        os.chmod(self.base + '/sock', 0o777)
        srv.listen(16)
        p = subprocess.Popen([self.tree.root + '/xmbld', '-j', str(jobs)], cwd=self.d, env=dict(self.env, MCV_SOCK=self.base + '/sock'), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             user=NOBODY, group=NOBODY, extra_groups=[])
        running, done, failed, links, took, out = {}, set(), None, [], [], b''
        bad = None
        end = time.time() + 60
        try:
            while bad is None:
                ready = [] if failed else [s for s in need if s not in done and s not in running and need[s] <= done]
                expect = min(jobs, len(running) + len(ready))
                limit = time.time() + (10 if not running else 0.3)
                while len(running) < expect and bad is None:
                    r, _, _ = select.select([srv], [], [], max(0, limit - time.time()))
                    if not r:
                        break
                    c, _ = srv.accept()
                    argv = c.recv(8192).decode().rstrip('\n').split('\t')
                    s = step(argv)
                    if s not in need:
                        bad = '%s is run' % ' '.join(argv)
                    elif s in done or s in running:
                        bad = '%s is run twice' % s
                    elif not need[s] <= done:
                        bad = '%s is run before %s has ended' % (s, ', '.join(sorted(need[s] - done)))
                    elif failed and failed in need[s]:
                        bad = '%s is run although %s failed' % (s, failed)
                    running[s] = (c, argv)
                    links += [argv] if argv[0] == 'ld' else []
                    if len(running) > jobs:
                        bad = 'more than %d steps at once: %s' % (jobs, ', '.join(sorted(running)))
                if bad:
                    break
                if not running:
                    break
                opts = [(s, 'k') for s in sorted(running)]
                if failed is None and self.failing:
                    opts += [(s, w) for s in sorted(running) for w in 'fs']
                ch = choices[len(took)] if len(took) < len(choices) else 0
                took.append(len(opts))
                s, w = opts[ch]
                what += ', %s %s' % (s, {'k': 'ends', 'f': 'fails', 's': 'crashes'}[w])
                c, _ = running.pop(s)
                c.send(w.encode())
                c.close()
                if w == 'k':
                    done.add(s)
                else:
                    failed = s
                    # mbld knows before anything else ends
                    while b'FAIL' not in out and b'CRASH' not in out and select.select([p.stdout], [], [], 10)[0]:
                        x = os.read(p.stdout.fileno(), 4096)
                        if not x:
                            break
                        out += x
            if bad is None:
                try:
                    out = (out + p.communicate(timeout=20)[0]).decode(errors='replace')
                except subprocess.TimeoutExpired:
                    bad = 'mbld hangs, with %s left to be done' % ', '.join(sorted(set(need) - done))
            if bad is None:
                if failed and (p.returncode != 1 or ('FAIL' not in out and 'CRASH' not in out)):
                    bad = 'mbld ends with status %d and %r although a step failed' % (p.returncode, out[-200:])
                elif not failed and p.returncode:
                    bad = 'mbld ends with status %d: %s' % (p.returncode, out[-300:])
                elif not failed and done != set(need):
                    bad = 'mbld ends well without %s' % ', '.join(sorted(set(need) - done))
            if bad is None and not failed:
                for a in links:
                    objs = sorted(x for x in a if x.endswith('.o') and x.startswith('obj/'))
                    want = sorted('obj/' + x[3:-4] + '.o' for x in need[step(a)] if x.startswith('6m '))
                    if objs != want:
                        bad = 'the program is linked from %s, not from %s' % (' '.join(objs), ' '.join(want))
                    if '6m libb/b1.myr' in need and 'ar obj/liba/liba.a' in need['6m libb/b1.myr'] and 'ar obj/libb/libb.a' in need['6m prog/main.myr']:
                        if '-lb' not in a or '-la' not in a[a.index('-lb'):]:
                            bad = 'the program is not linked with b, then with a, which b uses: %s' % ' '.join(a)
        finally:
            for c, _ in running.values():
                c.close()
            srv.close()
            os.unlink(self.base + '/sock')
            p.kill()
            p.wait()
            p.stdout.close()
        if bad:
            self.fail('%s: %s' % (what, bad), '')
        return took

    def explore(self, fs, need, jobs, what, failing):
        """every order of ends"""
        self.failing = failing
        pre = []
        while True:
            took = self.run(fs, need, jobs, pre, what)
            if self.bad:
                return
            pre = pre + [0] * (len(took) - len(pre))
            while pre and pre[-1] + 1 >= took[len(pre) - 1]:
                pre.pop()
            if not pre:
                return
            pre[-1] += 1

    def refused(self, fs, what, env={}, args=()):
        self.fill(fs)
        rc, out, log = self.mbld(*args)
        if rc in (0, -6, -11) or rc < 0 or not out.strip():
            self.fail('%s: mbld ends with status %d%s' % (what, rc, '' if out.strip() else ' and without a word'), out)
        elif log:
            self.fail('%s: mbld runs %s all the same' % (what, ' '.join(log[0])), out)


def graphs(n, loops):
    """every digraph over n nodes, as adjacency lists"""
    pairs = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    for bits in product((0, 1), repeat=len(pairs)):
        e = [[] for _ in range(n)]
        for (i, j), b in zip(pairs, bits):
            if b:
                e[i].append(j)
        yield e


def acyclic(e):
    left = set(range(len(e)))
    while left:
        free = [i for i in left if not set(e[i]) & left]
        if not free:
            return False
        left -= set(free)
    return True


def text(e):
    return 'files 0..%d%s' % (len(e) - 1, ''.join(', %d uses %s' % (i, ' '.join(map(str, u))) for i, u in enumerate(e) if u))


def j_schedule(b, n, e, jobs, failing):
    fs, need = prog(n, e)
    b.explore(fs, need, jobs, '%s, -j %d' % (text(e), jobs), failing)


def j_libs(b, cfg, order, jobs, failing):
    fs, need = libs(*cfg, order)
    b.explore(fs, need, jobs, 'libraries a (a2 uses a1: %d), b (uses a: %d), p (uses a: %d, b: %d, another file: %d), -j %d' % (cfg + (jobs,)), failing)


def j_cycle(b, es):
    for e in es:
        b.refused(prog(len(e), e)[0], text(e))


BASE = {'bld.proj': 'sub = liba prog ;;\n', 'liba/bld.sub': 'lib a = a1.myr a2.myr ;;\n', 'liba/a1.myr': 'pkg a =\n;;\n', 'liba/a2.myr': 'use "a1"\npkg a =\n;;\n',
        'prog/bld.sub': 'bin p = main.myr o.myr lib ../liba:a ;;\n', 'prog/main.myr': 'use a\nuse "o"\n', 'prog/o.myr': 'const o = 1\n'}


def j_missing(b):
    for f in BASE:
        if f == 'bld.proj':
            continue
        fs = dict(BASE)
        del fs[f]
        b.refused(fs, '%s is missing' % f)
    for f, was, now, what in [
            ('prog/main.myr', 'use "o"', 'use "q"', 'a file that is not there is used'), ('prog/main.myr', 'use a', 'use z', 'a library that is not there is used'), ('prog/bld.sub', '../liba:a', '../liba:z', 'a library that is not there is listed'),
            ('prog/bld.sub', '../liba:a', '../libz:a', 'a library is listed in a directory that is not there'), ('bld.proj', 'liba', 'liba libz', 'a directory that is not there'), ('prog/bld.sub', ' o.myr', '', 'a used file is not listed'),
            ('prog/bld.sub', ';;', 'lib ../liba:a', 'the list of inputs is not ended'), ('prog/bld.sub', 'bin p =', 'bin =', 'no name'), ('prog/bld.sub', 'bin p =', 'bon p =', 'no such kind of target'), ('prog/bld.sub', 'bin p =', 'bin p', 'no ='),
            ('prog/bld.sub', 'bin p', 'bin p {zork}', 'no such attribute'), ('prog/bld.sub', 'o.myr', 'o.myr x.foo', 'a file of an unknown kind'), ('liba/bld.sub', ';;', 'lib ../prog:p ;;', 'a library that uses a program that uses it'),
            ('liba/bld.sub', ';;', 'lib a ;;', 'a library that uses itself'), ('prog/main.myr', 'use "o"', 'use "main"', 'a file that uses itself'), ('prog/bld.sub', 'p = main', 'p {= main', 'attributes that are not ended')]:
        assert was in BASE[f], (f, was)
        b.refused(dict(BASE, **{f: BASE[f].replace(was, now)}), what)
    b.refused(BASE, 'a target that is not there', args=('zork',))
    # every step that can fail, without parallelism, and again
    for s in ('liba/a1.myr', 'liba/a2.myr', 'ar\t', 'muse\t', 'prog/o.myr', 'prog/main.myr', 'ld\t'):
        b.fill(BASE)
        rc, out, log = b.mbld('-j', '1', MCV_FAIL=s)
        if rc != 1:
            b.fail('the step with %r fails: mbld ends with status %d' % (s, rc), out)
        rc, out, log = b.mbld('-j', '1')
        if rc or not os.path.exists(b.d + '/obj/prog/p'):
            b.fail('the step with %r fails, and then does not: mbld ends with status %d' % (s, rc), out)
    # clean removes what was built and nothing else
    for what in ([], ['prog:p']):
        b.fill(BASE)
        b.mbld(*what)
        b.mbld('clean')
        left = sorted(os.path.relpath(os.path.join(at, f), b.d) for at, _, ff in os.walk(b.d) for f in ff)
        if left != sorted(BASE):
            b.fail('mbld clean leaves %s' % ' '.join(left), '')


VARS = ['f.myr', 'f+x.myr', 'f+y.myr', 'f+x-y.myr', 'f+linux.myr', 'f+linux-x.myr', 'f+posixy.myr', 'f+z.myr', 'f+x-z.myr']


def j_tags(b, sets):
    """the variant all of whose tags hold, with the most tags; none, if none applies"""
    for vs, tags in sets:
        # (a tag listed first wins among as many: not said anywhere)
        have = set(tags) | {'linux', 'posixy'}
        score = {}
        for v in vs:
            ts = v[:-4].split('+')[1].split('-') if '+' in v else []
            if set(ts) <= have:
                score[v] = len(ts)
        best = [v for v in score if score[v] == max(score.values())]
        if len(best) > 1:
            continue
        for order in (vs, vs[::-1]):
            fs = dict({v: 'const f = 1\n' for v in vs}, **{'main.myr': 'const m = 1\n', 'bld.proj': 'bin p = main.myr %s ;;\n' % ' '.join(order)})
            args = [x for t in tags for x in ('-t', t)]
            what = '%s with the tags %s' % (' '.join(order), ' '.join(sorted(have)))
            b.fill(fs)
            rc, out, log = b.mbld(*args)
            got = [a[-1] for a in log if a[0] == '6m' and a[-1] != 'main.myr']
            if rc or got != best:
                b.fail('%s: %s is compiled (status %d), not %s' % (what, ' '.join(got) or 'none', rc, ' '.join(best) or 'none'), out)


def j_rules(b, sets):
    """bld.tags: a tag holds if all those right of the colon do, to the fixed point; targets with tags are built if they hold"""
    for rules in sets:
        have = {'linux'}
        while True:
            new = have | {l for l, r in rules if set(r) <= have}
            if new == have:
                break
            have = new
        fs = {'bld.tags': ''.join('%s: %s\n' % (l, ' '.join(r)) if r else l + '\n' for l, r in rules), 'main.myr': '', 'bld.proj': ''.join('bin p%s = f%s.myr ;;\n' % (t, t) for t in 'uvw')}
        what = 'tags by the rules %s' % '; '.join('%s: %s' % (l, ' '.join(r)) for l, r in rules)
        for t in 'uvw':
            fs['f%s.myr' % t] = fs['f%s+%s.myr' % (t, t)] = ''
        fs['bld.proj'] = ''.join('bin p%s = f%s.myr f%s+%s.myr ;;\n' % (t, t, t, t) for t in 'uvw')
        b.fill(fs)
        rc, out, log = b.mbld()
        got = {a[-1] for a in log if a[0] == '6m'}
        want = {'f%s+%s.myr' % (t, t) if t in have else 'f%s.myr' % t for t in 'uvw'}
        if rc or got != want:
            b.fail('%s: %s are compiled (status %d), not %s' % (what, ' '.join(sorted(got)), rc, ' '.join(sorted(want))), out)


def transcripts(thorough):
    """(lines, status of the test, whether it passed)"""
    R = {'ok': 'ok', 'fail': 'fail why', 'skip': 'skip'}
    for st in (0, 1, 'kill'):
        yield [], st, st == 0
        yield ['hello', 'world'], st, st == 0
        for n in (1, 2, 3) if thorough else (1, 2):
            for m in range(0, n + 2):
                for rs in product(R, repeat=m):
                    for noise in (0, 1):
                        ls = ['MTEST %d' % n]
                        for i, r in enumerate(rs):
                            ls += ['test t%d <<{!' % i] + ['noise'] * noise + ['!}>> ' + R[r]]
                        yield ls, st, st == 0 and m == n and 'fail' not in rs
        # a test that stops in the middle
        yield ['MTEST 1', 'test t <<{!'], st, False
        yield ['MTEST 2', 'test t <<{!', '!}>> ok', 'test u <<{!'], st, False
        yield ['MTEST 2', 'test t <<{!', 'test u <<{!', '!}>> ok'], st, False
        yield ['MTEST 1', '!}>> ok'], st, False


def j_tests(b, ts):
    def script(ls, st):
        return '#!/bin/sh\ncat <<"EOF"\n%s\nEOF\n%s\n' % ('\n'.join(ls), 'kill -SEGV $$' if st == 'kill' else 'exit %d' % st) if ls else '#!/bin/sh\n%s\n' % ('kill -SEGV $$' if st == 'kill' else 'exit %d' % st)
    for ls, st, ok in ts:
        for where in ('test', 'unit'):
            fs = {'bld.proj': 'bin p = main.myr ;;\n', 'main.myr': ''}
            if where == 'test':
                fs['bld.proj'] += 'test t = t.myr ;;\n'
                fs['t.myr'] = ''
            else:
                fs['test/main.myr'] = ''
            b.fill(fs)
            rc, out, log = b.mbld('test', MCV_TEXT=script(ls, st))
            what = 'a test (%s) that says %s and ends %s' % (where, ' / '.join(ls) or 'nothing', 'by a signal' if st == 'kill' else 'with status %d' % st)
            if (rc == 0) != ok or rc not in (0, 1) or not ('TESTS PASSED' in out if ok else 'TESTS PASSED' not in out):
                b.fail('%s: mbld test ends with status %d' % (what, rc), out)


def jobs(thorough):
    for n in (1, 2, 3) + ((4,) if thorough else ()):
        for e in graphs(n, False):
            if acyclic(e):
                for jn in (1, 2, 8):
                    yield j_schedule, (n, e, jn, n < 4)
    for e in graphs(4, False) if not thorough else []:
        # up to the names of the files: those used have lower, or all have higher numbers
        if all(j < i for i in range(4) for j in e[i]) or all(j > i for i in range(4) for j in e[i]):
            yield j_schedule, (4, e, 8, False)
    for cfg in product((0, 1), repeat=5):
        for order in permutations(range(3)) if thorough else [(2, 1, 0), (0, 1, 2)]:
            yield j_libs, (cfg, order, 1 if not thorough else 2, True)
            if order == (2, 1, 0):
                yield j_libs, (cfg, order, 8 if thorough or cfg[1] and cfg[2] == cfg[3] else 2, thorough)
    cyc = [e for n in (1, 2, 3) for e in graphs(n, True) if not acyclic(e)]
    for i in range(0, len(cyc), 64):
        yield j_cycle, (cyc[i:i + 64],)
    yield j_missing, ()
    sets = [(list(vs), tags) for k in (range(1, 10) if thorough else (1, 2, 3)) for vs in combinations(VARS, k) for tags in ((), ('x',), ('y',), ('x', 'y'))]
    for i in range(0, len(sets), 100):
        yield j_tags, (sets[i:i + 100],)
    R = [('u', ()), ('u', ('v',)), ('u', ('w',)), ('v', ('w',)), ('v', ('u',)), ('w', ('u',)), ('w', ('u', 'v')), ('w', ('linux',)), ('v', ('linux', 'w')), ('u', ('none',)), ('v', ('v',))]
    rs = [list(p) for k in ((0, 1, 2, 3, 4) if thorough else (0, 1, 2, 3)) for p in (permutations(R, k) if k < 3 or thorough else combinations(R, k))]
    for i in range(0, len(rs), 100):
        yield j_rules, (rs[i:i + 100],)
    ts = list(transcripts(thorough))
    for i in range(0, len(ts), 30):
        yield j_tests, (ts[i:i + 30],)


TREE = None


def work(a):
    k, (fn, args) = a
    b = Bench(TREE, k)
    try:
        fn(b, *args)
    finally:
        shutil.rmtree(b.base, ignore_errors=True)
    return fn.__name__, b.runs, b.bad


def body(c):
    global TREE
    TREE = tree = Tree('boot')
    for d in (tree.scratch, tree.root):
        os.chmod(d, 0o755)
    subprocess.check_call(['gcc', '-O1', '-w', '-o', tree.scratch + '/fakebin', HERE + '/harness/fakebin.c'])
    import multiprocessing
    js = [j for j in enumerate(jobs(c.thorough)) if os.environ.get('MCV_ONLY', '') in j[1][0].__name__]
    runs, per = 0, {}
    with multiprocessing.Pool(CORES) as pool:
        for name, n, bad in pool.imap_unordered(work, js):
            runs += n
            per[name] = per.get(name, 0) + n
            for what, detail in bad:
                if os.environ.get('MCV_ALL'):
                    print(what[:600], '|', ' '.join(detail.split())[:300])
                else:
                    c.report(what[:700], '%s\n%s\n' % (what, detail), key=what)
    if os.environ.get('MCV_ALL'):
        print(per)
    c.add(executions=runs, transitions=len(js))


if __name__ == '__main__':
    main(body, 'M02')
