#!/usr/bin/env python3
"""C17: the compiler and muse write exactly the files their command lines ask for, from every input named, and find what is used
where the documentation says it is searched: every form of input path x output option x number of inputs, every set of places
in which a used unit can be found."""
import os, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import product, permutations
from mcv.check import *
from mcv.build import Tree

NAMES = ['a.myr', 'abcd.myr', 'ab', 'a', 'abc', 'abcdefgh', 'a.b.myr', 'a+t.myr', 'a+t-u.myr', 'a+t-u.v.myr', 'a.myr.myr', 'a.c', 'myr', 'xmyr', 'a-b_c.myr']
DIRS = ['', './', 'd/', 'd.d/', 'd+e/', 'd/e/', '../w/', '../w/d/', '@/', '@/d.myr/']
OUTS = ['o.o', 'o', 'o.x.o', 'q/o.o', 'q.r/o', 'q.r/o.o', 'q/r/o.o', './o', './o.obj', '../w/o', '../w/q.r/s/o', '@/o.o', '@/q.r/o', 'o+p.o', 'd/o.o']
ODIRS = ['q', 'q/', 'q/r', 'q.r', './q', '../w/q', '@/q', 'd', '.', 'q+r']
GOOD = 'pkg =\n\tconst f : (-> int)\n;;\nconst f = {; -> %d}\n'
BAD = {'syntax': 'const f = {\n', 'type': 'const f = {; -> 1 + "a"}\n', 'name': 'const f = {; -> g()}\n', 'token': 'const f = 12xyz\n', 'missing': None, 'use': 'use "nosuch"\n'}


def stem(path):
    """the path without what the output's suffix replaces"""
    d, n = os.path.split(path)
    if '+' in n:
        n = n[:n.index('+')]
    elif n.endswith('.myr') and n != '.myr':
        n = n[:-4]
    return os.path.join(d, n)


def outputs(inp, opt, val, asm):
    """the files compiling inp makes"""
    if opt == '-o':
        d, n = os.path.split(val)
        s = os.path.join(d, n[:n.rindex('.')] if '.' in n else n)
        return {val, s + '.use'} | ({s + '.s'} if asm else set())
    s = stem(inp)
    if opt == '-O':
        s = val + '/' + s
    return {s + '.o', s + '.use'}


class World:
    """a directory of its own with the inputs in it"""
    def __init__(self, tree, k):
        self.base = os.path.join(tree.scratch, 'c17.%d.%d' % (os.getpid(), k))
        self.root = self.base + '/w'
        shutil.rmtree(self.base, ignore_errors=True)
        os.makedirs(self.root)
        os.makedirs(self.base + '/tmp')
        self.tree = tree
        self.stub = 0

    def abs(self, p):
        return p.replace('@', self.root)

    def norm(self, p):
        return os.path.relpath(os.path.normpath(os.path.join(self.root, self.abs(p))), self.root)

    def put(self, p, text):
        p = os.path.join(self.root, self.abs(p))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)

    def files(self):
        return {os.path.relpath(os.path.join(d, f), self.root) for d, _, fs in os.walk(self.root) for f in fs}

    def run(self, cmd):
        if os.geteuid() == 0:
            for d, ds, fs in os.walk(self.base):
                os.chown(d, NOBODY, NOBODY)
                for f in fs:
                    os.chown(os.path.join(d, f), NOBODY, NOBODY)
        return run_bin([self.abs(x) for x in cmd], cwd=self.root, timeout=60, merge=True, env={'PATH': ':'.join([self.base + '/bin'] * self.stub + ['/usr/bin', '/bin']), 'TMPDIR': self.base + '/tmp'})

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)


def check_run(tree, k, inputs, opts, want, fails, asm=False, srcs=None):
    """inputs: [(path, number in it or the kind of error)]; want: {file: what}; -> complaint or None"""
    w = World(tree, k)
    try:
        for p, v in inputs:
            t = GOOD % v if isinstance(v, int) else BAD[v]
            if t is not None:
                w.put(p, t)
        before = w.files()
        r = w.run([tree.mc] + opts + [p for p, v in inputs])
        out = r.out.decode('latin1')[-300:]
        if r.timeout:
            return 'does not end'
        new = w.files() - before
        if fails:
            if r.rc == 0:
                return 'succeeds though an input is erroneous'
            if r.rc < 0 or r.rc > 128:
                return 'dies with status %d: %s' % (r.rc, out)
            left = os.listdir(w.base + '/tmp')
            if new - {w.norm(x) for x in want}:
                return 'makes %s, expected at most %s' % (sorted(new), sorted(want))
            if left:
                return 'leaves %s in the temporary directory' % left
            return None
        if r.rc:
            return 'fails with status %d: %s' % (r.rc, out)
        exp = {w.norm(x) for x in want}
        if new != exp:
            return 'makes %s, expected %s' % (sorted(new), sorted(exp))
        if os.listdir(w.base + '/tmp'):
            return 'leaves %s in the temporary directory' % os.listdir(w.base + '/tmp')
        if {os.path.relpath(os.path.join(d, f), w.base) for d, _, fs in os.walk(w.base) for f in fs if not d.startswith(w.root)}:
            return 'makes files outside'
        for f, v in want.items():
            b = open(os.path.join(w.root, w.norm(f)), 'rb').read()
            if f.endswith('.use'):
                if b[:1] != b'U' or b'f' not in b:
                    return '%s is no use file' % f
            elif f.endswith('.s') and asm:
                if b'movl' not in b and b'ret' not in b:
                    return '%s is not the assembly' % f
            elif b[:4] != b'\x7fELF' or bytes([v]) + b'\0\0\0' not in b or b'\0f\0' not in b:
                return '%s is not the object of its source' % f
        return None
    finally:
        w.close()


def jobs(thorough):
    r = []
    for n in NAMES:
        for d in DIRS:
            p = d + n
            opts = [(None, None)] + [('-o', o) for o in OUTS] + [('-O', o) for o in ODIRS]
            for opt, val in opts:
                if opt == '-O' and d.startswith(('..', '@')) and not thorough:
                    continue
                for asm in (0, 1) if opt == '-o' or (opt is None and n.endswith('.myr') and '+' not in n) else (0,):
                    want = {x: 77 for x in outputs(p, opt, val, asm)}
                    if opt is None and asm:
                        want[stem(p) + '.s'] = 77
                    o = [opt, val] if opt else []
                    r.append(('6m %s' % ' '.join(['-S'] * asm + o + [p]), [(p, 77)], (['-S'] if asm else []) + o, want, False, asm))
    # several inputs
    few = ['a.myr', 'b.myr', 'd/c.myr', 'd/e/x+t.myr', 'd.d/yz', './m.myr']
    for m in (2, 3):
        for ps in permutations(few, m):
            for opt, val in ((None, None), ('-O', 'q'), ('-O', 'q.r/s'), ('-o', 'o.o')):        # -o is for a single input
                want = {x: 70 + i for i, p in enumerate(ps) for x in outputs(p, None if opt == '-o' else opt, val, 0)}
                o = [opt, val] if opt else []
                r.append(('6m %s' % ' '.join(o + list(ps)), [(p, 70 + i) for i, p in enumerate(ps)], o, want, False, 0))
    # an error in some of them
    for m in (1, 2, 3):
        ps = ['a.myr', 'd/b.myr', 'c+t.myr'][:m]
        for which in product([None] + list(BAD), repeat=m):
            if not any(which):
                continue
            for opt, val in ((None, None), ('-O', 'q')) + ((('-o', 'q.r/o'),) if m == 1 else ()):
                o = [opt, val] if opt else []
                want = {x: 70 + i for i, p in enumerate(ps) if which[i] is None for x in outputs(p, opt, val, 0)}
                r.append(('6m %s, with %s' % (' '.join(o + ps), ['no' if x is None else x + ' error' for x in which]), [(p, which[i] or 70 + i) for i, p in enumerate(ps)], o, want, True, 0))
    return r


# ---------------------------------------------------------------- steps that fail
STUB = '#!/bin/sh\n[ -e ../n ] || echo 0 > ../n\nread n < ../n\necho $((n + 1)) > ../n\n[ $n = %d ] && { %s; }\nexec /usr/bin/as "$@"\n'


def fail_jobs():
    r = []
    for m in (1, 2, 3):
        for at in range(m):
            for how in ['exit %d' % x for x in (1, 2, 3, 77, 126, 127, 128, 255)] + ['kill -9 $$', 'kill -15 $$', 'kill -11 $$']:
                for o in ([], ['-O', 'q'], ['-S'], ['-o', 'q/o.o']):
                    if m == 1 or o != ['-o', 'q/o.o']:
                        r.append(('6m %s, the assembler does %s for input %d' % (' '.join(o + ['a.myr', 'd/b.myr', 'c+t.myr'][:m]), how, at), m, at, how, o))
    # places where nothing can be written
    for place in ('a.o', 'a.use'):
        for o, pre in (([], ''), (['-O', 'q'], 'q/'), (['-o', 'a.o'], ''), (['-o', 'q/r/a.o'], 'q/r/'), (['-S', '-o', 'a.o'], '')):
            r.append(('6m %s with a directory %s' % (' '.join(o + ['a.myr']), pre + place), 1, pre + place, 'dir', o))
    for o, f in ((['-O', 'q'], 'q'), (['-O', 'q/r'], 'q'), (['-O', 'q/r'], 'q/r'), (['-o', 'q/o.o'], 'q'), (['-o', 'q/r/s/o'], 'q/r')):
        r.append(('6m %s with a file %s' % (' '.join(o + ['a.myr']), f), 1, f, 'file', o))
    return r


def fail_run(tree, k, m, at, how, o):
    w = World(tree, k)
    try:
        ps = ['a.myr', 'd/b.myr', 'c+t.myr'][:m]
        for i, p in enumerate(ps):
            w.put(p, GOOD % (70 + i))
        if how == 'dir':
            w.put(at + '/x', '')
        elif how == 'file':
            w.put(at, '')
        else:
            os.makedirs(w.base + '/bin')
            with open(w.base + '/bin/as', 'w') as f:
                f.write(STUB % (at, how))
            os.chmod(w.base + '/bin/as', 0o755)
            w.stub = 1
        r = w.run([tree.mc] + o + ps)
        if r.timeout:
            return 'does not end'
        return 'succeeds' if r.rc == 0 else None
    finally:
        w.close()


# ---------------------------------------------------------------- where what is used is searched
USED = 'pkg a =\n\tconst v%d : (-> int)\n;;\nconst v%d = {; -> 1}\n'
USER = 'use %s\nconst f = {; -> a.v%d()}\n'


def search_jobs(thorough):
    """(description, {path: number of the unit}, command, the source, use, expected number or None)"""
    r = []
    # local: relative to the output's directory; with -O also next to the source
    for src in ('u.myr', 'd/u.myr', 'd/e/u.myr'):
        sd = os.path.dirname(src) or '.'
        for opt in ([], ['-o', 'q/u.o'], ['-o', 'u.o'], ['-O', 'q'], ['-o', 'd/x.o'], ['-O', 'q/r']):
            for use, f in (('"a"', 'a.use'), ('"s/a"', 's/a.use')):
                od = sd
                if opt and opt[0] == '-o':
                    od = os.path.dirname(opt[1]) or '.'
                order = [od]
                if opt and opt[0] == '-O':
                    order = [opt[1] + '/' + sd, sd]
                places = sorted({os.path.normpath(x) for x in ['.', 'd', 'd/e', 'q', 'q/d', 'inc', 'q/r/d', 'q/r'] + order})
                order = [os.path.normpath(x) for x in order]
                rest = [x for x in places if x not in order]
                for have in product((0, 1), repeat=len(order)):
                    for decoys in (rest, []):
                        at = {p + '/' + f: i + 1 for i, p in enumerate(order) if have[i]}
                        at.update({p + '/' + f: 9 for p in decoys})
                        want = next((i + 1 for i, h in enumerate(have) if h), None)
                        r.append(('use %s in %s, 6m %s, units %s' % (use, src, ' '.join(opt), sorted(at)), at, ['-I', 'inc'] + opt, src, use, want))
    # bare: each -I in order, lib<name>.use and then <name>
    for src in ('u.myr', 'd/u.myr'):
        for opt in ([], ['-o', 'q/u.o'], ['-O', 'q']):
            for incs in (['i'], ['i', 'j'], ['j', 'i'], ['.', 'i'], ['i', 'd']):
                cand = [i + '/' + n for i in incs for n in ('liba.use', 'a')]
                for have in product((0, 1), repeat=len(cand)):
                    at = {os.path.normpath(p): k + 1 for k, p in enumerate(cand) if have[k]}
                    at.update({'k/liba.use': 9, 'k/a': 9})
                    want = next((k + 1 for k, h in enumerate(have) if h), None)
                    r.append(('use a in %s, 6m %s -I %s, units %s' % (src, ' '.join(opt), incs, sorted(at)), at, sum([['-I', i] for i in incs], []) + opt, src, 'a', want))
    return r


def search_run(tree, k, at, opts, src, use, want, units):
    w = World(tree, k)
    try:
        for p, v in at.items():
            w.put(p, '')
            shutil.copyfile(units[v], os.path.join(w.root, p))
        w.put(src, USER % (use, want or 1))
        r = w.run([tree.mc] + opts + [src])
        if want is None:
            return None if r.rc == 1 else 'accepted though no such unit is where it is searched' if r.rc == 0 else 'status %d: %s' % (r.rc, r.out[-300:].decode('latin1'))
        return None if r.rc == 0 else 'status %d: %s' % (r.rc, r.out[-300:].decode('latin1'))
    finally:
        w.close()


def muse_jobs():
    r = []
    for m in (1, 2, 3):
        for ps in permutations(('a.use', 'd/b.use', 'd.e/c.use'), m):
            for out in ('libl.use', 'q/libl.use', './l', '@/libl.use'):
                for bad in [None] + list(range(m)):
                    r.append(('muse -o %s -p l %s%s' % (out, ' '.join(ps), '' if bad is None else ', without %s' % ps[bad]), ps, out, bad))
    return r


def muse_run(tree, k, ps, out, bad):
    w = World(tree, k)
    try:
        for i, p in enumerate(ps):
            s = p[:-4]
            w.put(s + '.myr', 'pkg l =\n\tconst v%d : (-> int)\n;;\nconst v%d = {; -> 1}\n' % (i, i))
            if i != bad:
                r = w.run([tree.mc, s + '.myr'])
                if r.rc:
                    return 'status %d: %s' % (r.rc, r.out[-300:])
        if '/' in out:
            os.makedirs(os.path.dirname(os.path.join(w.root, w.norm(out))), exist_ok=True)
        before = w.files()
        r = w.run([tree.muse, '-o', out, '-p', 'l'] + list(ps))
        new = w.files() - before
        if bad is not None:
            return None if r.rc not in (0,) and r.rc > 0 and not new else 'status %d, makes %s' % (r.rc, new)
        if r.rc or new != {w.norm(out)}:
            return 'status %d, makes %s: %s' % (r.rc, new, r.out[-200:])
        w.put('x/liby.use', '')
        shutil.copyfile(os.path.join(w.root, w.norm(out)), w.root + '/x/libl.use')
        w.put('p.myr', 'use l\nconst f = {; -> %s}\n' % ' + '.join('l.v%d()' % i for i in range(len(ps))))
        r = w.run([tree.mc, '-I', 'x', 'p.myr'])
        return None if r.rc == 0 else 'the library does not have its units: %s' % r.out[-200:]
    finally:
        w.close()


def body(c):
    tree = Tree('c')
    if os.geteuid() == 0:
        for d in (tree.scratch,):
            os.chmod(d, 0o755)
    wd = World(tree, 999999)
    units = {}
    for v in (1, 2, 3, 4, 9):
        wd.put('v%d/a.myr' % v, USED % (v, v))
        r = wd.run([tree.mc, 'v%d/a.myr' % v])
        if r.rc:
            c.report('compiling v%d/a.myr: %s' % (v, r.out[-200:]), 'v%d/a.myr' % v)
            return
        units[v] = wd.root + '/v%d/a.use' % v
    todo = [(j[0], check_run, j[1:]) for j in jobs(c.thorough)]
    todo += [(j[0], search_run, j[1:] + (units,)) for j in search_jobs(c.thorough)]
    todo += [(j[0], muse_run, j[1:]) for j in muse_jobs()]
    todo += [(j[0], fail_run, j[1:]) for j in fail_jobs()]
    res = pmap(lambda a: a[1][1](tree, a[0], *a[1][2]), list(enumerate(todo)))
    wd.close()
    n = 0
    for (d, f, a), w in zip(todo, res):
        if w is not None:
            n += 1
            if n <= 4 or c is None:
                c.report('%s: %s' % (d, w), '%s\n%s' % (d, w))
    if os.environ.get('ALLBAD'):
        for (d, f, a), w in zip(todo, res):
            if w is not None:
                print(d, '::', w)
    c.add(executions=len(todo))


if __name__ == '__main__':
    main(body, 'C17')
