#!/usr/bin/env python3
"""M01: what an incremental build leaves is what a clean build of the same sources makes.

A project of two libraries and a program is put through histories of edits out of every way to
change one of its files into another of its variants (bodies, constants, layouts, generics, signatures, errors, uses, lists of inputs
and libraries), to lose or touch one of its files, and to interrupt a build at any of its steps: any edit, then one to the first
variants of a file (thorough: any two, and three of the latter), with mbld run after each, and every two changes with mbld run after both.  The reference is a build of the same sources from nothing; and a build right after one that went well must change nothing.
"""
import os, sys, shutil, subprocess, hashlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import *
from mcv.build import Tree

A1 = '''pkg a =
	type t = struct
		x : int
{MEMB}	;;
	type u = union
		`Aa int
		`Bb
	;;
	const K : int
	const f : {SIG}
	generic g : (x : @a -> @a) :: numeric,integral @a
	var v : int
	trait tr @t =
		m : (x : @t -> int)
	;;
	impl tr int
{EXP};;
const K = {KVAL}
const f = {x; -> {BODY}}
generic g = {x; -> {GBODY}}
var v = {VVAL}
impl tr int =
	m = {x; -> x + {MVAL}}
;;
{MORE}'''


def a1(**k):
    d = dict(MEMB='', SIG='(x : int -> int)', EXP='', KVAL='3', BODY='x + 1', GBODY='x + 5', VVAL='70', MVAL='100', MORE='')
    d.update(k)
    s = A1
    for x in d:
        s = s.replace('{%s}' % x, d[x])
    return s


MAIN = '''use sys
{USES}
const put = {x : int
	var buf : byte[16], i

	for i = 0; i < 12; i++
		buf[11 - i] = (x % 10 : byte) + 48
		x /= 10
	;;
	buf[12] = 10
	sys.write(1, buf[:13])
}
const main = {
{BODY}
}
'''.replace('byte[16], i\n', 'byte[16] = [.[15] = 0], i = 0\n')
FULL = ['a.K', 'a.f(1)', 'a.g(1)', 'a.h(1).x', 'a.v', 'a.m(4)', 'b.fb(1).x', 'b.gb(1)', 'b.C', 'u(1)', 'o(2)', '(sizeof(a.t) : int)', 'b.w((`a.Aa 4 : a.u))']


def main_(uses='use a\nuse b\nuse "util"\nuse "other"', body=FULL, less=()):
    return MAIN.replace('{USES}', uses).replace('{BODY}', ''.join('\tput(%s)\n' % x for x in body if x not in less))


B1 = '''{USE}
pkg b =
	const fb : (x : int -> {TY})
	generic gb : (x : @a -> @a) :: numeric,integral @a
	const C : int
	const w : (x : {WTY} -> int)
;;
const C = 2
const fb = {x
	{BODY}
}
generic gb = {x; -> {GB}}
const w = {x; {WB}}
'''


def b1(**k):
    d = dict(USE='use a', TY='a.t', WTY='a.u', BODY='var r\n\n\tr = a.h(x)\n\tr.x += a.K\n\t-> r', GB='a.g(x) * 2', WB='\n\tmatch x\n\t| `a.Aa n:\t-> n\n\t| `a.Bb:\t-> 8\n\t;;\n')
    d.update(k)
    s = B1
    for x in d:
        s = s.replace('{%s}' % x, d[x])
    return s


# every file, with its variants; the first is what is there in the beginning
FILES = {
    'liba/bld.sub': ['lib a = a1.myr a2.myr ;;\n', 'lib a = a2.myr a1.myr ;;\n', 'lib a = a1.myr a2.myr a3.myr ;;\n', 'lib a = a1.myr ;;\n', 'lib a = a1.myr a2.myr a4.myr ;;\n'],
    'libb/bld.sub': ['lib b = b1.myr lib ../liba:a ;;\n', 'lib b = b1.myr b2.myr lib ../liba:a ;;\n', 'lib b = b1.myr ;;\n'],
    'prog/bld.sub': ['bin p = main.myr util.myr other.myr lib ../liba:a lib ../libb:b ;;\n', 'bin p = other.myr util.myr main.myr lib ../libb:b lib ../liba:a ;;\n', 'bin p = main.myr other.myr lib ../liba:a lib ../libb:b ;;\n', 'bin p = main.myr util.myr lib ../liba:a lib ../libb:b ;;\n'],
    'liba/a1.myr': [a1(), a1(BODY='x + 2'), a1(KVAL='4'), a1(MEMB='\t\ty : int64\n'), a1(GBODY='x + 6'), a1(SIG='(x : byte -> int)', BODY='7'), a1(VVAL='71'), a1(MVAL='101'), a1(EXP='\tconst e : int\n', MORE='const e = 9\n'), a1(BODY='x +'), a1(BODY='x + "a"')],
    'liba/a2.myr': ['use "a1"\npkg a =\n\tconst h : (x : int -> t)\n;;\nconst h = {x; -> [.x = f(x) * 10 + K]}\n', 'use "a1"\npkg a =\n\tconst h : (x : int -> t)\n;;\nconst h = {x; -> [.x = f(x) * 20 + K]}\n', 'use "a1"\npkg a =\n\tconst h : (x : int -> t)\n;;\nconst h = {x; -> [.x = x]}\n', 'use "a1"\nuse "a3"\npkg a =\n\tconst h : (x : int -> t)\n;;\nconst h = {x; -> [.x = f(x) * z]}\n', 'pkg a =\n\tconst h : (x : int -> int)\n;;\nconst h = {x; -> x}\n'],
    'liba/a3.myr': ['pkg a =\n\tconst z : int\n;;\nconst z = 50\n', 'pkg a =\n\tconst z : int\n;;\nconst z = 51\n'],
    'liba/a4.myr': ['pkg a =\n\tconst e : int\n;;\nconst e = 60\n'],
    'libb/b1.myr': [b1(), b1(BODY='var r\n\n\tr = a.h(x)\n\tr.x += 1000\n\t-> r'), b1(GB='x * 3'), b1(USE='', TY='int', WTY='int', BODY='-> x', GB='x', WB='-> x'), b1(USE='', TY='int', BODY='-> x', GB='x')],
    'libb/b2.myr': ['use a\npkg b =\n\tconst y : int\n;;\nconst y = a.K * 7\n'],
    'prog/util.myr': ['use a\nuse b\npkg =\n\tconst u : (x : int -> int)\n;;\nconst u = {x\n\tvar r\n\n\tr = b.fb(x)\n\t-> r.x + b.gb(x)\n}\n', 'use a\npkg =\n\tconst u : (x : int -> int)\n;;\nconst u = {x; -> a.f(x) + a.K}\n', 'pkg =\n\tconst u : (x : int -> int)\n;;\nconst u = {x; -> 5}\n', 'pkg =\n\tconst u : (x : int64 -> int)\n;;\nconst u = {x; -> 6}\n'],
    'prog/other.myr': ['use "util"\npkg =\n\tconst o : (x : int -> int)\n;;\nconst o = {x; -> u(x) * 3}\n', 'pkg =\n\tconst o : (x : int -> int)\n;;\nconst o = {x; -> 30}\n'],
    'prog/main.myr': [main_(), main_(body=['a.K', 'a.f(2)', 'u(3)']), main_(uses='use a\nuse "util"\nuse "other"', body=['a.K', 'u(1)', 'o(2)']), main_(body=FULL + ['a.z']), main_(body=FULL + ['a.e']), main_(body=FULL + ['b.y']), main_(uses='use a\nuse b\nuse "other"', less=['u(1)']), main_(uses='use a\nuse b\nuse "util"', less=['o(2)']),
                      main_(less=['b.fb(1).x', 'b.w((`a.Aa 4 : a.u))', '(sizeof(a.t) : int)', 'a.h(1).x'])],
    'bld.proj': ['sub = liba libb prog ;;\n', 'sub = prog libb liba ;;\n'],
}
OUT = ['liba/a1.o', 'liba/a1.use', 'liba/a2.o', 'liba/liba.a', 'liba/liba.use', 'libb/b1.use', 'libb/b1.o', 'libb/libb.a', 'libb/libb.use', 'prog/main.o', 'prog/util.use', 'prog/p']
EDITS = [('put', f, i) for f in FILES for i in range(len(FILES[f]))] + [('touch', f) for f in FILES] + [('lose', 'obj/' + f) for f in OUT] + [('lose', 'obj')] + [('stop', k) for k in range(1, 14)]
WRAP = '''#!/bin/sh
n=$(($(cat "$MCV_CNT") + 1))
echo $n >"$MCV_CNT"
[ $n = "$MCV_STOP" ] && exit 1
exec %s "$@"
'''


def name(e):
    if e[0] == 'put':
        return '%s becomes variant %d' % (e[1], e[2])
    return {'touch': '%s is touched', 'lose': '%s is deleted', 'stop': 'step %s of a clean build fails'}[e[0]] % e[1]


class Dir:
    def __init__(self, tree, d):
        self.tree, self.d = tree, d
        self.env = {'PATH': os.path.dirname(tree.mc) + ':' + os.path.dirname(tree.muse) + ':/usr/bin:/bin', 'MYR_RT': tree.rt, 'TMPDIR': tree.scratch + '/m01tmp'}

    def mbld(self, *args, env=None):
        p = subprocess.run([self.tree.root + '/xmbld', '-I', self.tree.libs['sys']] + list(args), cwd=self.d, env=env or self.env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, user=NOBODY, group=NOBODY, extra_groups=[])
        return p.returncode, p.stdout.decode(errors='replace')

    def files(self):
        r = {}
        for at, _, fs in os.walk(self.d):
            for f in fs:
                p = os.path.join(at, f)
                st = os.lstat(p)
                r[os.path.relpath(p, self.d)] = (st.st_mtime_ns, st.st_size, st.st_ino)
        return r

    def age(self):
        """everything was done ten seconds earlier"""
        for p, (m, _, _) in self.files().items():
            os.utime(os.path.join(self.d, p), ns=(m - 10 ** 10, m - 10 ** 10))

    def outcome(self, rc):
        """what the build comes to: the behaviour of the program, if any"""
        if rc:
            return 'failed' if rc == 1 else 'status %d' % rc
        p = subprocess.run([self.d + '/obj/prog/p'], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, user=NOBODY, group=NOBODY, extra_groups=[])
        return (p.returncode, p.stdout.decode(errors='replace'))

    def put(self, f, text):
        p = os.path.join(self.d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as h:
            h.write(text)
        os.chown(p, NOBODY, NOBODY)

    def fill(self, state):
        os.makedirs(self.d)
        for f in FILES:
            self.put(f, FILES[f][state[f]])
        for at, ds, _ in os.walk(self.d):
            os.chown(at, NOBODY, NOBODY)


class Walk:
    def __init__(self, tree, k):
        self.tree = tree
        self.base = '%s/m01.%d' % (tree.scratch, k)
        self.memo = {}
        self.builds = 0
        self.bad = []
        self.n = 0
        shutil.rmtree(self.base, ignore_errors=True)
        os.makedirs(self.base)
        self.wrap = self.base + '/wrap'
        os.mkdir(self.wrap)
        for t, p in (('6m', tree.mc), ('muse', tree.muse), ('ar', shutil.which('ar')), ('ld', shutil.which('ld'))):
            with open(self.wrap + '/' + t, 'w') as h:
                h.write(WRAP % p)
            os.chmod(self.wrap + '/' + t, 0o755)
        # an empty project, built
        self.root = Dir(tree, self.base + '/root')
        self.root.fill({f: 0 for f in FILES})
        rc, out = self.root.mbld()
        self.first = (rc, out)
        self.root.age()

    def clean(self, state):
        key = tuple(state[f] for f in FILES)
        if key not in self.memo:
            d = Dir(self.tree, self.base + '/clean')
            shutil.rmtree(d.d, ignore_errors=True)
            d.fill(state)
            self.builds += 1
            rc, out = d.mbld()
            self.memo[key] = (d.outcome(rc), out)
        return self.memo[key]

    def copy(self, frm):
        self.n += 1
        d = Dir(self.tree, '%s/h%d' % (self.base, self.n))
        subprocess.check_call(['cp', '-a', frm.d, d.d])
        return d

    def edit(self, d, state, e):
        """the edit, in the directory; None if there is nothing to it"""
        if e[0] == 'put':
            if state[e[1]] == e[2]:
                return None
            d.put(e[1], FILES[e[1]][e[2]])
            return dict(state, **{e[1]: e[2]})
        p = os.path.join(d.d, str(e[1]))
        if e[0] == 'touch':
            os.utime(p)
        elif e[0] == 'lose':
            if os.path.isdir(p):
                shutil.rmtree(p)
            elif os.path.exists(p):
                os.unlink(p)
            else:
                return None
        elif e[0] == 'stop':
            shutil.rmtree(d.d + '/obj', ignore_errors=True)
            cnt = d.d + '/.cnt'
            d.put('.cnt', '0\n')
            rc, out = d.mbld('-j', '1', env=dict(d.env, PATH=self.wrap + ':/usr/bin:/bin', MCV_CNT=cnt, MCV_STOP=str(e[1])))
            self.builds += 1
            n = int(open(cnt).read())
            os.unlink(cnt)
            if n >= e[1] and rc == 0:
                self.fail((e,), 'mbld succeeds although a step of it fails', out)
            if n < e[1]:
                return None
            d.age()
        return dict(state)

    def fail(self, hist, what, out):
        self.bad.append((', then '.join(name(e) for e in hist), what, out))

    def check(self, d, state, hist):
        self.builds += 1
        rc, out = d.mbld()
        got = d.outcome(rc)
        want, wout = self.clean(state)
        if got != want:
            self.fail(hist, 'the build comes to %r, and one from nothing to %r' % (got, want), 'incremental:\n%s\nfrom nothing:\n%s' % (out, wout))
            return False
        d.age()
        if rc == 0:
            before = d.files()
            rc, out = d.mbld()
            self.builds += 1
            if rc or d.files() != before:
                self.fail(hist, 'building again rebuilds something: %s' % ' '.join(sorted(p for p, v in d.files().items() if before.get(p) != v)), out)
                return False
        return True

    def go(self, d, state, hist, depth, edits):
        for e in edits:
            n = self.copy(d)
            s = self.edit(n, state, e)
            h = hist + (e,)
            if s is not None:
                # two edits at once
                if len(h) == 1 and depth > 1:
                    for e2 in EDITS:
                        if not self.thorough and (e[0] != 'put' or e2[0] != 'put'):
                            continue
                        if e[0] == 'stop' or e2[0] == 'stop' or e >= e2 or e[:2] == e2[:2]:
                            continue
                        m = self.copy(n)
                        s2 = self.edit(m, s, e2)
                        if s2 is not None:
                            self.check(m, s2, h + (e2,))
                        shutil.rmtree(m.d)
                small = [e for e in EDITS if e[0] == 'put' and e[2] < 2]
                if self.check(n, s, h) and depth > 1:
                    if len(h) == 1:
                        self.go(n, s, h, depth - 1, EDITS if self.thorough else small)
                    elif all(e in small for e in h):
                        self.go(n, s, h, depth - 1, small)
            shutil.rmtree(n.d)


def work(a):
    tree, k, edits, depth, thorough = a
    w = Walk(tree, k)
    w.thorough = thorough
    rc, out = w.first
    if rc:
        return k, 1, [('nothing', 'the project does not build', out)], 0
    w.go(w.root, {f: 0 for f in FILES}, (), depth, edits)
    shutil.rmtree(w.base)
    return k, w.builds, w.bad, len(w.memo)


def body(c):
    tree = Tree('boot')
    for d in (tree.scratch, tree.root):
        os.chmod(d, 0o755)
    os.makedirs(tree.scratch + '/m01tmp', exist_ok=True)
    os.chmod(tree.scratch + '/m01tmp', 0o1777)
    # the tools and what lies outside of the project are old
    for p in [tree.mc, tree.muse, tree.root + '/xmbld', tree.rt] + [os.path.join(tree.libs['sys'], f) for f in os.listdir(tree.libs['sys'])]:
        os.utime(p, (10 ** 9, 10 ** 9))
    depth = int(os.environ.get('MCV_DEPTH', 3 if c.thorough else 2))
    import multiprocessing
    builds, states = 0, 0
    seen = {}
    with multiprocessing.Pool(CORES) as pool:
        for k, n, bad, st in pool.imap_unordered(work, [(tree, k, [e], depth, c.thorough) for k, e in enumerate(EDITS)]):
            builds += n
            states = max(states, st)
            for h, what, out in bad:
                if os.environ.get('MCV_ALL'):
                    print(h, ':', what[:200], '|', ' '.join(out.split())[:300])
                else:
                    c.report('%s: %s' % (h, what[:400]), '%s\n%s\n%s\n' % (h, what, out), key=h)
    c.add(executions=builds, transitions=len(EDITS), states=states)


if __name__ == '__main__':
    main(body, 'M01')
