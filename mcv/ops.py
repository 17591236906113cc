"""Generated integer functions, run over all argument tuples of a value set by harness/ops.c."""
import os, shutil, struct
from . import build
from .build import CORES
from .check import run_bin, pmap, HARN
from .comp import mc

TY = {'int8': 0, 'int16': 1, 'int32': 2, 'int64': 3, 'uint8': 4, 'uint16': 5, 'uint32': 6, 'uint64': 7,
      'int': 2, 'uint': 6, 'byte': 4, 'char': 6, 'bool': 8}
BITS = [8, 16, 32, 64, 8, 16, 32, 64, 8]
OPC = {'+': 16, '-': 17, '*': 18, '/': 19, '%': 20, '&': 21, '|': 22, '^': 23, '<<': 24, '>>': 25,
       '==': 26, '!=': 27, '<': 28, '<=': 29, '>': 30, '>=': 31, '&&': 32, '||': 33}
CMP = ('==', '!=', '<', '<=', '>', '>=')
ARITH = ('+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>')


def norm(v, t):
    n = BITS[t]
    v &= (1 << n) - 1
    if t < 4 and v >> (n - 1):
        v -= 1 << n
    return v


def arg(i):
    return bytes([i])


def lit(v):
    return b'\4' + struct.pack('<Q', v & (2**64 - 1))


def bop(op, t, x, y):
    return x + y + bytes([OPC[op], t])


def cast(x, frm, to):
    return x + bytes([5, frm, to])


def neg(x, t):
    return x + bytes([6, t])


def bnot(x, t):
    return x + bytes([7, t])


def lnot(x):
    return x + bytes([8, 8])


class Fn:
    """src defines `f$`, exported as `name`-typed; sig is its Myrddin type."""
    __slots__ = ('src', 'sig', 'prog', 'args', 'ret', 'cls', 'desc', 'key')

    def __init__(self, src, sig, prog, args, ret, cls, desc, key=None):
        self.src, self.sig, self.prog, self.args, self.ret, self.cls, self.desc, self.key = src, sig, prog, args, ret, cls, desc, key


def source(fns, prelude):
    s = ['pkg =\n']
    for i, f in enumerate(fns):
        s.append('\tconst f%d : %s\n' % (i, f.sig))
    s.append(';;\n' + prelude + '\n')
    for i, f in enumerate(fns):
        s.append(f.src.replace('$', str(i)) + '\n')
    return ''.join(s)


def _go(tree, wd, fns, prelude, ops_o):
    """-> list of (index, what), count, skipped"""
    with open(wd + '/p.myr', 'w') as fd:
        fd.write(source(fns, prelude))
    rc, out = mc(tree, wd, 'p.myr', timeout=120)
    if rc != 0:
        if len(fns) == 1:
            return [(0, 'does not compile (status %s): %s' % (rc, out[-400:]))], 0, 0
        h = (len(fns) + 1) // 2
        a = _go(tree, wd, fns[:h], prelude, ops_o)
        if len(a[0]) > 30:
            return a
        b = _go(tree, wd, fns[h:], prelude, ops_o)
        return a[0] + [(i + h, w) for i, w in b[0]], a[1] + b[1], a[2] + b[2]
    t = ['.section .rodata\n.globl entries\n.balign 8\nentries:\n']
    for i, f in enumerate(fns):
        ty = list(f.args) + [0] * (4 - len(f.args))
        t.append('.quad f%d, p%d\n.byte %d,%d,%d,%d,%d,%d,%d,0\n' % (i, i, len(f.args), f.ret, f.cls, *ty))
    t.append('.globl nentries\nnentries: .quad %d\n' % len(fns))
    for i, f in enumerate(fns):
        t.append('p%d: .byte %s\n' % (i, ','.join(str(b) for b in f.prog + b'\xff')))
    with open(wd + '/tab.s', 'w') as fd:
        fd.write(''.join(t))
    build.run(['as', '-o', 'tab.o', 'tab.s'], wd)
    build.run(['ld', '-z', 'noexecstack', '-o', 'p', ops_o, 'tab.o', 'p.o'], wd)
    r = run_bin([wd + '/p'], timeout=300)
    bad = []
    n = sk = 0
    done = False
    for ln in r.out.decode('latin1').split('\n'):
        w = ln.split()
        if not w:
            continue
        if w[0] == 'BAD':
            g = w.index('got')
            bad.append((int(w[1]), 'with arguments (%s) gives 0x%s, must be 0x%s' % (', '.join('0x' + x for x in w[2:g]), w[g + 1], w[g + 3])))
        elif w[0] == 'TRAP':
            bad.append((int(w[1]), 'trapped with signal %s, arguments 0x%s' % (w[2], ' 0x'.join(w[3:]))))
            done = True
        elif w[0] == 'DONE':
            n, sk, done = int(w[1]), int(w[2]), True
    if not done:
        bad.append((0, 'driver died: rc=%s %s' % (r.rc, r.out[-200:])))
    return bad, n, sk


def run_fns(c, tree, fns, prelude='', per=500, maxviol=4):
    o = os.path.join(tree.scratch, 'ops.o')
    build.run(['gcc', '-O1', '-fwrapv', '-c', '-ffreestanding', '-fno-stack-protector', '-fno-pic', '-mno-red-zone', '-mno-sse', '-o', o, HARN + '/ops.c'], tree.scratch)
    fns = list(fns)
    # interleave so that chunks cost about the same
    k = max(CORES, (len(fns) + per - 1) // per)
    chunks = [fns[i::k] for i in range(k)]

    def job(a):
        i, fs = a
        if not fs:
            return [], 0, 0
        wd = os.path.join(tree.scratch, 'o%d.%d' % (os.getpid(), i))
        os.makedirs(wd)
        os.chmod(wd, 0o755)
        try:
            return _go(tree, wd, fs, prelude, o)
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    res = pmap(job, list(enumerate(chunks)))
    n = sum(r[1] for r in res)
    sk = sum(r[2] for r in res)
    allbad = []
    for fs, r in zip(chunks, res):
        for i, w in r[0]:
            allbad.append((fs[i], w))
    if c is None:
        return len(fns), n, sk, allbad
    for f, w in allbad:
        if f.key is None and len(c.viol) >= maxviol:
            continue
        c.report('%s: %s' % (f.desc, w), source([f], prelude), key=f.key)
    return len(fns), n, sk, allbad
