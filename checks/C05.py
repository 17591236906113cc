#!/usr/bin/env python3
"""C05: control flow and evaluation order.  All statement nests up to a depth and all effectful expression
trees up to a size, each run over every script of condition outcomes, against an interpreter of the source."""
import os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mcv.check import main
from mcv.build import Tree
from mcv.comp import Item, run_items

PRE = '''
var bits : uint64 = 0
var x : uint64 = 0
var pl : uint64# = (0 : uint64#)
var y : uint64 = 0
type d = uint64
impl disposable d =
	__dispose__ = {x; out((x : uint64)) }
;;
type it = struct
	i : uint64
	n : uint64
;;
impl iterable it -> uint64 =
	__iternext__ = {p, v
		out(800000 + p.i)
		if p.i == p.n
			-> false
		;;
		v# = p.i++
		-> true
	}
	__iterfin__ = {p, v
		out(900000 + v#)
	}
;;
type st = struct
	a : uint64
	b : uint64
	c : uint64
;;
type un = union
	`A uint64
	`B (uint64, uint64)
;;
const mkit = {n : uint64 -> it; -> [.i=0, .n=n] }
const mkd = {k : uint64 -> d; out(k); -> (k : d)}
const c = {k : uint64 -> bool
	out(k)
	var r = (bits & 1) == 1
	bits >>= 1
	-> r
}
const v = {k : uint64 -> uint64
	out(k)
	var r = bits & 1
	bits >>= 1
	-> r
}
const e = {k : uint64 -> uint64; out(k); -> k }
const inc = {-> uint64
	out(500)
	x += 100
	pl# += 1000
	-> 7
}
const add2 = {a : uint64, b : uint64 -> uint64; out(600); -> a*3 + b}
const add3 = {a : uint64, b : uint64, c : uint64 -> uint64; out(601); -> a*9 + b*3 + c}
var arr : uint64[8] = [11, 22, 33, 44, 55, 66, 77, 88]
'''


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Ret(Exception):
    pass


class Top(Exception):
    pass


class End(Exception):
    pass


# ---- statements.  A block is a tuple of statements; marks are placed around every statement.
class R:
    """renders and interprets a function body; every mark and condition gets a unique number"""
    def __init__(self, blk):
        self.n = 0
        self.uses = set()
        self.ast = self.num_block(blk)

    def k(self):
        self.n += 1
        return self.n

    def num_block(self, b):
        out = [('e', self.k())]
        for s in b:
            out.append(self.num(s))
            out.append(('e', self.k()))
        return out

    def num(self, s):
        t = s[0]
        a = []
        for y in s[1:]:
            if y == 'c':
                a.append(self.k())
            elif isinstance(y, tuple):
                a.append(self.num_block(y))
            else:
                a.append(y)
        if t in ('brk', 'cont', 'auto', 'ret', 'top', 'end', 'none'):
            a = [self.k()]
        self.uses.add(t)
        return (t, self.k()) + tuple(a)

    def src(self):
        L = ['const b$ = {-> uint64']
        if 'top' in self.uses or 'gtop' in self.uses:
            L.append('\t:top')
        self.rb(self.ast, L, 1)
        if 'end' in self.uses or 'gend' in self.uses:
            L.append('\t:end')
        L.append('\t-> 99999')
        L.append('}')
        return '\n'.join(L)

    def rb(self, b, L, i):
        for s in b:
            self.rs(s, L, i)

    def rs(self, s, L, i):
        T = '\t' * i
        t = s[0]
        if t == 'e':
            L.append('%sout(%d)' % (T, s[1]))
            return
        k = s[1]
        a = s[2:]
        if t == 'brk':
            L.append(T + 'break')
        elif t == 'cont':
            L.append(T + 'continue')
        elif t == 'ret':
            L.append('%s-> e(%d)' % (T, a[0]))
        elif t == 'top':
            L.append(T + 'goto top')
        elif t == 'end':
            L.append(T + 'goto end')
        elif t == 'none':
            L.append('%sout(%d)' % (T, a[0]))
        elif t == 'auto':
            L.append('%sauto mkd(%d)' % (T, a[0]))
        elif t in ('gbrk', 'gcont', 'gret', 'gtop', 'gend'):
            L.append('%sif c(%d)' % (T, a[0]))
            L.append('%s\t%s' % (T, {'gbrk': 'break', 'gcont': 'continue', 'gret': '-> e(%d)' % k, 'gtop': 'goto top', 'gend': 'goto end'}[t]))
            L.append(T + ';;')
        elif t == 'if':
            L.append('%sif c(%d)' % (T, a[0]))
            self.rb(a[1], L, i + 1)
            L.append(T + ';;')
        elif t == 'ife':
            L.append('%sif c(%d)' % (T, a[0]))
            self.rb(a[1], L, i + 1)
            L.append(T + 'else')
            self.rb(a[2], L, i + 1)
            L.append(T + ';;')
        elif t == 'elif':
            L.append('%sif c(%d)' % (T, a[0]))
            self.rb(a[1], L, i + 1)
            L.append('%selif c(%d)' % (T, a[2]))
            self.rb(a[3], L, i + 1)
            L.append(T + 'else')
            self.rb(a[4], L, i + 1)
            L.append(T + ';;')
        elif t == 'elif2':
            L.append('%sif c(%d)' % (T, a[0]))
            self.rb(a[1], L, i + 1)
            L.append('%selif c(%d)' % (T, a[2]))
            self.rb(a[3], L, i + 1)
            L.append(T + ';;')
        elif t == 'while':
            L.append('%swhile c(%d)' % (T, a[0]))
            self.rb(a[1], L, i + 1)
            L.append(T + ';;')
        elif t == 'for':
            L.append('%sfor out(%d); c(%d); out(%d)' % (T, k + 10000, a[0], k + 20000))
            self.rb(a[1], L, i + 1)
            L.append(T + ';;')
        elif t == 'fori':
            L.append('%sfor var i%d = 0; i%d < 2; i%d++' % (T, k, k, k))
            self.rb(a[0], L, i + 1)
            L.append(T + ';;')
        elif t == 'forin':
            L.append('%sfor z%d : arr[:2]' % (T, k))
            L.append('%s\tout(z%d)' % (T, k))
            self.rb(a[0], L, i + 1)
            L.append(T + ';;')
        elif t == 'forarr':
            L.append('%sfor z%d : [%d, %d]' % (T, k, k + 30000, k + 30001))
            L.append('%s\tout(z%d)' % (T, k))
            self.rb(a[0], L, i + 1)
            L.append(T + ';;')
        elif t == 'forpat':
            L.append('%sfor (1, z%d) : [(1, %d), (2, 0), (1, %d)][:]' % (T, k, k + 30000, k + 30001))
            L.append('%s\tout((z%d : uint64))' % (T, k))
            self.rb(a[0], L, i + 1)
            L.append(T + ';;')
        elif t == 'foriter':
            L.append('%sfor z%d : mkit(2)' % (T, k))
            L.append('%s\tout(z%d)' % (T, k))
            self.rb(a[0], L, i + 1)
            L.append(T + ';;')
        elif t == 'foritpat':
            L.append('%sfor 1 : mkit(3)' % T)
            self.rb(a[0], L, i + 1)
            L.append(T + ';;')
        elif t == 'match':
            L.append('%smatch v(%d)*2 + v(%d)' % (T, a[0], a[1]))
            L.append(T + '| 0:')
            self.rb(a[2], L, i + 1)
            L.append(T + '| 2:')
            self.rb(a[3], L, i + 1)
            L.append(T + '| _:')
            self.rb(a[4], L, i + 1)
            L.append(T + ';;')
        elif t == 'matchb':
            L.append('%smatch c(%d)' % (T, a[0]))
            L.append(T + '| true:')
            self.rb(a[1], L, i + 1)
            L.append(T + '| false:')
            self.rb(a[2], L, i + 1)
            L.append(T + ';;')
        else:
            raise Exception(t)

    # interpretation
    def run(self, bits):
        self.bits = bits
        self.o = o = []
        while True:
            try:
                self.block(self.ast)
                o.append(99999)
            except Ret as r:
                o.append(r.args[0])
            except Top:
                continue
            except End:
                o.append(99999)
            return o

    def cond(self, k):
        self.o.append(k)
        r = self.bits & 1
        self.bits >>= 1
        return r

    def block(self, b):
        autos = []
        try:
            for s in b:
                if s[0] == 'auto':
                    self.o.append(s[2])
                    autos.append(s[2])
                else:
                    self.stmt(s)
        finally:
            for k in reversed(autos):
                self.o.append(k)

    def body(self, b):
        """-> False to leave the loop"""
        try:
            self.block(b)
        except Brk:
            return False
        except Cont:
            pass
        return True

    def stmt(self, s):
        t = s[0]
        k = s[1]
        a = s[2:]
        if t == 'e':
            self.o.append(k)
        elif t == 'none':
            self.o.append(a[0])
        elif t == 'brk':
            raise Brk()
        elif t == 'cont':
            raise Cont()
        elif t == 'ret':
            self.o.append(a[0])
            raise Ret(a[0])
        elif t == 'top':
            raise Top()
        elif t == 'end':
            raise End()
        elif t[0] == 'g':
            if self.cond(a[0]):
                if t == 'gbrk':
                    raise Brk()
                if t == 'gcont':
                    raise Cont()
                if t == 'gtop':
                    raise Top()
                if t == 'gend':
                    raise End()
                self.o.append(k)
                raise Ret(k)
        elif t == 'if':
            if self.cond(a[0]):
                self.block(a[1])
        elif t == 'ife':
            self.block(a[1] if self.cond(a[0]) else a[2])
        elif t in ('elif', 'elif2'):
            if self.cond(a[0]):
                self.block(a[1])
            elif self.cond(a[2]):
                self.block(a[3])
            elif t == 'elif':
                self.block(a[4])
        elif t == 'while':
            while self.cond(a[0]) and self.body(a[1]):
                pass
        elif t == 'for':
            self.o.append(k + 10000)
            while self.cond(a[0]):
                if not self.body(a[1]):
                    break
                self.o.append(k + 20000)
        elif t == 'fori':
            for i in range(2):
                if not self.body(a[0]):
                    break
        elif t in ('forin', 'forarr', 'forpat'):
            for i in (11, 22) if t == 'forin' else (k + 30000, k + 30001):
                self.o.append(i)
                if not self.body(a[0]):
                    break
        elif t == 'foriter':
            for i in range(3):
                self.o.append(800000 + i)
                if i == 2:
                    break
                self.o.append(i)
                if not self.body(a[0]):
                    break
                self.o.append(900000 + i)
        elif t == 'foritpat':
            for i in range(4):
                self.o.append(800000 + i)
                if i == 3:
                    break
                if i == 1 and not self.body(a[0]):
                    break
                self.o.append(900000 + i)
        elif t == 'match':
            h = self.cond(a[0]) * 2
            h += self.cond(a[1])
            self.block(a[2] if h == 0 else a[3] if h == 2 else a[4])
        elif t == 'matchb':
            self.block(a[1] if self.cond(a[0]) else a[2])
        else:
            raise Exception(t)


KINDS = {'if': ('c', 0), 'ife': ('c', 0, 1), 'elif': ('c', 0, 'c', 1, 2), 'elif2': ('c', 0, 'c', 1), 'while': ('c', 0), 'for': ('c', 0), 'fori': (0,), 'forin': (0,), 'forarr': (0,),
         'forpat': (0,), 'foriter': (0,), 'foritpat': (0,), 'match': ('c', 'c', 0, 1, 2), 'matchb': ('c', 0, 1)}
LOOPS = ('while', 'for', 'fori', 'forin', 'forarr', 'forpat', 'foriter', 'foritpat')
LEAVES = [('none',), ('brk',), ('cont',), ('ret',), ('top',), ('end',), ('gbrk', 'c'), ('gcont', 'c'), ('gret', 'c'), ('gtop', 'c'), ('gend', 'c')]


def slots():
    for k, f in KINDS.items():
        for s in f:
            if isinstance(s, int):
                yield k, s


def wrap(kind, slot, blk):
    return (kind,) + tuple(y if y == 'c' else (blk if y == slot else ()) for y in KINDS[kind])


def chains(d, kinds=None):
    """chains of d nested (kind, slot)"""
    ss = [q for q in slots() if kinds is None or q[0] in kinds]
    return itertools.product(ss, repeat=d)


def okleaf(chain, leaf):
    if leaf[0] in ('brk', 'gbrk', 'cont', 'gcont'):
        return any(k in LOOPS for k, _ in chain)
    if leaf[0] == 'top':        # unguarded backward jump: only behind a condition on the path, else endless
        return any(k in ('if', 'while', 'for') or (k in ('ife', 'elif', 'elif2', 'matchb') and s == 0) for k, s in chain)
    return True


def nest(chain, leaf, autos=0):
    """autos: bit i: an auto before the statement at level i"""
    blk = ((('auto',),) if autos & 1 else ()) + (leaf,)
    lv = 1
    for k, s in reversed(chain):
        blk = ((('auto',),) if autos >> lv & 1 else ()) + (wrap(k, s, blk),)
        lv += 1
    return blk


def programs(th):
    n = 4
    for d in (0, 1, 2):
        for ch in chains(d):
            for lf in LEAVES:
                if not okleaf(ch, lf):
                    continue
                goto = lf[0] in ('top', 'end', 'gtop', 'gend')
                if d == 2 and not th and goto and lf[0][0] != 'g':
                    continue
                for au in range(1 if goto else 1 << (d + 1)):
                    if d == 2 and not th and (au not in (0, 7, 2) or lf[0] in ('none',)):
                        continue
                    yield nest(ch, lf, au), n
    # depth three: loops and conditionals around the jumps
    ks = None if th else ('if', 'ife', 'while', 'forin', 'foriter', 'matchb')
    for ch in chains(3, ks):
        for lf in LEAVES:
            if lf[0][0] != 'g' or not okleaf(ch, lf):
                continue
            if not th and not any(k in LOOPS for k, _ in ch):
                continue
            yield nest(ch, lf), 5
    # two statements in a loop body, either of which may jump
    jumps = [lf for lf in LEAVES if lf[0] in ('brk', 'cont', 'ret', 'gbrk', 'gcont', 'gret')]
    for k in LOOPS:
        for a in jumps:
            for b in jumps:
                for mid in (None,) + LOOPS + ('if', 'matchb'):
                    if not th and mid in LOOPS[1:] and mid != 'foriter' and a[0][0] != 'g':
                        continue
                    for au in (0, 1, 2, 3) if th or mid in (None, 'while', 'if') else (0, 3):
                        A = (a,)
                        m = wrap(mid, 0, A) if mid else a
                        blk = ((('auto',),) if au & 1 else ()) + (m,) + ((('auto',),) if au & 2 else ()) + (b,)
                        yield (wrap(k, 0, blk),), 5
                        yield (wrap('if', 0, (wrap(k, 0, blk),)), ('gret', 'c')), 5


def stmt_item(blk, nb):
    r = R(blk)

    def want():
        o = []
        for b in range(1 << nb):
            o += r.run(b)
        return o
    # the items' bits start at i
    src = r.src() + '\nconst t$ = {\n\tfor var i : uint64 = 0; i < %d; i++\n\t\tbits = i\n\t\tout(b$())\n\t;;\n}' % (1 << nb)
    return Item(src, want, 'nest %s' % (blk,))


# ---- expressions
# node: (op, children...).  State: x (global), l (local, maybe also reachable through pl), arr, y.
class X:
    def __init__(self, t):
        self.n = 0
        self.t = self.num(t)

    def num(self, t):
        if isinstance(t, str):
            if t in ('e', 'c', 'v'):
                self.n += 1
                return (t, self.n)
            return (t,)
        return (t[0],) + tuple(self.num(y) for y in t[1:])

    def s(self, t):
        o = t[0]
        a = t[1:]
        if o in ('e', 'c', 'v'):
            return '%s(%d)' % (o, a[0])
        if o in ('x', 'l'):
            return o
        if o == 'k':
            return '5'
        if o == 'inc':
            return 'inc()'
        if o == 'x++':
            return 'x++'
        if o == 'l++':
            return 'l++'
        if o == 'x--':
            return 'x--'
        if o == 'elt':
            return 'arr[2]'
        r = [self.s(y) for y in a]
        if o in ('x=', 'l=', 'l+=', 'x+=', 'l-=', 'l*='):
            return '(%s %s %s)' % (o[0], o[1:], r[0])
        if o in ('+', '-', '*', '==', '<', '!=', '&&', '||', '^', '>='):
            return '(%s %s %s)' % (r[0], o, r[1])
        if o == '!':
            return '!%s' % r[0]
        if o == 'neg':
            return '(-%s)' % r[0]
        if o == 'add2':
            return 'add2(%s, %s)' % tuple(r)
        if o == 'add3':
            return 'add3(%s, %s, %s)' % tuple(r)
        if o == 'tup':
            return 'tf((%s, %s))' % tuple(r)
        if o == 'st':
            return 'sf([.a=%s, .c=%s])' % tuple(r)
        if o == 'ts':
            return 'sf([.c=%s, .a=%s])' % tuple(r)
        if o == 'arrl':
            return 'af([%s, %s])' % tuple(r)
        if o == 'sll':
            return 'lf([%s, %s][:])' % tuple(r)
        if o == 'un':
            return 'uf(`B (%s, %s))' % tuple(r)
        if o == 'idx':
            return 'arr[%s & 7]' % r[0]
        if o == 'idx2':
            return 'gf()[(%s & 1)*2 + (%s & 1)]' % tuple(r)
        if o == 'slice':
            return 'slf(arr[%s & 3 : 4 + (%s & 3)])' % tuple(r)
        if o == 'ind':
            return 'fp(%s)(%s)' % tuple(r)
        if o == 'bool':
            return 'b2i(%s)' % r[0]
        if o == 'asnidx':
            return '(y = arr[%s & 3] = %s)' % tuple(r)
        if o[:2] == 'u:':
            _, lk, op = o.split(':')
            lv = {'arr': 'arr[%s & 3]', 'ptr': 'gptr(%s)#', 'memb': 'gst(%s).b', 'ret': 'garr()[%s & 3]', 'two': 'arr[arr3[%s & 3]]', 'sl': 'arr[2:][%s & 3]', 'tup': 'gtup(%s)#.1'}[lk] % r[0]
            if op in ('++', '--'):
                return '(%s%s)' % (lv, op)
            if op in ('p++', 'p--'):
                return '(%s%s)' % (op[1:], lv)
            return '(%s %s %s)' % (lv, op, r[1])
        raise Exception(o)

    # evaluation
    def cond(self, k):
        self.o.append(k)
        r = self.bits & 1
        self.bits >>= 1
        return r

    def get(self, n):
        return self.v[n]

    def ev(self, t):
        o = t[0]
        a = t[1:]
        v = self.v
        M = 2**64 - 1
        if o == 'e':
            self.o.append(a[0])
            return a[0]
        if o in ('c', 'v'):
            return self.cond(a[0])
        if o in ('x', 'l'):
            return v[o]
        if o == 'k':
            return 5
        if o == 'elt':
            return v['arr'][2]
        if o == 'inc':
            self.o.append(500)
            v['x'] = v['x'] + 100 & M
            v[self.alias] = v[self.alias] + 1000 & M
            return 7
        if o in ('x++', 'l++', 'x--'):
            self.q.append((o[0], 1 if o[1] == '+' else -1))
            return v[o[0]]
        if o in ('x=', 'l='):
            r = self.ev(a[0])
            v[o[0]] = r
            return r
        if o in ('l+=', 'x+=', 'l-=', 'l*='):
            r = self.ev(a[0])
            b = v[o[0]]
            v[o[0]] = (b + r if o[1] == '+' else b - r if o[1] == '-' else b * r) & M
            return v[o[0]]
        if o in ('&&', '||'):
            l = self.ev(a[0])
            if bool(l) == (o == '||'):
                return int(bool(l))
            q, self.q = self.q, []
            r = int(bool(self.ev(a[1])))
            self.drain()
            self.q = q
            return r
        if o == 'asnidx':
            r = self.ev(a[1])
            i = self.ev(a[0])
            v['arr'][i & 3] = r
            return r
        if o[:2] == 'u:':
            _, lk, op = o.split(':')
            r = self.ev(a[1]) if len(a) > 1 else None
            if lk == 'ret':
                self.o.append(651)
            i = self.ev(a[0])
            if lk in ('ptr', 'memb', 'tup'):
                self.o.append(650)
            i = i & 3
            if lk == 'two':
                i = 3 - i
            if lk == 'sl':
                i += 2
            A = v['arr']
            if lk == 'memb':
                i = 7
            if lk == 'tup':
                i = 6
            if op == '=':
                A[i] = r
            elif op in ('++', '--'):
                self.q2.append((i, 1 if op == '++' else -1))
                return A[i]
            elif op in ('p++', 'p--'):
                A[i] = A[i] + (1 if op == 'p++' else -1) & M
            else:
                A[i] = {'+=': A[i] + r, '-=': A[i] - r, '*=': A[i] * r, '|=': A[i] | r, '^=': A[i] ^ r, '<<=': A[i] << (r & 63), '%=': A[i] % (r or 1)}[op] & M
            return A[i]
        r = [self.ev(y) for y in a]
        if o == '!':
            return int(not r[0])
        if o == 'neg':
            return -r[0] & M
        if o == 'bool':
            return r[0]
        if o == 'idx':
            return v['arr'][r[0] & 7]
        x, y = r[0], r[1]
        if o == '+':
            return x + y & M
        if o == '-':
            return x - y & M
        if o == '*':
            return x * y & M
        if o == '^':
            return x ^ y
        if o == '==':
            return int(x == y)
        if o == '!=':
            return int(x != y)
        if o == '<':
            return int(x < y)
        if o == '>=':
            return int(x >= y)
        if o == 'add2':
            self.o.append(600)
            return x * 3 + y & M
        if o == 'add3':
            self.o.append(601)
            return x * 9 + y * 3 + r[2] & M
        if o in ('tup', 'arrl', 'sll', 'un'):
            self.o.append(610)
            return x * 3 + y & M
        if o == 'st':
            self.o.append(610)
            return x * 3 + y & M
        if o == 'ts':
            self.o.append(610)
            return y * 3 + x & M
        if o == 'ind':
            self.o.append(620)
            return x * 3 + y & M
        if o == 'slice':
            self.o.append(610)
            lo, hi = x & 3, 4 + (y & 3)
            return v['arr'][lo] * 16 + (hi - lo) & M
        raise Exception(o)

    def drain(self):
        for n, k in self.q:
            self.v[n] = self.v[n] + k & (2**64 - 1)
        self.q = []
        for i, k in self.q2:
            self.v['arr'][i] = self.v['arr'][i] + k & (2**64 - 1)
        self.q2 = []


XPRE = '''
const tf = {t : (uint64, uint64) -> uint64; out(610); var p = t.0, q = t.1; -> p*3 + q}
const sf = {s : st -> uint64; out(610); -> s.a*3 + s.c}
const af = {a : uint64[2] -> uint64; out(610); -> a[0]*3 + a[1]}
const lf = {a : uint64[:] -> uint64; out(610); -> a[0]*3 + a[1]}
const uf = {u : un -> uint64
	out(610)
	match u
	| `B (p, q):	-> p*3 + q
	| `A _:	-> 0
	;;
}
const slf = {s : uint64[:] -> uint64; out(610); -> s[0]*16 + s.len}
const b2i = {b : bool -> uint64; -> (b : uint64)}
var fpk : uint64 = 0
var gs : st = [.a=1, .b=88, .c=3]
var gt : (uint64, uint64)
var arr3 = [3, 2, 1, 0]
const gptr = {i : uint64 -> uint64#; out(650); -> &arr[i & 3]}
const gst = {i : uint64 -> st#; out(650); -> &gs}
const gtup = {i : uint64 -> (uint64, uint64)#; out(650); -> &gt}
const garr = {-> uint64[:]; out(651); -> arr[:]}
const ff = {b : uint64 -> uint64; out(620); -> fpk*3 + b}
const fp = {a : uint64 -> (b : uint64 -> uint64); fpk = a; -> ff}
'''
FORMS = {  # context -> (source with {e}, evaluator kind)
    'arg': 'out({e})',
    'init': 'var w = {e}\n\tout(w)',
    'asn': 'w = {e}\n\tout(w)',
    'gasn': 'y = {e}\n\tout(y)',
    'ret': None,
    'if': None, 'while': None, 'match': None,
}


def expr_item(t, ctx, al, isbool, nb):
    X_ = X(t)
    e = X_.s(X_.t)
    arrs = 'asnidx' in str(t) or "'u:" in str(t)
    pre = 'var l : uint64 = 3%s\n\tvar w : uint64 = 1' % ('\n\tpl = &l' if al == 'l' else '\n\tpl = &y')
    post = 'out(l); out(x); out(y); out(w); for z : arr[:]\n\t\tout(z)\n\t;;' if 'asnidx' in str(t) else 'out(l); out(x); out(y); out(w); for z : arr[:6]\n\t\tout(z)\n\t;;\n\tout(gt.1); out(gs.b)' if arrs else 'out(l); out(x); out(y); out(w)'
    if ctx in ('arg', 'init', 'asn', 'gasn'):
        ee = 'b2i(%s)' % e if isbool else e
        f = FORMS[ctx].replace('var w = {e}', 'var u = {e}').replace('out(w)', 'out(u)' if ctx == 'init' else 'out(w)').format(e=ee)
    elif ctx == 'ret':
        f = 'r$(pl)\n\tout(y)'
    elif ctx == 'if':
        f = 'if %s\n\t\tout(1001)\n\telse\n\t\tout(1000)\n\t;;' % e
    elif ctx == 'ifn':
        f = 'if !%s\n\t\tout(1000)\n\telse\n\t\tout(1001)\n\t;;' % e
    elif ctx == 'elif':
        f = 'if y == 77\n\t\tout(0)\n\telif %s\n\t\tout(1001)\n\telse\n\t\tout(1000)\n\t;;' % e
    elif ctx == 'while':
        f = 'while %s\n\t\tout(1001)\n\t\tif ++g == 3\n\t\t\tbreak\n\t\t;;\n\t;;' % e
        f = f.replace('++g', 'cnt()')
    elif ctx == 'match':
        f = 'match %s\n\t| true: out(1001)\n\t| false: out(1000)\n\t;;' % e
    elif ctx == 'matchi':
        f = 'match %s\n\t| 5: out(1005)\n\t| z: out(z)\n\t;;' % e
    elif ctx == 'decl2':
        f = 'var u = %s, t = l + x\n\tout(u); out(t)' % e
    src = 'const b$ = {\n\t%s\n\t%s\n\t%s\n}\n' % (pre, f, post)
    src += 'const t$ = {\n\tfor var i : uint64 = 0; i < %d; i++\n\t\tbits = i\n\t\tx = 20; y = 4; kn = 0\n' % (1 << nb)
    if arrs:
        src += '\t\tgs.b = 88; gt = (1, 77); arr = [11, 22, 33, 44, 55, 66, 77, 88]\n'
    src += '\t\tb$()\n\t;;\n}'

    def want():
        o = []
        for b in range(1 << nb):
            X_.bits = b
            X_.o = []
            X_.q = []
            X_.q2 = []
            X_.v = {'x': 20, 'l': 3, 'y': 4, 'w': 1, 'arr': [11, 22, 33, 44, 55, 66, 77, 88]}
            X_.alias = al
            v = X_.v
            if ctx == 'while':
                n = 0
                while True:
                    r = X_.ev(X_.t)
                    X_.drain()
                    if not r:
                        break
                    X_.o.append(1001)
                    n += 1
                    if n == 3:
                        break
            else:
                r = X_.ev(X_.t)
                if X_.t[0] == 'asnidx':
                    v['y'] = r
                if ctx == 'arg':
                    X_.o.append(r)
                    X_.drain()
                elif ctx in ('asn', 'gasn'):
                    v['w' if ctx == 'asn' else 'y'] = r
                    X_.drain()
                    X_.o.append(v['w' if ctx == 'asn' else 'y'])
                else:
                    X_.drain()
                    if ctx == 'init':
                        X_.o.append(r)
                    elif ctx == 'matchi':
                        X_.o.append(1005 if r == 5 else r)
                    elif ctx == 'decl2':
                        X_.o += [r, v['l'] + v['x'] & (2**64 - 1)]
                    else:
                        X_.o.append(1001 if r else 1000)
            o += X_.o + [v['l'], v['x'], v['y'], v['w']]
            if arrs:
                o += v['arr']
        return o
    return Item(src, want, 'expression %s in %s, %s aliased' % (e, ctx, al))


LEAF = ['x', 'l', 'inc', 'x++', 'l++', 'e', ('x=', 'e'), ('l=', 'e'), ('l+=', 'e'), ('x+=', 'inc'), ('l-=', 'x'), 'elt', 'k']
BIN = ['+', '-', '==', '<', 'add2', 'tup', 'st', 'ts', 'arrl', 'sll', 'un', 'ind', 'slice', '*']
BOOLOPS = ('==', '<', '!=', '>=', '&&', '||', '!', 'c')


def isb(t):
    return (t if isinstance(t, str) else t[0]) in BOOLOPS


def conflict(t):
    """postincrements of a variable that is also assigned in the same expression are left out"""
    s = str(t)
    for n in 'xl':
        pp = "'%s++'" % n in s or "'%s--'" % n in s
        if pp and ("'%s='" % n in s or "'%s+=" % n in s or "'%s-=" % n in s or "'%s*=" % n in s or "'inc'" in s):
            return True
    # fused assignment: whether the old value is read before or after the right side is not laid down
    for f, bad in (("'x+='", ("'inc'", "'x='", "'x++'")), ("'l+='", ("'l='", "'l++'")), ("'l-='", ("'l='", "'l++'"))):
        pass
    return False


def exprs(th):
    ctxs = ('arg', 'asn', 'init') if not th else ('arg', 'asn', 'init', 'gasn')
    for b in BIN:
        for l in LEAF:
            for r in LEAF:
                t = (b, l, r)
                if conflict(t):
                    continue
                for al in 'ly':
                    if isb(t):
                        for ctx in ('if', 'while', 'match', 'arg', 'ifn', 'elif'):
                            yield t, ctx, al, True, 0
                    else:
                        for ctx in ctxs + ('matchi', 'decl2'):
                            yield t, ctx, al, False, 0
    for l in LEAF:
        for r in LEAF:
            if not conflict((l, r)):
                for al in 'ly':
                    yield ('asnidx', l, r), 'arg', al, False, 0
    for lk in ('arr', 'ptr', 'memb', 'ret', 'two', 'sl', 'tup'):
        for E in ('e', 'v', 'x', 'l', 'inc', 'x++', ('l=', 'e'), ('add2', 'e', 'l'), ('idx', 'e')):
            for op in ('=', '+=', '-=', '*=', '|=', '^=', '<<=', '%=', '++', '--', 'p++', 'p--'):
                for r in ((None,) if op[-2:] in ('++', '--') else ('e', 'inc', 'x', 'v', ('l=', 'e'), 'elt') if op == '=' else ('k', 'l', 'w')):
                    if r in ('l', 'w') and E == ('l=', 'e') or r == 'w':
                        continue
                    t = ('u:%s:%s' % (lk, op), E) + (() if r is None else (r,))
                    if conflict(t):
                        continue
                    for ctx in ('arg', 'init'):
                        yield t, ctx, 'l' if E != 'inc' or r != 'l' else 'y', False, 1
    small = ['x', 'l', 'inc', 'e', ('l=', 'e')] if not th else ['x', 'l', 'inc', 'e', ('l=', 'e'), ('x=', 'inc'), 'x++']
    B2 = ['+', '-', 'add2', 'tup', 'st', 'sll', '=='] if not th else BIN
    for b1 in B2:
        for b2 in B2:
            if b1 == '==' or (b2 == '==' and False):
                continue
            for a in small:
                for b in small:
                    for c_ in small:
                        for t in ((b2, (b1, a, b), c_), (b2, a, (b1, b, c_))):
                            if conflict(t):
                                continue
                            if b2 == '==':
                                yield t, 'if', 'l', True, 0
                            else:
                                yield t, 'arg', 'l', False, 0
    for a in small:
        for b in small:
            for c_ in small:
                for t in (('add3', a, b, c_), ('+', ('idx', a), ('+', b, c_)), ('idx', ('+', a, ('idx', b))), ('+', a, ('idx', ('add2', b, c_))), ('neg', ('+', a, ('x=', ('+', b, c_))))):
                    if not conflict(t):
                        for al in 'ly':
                            yield t, 'arg', al, False, 0
    # logical operators
    bl = ['c', ('==', 'l++', 'k'), ('<', 'x', 'inc'), ('==', ('l=', 'e'), 'l')]

    def bt(d, leaves):
        if d == 0:
            yield from leaves
            return
        for u in bt(d - 1, leaves):
            yield ('!', u)
        for i in range(d):
            for l in bt(i, leaves):
                for r in bt(d - 1 - i, leaves):
                    for o in ('&&', '||'):
                        yield (o, l, r)
    for d in (0, 1, 2, 3):
        lv = bl if d < 3 else ['c']
        for t in bt(d, lv):
            if conflict(t):
                continue
            for ctx in ('if', 'while', 'match', 'arg', 'asn', 'elif', 'ifn'):
                yield t, ctx, 'l', True, 3 if d < 3 else 4
    if th:
        for t in bt(4, ['c']):
            for ctx in ('if', 'while', 'asn'):
                yield t, ctx, 'l', True, 5
    # logical inside arithmetic and calls
    for a in ('x', 'l', 'l++'):
        for u in bt(1, ['c', ('==', 'l++', 'k'), ('<', 'x', 'inc')]):
            for t in (('+', a, ('bool', u)), ('add2', a, ('bool', u)), ('+', ('bool', u), a), ('tup', ('bool', u), a), ('tup', a, ('bool', u))):
                if not conflict(t):
                    for al in 'ly':
                        yield t, 'arg', al, False, 2


def body(c):
    t = Tree('c')
    its = [stmt_item(b, n) for b, n in programs(c.thorough)]
    ns = len(its)
    its += [expr_item(*a) for a in exprs(c.thorough)]
    pre = PRE + XPRE + 'var kn = 0\nconst cnt = {; kn++; -> kn}\n'
    st = run_items(c, t, its, pre, per=400)
    c.add(states=len(its), transitions=st['outputs'], traces_validated_against_impl=st['outputs'])
    c.cov['statement_nests'] = ns
    c.cov['expressions'] = len(its) - ns
    c.cov['exhaustive'] = True
    c.sample('while { if c {auto; continue} } over all 16 scripts of condition outcomes')
    c.assume.append('an expression that postincrements a variable and also assigns it elsewhere is left out; fused assignment reads its target after the right side')


main(body, 'C05')
