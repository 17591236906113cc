#!/usr/bin/env python3
"""C13: the compiler is total and deterministic.

Every input of the families below is given to the real compiler (8 GB/s of hash tables and all): whatever it is, the
compiler must end by itself, with status 0, or with status 1 and a word about why.
 - tokens: all sequences of tokens up to a length, in each of several places of a program
 - expressions: all operators on all pairs of operands out of a list with one of each kind of value and non-value
 - edits: all deletions, duplications and swaps of one token of the compiler's own test programs
 - cuts: all prefixes of some of these (thorough: of all)
 - bytes: all single bytes, and pairs out of some, in literals, names and comments
Every program that compiles, out of the test programs, the libraries and a selection of the above, is compiled again, in
another directory, at another address, and along with others: the assembly and the use files must be the same.
"""
import os, re, sys
import shutil
from itertools import product, permutations
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from mcv import build
from mcv.check import HARN, main, pmap
from mcv.build import CORES, Tree
from mcv.accept import harness, many

TOK = re.compile(r'''\s*(//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|[0-9][0-9A-Za-z_.]*|@?[A-Za-z_$][A-Za-z0-9_$]*|\.\.\.|<<=|>>=|[-+*/%&|^=!<>]=|\+\+|--|->|<<|>>|&&|\|\||::|;;|\n|.)''', re.S)


def tokens(s):
    r = []
    for m in re.finditer(r'([ \t]*)(/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[0-9][0-9A-Za-z_.]*|@?[A-Za-z_$][A-Za-z0-9_$]*|\.\.\.|<<=|>>=|[-+*/%&|^=!<>]=|\+\+|--|->|<<|>>|&&|\|\||::|;;|\n|.)', s, re.S):
        r.append((m.group(1), m.group(2)))
    return r


def join(ts):
    return ''.join(a + b for a, b in ts)


# ---------------------------------------------------------------- sequences of tokens
ALPHA = ['x', 'f', 'T', '@a', '`U', '1', '"s"', "'c'", '1.5', 'true', 'void', '(', ')', '[', ']', '{', '}', '+', '-', '*', '&', '!', '~', '#', '.', ',', ':', '::', ';', ';;', '\n', '=', '==', '+=', '++', '->', '<<', '<', '|', '||', '...', '`', '$',
         'const', 'var', 'generic', 'type', 'struct', 'union', 'trait', 'impl', 'if', 'elif', 'else', 'while', 'for', 'match', 'break', 'continue', 'goto', 'pkg', 'use', 'extern', 'auto', 'sizeof', 'castto', '__init__', '$noret']
SHORT = ['x', 'T', '@a', '`U', '1', '"s"', '(', ')', '[', ']', '{', '}', '-', '&', '#', '.', ',', ':', ';;', '\n', '=', '->', '|', 'var', 'struct', 'impl', 'if', 'for', 'match']
PRE = '''type T = struct
	x : int
;;
type V = union
	`U int
	`W
;;
trait tr @x =
	m : (x : @x -> @x)
;;
const f = {x : int -> int; -> x}
'''
PLACES = [('the top', PRE + '$\n'),
          ('a function', PRE + 'const g = {x : int\n\tvar y = x\n\t$\n\ty = x\n}\n'),
          ('an expression', PRE + 'const g = {x : int\n\tvar y = $\n}\n'),
          ('a type', PRE + 'var g : $\n'),
          ('a struct', PRE + 'type s = struct\n\t$\n;;\nvar v : s\n'),
          ('a union', PRE + 'type s = union\n\t$\n;;\nvar v : s\n'),
          ('a pattern', PRE + 'const g = {x : V\n\tmatch x\n\t| $: -> 1\n\t| _: -> 2\n\t;;\n}\n'),
          ('a trait', PRE + 'trait s @x =\n\t$\n;;\n'),
          ('an impl', PRE + 'impl tr int =\n\t$\n;;\n'),
          ('a package', 'pkg =\n\t$\n;;\n' + PRE),
          ('a generic', PRE + 'generic g = {x : @a, y : @b :: $\n}\n')]


def tokseqs(thorough):
    for name, p in PLACES:
        for n in (0, 1, 2):
            for s in product(ALPHA, repeat=n):
                yield '%r as %s' % (' '.join(s), name), p.replace('$', ' '.join(s), 1)
        if thorough or name in ('an expression', 'a function'):
            for s in product(SHORT, repeat=3):
                yield '%r as %s' % (' '.join(s), name), p.replace('$', ' '.join(s), 1)


# ---------------------------------------------------------------- expressions
EPRE = '''type st = struct
	a : int
	b : byte
;;
type un = union
	`P int
	`Q
	`R (int, byte)
;;
type nm = int
type es = struct
;;
type gt(@x) = struct
	v : @x
;;
trait tr @x =
	mm : (x : @x -> @x)
	cc : int
;;
impl tr int =
	mm = {x; -> x}
	cc = 3
;;
const ff = {x : int -> int; -> x}
const fv = {; }
generic gg = {x : @a -> @a; -> x}
generic gn = {x : @a -> @a :: numeric @a; -> x + x}
const kk = 7
var gv : int
extern const ex : (x : int, a : ... -> int)
const body = {i : int, b : byte, c : char, f : flt64, h : flt32, o : bool, p : int#, s : int[:], a : int[3], t : (int, byte), r : st, u : un, n : nm, e : es, l : int -> void, g : gt(int), d : byte[:], z : uint64, vd : void, q : st#, pp : int##, ta : int[2][2], m : int[:][:]
'''.replace('l : int -> void', 'l : (x : int -> void)')
VARS = 'i b c f h o p s a t r u n e l g d z vd q pp ta m'.split()
OTHERS = ['1', '"s"', "'c'", '1.5', 'true', 'void', '(1, 2)', '[1, 2]', '[.a=1]', '[]', '[][:]', '`P 1', '`Q', '`R (1, 2)', '`Zz', '{; }', '{x; -> x}', 'ff', 'gg', 'gn', 'kk', 'gv', 'ex', 'mm', 'cc', 'nothing', 'st', 'un', 'tr', 'impl(cc, int)', 'impl(mm, int)', 'sizeof(int)', '-1', '(i : byte)', 'std.x', '__filename__', '0', '[.[1]=2]', '(1,)', '`P', 'ff(1)', 'fv()', '()']
ATOMS = VARS + OTHERS
BIN = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '&&', '||', '==', '!=', '<', '<=', '>', '>=', '=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=']
FORMS1 = ['A', '-A', '!A', '~A', '&A', 'A#', 'A++', 'A--', '*A', '(A)', 'A.a', 'A.0', 'A.2', 'A.len', 'A.tag', 'A[0]', 'A[:]', 'A[1:]', 'A[:1]', 'A()', 'A(1)', 'A(A)', '`P A', '`R A', '`Q A', '[A]', '(A, A)', '[A, A][:]', '[.a=A]', '(A : int)', '(A : byte)', '(A : flt64)', '(A : st)', '(A : un)', '(A : int#)', '(A : byte[:])', '(A : void)', '(A : @a)', '(A : nope)', '(A : int[3])', '(A : (x : int -> int))', '(A : gt(int))', '(A : es)', 'auto A', '{; -> A}', '{x; -> A}()', 'mm(A)', 'gg(A)', 'gn(A)', 'ex(1, A)', 'ff(A)', 'A; A', '&A[0]', '&A.a', '-A.a', 'A.a[1]', '`P `P A', '&&A', 'A##', 'gg(gg(A))', 'l(A)', '&(A)', 'sizeof(A)', 'A ?? A', '`P(A)']
STM1 = ['var y = A', 'const y = A', 'var y : int = A', 'var y : void = A', 'var y : un = A', 'A', '-> A', 'if A\n;;', 'while A\n;;', 'for y : A\n;;', 'for y = A; y; y++\n;;', 'for var y = A; true; y\n;;', 'match A\n| _:\n;;', 'match A\n| y: i = y\n;;', 'match A\n| 1:\n| 2:\n| _:\n;;', 'match A\n| (x, y):\n| _:\n;;', 'match A\n| `P x:\n| _:\n;;', 'match A\n| &x:\n| _:\n;;', 'match A\n| "ab":\n| _:\n;;', 'match A\n| [.a=1]:\n| _:\n;;', 'match A\n| [x, y]:\n| _:\n;;', 'match A\n| A:\n| _:\n;;', 'match i\n| A:\n| _:\n;;', 'match u\n| A:\n| _:\n;;', 'goto A', 'A\n:lab\ngoto lab', 'var y = {; -> A}\ny()', 'var y = &{; A}', 'var y = {z; z = A; -> A}', 'var y : A', 'var y : A#', 'var y : int[A]', 'var y\ny = A', 'var y = [][:]\ny = A', 'A = A', 'match A\n| true:\n;;', 'match A\n| 1.5:\n| _:\n;;', "match A\n| 'c':\n| _:\n;;", 'match A\n| void:\n;;']
TOP1 = ['var g1 = A', 'const g1 = A', 'var g1 : int = A', 'var g1 : int[A]', 'var g1 : A', 'type g1 = A', 'const g1 = {; -> A}', 'generic g1 = A', 'generic g1 = {x : @a; -> A}', 'impl tr A =\n\tmm = {x; -> x}\n\tcc = 1\n;;', 'impl tr byte =\n\tmm = A\n\tcc = 1\n;;', 'impl tr byte =\n\tmm = {x; -> x}\n\tcc = A\n;;', 'extern const g1 : A', 'const __init__ = A', 'const main = A', 'trait g1 @a =\n\tg2 : A\n;;', 'generic g1 = {x : @a :: A @a; -> x}', 'const g1 : int = A\nvar g2 : int[g1]', 'var g1 = &A', 'var g1 = A[:]', 'const g1 = (A, A)', 'const g1 = [A, A]', 'const g1 : un = `P A', 'var g1 = [.a=A]', 'var g1 : st = [.a=A]', 'const g1 = -A', 'const g1 = A + A', 'const g1 = A / A', 'const g1 = A << A', 'const g1 = (A : byte)', 'var g1 : int[:] = [A][:]']


def exprs(thorough):
    def fn(s):
        return EPRE + '\t' + s.replace('\n', '\n\t') + '\n}\n'
    for f in FORMS1:
        for a in ATOMS:
            x = f.replace('A', a)
            yield 'var y = %s' % x, fn('var y = %s' % x)
            yield x, fn(x)
    for f in STM1:
        for a in ATOMS:
            x = f.replace('A', a)
            yield x.replace('\n', ' ; '), fn(x)
    for f in TOP1:
        for a in OTHERS:
            x = f.replace('A', a)
            yield x.replace('\n', ' ; '), EPRE + '}\n' + x + '\n'
    for o in BIN:
        for a in ATOMS:
            for b in (ATOMS if thorough else VARS + OTHERS[:20]):
                x = '%s %s %s' % (a, o, b)
                yield x, fn(x)
    if thorough:
        for f, g in product(FORMS1, repeat=2):
            for a in VARS + OTHERS[:20]:
                x = f.replace('A', '(%s)' % g.replace('A', a))
                yield x, fn(x)
        for f, g in product(STM1, FORMS1):
            for a in VARS + OTHERS[:20]:
                x = f.replace('A', '(%s)' % g.replace('A', a))
                yield x.replace('\n', ' ; '), fn(x)


# ---------------------------------------------------------------- edits of the test programs
def corpus(tree):
    r = []
    d = tree.root + '/test'
    for x in sorted(os.listdir(d)):
        if x.endswith('.myr'):
            s = open(d + '/' + x, encoding='utf-8', errors='surrogateescape').read()
            # standing alone, without the libraries
            r.append((x, s))
    return r


def edits(tree, thorough):
    for x, s in corpus(tree):
        ts = tokens(s)
        if not thorough and len(ts) > 150:
            continue
        for i in range(len(ts)):
            if ts[i][1].startswith('/'):
                continue
            at = '%s, token %d (%s)' % (x, i, ts[i][1].replace('\n', 'newline'))
            yield at + ' left out', join(ts[:i] + ts[i + 1:])
            yield at + ' twice', join(ts[:i + 1] + ts[i:])
            if i + 1 < len(ts):
                yield at + ' and the next swapped', join(ts[:i] + [ts[i + 1], (' ', ts[i][1])] + ts[i + 2:])


def cuts(tree, thorough):
    for x, s in corpus(tree):
        if not thorough and len(s) > 220:
            continue
        for i in range(len(s)):
            yield 'the first %d bytes of %s' % (i, x), s[:i]


# ---------------------------------------------------------------- bytes
def bytestrs(thorough):
    every = [chr(i) if i < 128 else chr(0xdc00 + i) for i in range(1, 256)]
    some = list('\\"\'x{}u0179afnN \n\t/*_.-@`$#') + [chr(0xdc00 + i) for i in (0x80, 0xc3, 0xa9, 0xff, 0xe2, 0xf0)]
    places = [('a string', 'const s = "$"\n'), ('a string after a backslash', 'const s = "\\$"\n'), ('a character', "const s = '$'\n"), ('a character after a backslash', "const s = '\\$'\n"), ('a number', 'const s = 1$\n'), ('a hexadecimal number', 'const s = 0x$\n'), ('a float', 'const s = 1.$\n'), ('an exponent', 'const s = 1e$\n'), ('a name', 'var a$ = 1\n'), ('a comment', '// $\nvar a = 1\n'), ('a block comment', '/* $ */ var a = 1\n'), ('nothing else', '$'), ('the end of a string', 'const s = "a$'), ('a unicode escape', 'const s = "\\u{$}"\n'), ('a hex escape', 'const s = "\\x$"\n'), ('the end of the file', 'var a = 1\n$'), ('a path', 'use "$"\n')]
    for name, p in places:
        for n, al in ((0, ['']), (1, every), (2, some), (3, some if thorough else [])):
            for s in product(al, repeat=max(n, 1)):
                yield '%r as %s' % (''.join(s), name), p.replace('$', ''.join(s))


# ---------------------------------------------------------------- nesting
NESTS = [('parentheses', 'const f = {; -> ', '(', '1', ')', '}\n'), ('minus', 'const f = {; -> ', '- ', '1', '', '}\n'), ('sum', 'const f = {x : int; -> 1', ' + x', '', '', '}\n'), ('calls', 'const f = {x : int -> int; -> ', 'f(', '1', ')', '}\n'),
         ('pointers', 'var f : int', '#', '', '', '\n'), ('slices', 'var f : int', '[:]', '', '', '\n'), ('arrays', 'var f : int', '[1]', '', '', '\n'), ('tuples', 'var f : ', '(', 'int', ', int)', '\n'), ('functions', 'var f : ', '(-> ', 'int', ')', '\n'),
         ('blocks', 'const f = {x : bool\n', 'if x\n', 'f(x)\n', ';;\n', '}\n'), ('loops', 'const f = {x : bool\n', 'while x\n', 'f(x)\n', ';;\n', '}\n'), ('else', 'const f = {x : bool\n', 'if x\nelse\n', 'f(x)\n', ';;\n', '}\n'), ('elif', 'const f = {x : bool\nif x\n', 'elif x\n', '', '', ';;\n}\n'), ('match', 'const f = {x : int\n', 'match x\n| 1:\n', 'f(x)\n', '| _:\n;;\n', '}\n'),
         ('closures', 'const f = {x : int\n', 'var g = {y : int\n', 'x++\n', '}\ng(1)\n', '}\n'), ('lambdas', 'const f = ', '{x : int; -> ', '1', '}', '\n'), ('arms', 'const f = {x : int\nmatch x\n', lambda i: '| %d: -> %d\n' % (i, i), '', '', '| _: -> 0\n;;\n}\n'), ('tuple patterns', 'const f = {x\nmatch x\n| ', '(1, ', '2', ')', ': -> 1\n| _: -> 0\n;;\n}\n'),
         ('anonymous structs', 'var f : ', 'struct\nx : ', 'int', '\n;;', '\n'), ('structs', '', lambda i: 'type t%d = struct\n\tx : %s\n;;\n' % (i, 't%d' % (i - 1) if i else 'int'), '', '', 'var f : t0\n'), ('generic types', 'type t(@x) = struct\n\tv : @x\n;;\nvar f : ', 't(', 'int', ')', '\n'), ('generics', 'generic f0 = {x : @a -> int; -> 1}\n', lambda i: 'generic f%d = {x : @a -> int; -> f%d((x, x))}\n' % (i + 1, i), '', '', ''),
         ('comments', '', '/*', '', '*/', '\n'), ('comments without an end', 'var a = 1\n', '/* x ', '', '', 'y */\n'), ('comments with too many ends', 'var a = 1\n/*', ' x ', '', '*/', '\n'), ('deref', 'const f = {x : int#\n', 'x', '', '#', '= 1\n}\n'), ('unions', 'type u = union\n', lambda i: '`U%d\n' % i, '', '', ';;\nvar x = `U0\n'), ('members', 'type u = struct\n', lambda i: 'u%d : int\n' % i, '', '', ';;\nvar x : u\n'), ('arguments', 'const f = {x : int', lambda i: ', x%d : int' % i, '', '', '\n}\n'), ('name', 'var a', 'b', '', '', ' = 1\n'), ('string', 'var a = "', 'b', '', '', '"\n'), ('number', 'var a = 1', '0', '', '', '\n'), ('fraction', 'var a = 1.', '1', '', '', '\n'), ('hexadecimal', 'var a = 0x', 'f', '', '', '\n'), ('underscores', 'var a = 1', '_', '', '', '\n'), ('exponent', 'var a = 1.0e', '1', '', '', '\n'), ('shift', 'const a = 1', ' << 1', '', '', '\n'), ('or', 'const f = {x : bool; -> x', ' || x', '', '', '}\n'), ('conditions', 'const f = {x : bool; -> ', '!(x && ', 'x', ')', '}\n'),
         ('type of itself', 'type t(@x) = struct\n\tv : t(@x', '#', '', '', ')#\n;;\nvar v : t(int)\n'), ('specialization of itself', 'generic f = {x : @a, n : int; f(', '&', 'x', '', ', n)}\nconst g = {x : int; f(x, 1)}\n')]


LONG = ('name', 'string', 'number', 'fraction', 'hexadecimal', 'underscores', 'exponent')


def nesting(thorough):
    for name, a, b, m, d, e in NESTS:
        for n in list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 255, 256, 257] + ([511, 512, 513, 1000, 1023, 1024, 1025, 2000] if thorough or name in LONG else []) + ([2030, 2040] + list(range(2044, 2056)) + [4094, 4095, 4096, 4097, 8191, 8192, 9000, 20000, 70000] if name in LONG else []):
            if name == 'generics' and n > 12 or name == 'tuple patterns' and n > 33:
                continue
            bb = ''.join(b(i) for i in range(n)) if callable(b) else b * n
            yield '%s, %d of them' % (name, n), a + bb + m + d * n + e


# ---------------------------------------------------------------- types made of themselves
WRAPS = ['T#', 'T[:]', 'T[2]', '(T, int)', '(int, T)', '(T, T)', 'rg(T)', 'rs(T)', 'ru(T)', '(x : T -> int)', '(-> T)', 'struct\n\ta : T\n\tb : int\n\t;;', 'union\n\t`XT\n\t`Y T\n\t;;', 'T', 'nm(T, int)', 'nm(int, T)', 'rp(T)']
WPRE = 'type rg(@x) = @x#\ntype rs(@x) = struct\n\tv : @x\n;;\ntype ru(@x) = union\n\t`S @x\n\t`N\n;;\ntype nm(@x, @y) = (@x, @y#)\ntype rp(@x) = @x\n'


def rectypes(thorough):
    def w(a, t):
        return a.replace('XT', 'X').replace('T', t).replace('`X' + t, '`X')
    uses = ['', 'var v : %s\n', 'const f = {a : %s, b : %s#\n\tb# = a\n}\n', 'const n = sizeof(%s)\n', 'generic g = {x : @g -> @g; -> x}\nconst f = {a : %s -> %s; -> g(a)}\n', 'const f = {a : %s#\n\tmatch a#\n\t| x:\tf(&x)\n\t;;\n}\n', 'trait tr @t =\n\tm : (x : @t -> void)\n;;\nimpl tr %s =\n\tm = {x\n\t}\n;;\nconst f = {a : %s\n\tm(a)\n}\n',
            'pkg p =\n\tvar v : %s\n;;\n']
    for a, b in product(WRAPS, repeat=2):
        for u in uses:
            for name, decl, t in (('a type made of itself by %s of %s' % (a, b), 'type t = %s\n' % w(a, w(b, 't')), 't'),
                                  ('two types made of each other by %s and %s' % (a, b), 'type t = %s\ntype s = %s\n' % (w(a, 's'), w(b, 't')), 't'),
                                  ('a generic type made of itself by %s of %s' % (a, b), 'type t(@a) = %s\n' % w(a, w(b, 't(@a)')), 't(int)'),
                                  ('a generic type that grows by %s of %s' % (a, b), 'type t(@a) = %s\n' % w(a, 't(%s)' % w(b, '@a')), 't(int)')):
                yield '%s, then %s' % (name, u.strip().split('\n')[-1] or 'nothing'), WPRE + decl + u.replace('%s', t)


def says(st, out):
    o = ' '.join(out.split())[:160]
    if st == 9999:
        return 'hangs'
    if st < 0:
        return 'crashes (signal %d): %s' % (-st, o)
    if st == 77:
        return 'makes something else of it the second time'
    if st > 1:
        return 'ends with status %d: %s' % (st, o)
    if st == 1 and not o:
        return 'fails without a word'
    if st == 0 and re.search(r'p\.myr:\d+: (?!warning)', o):
        return 'reports an error, but succeeds: %s' % o
    return None


def run(c, tree, items, stats, extra=()):
    extra = ['-S'] + list(extra)
    items = list(items)
    step = max(1, min(500, len(items) // (3 * CORES) + 1))

    def job(k):
        wd = os.path.join(tree.scratch, 'tot%d.%d' % (os.getpid(), k))
        part = items[k:k + step]
        try:
            r = many(tree, wd, [s for _, s in part], extra, twice=True)
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        good = sum(st == 0 for st, _ in r)
        return good, [(d, s, w) for (d, s), (st, out) in zip(part, r) for w in [says(st, out)] if w]
    res = pmap(job, range(0, len(items), step))
    stats['inputs'] += len(items)
    stats['accepted'] += sum(g for g, _ in res)
    bad = [x for _, l in res for x in l]
    if os.environ.get('MCV_ALL'):
        import collections
        cl = collections.Counter()
        first = {}
        for d, s, w in bad:
            k = re.sub(r'\d+', 'N', w)[:100]
            cl[k] += 1
            first.setdefault(k, []).append(d)
            open('/tmp/z13/last.myr', 'w', errors='surrogateescape').write(s)
        for k, n in cl.most_common(60):
            print(n, k, '|', ' ## '.join(x[:60] for x in first[k][:4]))
        return
    for d, s, w in bad:
        if len(c.viol) >= 4:
            break
        c.report('given %s, the compiler %s' % (d, w), s)


# ---------------------------------------------------------------- the same again
def compiled(tree, wd, src, extra):
    """outputs of the compiler for a file of wd"""
    p = build.subprocess.run([tree.mc, '-S'] + extra + [src], cwd=wd, env=dict(build.ENV, TMPDIR=wd, PADDING='x' * (len(wd) % 7 * 300)), stdin=build.subprocess.DEVNULL, stdout=build.subprocess.PIPE, stderr=build.subprocess.STDOUT, timeout=300)
    r = [('status', str(p.returncode).encode())]
    for e in ('.s', '.use'):
        f = os.path.join(wd, src[:-4] + e)
        # where the sources are is told to debuggers
        r.append((e, open(f, 'rb').read().replace(wd.encode() + b'/', b'') if os.path.exists(f) else None))
    return r


def again(c, tree, stats):
    """every test program and library file, in two directories; and in the company of others"""
    inc = [x for l in sorted(tree.libs) for x in ('-I', tree.libs[l])]
    files = [(tree.root + '/test', x) for x, _ in corpus(tree)]
    for l in sorted(tree.libs):
        d = os.path.join(tree.root, 'lib', l)
        files += [(d, x) for x in sorted(os.listdir(d)) if x.endswith('.myr')]

    def job(k):
        d, x = files[k]
        own = ['-I', os.path.join(tree.root, 'obj/lib', os.path.basename(d))] if '/lib/' in d else []
        r = []
        for where in ('a', 'some/other/directory'):
            wd = os.path.join(tree.scratch, 'again%d' % k, where)
            os.makedirs(wd)
            shutil.copy(os.path.join(d, x), wd)
            for u in os.listdir(own[1]) if own else []:
                if u.endswith('.use'):
                    shutil.copy(os.path.join(own[1], u), wd)
            if os.path.lexists(os.path.join(wd, x[:-4] + '.use')):
                os.unlink(os.path.join(wd, x[:-4] + '.use'))
            r.append(compiled(tree, wd, x, own + inc))
        shutil.rmtree(os.path.join(tree.scratch, 'again%d' % k))
        bad = [a for (a, v), (_, w) in zip(*r) if v != w]
        return x, r[0][0][1] == b'0', bad, r[0]
    res = pmap(job, range(len(files)))
    for (d, _), (x, ok, bad, _) in zip(files, res):
        if bad and len(c.viol) < 4:
            c.report('compiling %s/%s in another directory gives another %s' % (os.path.basename(d), x, ', '.join(bad)), '')
    # two files with one command are as good as two commands
    alone = {x: r for (d, _), (x, ok, _, r) in zip(files, res) if ok and d.endswith('/test')}
    small = sorted(sorted(alone), key=lambda x: len(alone[x][1][1] or b''))
    pick = small[::max(1, len(small) // (24 if c.thorough else 9))]

    def pair(ab):
        a, b = ab
        wd = os.path.join(tree.scratch, 'pair%s%s' % ab)
        os.makedirs(wd)
        for x in ab:
            shutil.copy(os.path.join(tree.root, 'test', x), wd)
        build.subprocess.run([tree.mc, '-S'] + inc + [a, b], cwd=wd, env=dict(build.ENV, TMPDIR=wd), stdin=build.subprocess.DEVNULL, stdout=build.subprocess.PIPE, stderr=build.subprocess.STDOUT, timeout=300)
        bad = []
        for x in ab:
            for e, v in alone[x][1:]:
                f = os.path.join(wd, x[:-4] + e)
                if (open(f, 'rb').read().replace(wd.encode() + b'/', b'') if os.path.exists(f) else None) != v:
                    bad.append(x[:-4] + e)
        shutil.rmtree(wd)
        return bad
    pairs = list(permutations(pick, 2))
    for ab, bad in zip(pairs, pmap(pair, pairs)):
        if bad and len(c.viol) < 4:
            c.report('compiling %s and %s with one command gives another %s' % (ab + (', '.join(bad),)), '')
    stats['inputs'] += 2 * len(files) + 2 * len(pairs)
    stats['accepted'] += sum(ok for _, ok, _, _ in res)
    if os.environ.get('MCV_ALL'):
        print('again', len(files), [x for x, ok, _, _ in res if not ok][:90], len(pairs))


def body(c):
    tree = Tree('boot')
    harness(tree)
    stats = dict(inputs=0, accepted=0)
    only = os.environ.get('MCV_ONLY')
    inc = [x for l in ('std', 'sys') for x in ('-I', tree.libs[l])]
    for name, items in (('tokens', tokseqs(c.thorough)), ('expressions', exprs(c.thorough)), ('edits', edits(tree, c.thorough)), ('cuts', cuts(tree, c.thorough)), ('bytes', bytestrs(c.thorough)), ('nesting', nesting(c.thorough)), ('types', rectypes(c.thorough))):
        if only and only != name:
            continue
        run(c, tree, items, stats, inc if name in ('edits', 'cuts') else ())
        if os.environ.get('MCV_ALL'):
            import time
            print(name, stats, time.time())
    if not only or only == 'again':
        again(c, tree, stats)
    c.add(executions=stats['inputs'] + stats['accepted'], transitions=stats['inputs'])


if __name__ == '__main__':
    main(body, 'C13')
