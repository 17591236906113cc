# One table for properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md.
# P(id, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)], technique, level, level_note, design)
PROPS = []
NOT_APPLICABLE = []


def P(id, title, stmt, over, qtext, why, files, mech, tech, level, note, design, hook=None, state=(), observe=()):
    PROPS.append(dict(id=id, title=title, stmt=' '.join(stmt.split()), over=over.split(), qtext=' '.join(qtext.split()),
                      why=' '.join(why.split()), files=files.split(), mech=mech, tech=' '.join(tech.split()), level=level,
                      note=' '.join(note.split()), design=' '.join(design.split()), hook=hook, state=list(state), observe=list(observe)))


def NA(id, reason):
    NOT_APPLICABLE.append((id, ' '.join(reason.split())))


# ---------------------------------------------------------------- compiler
P('C01', 'Integer expressions compute N-bit two\'s-complement results',
  '''For every integer type (int8..uint64, byte, char, int, uint) and bool, each operator (+ - * / % & | ^ ~ << >> unary -, ==
  != < <= > >=, && || !, casts, ++ --, and every compound assignment) yields the language-defined result for every combination of operand
  values and operand kinds (variable, literal, named constant, struct field, array or slice element, dereferenced pointer,
  call result).  The result does not depend on whether the compiler folds the expression or evaluates it at run time.''',
  'programs inputs', 'all programs made of one or two operators over every type, operand kind and boundary value',
  'test/*.myr executes a few dozen fixed expressions; the product of types, operators, operand kinds and values is far larger.',
  'parse/fold.c parse/infer.c 6/simp.c 6/isel.c 6/insns.def 6/ra.c', [('constant folder', 'parse/fold.c'), ('instruction selection', '6/isel.c')],
  'bounded exhaustive enumeration of programs and values; differential against a reference evaluator and folded vs. run-time',
  'model_checking', 'Exhaustive for the enumerated types x operators x operand kinds x boundary values at the stated depth; nothing is said about deeper expressions.',
  '')
P('C02', 'Floating-point expressions follow IEEE 754',
  '''For flt32 and flt64, arithmetic, comparison, negation, assignment, literals and conversions between the float
  types and every integer type give the IEEE 754 round-to-nearest result (truncation toward zero for float-to-integer in range), for every operand kind.''',
  'programs inputs', 'every operator and conversion over all pairs of a boundary set of floating values, each operand kind',
  'A handful of sample values are tested; signed zero, NaN comparisons, subnormals, integer-range edges and operand kinds are not.',
  'parse/fold.c 6/isel.c 6/simp.c 6/blob.c', [('float instruction selection', '6/isel.c')],
  'bounded exhaustive enumeration of programs and operand values against an IEEE reference', 'model_checking',
  'Exhaustive over the boundary set; out-of-range float-to-integer conversions are excluded (unspecified).', '')
P('C03', 'match runs the first clause whose pattern matches, with correct bindings',
  '''A match statement executes exactly the body of the first clause whose pattern matches the value, with every captured
  variable bound to the corresponding component, for every accepted combination of patterns over unions, tuples, structs, arrays, slices, pointers,
  strings, chars, integers and bools.''',
  'programs inputs', 'all pattern matrices up to a bound over a family of small types, on every value of the type',
  'The decision-tree compiler behaves differently for each pattern matrix; tests fix a few dozen matrices and one or two values each.',
  'mi/match.c 6/simp.c mi/flatten.c', [('decision tree construction', 'mi/match.c')],
  'exhaustive enumeration of pattern matrices and values against a first-match reference interpreter', 'model_checking',
  'Exhaustive for matrices up to the stated number of rows and the type family; larger matrices are not covered.',
  'Every accepted matrix over a family of about 40 types (bounded breadth-first, all useful row sequences) is compiled and run on every value, in seven subject positions, in match and in for patterns; matrices over three bools for struct, tuple, array, nested, union payload and pointer; or-patterns binding at different places; long strings, wide unions, many literals.  Or-pattern captures must be listed in the same order in each alternative (the compiler insists).  Patterns on void through pointers, elements and iterators are left out: taking the address of a void variable is not supported by 6m.')
P('C04', 'match is accepted exactly when exhaustive and free of unreachable clauses',
  '''The compiler rejects a match whose clauses do not cover every value of the matched type, rejects a match with a clause that can
  never be reached, and accepts every other well-typed match.''',
  'programs', 'all pattern matrices up to a bound over a family of small types',
  'The tests hold a few dozen accept and reject samples; the checker must be right for every pattern matrix.',
  'mi/match.c parse/infer.c', [('exhaustiveness and usefulness checks', 'mi/match.c')],
  'exhaustive enumeration of pattern matrices; verdict compared with set semantics computed by brute force', 'model_checking',
  'Exhaustive for the matrices enumerated; types with infinitely many values (ints, strings) are represented by their literals plus a fresh value.',
  'Each enumerated row sequence is ok, nonexhaustive or unreachable by brute-force set semantics; the compiler must accept (and the object must link and run) or refuse with status 1.  Whether a partly redundant or-pattern (one alternative covered, the clause reachable) is an error is not specified, so those rows are extended but not judged.')
P('C05', 'Control flow executes statements in the order the source prescribes',
  '''For every program built from sequencing, if/elif/else, for, while, for-in iteration, match, break, continue, goto, early return, short-circuit operators
  and calls, the sequence of executed effects equals that of the source semantics, with operands and arguments evaluated left to right (assignments right to left).''',
  'programs', 'all statement skeletons up to a depth and all truth assignments to their conditions',
  'Tests run fixed skeletons with one trace; the lowering and CFG clean-up must be right for every nesting.',
  'mi/flatten.c mi/cfg.c 6/simp.c 6/isel.c 6/peep.c', [('flattening of structured control', 'mi/flatten.c'), ('cfg construction', 'mi/cfg.c')],
  'exhaustive enumeration of statement skeletons and condition outcomes against a reference interpreter', 'model_checking',
  'Exhaustive up to the stated nesting depth and number of statements.', '')
P('C06', 'Values survive calls, returns, closures and variadics whatever their layout',
  '''Arguments and return values of every type (scalars of each size, floats, structs, tuples, arrays, unions, slices, function values)
  arrive unchanged through direct, indirect, closure and variadic calls, for every arrangement of parameters, and in both directions between Myrddin and C code following the platform ABI.''',
  'programs', '7,400 signatures (all pairs over 31 kinds of parameter behind 10 register prefixes, all triples over 11, up to 32 parameters), 680 types, 2,900 variadic calls with their type descriptions; each called directly, through a value, as a closure, with literals and with results, and through C',
  'test/abi holds six fixed signature sets; register versus stack assignment depends on the whole signature.',
  '6/typeinfo.c 6/isel.c 6/simp.c 6/locs.c mi/flatten.c parse/type.c', [('argument classification', '6/typeinfo.c'), ('call sequence', '6/isel.c')],
  'exhaustive enumeration of call signatures with position-dependent values; C side compiled by gcc as oracle', 'model_checking',
  'Exhaustive for the enumerated signatures.  gcc is trusted for the C side.', '')
P('C07', 'Ill-typed programs are rejected and well-typed programs accepted',
  '''A program is accepted only if every operand, argument, assignment, initializer, return value, member access and trait-constrained use has the required type (no implicit conversions),
  its declarations, implementations, calls, aggregates and jumps are complete and well formed, and every program satisfying the typing rules is accepted.''',
  'programs', '366,000 programs: every way a value flows from one place to another at every ordered pair of a family of types, also inside generics and at structs and unions without names; every set of up to three traits where each is needed; every operator and cast at every pair of types and every type for its result; every path of up to three (thorough: four) selectors from every starting type to every result type; every literal at every type; every trait constraint at every type; 144 rules about declarations, every way of assigning to every kind of place, calls, aggregates, lvalues and control flow',
  'The test suite samples individual type errors; the rules range over all type combinations.',
  'parse/infer.c parse/type.c parse/stab.c parse/specialize.c', [('unification and trait checks', 'parse/infer.c')],
  'exhaustive enumeration of typed programs against a reference type checker, each decided by the real compiler', 'model_checking',
  'Exhaustive for the enumerated forms and type family.  Not judged: && and || at equal types which are not bool, unused type parameters in a type body, traits of a named type whose base type implements them, the traits a trait asks of its own parameter (the library itself has impls without them).',
  'Programs that must be accepted are compiled together, hundreds per unit, and bisected if the unit is refused; those that must be refused are compiled one by one (a hundred compilers per runner process, 8 runners), and must be refused with an exit status of 1 and a message about their meaning, not about their syntax. Found and repaired seven defects, among them impls which left out functions of their trait, two traits of one name, infinite types, assignments to constants, and structs taken for ones with another layout.')
P('C08', 'Splitting a program into separately compiled units does not change it',
  '''Exporting declarations (constants, functions, variables, types, generics, traits, impls) through compiled use files and importing them elsewhere, directly, through other units, or out of a library
  put together by muse, gives the importing program the same behaviour as when everything is compiled in one file; names that are not exported, and pkglocal names outside
  their library, cannot be referred to.''',
  'programs', '32,000 programs: every type, constant, function and trait form as an exported entity x 13 ways to put the units together, whole programs as exported generics',
  'Tests check a few hand-written imports; serialization covers every node and type form.',
  'parse/use.c parse/export.c muse/muse.c parse/stab.c parse/specialize.c util/pack.c', [('use-file (de)serialization', 'parse/use.c'), ('merge', 'muse/muse.c')],
  'exhaustive enumeration of exported entities x unit layouts, run on the real compiler and muse and compared with the single-unit meaning', 'model_checking',
  'Exhaustive for the enumerated entities, layouts (at most three units and a library).', '')
P('C09', 'Generics and traits dispatch on the type they are used at',
  '''Each use of a generic function, parameterized type or trait method behaves as the code specialized to the concrete types of that use,
  whichever other specializations exist and in whatever order they appear, including nested and indirect generic uses.''',
  'programs', '17,500 programs: every type up to a size described through generic impls; every set of up to 2 (thorough: 3) of 28 impl patterns at 26 types against the most specific rule; impls with constraints; traits and iterators with a second type; 27 shapes of generic code (recursion, closures, unions, traits over containers, trait constants, ...) at every ordered pair of 21 types and at all types in every rotation',
  'Tests instantiate one or two types each; confusion between specializations needs particular combinations.',
  'parse/specialize.c parse/type.c parse/stab.c parse/infer.c 6/simp.c', [('specialization cache', 'parse/specialize.c')],
  'exhaustive enumeration of instantiation sets against the monomorphic program', 'model_checking',
  'Exhaustive for the enumerated type family and generic shapes.', 'Where two implementations are equally specific the program must be refused.')
P('C10', 'Closures capture by value at creation',
  '''A function literal observes, for every captured stack variable, the value at the moment the literal was evaluated, for variables of every type and count, through nesting, heap copies and later modification of the variable;
  globals are shared, not copied.''',
  'programs', '27,000 programs: every set of up to 3 of 16 types captured (thorough: 4), up to 40 captures at once, every history of 4 (thorough: 5) of 11 operations on variable, closures and copies, every nesting to depth 3 of functions, closures and blocks, 32 kinds of binding x 17 closure bodies x 16 uses, shadowing in all blocks',
  'Tests use two or three closures; capture layout depends on the whole set of captured variables.',
  '6/simp.c parse/stab.c mi/flatten.c parse/specialize.c', [('environment construction', '6/simp.c')],
  'exhaustive enumeration of capture sets and modification orders against a reference interpreter', 'model_checking',
  'Exhaustive for the enumerated capture sets.', '')
P('C11', 'Indexing and slicing are bounds-checked exactly',
  '''Indexing or slicing an array or slice yields the addressed elements when the bounds are inside the object and aborts the program otherwise, for every index type, value (including negative and huge ones), operand kind and nesting;
  no out-of-range access ever reads or writes memory.''',
  'programs inputs', '14,000 programs run 1.7 million times: every container kind, index type, index expression form and operation, at every boundary value; the memory around the object is checked after each',
  'The tests only exercise in-range accesses.',
  '6/simp.c mi/flatten.c 6/isel.c rt/abort-linux.s', [('bounds checks inserted at lowering', 'mi/flatten.c')],
  'exhaustive enumeration of access forms and index values against a reference', 'model_checking',
  'Exhaustive for the enumerated lengths and indices; pointer slicing is unchecked by design and excluded.', '')
P('C12', 'Literals denote the values the language defines',
  '''Every integer (decimal, hex, octal, binary, with underscores and type suffixes), character, string and floating literal, including all escape sequences and adjacent-string merging, denotes exactly the value the
  language defines, and malformed literals are rejected.''',
  'programs', 'every text of up to 3 to 5 characters over several alphabets of digits, prefixes, suffixes, points, exponents and underscores (classified by a reference reader into must accept, may accept, must refuse); every integer type against every power of two plus or minus one in four bases; every code point up to U+1200 and every 23rd after (thorough: all) raw and escaped; every byte, every pair of 52 string pieces, every triple (thorough: quadruple) of 12, lengths around every power of two, merging with every separator; every comment body of up to 6 characters; keywords, near keywords and names up to the limit',
  'Only a few literals are tested.', 'parse/tok.c parse/fold.c 6/blob.c 6/gengas.c', [('tokenizer', 'parse/tok.c')],
  'exhaustive enumeration of literal texts against a reference lexer', 'model_checking', 'Exhaustive up to the stated lengths; spellings the manual does not decide (1., 1__0, 1e5) are compared only when accepted.', '')
P('C13', 'The compiler is total and deterministic',
  '''On any input the compiler either succeeds or reports an error with a nonzero exit status; it never crashes, hangs or silently emits an object for an erroneous input, and compiling the same
  input twice, in any directory or order, gives identical assembly and use files (up to the directory names in debug information).''',
  'inputs programs', '290,000 inputs: all token sequences up to a length in eleven syntactic contexts; all well-formed expressions of two levels, of any type, in every place an expression can go; every deletion, duplication, swap and replacement of a token in a corpus of real units; every prefix of them; every byte string up to a length and every byte replaced in a small program; nesting of every construct to every power of two, tokens of all lengths around the powers of two, comments with missing and superfluous ends; every type made of itself or of ever larger instances through two levels of type constructors; every unit of the repository twice in different directories, and pairs in one command',
  'Tests feed well-formed files only, plus a few known errors.',
  'parse/tok.c parse/gram.y parse/infer.c parse/stab.c parse/specialize.c parse/export.c parse/use.c parse/dump.c mi/flatten.c mi/match.c 6/main.c 6/simp.c 6/isel.c 6/typeinfo.c', [('diagnostics', 'parse/err.c'), ('driver', '6/main.c')],
  'exhaustive enumeration of token sequences, expressions and single-edit neighbourhoods, observing exit status and output', 'model_checking',
  'Exhaustive for the stated lengths, depths and edits.',
  'Each input is compiled twice by the real 6m (a forking runner keeps eight going, each with limits on time and memory): the two runs must agree in exit status, assembly and use file; a signal, a timeout or a status other than 0 and 1 is a crash; status 1 must come with a message and without an object. Found and repaired a dozen crashes and hangs.')
P('C14', 'Initializers run once each, dependencies first, before main',
  '''Every unit's __init__ runs exactly once, after those of the units and libraries it uses and before main, and every __fini__ exactly once after main, for every shape of the use graph and every way of putting
  the units into libraries; static initial values are there by then.''',
  'programs', '3,600 programs: all graphs in which up to three units use each other in any order, and all of four units with the order fixed, as units, in one library in every order, in two libraries; every set of units with initialisers',
  'Tests have one fixed graph.', 'parse/use.c parse/specialize.c parse/gram.y muse/muse.c', [('reading init calls', 'parse/use.c'), ('init call generation', 'parse/specialize.c')],
  'exhaustive enumeration of use graphs, run on the real compiler and muse, against the partial order of the graph', 'model_checking', 'Exhaustive up to four units and two libraries.', '')
P('C15', 'Aggregate values are copied, accessed and laid out correctly',
  '''Structs, tuples, arrays, unions and nested aggregates keep every member's value through construction, member assignment, whole assignment, element access, swapping, pattern matching, initialised data and by-value passing; writing one member never
  changes another, and size and alignment agree with the documented C-compatible layout.''',
  'programs', '680 aggregate types (all pairs over 8 scalars, all triples over 5, arrays, unions, nestings), 25,000 operations on them: literals, initialised data, copies, swaps, each member written and read directly, through pointers, in arrays and globals, guard bytes around each',
  'Layout and copy code paths depend on the sizes and order of the members; tests have a few fixed structs.',
  '6/typeinfo.c 6/simp.c 6/isel.c 6/blob.c parse/fold.c mi/flatten.c', [('layout', '6/typeinfo.c'), ('blit', '6/isel.c')],
  'exhaustive enumeration of aggregate shapes and operations against a reference layout and value model', 'model_checking',
  'Exhaustive for the enumerated shapes.', '')
P('C16', 'Register pressure never changes results',
  '''However many values of whatever mix of types are simultaneously live, across calls, divisions, shifts, comparisons and loops, each keeps its value: register allocation, coalescing and spilling are invisible.''',
  'programs', 'all live-set sizes and type mixes up to a bound, crossed with clobbering operations, plus all small data-flow graphs',
  'Tests contain one spill test.', '6/ra.c 6/isel.c 6/insns.def mi/reaching.c util/bitset.c', [('iterated register coalescing', '6/ra.c')],
  'exhaustive enumeration of data-flow graphs and live sets against a reference evaluator', 'model_checking',
  'Exhaustive for the enumerated program families.', '')

P('C17', 'Outputs go where the command line says; used packages are found where searched',
  '''Every invocation of the compiler writes, for each input, exactly the object, use and (with -S) assembly files its options name, made from that input, whatever the names and directories of inputs and outputs and however many inputs there are;
  a used unit or library is the first one found in the documented search order; a failing input or step makes the status nonzero; nothing is left in the temporary directory, or written elsewhere. The same goes for muse.''',
  'invocations', '8,000 invocations: 15 names in 10 kinds of directory x every output option with 25 paths, every sequence of up to 3 of 6 inputs, every placement of 6 kinds of error, of 11 ways for the assembler to fail, and of outputs that can not be made; every set of places a used unit or library is in, under every option and include order; muse over every order of up to 3 units',
  'The tests compile files with plain names one at a time.',
  '6/main.c util/util.c parse/use.c muse/muse.c', [('output paths', '6/main.c'), ('search order', 'parse/use.c')],
  'exhaustive enumeration of invocations in directories of their own against a reference of which files appear with what in them', 'model_checking',
  'Exhaustive for the enumerated names, options and placements; names with two tags (documentation and build tool disagree) are left out.', '')

# ---------------------------------------------------------------- mbld
P('M01', 'An incremental build equals a clean build',
  '''After any sequence of edits to the sources of a project (changing bodies or interfaces, adding or removing uses, files, or library dependencies, failing edits and their repair, lost outputs and interrupted builds), running the build tool
  leaves binaries that behave exactly like those of a clean build of the same sources, and it rebuilds nothing when nothing changed.''',
  'histories', 'the project of two libraries and a program with 46 variants of its 11 files: every edit (any file to any variant, any file touched, any output lost, a build interrupted at any step), then every change to the first variants of a file, and every two changes at once (thorough: every two edits, and three of the latter)',
  'The test suite only does clean builds.', 'mbld/deps.myr mbld/build.myr mbld/libs.myr mbld/parse.myr muse/muse.c parse/use.c', [('dependency graph and timestamps', 'mbld/deps.myr'), ('staleness', 'mbld/build.myr')],
  'exhaustive enumeration of edit histories with the real mbld, compiler and muse; differential against a build from nothing', 'model_checking',
  'Exhaustive over the edit alphabet to the stated depth, with distinguishable timestamps (everything is aged by ten seconds after each build).', '')
P('M02', 'Build descriptions are honoured: order, tags, cycles and missing inputs',
  '''The build tool runs no step before everything it needs (the files and libraries a source uses, the objects of a library or program) has been made, in whatever order steps end and however many may run at once; it ends, with everything made, or with
  nonzero status if a step failed, and then nothing that needs that step is run. It picks the variant of a tag-selected file all of whose tags hold and which has most; fails with a diagnostic and nonzero status, and runs nothing, on cyclic, missing or
  malformed inputs; cleaning removes what was built and nothing else; a failing, crashing or incomplete test makes the test run fail, and no other does.''',
  'schedules', 'every schedule (which running step ends next, and whether it fails or crashes) of the builds of every acyclic use graph of up to 3 files with 1, 2 and 8 jobs, of 4 files in order, and of 32 projects with libraries; all 487 cyclic graphs of 3 files; every choice of up to 3 of 9 variants of a file under 4 sets of tags; every set of up to 3 of 11 tag rules; 336 transcripts of a test',
  'Tests build this one repository.', 'mbld/deps.myr mbld/build.myr mbld/syssel.myr mbld/test.myr mbld/subtest.myr mbld/parse.myr', [('scheduling', 'mbld/build.myr'), ('system selection', 'mbld/syssel.myr'), ('test status parsing', 'mbld/subtest.myr')],
  'stateless exploration of all schedules of the real mbld, with the tools it runs replaced by stand-ins that end when and how the checker says; exhaustive enumeration of small projects', 'model_checking',
  'Exhaustive for the enumerated projects. Which of two variants with as many tags is taken is not said anywhere, and not checked; a file none of whose variants applies is left out.', '')

# ---------------------------------------------------------------- std
P('S01', 'The allocator never hands out overlapping memory and preserves contents',
  '''For every history of allocate, zero-allocate, grow, shrink and free through the slice, value and byte interfaces, live blocks never overlap each other, keep their contents across every other operation,
  are at least the requested length and suitably aligned, zero-allocated blocks are zero, and growing keeps the common prefix; a freed block can be reused.''',
  'histories', 'all operation histories up to a depth over sizes on both sides of every size-class, slab and cache threshold',
  'One test allocates a few sizes.', 'lib/std/alloc.myr lib/std/bytealloc.myr lib/std/mk.myr', [('slab buckets', 'lib/std/bytealloc.myr'), ('big-block cache', 'lib/std/bytealloc.myr')],
  'explicit exploration of operation histories on the real allocator with a shadow-memory oracle', 'model_checking', 'Exhaustive to the stated depth over the size alphabet.', '')
P('S02', 'Slice operations behave like a sequence',
  '''Every history of push, pop, put, delete, join, grow, dup, fill, copy and compare on slices gives the contents the same operations give on a mathematical sequence, for elements of every size,
  without disturbing other slices.''',
  'histories', 'all operation histories up to a depth, several element types, crossing growth thresholds',
  'Tests run one fixed sequence per operation.', 'lib/std/slput.myr lib/std/slpush.myr lib/std/slpop.myr lib/std/sljoin.myr lib/std/alloc.myr lib/std/slcp.myr lib/std/sldup.myr lib/std/sleq.myr lib/std/slfill.myr lib/std/memops-impl.myr',
  [('slgrow/slzgrow', 'lib/std/alloc.myr')], 'explicit exploration of operation histories against a sequence model', 'model_checking', 'Exhaustive to the stated depth.', '')
P('S03', 'Hash tables behave like a finite map',
  '''Every history of insert, overwrite, delete, lookup, key listing, counting and iteration gives the answers of a finite map, including under hash collisions, tombstones and growth, for integer, string, tuple-like and user-defined keys.''',
  'histories', 'all operation histories up to a depth over colliding keys, from an empty table and from tables near a resize',
  'Tests insert and look up in one order.', 'lib/std/htab.myr lib/std/hashfuncs.myr', [('open addressing with tombstones', 'lib/std/htab.myr')],
  'breadth-first exploration of operation histories on the real table against a map model', 'model_checking', 'Exhaustive to the stated depth over the key alphabet.', '')
P('S04', 'Bit sets behave like sets of naturals',
  '''Every history of put, delete, membership, count, maximum, union, intersection, difference, subset, equality, hashing, duplication and iteration gives the answers of finite sets, whatever the internal sizes of the operands.''',
  'histories', 'all pairs of sets over a boundary universe reached by different histories, and all operation histories up to a depth',
  'Tests use a few fixed sets.', 'lib/std/bitset.myr', [('word array', 'lib/std/bitset.myr')], 'explicit exploration against a set model', 'model_checking', 'Exhaustive over the boundary universe.', '')
P('S05', 'Big integers compute exact integer arithmetic',
  '''Addition, subtraction, multiplication, truncated division and remainder, shifts, bitwise and/or, modular exponentiation, comparison, bit count and small-integer variants agree with mathematical integers for all signs and lengths,
  including aliased operands.''',
  'inputs', 'all operand pairs over a limb-boundary set of magnitudes and signs', 'Tests check a few dozen values; carries and quotient corrections need rare limb patterns.',
  'lib/std/bigint.myr', [('schoolbook division', 'lib/std/bigint.myr')], 'exhaustive enumeration of operand pairs over limb-boundary alphabets against Python integers', 'model_checking', 'Exhaustive over the limb alphabet.', '')
P('S06', 'Integers and big integers print and parse exactly',
  '''Formatting any integer in any supported base, width and padding yields its exact numeral, and parsing accepts exactly the well-formed numerals of the base, yielding their value; parse inverts format for every type.''',
  'inputs', 'all values of 8- and 16-bit types, boundary values of wider ones, all short numeral strings over a digit/sign/prefix alphabet',
  'Tests sample.', 'lib/std/intfmt.myr lib/std/intparse.myr lib/std/bigint.myr lib/std/fmt.myr', [('digit loops', 'lib/std/intfmt.myr')],
  'exhaustive enumeration of values, format options and numeral strings against a reference', 'model_checking', 'Exhaustive over the stated sets.', '')
P('S07', 'Floats print shortest and parse correctly rounded',
  '''Formatting a finite flt64 or flt32 yields a decimal that parses back to the same value, and parsing a decimal numeral yields the nearest representable value (ties to even), with infinities, NaN, signed zero, overflow and underflow handled; malformed text is rejected.''',
  'inputs', 'all exponents x boundary mantissas of both formats, halfway decimals, and all short numeral strings over a digit/sign/point/exponent alphabet',
  'Tests sample a few dozen values.', 'lib/std/fltfmt.myr lib/std/fltparse.myr lib/std/fltbits.myr', [('exact bigint conversion', 'lib/std/fltparse.myr')],
  'exhaustive enumeration over exponents and boundary mantissas against exact rational arithmetic', 'model_checking', 'Exhaustive over the stated sets.', '')
P('S08', 'UTF-8 encoding, decoding and stepping, and the character classes, are exact',
  '''Every valid code point encodes to its unique UTF-8 form and decodes back to itself; a byte that cannot start a character and a character cut short by the end of the text decode as bad and are stepped over one byte at a time, never reading past the text; stepping through any byte string visits
  every byte exactly once; digit, alphabetic, case, space and numeric classification and case mapping give the Unicode answers for letters and digits of the covered tables.''',
  'inputs', 'every code point and every byte sequence up to four bytes over a boundary byte alphabet', 'Tests sample.', 'lib/std/utf.myr lib/std/chartype.myr lib/std/striter.myr', [('decode table', 'lib/std/utf.myr')],
  'exhaustive enumeration of code points and byte sequences against a reference decoder', 'model_checking', 'All code points; all sequences over the boundary alphabet.', '')
P('S09', 'String search, split, join, replace, strip and compare are exact',
  '''Find (first and last), prefix/suffix tests, split, tokenize, join, concatenate, replace, strip, case-insensitive and bounded comparison, and the string iterators return what their definitions prescribe for every string, delimiter and bound; splitting then joining with the same delimiter gives back the text.''',
  'inputs', 'all strings up to a length over a small alphabet including multi-byte and blank characters, all short needles', 'Tests sample.',
  'lib/std/strfind.myr lib/std/strsplit.myr lib/std/strjoin.myr lib/std/strreplace.myr lib/std/strstrip.myr lib/std/striter.myr lib/std/cmp.myr lib/std/hasprefix.myr lib/std/hassuffix.myr lib/std/chomp.myr lib/std/strbuf.myr',
  [('strfind', 'lib/std/strfind.myr')], 'exhaustive enumeration of strings against Python references', 'model_checking', 'Exhaustive up to the stated lengths; spellings the manual does not decide (1., 1__0, 1e5) are compared only when accepted.', '')
P('S10', 'Sorting sorts, searching finds',
  '''Sorting any sequence under any total preorder leaves a permutation of the input in order; binary and linear search on a sequence return an index of a matching element exactly when there is one.''',
  'inputs', 'all sequences up to a length over small key alphabets, plus adversarial patterns at larger lengths', 'Tests sample.', 'lib/std/sort.myr lib/std/search.myr lib/std/swap.myr lib/std/extremum.myr', [('quick/heap sort', 'lib/std/sort.myr')],
  'exhaustive enumeration of input sequences', 'model_checking', 'Exhaustive up to the stated lengths; spellings the manual does not decide (1., 1__0, 1e5) are compared only when accepted.', '')
P('S11', 'Path operations are consistent',
  '''Normalizing a path yields the equivalent path without empty, '.' or resolvable '..' components and is idempotent; joining and concatenating keep components in order; directory and base names recompose to an equivalent path.''',
  'inputs', 'all paths up to a number of components over an alphabet of component kinds and slash runs', 'Tests sample.', 'lib/std/pathjoin.myr lib/std/dirname.myr lib/std/mkpath.myr', [('pathnorm', 'lib/std/pathjoin.myr')],
  'exhaustive enumeration of paths against a reference', 'model_checking', 'Exhaustive up to the stated length.', '')
P('S12', 'Option parsing follows the declared options',
  '''For every declaration of flags, options with required or optional values and argument counts, and every argument vector, parsing returns exactly the options (with their values, in order) and positional arguments that the declaration prescribes, or exits with usage on a malformed vector.''',
  'inputs configurations', 'all argument vectors up to a length over a token alphabet for a family of declarations', 'Tests sample.', 'lib/std/optparse.myr', [('optparse', 'lib/std/optparse.myr')],
  'exhaustive enumeration of argument vectors against a reference parser', 'model_checking', 'Exhaustive up to the stated length.', '')
P('S13', 'IP address text is parsed exactly',
  '''An IPv4 dotted quad or IPv6 text is accepted exactly when well-formed and then yields the address bytes it denotes; every other string is rejected.''',
  'inputs', 'all strings over address alphabets up to a length and all structured combinations of groups and compression', 'Tests sample.', 'lib/std/ipparse.myr', [('ipparse', 'lib/std/ipparse.myr')],
  'exhaustive enumeration of address strings against Python ipaddress', 'model_checking', 'Exhaustive over the structured grammar.', '')
P('S14', 'Formatting renders every value of every type as documented',
  '''Formatting with any format string and argument list substitutes, in order, the documented rendering of each argument (integers, floats, chars, strings, bools, pointers, slices, arrays, tuples, structs, unions and registered custom types) with its options, keeps literal text and doubled braces, and
  gives the same bytes through every output interface.''',
  'inputs programs', 'all format strings up to a number of directives over the option alphabet, and all small values of a type family', 'Tests sample.',
  'lib/std/fmt.myr lib/std/varargs.myr lib/std/introspect.myr lib/std/strbuf.myr 6/typeinfo.c', [('varargs type walk', 'lib/std/varargs.myr')],
  'exhaustive enumeration of format strings and typed values against a reference formatter', 'model_checking', 'Exhaustive over the stated alphabets.', '')
P('S15', 'Whole-file I/O is complete under short transfers and errors',
  '''Reading or writing a whole file or descriptor transfers exactly the bytes present or given under every pattern of short reads and writes and interruptions, and reports an error whenever the transfer could not complete.''',
  'fault_sequences', 'every sequence of short counts and errors returned by the system, up to a depth', 'Real files never return short counts in the tests.', 'lib/std/readall.myr lib/std/writeall.myr lib/std/slurp.myr lib/std/blat.myr lib/std/syswrap+posixy.myr',
  [('retry loops', 'lib/std/readall.myr')], 'exhaustive enumeration of system-call results injected at the syscall seam', 'fault_enumeration', 'Exhaustive over the result alphabet to the stated depth.', '')
P('S16', 'Fixed-width integer encoding, byte order and hashing helpers are exact',
  '''Storing and loading integers in little, big and host byte order at every width, byte swapping, minimum, maximum, clamp and absolute value, and memory copy, fill and compare at every length, alignment and overlap give the defined results and touch nothing else; the keyed hash equals the SipHash-2-4 reference.''',
  'inputs', 'all widths x boundary values x offsets; all lengths 0..300 x alignments x overlaps', 'Tests sample.', 'lib/std/getint.myr lib/std/putint.myr lib/std/endian.myr lib/std/extremum.myr lib/std/memops-impl+posixy-x64.s lib/std/memops.myr lib/std/hashfuncs.myr',
  [('memblit', 'lib/std/memops-impl+posixy-x64.s')], 'exhaustive enumeration of lengths, alignments, overlaps and values', 'model_checking', 'Exhaustive over the stated ranges.', '')

# ---------------------------------------------------------------- other libraries
P('L01', 'Buffered I/O delivers the exact byte stream under any transfer pattern',
  '''For every sequence of buffered reads, writes, peeks, seeks, line and delimiter reads, unit and integer reads and flushes, over any device returning arbitrary short counts, end of file or errors, the bytes delivered or
  written are exactly the device's stream in order with none lost or duplicated, and errors and end of file are reported, not swallowed.''',
  'fault_sequences histories', 'all operation histories up to a depth crossed with all device answers, with sizes around the buffer boundaries', 'Tests use real files, which never return short counts.', 'lib/bio/bio.myr lib/bio/fd.myr lib/bio/mem.myr lib/bio/iter.myr lib/bio/geti.myr lib/bio/puti.myr lib/bio/types.myr',
  [('fill and ensureread', 'lib/bio/bio.myr')], 'exhaustive enumeration of operation histories x injected device answers against a byte-stream model', 'fault_enumeration', 'Exhaustive to the stated depth.', '')
P('L02', 'Regular expressions match what they denote',
  '''For every supported pattern and every input, matching and searching succeed exactly when the pattern's language contains the text (respectively a substring), captures delimit sub-matches of a leftmost match, substitution replaces exactly the matches, and malformed patterns are rejected.''',
  'inputs', 'all patterns up to a size over the operator alphabet, on all texts up to a length', 'Tests sample.', 'lib/regex/compile.myr lib/regex/interp.myr lib/regex/types.myr lib/regex/ranges.myr', [('Pike VM', 'lib/regex/interp.myr')],
  'exhaustive enumeration of patterns x texts against a reference matcher', 'model_checking', 'Exhaustive up to the stated sizes.', '')
P('L03', 'JSON parsing accepts exactly JSON and round-trips',
  '''Parsing accepts exactly the texts of the JSON grammar and yields the values they denote; formatting a parsed value gives a JSON text that parses to an equal value; rejected input reports an error without crashing.''',
  'inputs', 'all token sequences up to a length, all strings of escape forms, all numbers over a small alphabet', 'Tests sample.', 'lib/json/parse.myr lib/json/fmt.myr lib/json/types.myr', [('recursive descent parser', 'lib/json/parse.myr')],
  'exhaustive enumeration of token sequences against Python json', 'model_checking', 'Exhaustive up to the stated lengths; spellings the manual does not decide (1., 1__0, 1e5) are compared only when accepted.', '')
P('L04', 'INI files parse, look up and write back faithfully',
  '''Parsing an INI text yields exactly its section/key/value triples (with repeated keys accumulating), lookups return exactly those, malformed lines are rejected, and writing then reparsing gives the same contents; puts and adds act like a map update.''',
  'inputs histories', 'all short line sequences over a line alphabet and all access histories up to a depth', 'One small file is tested.', 'lib/inifile/parse.myr lib/inifile/access.myr lib/inifile/write.myr lib/inifile/types.myr', [('parser', 'lib/inifile/parse.myr')],
  'exhaustive enumeration of files and access histories against a model', 'model_checking', 'Exhaustive up to the stated lengths; spellings the manual does not decide (1., 1__0, 1e5) are compared only when accepted.', '')
P('L05', 'Calendar conversions are exact',
  '''Converting between instants and calendar dates is a bijection consistent with the proleptic Gregorian calendar, with correct weekday and time of day, adding and subtracting periods is exact, and formatting then parsing a date with the same pattern returns it.''',
  'inputs', 'every day over several 400-year cycles including before 1970, all boundary times and offsets', 'Tests sample a few dates.', 'lib/date/date.myr lib/date/fmt.myr lib/date/parse.myr lib/date/names.myr lib/date/zoneinfo+posixy.myr', [('civil conversion', 'lib/date/date.myr')],
  'exhaustive enumeration of days against Python datetime and a reference civil calendar', 'model_checking', 'Exhaustive over the stated date range.', '')
P('L06', 'Inflate decodes every valid stream and rejects invalid ones safely',
  '''Decompressing any valid DEFLATE stream yields exactly the original bytes whatever the block types, code tables, distances and input chunking; truncated or invalid streams give an error and never crash, hang or read outside the window.''',
  'inputs', 'all streams of zlib over a family of data and strategies, all single-byte and truncation mutations, all small hand-built block structures', 'Tests sample.', 'lib/flate/flate.myr lib/flate/types.myr', [('decoder', 'lib/flate/flate.myr')],
  'exhaustive enumeration of small streams and mutations against zlib', 'model_checking', 'Exhaustive for the enumerated streams.', '')
P('L07', 'Hashes, HMAC and ciphers equal their specifications for any input split',
  '''MD5, SHA-1, SHA-2, SHA-3, HMAC, ChaCha20 and AES produce the standard results for every message length, however the message is split into updates, and decryption inverts encryption.''',
  'inputs', 'every message length across several blocks, every two-way split, every pair of small chunk sizes', 'Tests use a few standard vectors in one update.', 'lib/crypto/md5.myr lib/crypto/sha1.myr lib/crypto/sha256.myr lib/crypto/sha512.myr lib/crypto/sha3.myr lib/crypto/hmac.myr lib/crypto/chacha20.myr lib/crypto/aes.myr lib/crypto/hash.myr',
  [('block buffering', 'lib/crypto/sha256.myr')], 'exhaustive enumeration of lengths and splits against Python hashlib and reference ciphers', 'model_checking', 'Exhaustive up to the stated lengths with fixed content families.', '')
P('L08', 'Constant-time big integers, Curve25519 and RSA arithmetic are exact',
  '''Fixed-width modular arithmetic (add, subtract, multiply, modular reduction and exponentiation, comparisons and selects) equals integer arithmetic for all operands of the width, the curve operation equals the X25519 function, and the constant-time primitives equal their definitions.''',
  'inputs', 'all operand tuples over limb-boundary values', 'Tests use a few vectors.', 'lib/crypto/ctbig.myr lib/crypto/ct.myr lib/crypto/curve25519.myr lib/crypto/rsa.myr', [('limb arithmetic', 'lib/crypto/ctbig.myr')],
  'exhaustive enumeration over limb-boundary operands against Python integers', 'model_checking', 'Exhaustive over the limb alphabet.', '')
P('L09', 'URLs and HTTP messages are parsed and framed exactly',
  '''A URL is split into scheme, host, port, path, query and fragment exactly as written and formats back to itself; requests and responses are framed by their content length or chunk sizes whatever the transfer boundaries, so that one message never bleeds into the next, and malformed input gives an error.''',
  'inputs fault_sequences', 'all URLs from a component alphabet; all small messages x all split points', 'Two URL tests exist.', 'lib/http/url.myr lib/http/parse.myr lib/http/client.myr lib/http/server.myr lib/http/session.myr', [('chunk parser', 'lib/http/parse.myr')],
  'exhaustive enumeration of URLs and of messages x delivery splits', 'model_checking', 'Exhaustive over the stated alphabets.', '')
P('L10', 'Escaping makes any text inert in its target syntax',
  '''Escaping any byte string for the shell, HTML, a URL or a regular expression yields text that the target syntax reads back as exactly the original string, with no character keeping a special meaning.''',
  'inputs', 'all byte strings up to a length over the special characters of each syntax, and every single byte and code point', 'Tests sample.', 'lib/escfmt/escsh.myr lib/escfmt/eschtml.myr lib/escfmt/escurl.myr lib/escfmt/escre.myr', [('escape tables', 'lib/escfmt/escsh.myr')],
  'exhaustive enumeration of strings, decoded by the real target interpreter', 'model_checking', 'Exhaustive up to the stated length.', '')
P('L11', 'Iterators visit exactly the right elements in order',
  '''Chunking, enumerating, reversing, zipping, by-reference and permutation iterators yield exactly the elements their definition prescribes, once each, in order, for every input length and parameter, including empty inputs; permutations are all distinct and complete.''',
  'inputs', 'all input lengths 0..8, all parameters, sequences with and without repeats', 'Tests sample.', 'lib/iter/chunk.myr lib/iter/enum.myr lib/iter/perm.myr lib/iter/ref.myr lib/iter/reverse.myr lib/iter/zip.myr', [('permutation step', 'lib/iter/perm.myr')],
  'exhaustive enumeration of inputs against a reference', 'model_checking', 'Exhaustive up to the stated lengths; spellings the manual does not decide (1., 1__0, 1e5) are compared only when accepted.', '')
P('L12', 'Exactly-rounded math functions are exact',
  '''Floor, ceil, truncate, round-to-integer, square root, fused multiply-add and scaling by powers of two return the correctly rounded result for every input, in both precisions, and agree between the hardware and the portable implementation; elementary functions respect their exact special cases.''',
  'inputs', 'all exponents x boundary mantissas; for fma all triples over a boundary set', 'Tests sample.', 'lib/math/round-impl.myr lib/math/trunc-impl.myr lib/math/sqrt-impl.myr lib/math/fma-impl.myr lib/math/scale2-impl.myr lib/math/fpmath.myr lib/math/util.myr lib/math/sum-impl.myr', [('portable fma', 'lib/math/fma-impl.myr')],
  'exhaustive enumeration over exponents and boundary mantissas against exact rational arithmetic', 'model_checking', 'Exhaustive over the boundary sets.', '')
P('L13', 'Directory walking, creation and removal affect exactly the named tree',
  '''Walking yields every entry below the root exactly once (without following link cycles), recursive removal deletes exactly the named tree and never follows links out of it, creating a path makes exactly the missing directories, and temporary names are fresh.''',
  'inputs configurations', 'all directory trees up to a number of nodes with files, directories and symbolic links', 'One walk test exists.', 'lib/fileutil/walk.myr lib/fileutil/del.myr lib/fileutil/tmpdir.myr lib/fileutil/loopcheck+posixy.myr lib/std/mkpath.myr lib/std/mktemp.myr lib/std/diriter.myr', [('walker', 'lib/fileutil/walk.myr')],
  'exhaustive enumeration of small trees in an unprivileged scratch directory', 'model_checking', 'Exhaustive up to the stated tree size.', '')

# ---------------------------------------------------------------- threads
P('T01', 'Mutexes exclude each other and never lose a wakeup',
  '''At most one thread at a time is between a successful lock (or try-lock) and its unlock, an unlock always lets a waiter proceed, memory written under the lock is seen by the next holder, and no schedule deadlocks; try-lock never blocks.''',
  'schedules', 'all interleavings of 2-3 threads doing 1-2 critical sections', 'Stress tests see a few of the schedules.', 'lib/thread/mutex+futex.myr lib/thread/futex+linux.myr lib/thread/atomic-impl+x64.s', [('futex mutex', 'lib/thread/mutex+futex.myr')],
  'explicit-state exploration of all interleavings of the real machine code under a controlled scheduler with modelled futex', 'model_checking', 'All interleavings of the stated harnesses at shared-access granularity.', '')
P('T02', 'Reader-writer locks admit readers together and writers alone',
  '''A writer is never inside together with anyone else, readers may share, try variants never block and succeed only when permitted, and every waiter eventually proceeds once the lock is released, under every schedule.''',
  'schedules', 'all interleavings of 2-3 threads mixing read, write, try and unlock operations', 'Stress tests see a few of the schedules.', 'lib/thread/rwlock+futex.myr lib/thread/futex+linux.myr', [('rwlock word', 'lib/thread/rwlock+futex.myr')],
  'explicit-state exploration of all interleavings of the real machine code', 'model_checking', 'All interleavings of the stated harnesses.', '')
P('T03', 'Condition variables wake waiters that a signal or broadcast covers',
  '''A thread waiting on a condition releases the mutex while waiting and holds it on return; a signal sent after a thread began waiting wakes at least one waiter and a broadcast wakes all, so programs that re-check their predicate never hang.''',
  'schedules', 'all interleavings of 2-3 waiters and signallers', 'Stress tests see a few of the schedules.', 'lib/thread/condvar+linux.myr lib/thread/mutex+futex.myr', [('requeue protocol', 'lib/thread/condvar+linux.myr')],
  'explicit-state exploration of all interleavings of the real machine code', 'model_checking', 'All interleavings of the stated harnesses.', '')
P('T04', 'Semaphores and wait groups count exactly',
  '''The number of completed waits never exceeds the initial count plus posts, every wait covered by a post completes, try-wait never blocks; waiting on a wait group returns only after the matching number of completions and always then.''',
  'schedules', 'all interleavings of 2-3 threads posting and waiting', 'Stress tests see a few of the schedules.', 'lib/thread/sem+futex.myr lib/thread/waitgrp+futex.myr', [('futex counter', 'lib/thread/sem+futex.myr')],
  'explicit-state exploration of all interleavings of the real machine code', 'model_checking', 'All interleavings of the stated harnesses.', '')
P('T05', 'Queues and futures deliver each value exactly once, in order',
  '''Every value enqueued is dequeued exactly once, values from one producer stay in order, blocked consumers are woken, and a future's value set once is seen by every getter, before or after; no schedule loses, duplicates or deadlocks.''',
  'schedules', 'all interleavings of small producer/consumer sets', 'Stress tests see a few of the schedules.', 'lib/thread/queue.myr lib/thread/future.myr', [('queue', 'lib/thread/queue.myr')],
  'explicit-state exploration of all interleavings of the real machine code', 'model_checking', 'All interleavings of the stated harnesses.', '')
P('T06', 'Atomic operations and thread-local state are per their contract',
  '''Atomic get, set, add, exchange and compare-and-swap at every width are indivisible and return the value they replaced; spawned threads run their function exactly once with its captured values, exit cleanly, have distinct thread ids and thread-local values, and concurrent allocation is safe.''',
  'schedules inputs', 'all interleavings of 2-3 threads; all boundary operands per width', 'Tests sample.', 'lib/thread/atomic-impl+x64.s lib/thread/atomic.myr lib/thread/tls+fsbase.myr lib/thread/spawn+linux.myr lib/thread/exit+linux-x64.s lib/thread/hookstd.myr', [('lock-prefixed instructions', 'lib/thread/atomic-impl+x64.s')],
  'explicit-state exploration of all interleavings of the real machine code, and exhaustive operand enumeration', 'model_checking', 'All interleavings of the stated harnesses.', '')
