#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this to regenerate it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- compiler
p("C01", "Integer expressions compute exact N-bit two's-complement results",
  "Every integer expression (arithmetic, bitwise, shift by less than the width, comparison, negation and int-to-int casts over all integer types, byte, char and bool) evaluates to the mathematically exact result reduced to the N bits of its type, with the signedness of its type. The result is the same whether the operands are literals, named constants, globals, locals, struct fields or function results, and whatever the size and nesting of the expression.",
  ["programs", "inputs"], "all well-typed integer expressions over all operand values, operand storage kinds and nesting shapes",
  "test/ compiles one fixed expression per operator with small operands (add, mul, div, mod, bsr, trunccast, zwidencast, swidencast); folding versus run-time evaluation, widths, sign boundaries and register pressure are combinatorial.",
  ["parse/fold.c", "6/isel.c", "6/simp.c", "6/ra.c", "6/insns.def", "6/gengas.c", "mi/flatten.c"],
  [("constant folding", "parse/fold.c:fold"), ("instruction selection", "6/isel.c:selexpr"), ("casts", "6/simp.c:intconvert"), ("register allocation", "6/ra.c")])
p("C02", "Floating-point code follows IEEE 754 in its declared precision",
  "Every flt32/flt64 expression (add, subtract, multiply, divide, negate, compare, float-to-float casts, signed and unsigned int-to-float casts and in-range float-to-int casts) yields exactly the IEEE 754 result at its declared precision, and literals denote the nearest representable value. Comparisons involving NaN, infinities and signed zeros follow IEEE 754, also when they directly control a branch, and floats survive being passed, returned, stored in aggregates and spilled.",
  ["programs", "inputs"], "all float expressions over all bit patterns, in value and in branch position",
  "basicfloat, fltabs, sqrt and mandelbrot run a handful of ordinary values; NaN ordering, rounding of conversions, uint64 conversions and spills are not reached.",
  ["6/isel.c", "6/simp.c", "6/insns.def", "6/blob.c", "parse/tok.c", "mi/flatten.c"],
  [("float selection", "6/isel.c"), ("float literal blobs", "6/isel.c / 6/blob.c"), ("casts", "6/simp.c:simpcast")])
p("C03", "Control flow and calls execute exactly as written",
  "if/elif/else, while, for, break, continue, goto, early return, short-circuit && and || and !, ternary, pre/post increment, fused assignment, direct, recursive, mutually recursive and function-pointer calls perform exactly the reads, writes and calls the language definition prescribes, in order and the prescribed number of times. This holds for any nesting and any number of live variables, and a program terminates with the trace of the reference semantics.",
  ["programs"], "all structured programs (nesting, loop shapes, side effects in conditions, register pressure)",
  "each construct has one small hand-written program; interactions (side effects in loop conditions, breaks across nested scopes, many live values across calls) are unbounded.",
  ["mi/flatten.c", "mi/cfg.c", "mi/reaching.c", "6/simp.c", "6/isel.c", "6/ra.c", "6/peep.c"],
  [("flattening", "mi/flatten.c"), ("flow graph", "mi/cfg.c"), ("register allocation and spilling", "6/ra.c")])
p("C04", "Structs, tuples, arrays, unions and slices have value semantics",
  "Assigning, passing, returning, capturing or storing a struct, tuple, array or union copies exactly its value: later writes to either copy are invisible through the other, and bytes outside it are untouched; slices and pointers alias exactly what they were taken from. Literals initialise every named element with its value in any written order, and every element or member left out is zero, for local, global and constant initialisers alike.",
  ["programs"], "all aggregate types (nesting, size, alignment) and all read, write, copy and initialise sequences",
  "tests use two or three fixed shapes; sizes, offsets, nesting and alias combinations are unbounded.",
  ["6/simp.c", "6/blob.c", "6/typeinfo.c", "6/isel.c", "mi/flatten.c"],
  [("blits and member addresses", "6/simp.c"), ("static blobs", "6/blob.c"), ("offsets and sizes", "6/simp.c, 6/typeinfo.c")])
p("C05", "match runs the first matching arm and binds the right sub-values",
  "For every match over integers, characters, booleans, strings, tuples, structs, arrays, unions, pointers and their nestings, the arm executed is the first one, in textual order, whose pattern matches the value; exactly that arm runs. Every variable captured by the pattern holds the sub-value at its position.",
  ["programs", "inputs"], "all pattern lists and all scrutinee values",
  "about twenty fixed match programs; the decision-tree compiler's behaviour depends on the whole matrix of patterns.",
  ["mi/match.c", "mi/flatten.c", "6/simp.c"], [("decision tree generation", "mi/match.c:genmatch"), ("capture assignment", "mi/match.c")])
p("C06", "Non-exhaustive matches are rejected and exhaustive ones accepted",
  "The compiler rejects (non-zero exit, diagnostic, no object file) every match for which some value of the scrutinee type is matched by no arm, and accepts every match on finite types (bool, void, unions and tuples, structs, arrays of them) or with wildcards that covers every value and whose every arm matches some value not matched by an earlier one.",
  ["programs"], "all pattern matrices",
  "matchexhaust and a few F tests are single examples; exhaustiveness is a property of the whole pattern matrix.",
  ["mi/match.c", "parse/infer.c"], [("exhaustiveness from the decision tree", "mi/match.c:genmatch/exhaustivematch")])
p("C07", "Out-of-range indexing and slicing always stop the program; in-range never",
  "Indexing an array or slice with an index below 0 or at or above its length, or slicing an array or slice with bounds not satisfying 0 <= lo <= hi <= len, terminates the program before any element is read or written and before any further effect. An index or slice within the bounds never terminates it, for every integer index type and for reads, writes and nested accesses.",
  ["programs", "inputs"], "all sequences, lengths, index types, index values and access forms",
  "test/bounds is commented out of the suite; nothing runs an out-of-range access.",
  ["6/simp.c", "rt/abort-linux.s"], [("emitted comparisons", "6/simp.c:checkidx, idxaddr, simpslice"), ("abort stub", "rt/abort-linux.s")])
p("C08", "Closures capture enclosing variables by value at creation",
  "A function literal sees global variables directly and holds its own copy of every enclosing local taken at the moment the closure value is created, so later changes outside are not seen inside and changes inside a call do not leak out. This holds at any nesting depth, for captured values of any type including other closures, and for closures copied to the heap with std.fndup, passed, returned and stored.",
  ["programs"], "all capture sets, types, nesting depths and creation/call orders",
  "closure, nestclosure and closurerec are three fixed programs with few captured scalars.",
  ["6/simp.c", "parse/stab.c", "lib/std/fndup.myr", "parse/node.c"], [("environment layout", "6/simp.c"), ("capture sets", "parse/stab.c"), ("heap copy", "lib/std/fndup.myr")])
p("C09", "Generic and trait code behaves like its hand-specialised version",
  "A program using generic functions, generic types and traits behaves exactly as the program in which each use is replaced by a monomorphic copy for its concrete types, including nested and recursive instantiations, type parameters appearing only in results or bodies, and instantiation across packages. Every trait operation dispatches to the implementation declared for the concrete type at that use.",
  ["programs"], "all generic definitions, instantiation sets and impl sets",
  "some 20 small generic programs; which specialisations coexist in one program is unbounded.",
  ["parse/specialize.c", "parse/infer.c", "parse/stab.c", "parse/type.c"], [("specialisation", "parse/specialize.c"), ("trait resolution", "parse/infer.c")])
p("C10", "Ill-typed programs are rejected with a diagnostic; inference is transparent",
  "A program violating the typing rules (mismatched operand, argument, return or assignment types, wrong arity, undeclared name, missing member or tag, missing trait implementation, assignment to a constant or non-lvalue, misuse of a non-function, use of a plainly uninitialised scalar, missing return value, infinitely sized type, duplicate declaration) makes the compiler exit non-zero with a message that names the file and line of the offence, and produce no object file. Removing redundant type annotations from a well-typed program leaves it accepted with unchanged behaviour.",
  ["programs"], "all single-fault mutations of well-typed programs, and all annotation removals",
  "the F entries of test/tests are a dozen fixed programs and pass whenever the compiler exits 1.",
  ["parse/infer.c", "parse/type.c", "parse/stab.c", "mi/dfcheck.c", "parse/gram.y"], [("unification", "parse/infer.c:unify"), ("data-flow checks", "mi/dfcheck.c"), ("symbol tables", "parse/stab.c")])
p("C11", "Splitting a program across files and packages does not change it",
  "A program divided over several files and packages, compiled separately through .use files (6m, muse, mbld), behaves exactly like the same program in one file, for exported functions, variables, constants, structs, unions, generic types and functions, traits and impls. Hidden declarations stay invisible outside their package.",
  ["programs", "configurations"], "all splits of programs into files and packages, and all exported declaration kinds",
  "test/ has three or four fixed cross-file cases; every serialised node kind and type must round-trip.",
  ["parse/use.c", "parse/export.c", "muse/muse.c", "mbld/deps.myr", "util/pack.c"], [("use-file pickling", "parse/use.c"), ("export tagging", "parse/export.c"), ("merging", "muse/muse.c")])
p("C12", "The compiler never corrupts memory or crashes, on any input file",
  "On every input file, well-formed or not, the compiler stays within its own memory (no out-of-bounds access, use after free, undefined behaviour or runaway recursion on realistic sizes) and ends by itself, either successfully with an object file or with exit status 1, a diagnostic and no object file. It is never killed by a signal.",
  ["inputs", "programs"], "all source texts: valid programs of every construct, and arbitrary mutations and truncations of them",
  "tests compile a few hundred valid files without sanitizers and check only the exit status.",
  ["parse/tok.c", "parse/gram.y", "parse/infer.c", "parse/use.c", "mi/match.c", "6/ra.c", "util/htab.c", "util/bitset.c"], [("bounds and error paths", "all C sources")])
p("C13", "Compilation is deterministic",
  "Compiling the same source with the same options and the same imported use files always yields the same assembly, the same use file and the same object code, regardless of address-space layout, environment variables, heap contents, working directory depth or compilation order.",
  ["configurations", "programs"], "all programs, and all address layouts, environments and repetitions",
  "no test compares two compilations.",
  ["util/htab.c", "parse/specialize.c", "6/gen.c", "6/ra.c", "parse/use.c"], [("hash iteration order", "util/htab.c, parse/stab.c"), ("worklist order", "6/ra.c")])
p("C14", "auto values are disposed exactly once and iterators are driven to protocol",
  "A value bound with auto is disposed exactly once on every path that leaves its scope after it was created (fall through, break, continue, early return), in reverse order of creation, and never when it was not created. A for loop over a user iterator calls __iternext__ once per step until it returns false and __iterfin__ exactly once per produced value before the next step, and visits slice, array and library iterator elements exactly once in order with pattern filtering.",
  ["programs", "inputs"], "all scope nestings, exit paths and iteration lengths",
  "custiter and patiter are two fixed programs; auto has no compiler test of its own.",
  ["mi/flatten.c", "parse/infer.c", "lib/iter/*.myr"], [("scope exits", "mi/flatten.c:exitscope, dispose"), ("iteration", "mi/flatten.c:flattentraititer, flattenidxiter")])
p("C15", "Initialisers run once, before main, after those they depend on",
  "Every global and constant holds its initial value when main starts, and every file's __init__ function runs exactly once, before main and after the __init__ functions of all files and packages that file uses, for every acyclic dependency graph of files and packages. __fini__ functions run when main returns, each exactly once.",
  ["programs", "configurations"], "all dependency graphs of files and packages",
  "one test initialises a global; graph shapes are not exercised.",
  ["6/main.c", "parse/use.c", "parse/node.c", "muse/muse.c", "rt/start-linux.s"], [("generated autocalls", "6/main.c:genautocall"), ("init lists in use files", "parse/use.c")])
p("C16", "Sizes, offsets and run-time type descriptions agree for every type",
  "sizeof, member offsets, alignment and array strides of any type follow natural alignment, agree between compiled code and static data, and agree with the run-time type information passed to variadic functions. Formatting any value of any type with the default format prints exactly the value its type describes.",
  ["programs", "inputs"], "all types built from the language's type constructors, and all their values",
  "sizeof, gsizeof, bigtyblob and slprint cover a few fixed types.",
  ["6/typeinfo.c", "6/simp.c", "lib/std/introspect.myr", "lib/std/varargs.myr", "lib/std/fmt.myr"], [("type blobs", "6/typeinfo.c"), ("decoding", "lib/std/introspect.myr"), ("printing", "lib/std/fmt.myr")])
p("C17", "Calls between Myrddin and C follow the System V x86-64 ABI",
  "A C function called from Myrddin, directly or through a value, and a Myrddin function called by C code, receives every argument and delivers every result bit-exactly as the System V x86-64 calling convention prescribes, for scalars, pointers, structs and tuples of any layout, size and position. Callee-saved registers and the caller's stack survive every call.",
  ["programs", "inputs"], "all signatures of C-representable types and all argument values",
  "test/abi has six fixed signatures.",
  ["6/simp.c", "6/isel.c", "6/typeinfo.c", "6/gengas.c"], [("argument classification", "6/typeinfo.c"), ("call lowering", "6/isel.c:selcall")])
p("C18", "Incremental mbld builds equal clean builds",
  "After any history of edits to source and build files (changing, adding and removing code, dependencies and targets), running mbld leaves the same outputs as a clean build of the same tree would, and running it again with nothing changed rebuilds nothing. If the clean build fails, the incremental build fails too, with a non-zero exit.",
  ["histories", "configurations"], "all edit histories over multi-file, multi-package projects",
  "the test suite builds from scratch once; no test edits and rebuilds.",
  ["mbld/deps.myr", "mbld/build.myr", "mbld/parse.myr", "mbld/util.myr"], [("freshness", "mbld/build.myr, mbld/util.myr"), ("dependency scan", "mbld/deps.myr")])
p("C19", "mbld builds what the build files say, in dependency order",
  "For every project description mbld builds each requested target exactly once after everything it depends on, passes the right include paths and libraries, selects for each source name exactly the most specific system-tagged file that applies, honours the noinst, test and subdirectory declarations, and stops with a non-zero exit on dependency cycles, missing files, malformed build files or failing commands. Clean removes the outputs and nothing else.",
  ["configurations", "fault_sequences"], "all build-file contents, dependency graphs, tag sets and command failures",
  "mbld is exercised only by building this repository.",
  ["mbld/main.myr", "mbld/parse.myr", "mbld/deps.myr", "mbld/syssel.myr", "mbld/build.myr", "mbld/subtest.myr"], [("graph", "mbld/deps.myr"), ("tag selection", "mbld/syssel.myr"), ("execution", "mbld/build.myr")])

# ---------------------------------------------------------------- lib/std
p("C20", "Allocated blocks are disjoint, aligned, stable and reusable",
  "Blocks returned by the allocation functions (bytealloc, alloc, zalloc, slalloc, slzalloc, mk, sldup, slgrow, slzgrow and friends) never overlap any other live block, are suitably aligned and large enough, are zeroed when the z-variant promises it, and keep their contents until freed or across growth. Freeing makes memory reusable without affecting live blocks, for any sequence of sizes and operations and for any number of threads allocating and freeing concurrently, including freeing a block allocated by another thread.",
  ["histories", "schedules"], "all allocation histories and all thread interleavings",
  "bytealloc and alloc tests run short fixed single-threaded sequences.",
  ["lib/std/bytealloc.myr", "lib/std/alloc.myr", "lib/std/threadhooks.myr", "lib/thread/hookstd.myr"], [("slabs and buckets", "lib/std/bytealloc.myr"), ("growth", "lib/std/alloc.myr"), ("locking hooks", "lib/std/threadhooks.myr")])
p("C21", "Library code never touches memory outside live allocations",
  "No library function, on any valid arguments, reads or writes heap memory outside the blocks it was given or allocated, uses a block after freeing it, or frees a block twice or with the wrong size; functions documented to release their data do so completely. This holds on success and on every error path.",
  ["inputs", "histories", "fault_sequences"], "all inputs to the library entry points, including malformed ones",
  "tests run on the pooled allocator, where stray accesses and double frees go unnoticed.",
  ["lib/std/*.myr", "lib/bio/*.myr", "lib/regex/*.myr", "lib/json/*.myr", "lib/inifile/*.myr", "lib/date/*.myr", "lib/http/*.myr", "lib/flate/*.myr", "lib/crypto/*.myr"], [("ownership discipline", "all libraries")])
p("C22", "Byte-string functions agree with their mathematical definitions",
  "find, rfind, in, hasprefix, hassuffix, split, bysplit, tok, bytok, join, strip, lstrip, rstrip, chomp, replace, eq, sleq, cmp functions, strbuf operations and C-string conversions return exactly what their definition over byte sequences prescribes for every subject, needle, separator and limit, including empty, repeated, overlapping and boundary cases. They never modify their inputs.",
  ["inputs"], "all byte strings, needles and separators",
  "a few examples each; overlap and boundary combinations are not covered.",
  ["lib/std/strfind.myr", "lib/std/strsplit.myr", "lib/std/strjoin.myr", "lib/std/strstrip.myr", "lib/std/strreplace.myr", "lib/std/strbuf.myr", "lib/std/hasprefix.myr", "lib/std/hassuffix.myr", "lib/std/chomp.myr", "lib/std/cstrconv.myr", "lib/std/cmp.myr", "lib/std/sleq.myr"], [("search and split loops", "lib/std/str*.myr")])
p("C23", "UTF-8 coding and character classes are exact",
  "Encoding then decoding any Unicode code point returns it with the right length; decoding any byte string consumes it completely without reading past its end, and yields exactly the encoded code points when it is valid UTF-8. Code-point iteration, character and cell counts, and the case mapping and classification predicates agree with the tables they implement for every code point, and upper and lower case conversions are consistent with the predicates.",
  ["inputs"], "all 0x110000 code points and all byte strings",
  "unit tests decode a few strings.",
  ["lib/std/utf.myr", "lib/std/striter.myr", "lib/std/chartype.myr"], [("coder", "lib/std/utf.myr"), ("range tables", "lib/std/chartype.myr:findc, findr")])
p("C24", "Slice, sort and search functions satisfy their contracts",
  "sort returns a permutation of its input ordered by the given comparison; search returns an index of an equal element exactly when one exists in a sorted slice; slpush, slpop, slput, slget, sljoin, slcp, slfill, swap, max/min and the endian helpers perform exactly the described sequence change. Overlapping copies behave as if through a temporary, for every element size and alignment.",
  ["inputs", "histories"], "all slices, element sizes, comparison functions and operation sequences",
  "a few short fixed arrays.",
  ["lib/std/sort.myr", "lib/std/search.myr", "lib/std/slpush.myr", "lib/std/slput.myr", "lib/std/sljoin.myr", "lib/std/slcp.myr", "lib/std/slfill.myr", "lib/std/memops-impl+posixy-x64.s", "lib/std/memops-impl.myr", "lib/std/endian.myr"], [("heap sort", "lib/std/sort.myr"), ("memmove", "lib/std/memops*.")])
p("C25", "Hash tables behave as finite maps over any history",
  "After any sequence of htput, htdel, htget, htgetv, hthas, htinit, clear and iteration, a hash table answers as the finite map the history describes: lookups return the last value put and not deleted, counts are exact, and iteration visits every live pair exactly once. This holds for colliding keys, through growth and tombstones, and for every built-in hashable key type.",
  ["histories", "inputs"], "all operation histories and key sets, including adversarial collisions",
  "one test inserts a run of integers.",
  ["lib/std/htab.myr", "lib/std/hashfuncs.myr"], [("open addressing, grow, tombstones", "lib/std/htab.myr")])
p("C26", "Bit sets behave as finite sets of naturals over any history",
  "After any sequence of set, delete, union, intersection, difference, clear, duplicate and free operations a bit set answers membership, count, maximum, equality, subset, hashing and iteration exactly as the mathematical set does, whatever the capacities of the operands.",
  ["histories", "inputs"], "all operation histories over sets of any size",
  "five small fixed cases.",
  ["lib/std/bitset.myr"], [("word arithmetic", "lib/std/bitset.myr")])
p("C27", "Big integers compute exactly",
  "Every big-integer operation (construction from integers, bytes and strings, add, subtract, multiply, divide, modulo, modular power, bitwise and/or of non-negative values, shifts, comparisons, formatting in any base) returns the exact integer result with the documented rounding and sign rules, for operands of any sign and size, including aliased operands. Results are normalised, so that equal values compare equal and zero is never negative.",
  ["inputs", "histories"], "all operand values of any length and operation sequences",
  "a dozen fixed identities, mostly of ordinary operands; quotient-digit correction and carry chains are rarely reached.",
  ["lib/std/bigint.myr"], [("limb loops and Knuth division", "lib/std/bigint.myr")])
p("C28", "Formatted output matches its format specification",
  "For every format string with any mix of verbs, options (padding, width, hex, base, alignment, joined and custom formatters) and literal text, fmt, put, bprintf-style and bio output functions produce exactly the specified bytes for every argument value, and return the exact length; bounded destinations are never overrun. Integer parsing inverts integer formatting for every value, type and base, accepts a sign, base prefix and _ separators, and reports strings holding anything that is not a digit of the base as failure.",
  ["inputs"], "all format strings, options and argument values, and all strings given to the integer parser",
  "fmt tests check a few dozen literals.",
  ["lib/std/fmt.myr", "lib/std/fmtfuncs.myr", "lib/std/intfmt.myr", "lib/std/intparse.myr", "lib/std/varargs.myr", "lib/std/putint.myr", "lib/std/getint.myr"], [("format parser", "lib/std/fmt.myr"), ("int parser", "lib/std/intparse.myr")])
p("C29", "Float printing and parsing round-trip and are correctly rounded",
  "Parsing the default formatting of any finite flt32 or flt64 returns the identical value, and the printed digits are a shortest or correctly rounded decimal of it; parsing any decimal string returns the nearest representable value. Zeros keep their sign, infinities and NaN are spelled and read back as such, malformed strings are rejected, and the bit-level conversion helpers are exact inverses.",
  ["inputs"], "all float bit patterns and all decimal strings",
  "about thirty fixed values.",
  ["lib/std/fltfmt.myr", "lib/std/fltparse.myr", "lib/std/fltbits.myr"], [("digit generation with bigints", "lib/std/fltfmt.myr"), ("correction loop", "lib/std/fltparse.myr")])
p("C30", "Path functions are purely lexical and idempotent",
  "pathnorm returns the shortest equivalent path lexically (collapsing slashes, . and .. without climbing above root), is idempotent and preserves absoluteness; pathjoin, dirname and basename agree with their definitions so that joining the directory and base names of any path denotes that path.",
  ["inputs"], "all path strings", "a dozen fixed strings.",
  ["lib/std/pathjoin.myr", "lib/std/dirname.myr"], [("component stack", "lib/std/pathjoin.myr")])
p("C31", "Option parsing assigns every argument exactly once",
  "For every option specification and argument vector, optparse reports exactly the options and option values present, in order, and exactly the remaining positional arguments, in order, handling clustered short options, attached and detached values, optional values and the -- separator; invalid vectors are refused with a usage error and non-zero exit.",
  ["inputs"], "all option specifications and argument vectors", "optparse has no test.",
  ["lib/std/optparse.myr"], [("argument scanner", "lib/std/optparse.myr")])
p("C32", "File helpers transfer every byte and touch only what they name",
  "slurp, fslurp, readall, writeall, blat, fblat, mktemp, mkpath, directory iteration, tree walking and recursive removal observe and produce exactly the named files with exactly the given bytes, whatever the sizes and however the kernel splits reads and writes (short transfers, interrupted calls). Recursive removal never leaves the named tree, does not follow symbolic links out of it, and walking visits every entry exactly once.",
  ["inputs", "fault_sequences"], "all file trees, sizes and short or interrupted system-call results",
  "no test injects short transfers; tree walking and removal have no tests.",
  ["lib/std/slurp.myr", "lib/std/readall.myr", "lib/std/writeall.myr", "lib/std/blat.myr", "lib/std/mktemp.myr", "lib/std/mkpath.myr", "lib/std/diriter.myr", "lib/std/dir+linux.myr", "lib/fileutil/walk.myr", "lib/fileutil/del.myr", "lib/fileutil/loopcheck+posixy.myr"], [("transfer loops", "lib/std/readall.myr, writeall.myr"), ("dirent decoding", "lib/std/dir+linux.myr")])
p("C33", "Processes receive exactly their arguments and environment and report their fate",
  "A program started through spork, fork and execvp/execvpe (with or without a PATH search) receives exactly the given argument vector, environment and standard streams, and wait reports its exit status or terminating signal; getenv, getenvv, setenv and the program arguments reflect the actual environment and command line.",
  ["inputs", "configurations"], "all argument vectors, environments, PATH settings and exit outcomes",
  "env is the only test.",
  ["lib/std/spork.myr", "lib/std/execvp.myr", "lib/std/env+posixy.myr", "lib/std/wait+posixy.myr", "lib/std/syswrap+posixy.myr", "rt/start-linux.s", "lib/std/cstrconv.myr"], [("vector conversion", "lib/std/cstrconv.myr"), ("wait decoding", "lib/std/wait+posixy.myr")])
p("C34", "Network addresses parse and format exactly and sockets carry every byte",
  "ipparse accepts exactly the textual IPv4 and IPv6 addresses and returns the address they denote, formatting is its inverse, and netaddr/dial strings are split as documented; dial and listen/accept over loopback TCP and Unix sockets deliver exactly the bytes written, in order.",
  ["inputs"], "all address strings and all transfer sizes",
  "ipparse has about twenty strings; sockets are untested.",
  ["lib/std/ipparse.myr", "lib/std/netaddr.myr", "lib/std/dialparse+posixy.myr", "lib/std/dial+posixy.myr", "lib/std/listen+posixy.myr", "lib/std/fmtfuncs.myr"], [("group parser", "lib/std/ipparse.myr")])
p("C35", "Random number generators are reproducible, in range and unbiased",
  "A generator seeded with the same value always yields the same sequence, rand(lo, hi) always returns a value in [lo, hi) for every integer type and covers the whole range without bias; generators never share state. crypto.rand functions meet the same range contract.",
  ["inputs", "histories"], "all seeds, ranges and types",
  "one statistical smoke test on one seed.",
  ["lib/std/rand.myr", "lib/crypto/rand.myr", "lib/crypto/entropy.myr"], [("Mersenne twister and rejection", "lib/std/rand.myr")])

# ---------------------------------------------------------------- bio and formats
p("C36", "Buffered reading delivers the underlying bytes exactly, however chunked",
  "For any sequence of bio read operations (read, getb, getc, peek, readln, readto, readterm, skipto, skipspace, line and char iteration, fixed-width integers of both byte orders, seek) the results are exactly what the operations mean on the underlying byte stream, independent of how the source splits it into chunks. End of input and source errors are reported at exactly the right operation, without losing or duplicating bytes before them.",
  ["histories", "inputs", "fault_sequences"], "all operation sequences, contents, chunkings and error points",
  "a few small files read from disk with full-size reads.",
  ["lib/bio/bio.myr", "lib/bio/geti.myr", "lib/bio/iter.myr", "lib/bio/mem.myr"], [("buffer refill", "lib/bio/bio.myr:fill, ensureread")])
p("C37", "Buffered writing emits every byte once, in order",
  "For any sequence of bio writes (write, putb, putc, put, fixed-width integers of both byte orders), flushes, seeks and close, the sink receives exactly the concatenation of the written bytes in order, once, even when it accepts only part of each write; a sink error is reported to the caller at the latest by flush or close.",
  ["histories", "fault_sequences"], "all operation sequences, sizes and sink behaviours",
  "a few fixed files.",
  ["lib/bio/bio.myr", "lib/bio/puti.myr", "lib/bio/mem.myr"], [("flush loop", "lib/bio/bio.myr:writebuf")])
p("C38", "Regex matching decides the regular language of the pattern",
  "For every supported pattern (literals, ., classes with ranges and negation, escapes and Unicode classes, alternation, grouping, *, +, ? and their reluctant forms, anchors, word boundaries) exec succeeds exactly when the whole string matches, and search finds a match exactly when some substring does. Malformed patterns are rejected with an error, never a crash, and matching takes time polynomial in pattern and text.",
  ["inputs"], "all patterns and subject strings",
  "about a hundred fixed pattern and string pairs.",
  ["lib/regex/compile.myr", "lib/regex/interp.myr", "lib/regex/ranges.myr"], [("compiler to threads", "lib/regex/compile.myr"), ("Pike interpreter", "lib/regex/interp.myr")])
p("C39", "Regex captures and substitutions refer to the reported match",
  "Whenever a match is reported, its spans lie within the subject, group 0 is the matched text and itself matches the pattern (search reports the leftmost match, the longest one if no operator is reluctant), each group's span lies within it and is a substring its sub-pattern can match, and index and string variants agree. sub, suball and their strbuf variants replace exactly the reported group or match spans and leave all other bytes unchanged.",
  ["inputs"], "all patterns, subjects and replacement lists",
  "a handful of fixed captures.",
  ["lib/regex/interp.myr"], [("thread capture slots", "lib/regex/interp.myr")])
p("C40", "JSON parsing accepts exactly JSON and preserves values",
  "The JSON parser accepts exactly the texts of RFC 8259 and returns the value they denote (numbers to the nearest double, strings with all escapes and surrogate pairs decoded, member order kept); all other texts give an error with a position inside the input. Formatting any value and parsing it again gives the same value.",
  ["inputs"], "all byte strings and all JSON values",
  "the 300-file suite fixes accept/reject on single texts but checks few values and no output.",
  ["lib/json/parse.myr", "lib/json/fmt.myr"], [("recursive parser", "lib/json/parse.myr"), ("printer", "lib/json/fmt.myr")])
p("C41", "INI files round-trip and report errors precisely",
  "Loading any INI text yields exactly its section/key/value triples (or an error naming the offending line), get, has, put and both iterators agree with a map of them, and writing then loading returns the same triples.",
  ["inputs", "histories"], "all INI texts and put histories", "one fixed file.",
  ["lib/inifile/parse.myr", "lib/inifile/write.myr", "lib/inifile/access.myr", "lib/inifile/types.myr"], [("line parser", "lib/inifile/parse.myr")])
p("C42", "Calendar arithmetic is exact",
  "Conversion between instants and civil date and time follows the proleptic Gregorian calendar for all representable dates, adding and subtracting durations and periods gives the civil result with well-formed fields, weekday and leap-year answers are right, and zone conversions apply the offset the zone database prescribes at that instant.",
  ["inputs"], "all instants, periods and zones", "a few dozen fixed dates.",
  ["lib/date/date.myr", "lib/date/zoneinfo+posixy.myr"], [("epoch conversion", "lib/date/date.myr:recalc, mkinstant"), ("zone files", "lib/date/zoneinfo+posixy.myr")])
p("C43", "Date formatting and parsing are inverse and exact",
  "Formatting an instant with any format string substitutes every specifier with its exact field, and parsing with a format that determines the instant returns that instant; strings that do not match the format are rejected.",
  ["inputs"], "all instants and format strings", "a few fixed formats.",
  ["lib/date/fmt.myr", "lib/date/parse.myr", "lib/date/names.myr"], [("specifier tables", "lib/date/fmt.myr, lib/date/parse.myr")])
p("C44", "Hash functions and HMAC equal their standards for any message and chunking",
  "MD5, SHA-1, SHA-2 (224, 256, 384, 512), Keccak (224, 256, 384, 512) and HMAC return the standard digest of every message and key of every length, and feeding the message in any sequence of chunks, including empty ones, gives the same digest as feeding it at once. Independent contexts never influence one another.",
  ["inputs", "histories"], "all messages, keys and chunkings", "a few fixed vectors, at most two chunks.",
  ["lib/crypto/md5.myr", "lib/crypto/sha1.myr", "lib/crypto/sha256.myr", "lib/crypto/sha512.myr", "lib/crypto/sha3.myr", "lib/crypto/hmac.myr", "lib/crypto/hash.myr"], [("tail buffering", "lib/crypto/*.myr add/fin")])
p("C45", "Ciphers equal their standards and decryption inverts encryption",
  "AES-128/192/256 block encryption and decryption, AES-GCM and ChaCha20 produce the standard output for every key, nonce and message of every length, decryption returns the plaintext, and AES-GCM decryption reports failure for every modified ciphertext, tag or associated data.",
  ["inputs"], "all keys, nonces, messages and tamperings", "a few published vectors; AES-GCM has no test.",
  ["lib/crypto/aes.myr", "lib/crypto/aesgcm.myr", "lib/crypto/chacha20.myr"], [("key schedules", "lib/crypto/aes.myr"), ("GHASH tables", "lib/crypto/aesgcm.myr")])
p("C46", "Public-key arithmetic is exact and constant-time helpers are correct",
  "curve25519 equals the X25519 function for every scalar and point, constant-time big-number add, subtract, multiply, modular power and comparison equal their mathematical results modulo the declared width, RSA padding and encryption match PKCS#1 v1.5, and every constant-time comparison, selection and extremum helper returns the right value for every pair of operands of every unsigned integer type; random bytes and numbers drawn from the generator are uniform over the requested range and never repeat across calls or forked children.",
  ["inputs"], "all operands, widths and moduli", "a few fixed small vectors.",
  ["lib/crypto/curve25519.myr", "lib/crypto/ctbig.myr", "lib/crypto/rsa.myr", "lib/crypto/ct.myr"], [("field limbs", "lib/crypto/curve25519.myr"), ("Montgomery-free modpow", "lib/crypto/ctbig.myr")])
p("C47", "Inflate decodes every DEFLATE stream exactly and rejects the rest",
  "Decoding any valid DEFLATE stream, with stored, fixed and dynamic blocks, any window distance and any block sequence, yields exactly the compressed bytes; every truncated or malformed stream ends with an error, never with success or a crash.",
  ["inputs", "fault_sequences"], "all byte streams", "a few tiny streams.",
  ["lib/flate/flate.myr"], [("Huffman decoding and window", "lib/flate/flate.myr")])
p("C48", "HTTP messages are parsed and produced byte-exactly",
  "The HTTP client sends well-formed requests and returns exactly the status, headers and body the server sent, for fixed-length, chunked and connection-delimited bodies split at any byte; the server side parses requests and frames replies likewise, and malformed or truncated messages are errors. URLs parse into exactly their components and format back.",
  ["inputs", "fault_sequences"], "all messages, splits and truncations, and all URLs", "lib/http has no tests.",
  ["lib/http/parse.myr", "lib/http/client.myr", "lib/http/server.myr", "lib/http/session.myr", "lib/http/url.myr"], [("header and chunk parsers", "lib/http/parse.myr")])
p("C49", "Escaping formatters produce text that decodes back to the original",
  "The HTML, URL, regex and shell escapers output text which, read by an HTML parser, a percent-decoder, the regex engine or a POSIX shell, means exactly the original bytes, for every byte string and in any position.",
  ["inputs"], "all byte strings", "a few fixed strings; shell escaping is not executed.",
  ["lib/escfmt/eschtml.myr", "lib/escfmt/escurl.myr", "lib/escfmt/escre.myr", "lib/escfmt/escsh.myr"], [("escape tables", "lib/escfmt/*.myr")])
p("C50", "Library iterators yield exactly the described sequence",
  "bychunk, byenum, byref, byreverse, byzip and byperm produce exactly the chunks, indexed pairs, references, reversed elements, pairs and distinct permutations of their inputs, each once and in order, for every length, element type and chunk size.",
  ["inputs"], "all input sequences and parameters", "one short sequence each.",
  ["lib/iter/chunk.myr", "lib/iter/enum.myr", "lib/iter/perm.myr", "lib/iter/ref.myr", "lib/iter/reverse.myr", "lib/iter/zip.myr"], [("iternext", "lib/iter/*.myr")])
p("C51", "Elementary functions are accurate to their documented error everywhere",
  "sqrt, fma, rounding, truncation, scaling and summation are exactly (or as documented correctly) rounded, and exp, expm1, log, log1p, sin, cos, tan, cot, atan, atan2, pown, rootn, powr and polynomial evaluation are within a small bounded error of the true value for every finite argument, with the IEEE 754 results at zeros, infinities, NaN, subnormals and huge arguments, in both precisions.",
  ["inputs"], "all argument bit patterns in both precisions", "a few thousand fixed points at most, few near reduction and overflow boundaries.",
  ["lib/math/exp-impl.myr", "lib/math/log-impl.myr", "lib/math/sin-impl.myr", "lib/math/tan-impl.myr", "lib/math/atan-impl.myr", "lib/math/pown-impl.myr", "lib/math/powr-impl.myr", "lib/math/sqrt-impl.myr", "lib/math/fma-impl.myr", "lib/math/round-impl.myr", "lib/math/trunc-impl.myr", "lib/math/scale2-impl.myr", "lib/math/sum-impl.myr"], [("argument reduction and tables", "lib/math/*-impl.myr")])

# ---------------------------------------------------------------- threads
p("C52", "Mutexes exclude and never lose a waiter; reader/writer locks likewise",
  "At most one thread is inside a mutex's critical section and at most one writer, or any number of readers and no writer, inside a reader/writer lock's, at any time; try variants succeed only if the lock is then held and never block. Writes made under a lock are visible to the next holder, and when a lock is released while threads wait, one of them proceeds.",
  ["schedules"], "all interleavings of any number of threads and lock operations",
  "a few threads increment a counter under default scheduling.",
  ["lib/thread/mutex+futex.myr", "lib/thread/mutex.myr", "lib/thread/rwlock+futex.myr", "lib/thread/futex+linux.myr"], [("futex state machine", "lib/thread/mutex+futex.myr"), ("reader count and wakeups", "lib/thread/rwlock+futex.myr")])
p("C53", "Semaphores, condition variables and wait groups lose no wakeup",
  "A semaphore never lets more threads through than its initial value plus posts, and every post lets a waiter through; a signal issued while threads wait wakes at least one and a broadcast wakes all of them, with the mutex held on return; wait on a wait group returns only after every registered member finished, and does return then.",
  ["schedules"], "all interleavings of waiters and signallers",
  "short fixed programs under default scheduling.",
  ["lib/thread/sem+futex.myr", "lib/thread/condvar+linux.myr", "lib/thread/waitgrp+futex.myr"], [("sequence counter and requeue", "lib/thread/condvar+linux.myr"), ("futex waits", "lib/thread/*+futex.myr")])
p("C54", "Queues and futures deliver every value exactly once and in order",
  "Every value put into a thread queue is delivered to exactly one getter, values of one producer arrive in the order they were put, getters block until a value exists and nothing is lost or duplicated, for any number of producers and consumers. Reading a future returns the value put into it (or computed by thread.do), never before it is available.",
  ["schedules", "histories"], "all interleavings of producers and consumers",
  "one producer and one consumer with fixed timing.",
  ["lib/thread/queue.myr", "lib/thread/future.myr", "lib/thread/do.myr"], [("locked list and condvar", "lib/thread/queue.myr"), ("semaphore hand-off", "lib/thread/future.myr")])
p("C55", "Atomic operations are linearizable for every width",
  "xget, xset, xadd, xcas and xchg and their pointer variants on every supported type act as single indivisible steps with the documented return values, touching exactly the bytes of their target, for any number of concurrent threads, and order the memory accesses around them as sequential consistency requires.",
  ["schedules", "inputs"], "all interleavings and operand values of every width",
  "a counter is incremented by a few threads.",
  ["lib/thread/atomic.myr", "lib/thread/atomic-impl+x64.s"], [("locked instructions", "lib/thread/atomic-impl+x64.s")])
p("C56", "Spawned threads run once with their own stack and thread-local data",
  "Every successful spawn runs its function exactly once on a stack of its own with the captured values at spawn time, thread-local slots hold exactly what the same thread last stored, start empty and never leak between threads, and any number of threads may start and exit concurrently without disturbing others or exhausting resources after they exit.",
  ["schedules", "histories"], "all numbers of threads, lifetimes and interleavings",
  "spawn and tls tests start a few threads once.",
  ["lib/thread/spawn+linux.myr", "lib/thread/tls+fsbase.myr", "lib/thread/tls-impl+fsbase-x64.s", "lib/thread/exit+linux-x64.s", "lib/thread/fsbase+linux.myr"], [("clone and stack unmap", "lib/thread/spawn+linux.myr"), ("fsbase slots", "lib/thread/tls+fsbase.myr")])
p("C57", "The test framework reports every case and every failure",
  "A testr program runs every listed case exactly once, in order, and reports it as passed exactly when it returned normally without a failed check; a failing case never prevents the remaining ones from being run. Under mbld test, a test program that crashes or exits early is reported as failed and the other suites still run; mbld test exits non-zero exactly when some case or suite failed, and its counts and list of failures match what happened.",
  ["configurations", "fault_sequences"], "all mixtures of passing, failing and crashing cases and suites",
  "the framework is trusted by every other test and has none of its own.",
  ["lib/testr/testr.myr", "mbld/subtest.myr", "mbld/test.myr"], [("case runner", "lib/testr/testr.myr"), ("result parser", "mbld/subtest.myr")])
p("C58", "Non-local control and error values carry exactly what was put in",
  "longjmp returns to its setjmp point with the registers and stack of that frame intact, from any depth; option, result, try and their helpers return exactly the wrapped value or error and take the documented branch or abort, for values of any type.",
  ["programs", "inputs"], "all nestings, live values and wrapped types",
  "one fixed jump and a few option values.",
  ["lib/std/sjlj-impl+posixy-x64.s", "lib/std/option.myr", "lib/std/result.myr", "lib/std/try.myr"], [("register save area", "lib/std/sjlj-impl+posixy-x64.s")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
