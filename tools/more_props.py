COMP = ["src/solver.fu.cpp", "src/codegen.fu.cpp", "src/parser.fu.cpp", "src/lexer.fu.cpp"]

prop("C12", "A compiled program computes exactly what its source says",
     "For every program both compilers of the tree accept, running the emitted C++ gives the output the source's meaning prescribes: arithmetic at the declared width, control flow, closures and generics, strings, arrays, structs, references, deferred statements, and the in-place or moved form the compiler chose for a copy. Whether a value is copied, moved, borrowed or reused in place is never visible in the result.",
     ["programs", "inputs"],
     "every accepted program and every input to it, for the compiler built from the C++ snapshot and for the one built from the fu sources",
     "The compiler tests are some thirteen hundred fixed snippets most of which return 0; a wrong move, a lost side effect or a stale reference needs a combination of constructs that no snippet has.",
     COMP + ["src/solver.fu", "src/codegen.fu", "src/parser.fu", "src/prelude.fu"],
     [("last-use analysis that turns copies into moves", "src/solver.fu.cpp: bck_ passes"), ("emission of C++ for the solved tree", "src/codegen.fu.cpp")],
     ["everything a generated program prints"],
     "runtime monitoring: differential execution of generated programs against a reference interpreter, plus hand-written programs with known output",
     "held on the programs generated; constructs used are counted in the evidence")

prop("C14", "No accepted program touches freed memory, leaks or runs into undefined behaviour",
     "A program the compiler accepts, using no unsafe construct, never reads or writes freed or foreign memory, never leaks or frees twice and never executes undefined behaviour, also where references alias, containers are modified through references, and values are moved out of, returned and captured. References the compiler lets live on always denote a living value.",
     ["programs", "inputs"],
     "every accepted program and every input to it, for both compilers of the tree, in assertion and optimised builds of the emitted C++",
     "The compiler tests run without sanitizers; a dangling reference accepted by the borrow analysis usually still reads the right bytes.",
     COMP + [V, "include/fu/vec_range.h", "include/fu/view.h", "src/lifetime.fu.cpp"],
     [("lifetime and borrow tracking", "src/lifetime.fu.cpp, src/solver.fu.cpp"), ("containers under the emitted code", V)],
     ["AddressSanitizer, UBSan and LeakSanitizer reports", "everything the program prints"],
     "runtime monitoring: ASan, UBSan and LeakSanitizer over generated programs in which references alias",
     "sanitizers see the executions that ran")

prop("C13", "Prelude operations on strings, arrays and numbers mean what they say",
     "Every operation of the prelude gives the result its name and signature promise, for all operands: searching, splitting, joining, replacing, sorting, slicing, inserting, removing and comparing of arrays and strings; arithmetic, shifts, minimum, maximum, limits and conversions of numbers; conversion to text. The result does not depend on the element type, on the size, on whether operands share storage, or on the build being an assertion or an optimised one.",
     ["inputs", "programs"],
     "every prelude operation over every element type (integers of all widths, floats, byte strings, structs, arrays), for operands from empty to past the inline size, aliased and not, with both compilers of the tree",
     "The tests call most prelude operations on one or two literals; a wrong bound, a swapped comparison or a reused buffer shows only for particular sizes, element types or aliased operands.",
     ["src/prelude.fu.cpp", "src/prelude.fu", "include/fu/vec/LEGACY_cmp.h", "include/fu/vec/LEGACY_find.h", "include/fu/vec/LEGACY_slice.h", "include/fu/vec/concat.h", "include/fu/vec/concat_one.h", "include/fu/vec_range.h", "include/fu/view.h", "include/fu/decstr.h"],
     [("prelude source both compilers include in every program", "src/prelude.fu, src/prelude.fu.cpp"), ("algorithms over views and vecs", "include/fu/vec/*.h"), ("ranges within a vec", "include/fu/vec_range.h"), ("numbers as text", "include/fu/decstr.h")],
     ["the printed result and the operands after every call"],
     "runtime monitoring: generated programs call each prelude operation on random and boundary operands, every printed result compared with a reference model, plain and under ASan+UBSan",
     "held on the calls made; operations, element types and builds are counted in the evidence")

prop("C15", "Ill-formed programs are refused, and the report names the faulty line",
     "A program with a fault the language forbids (names, types, mutability, control flow, effects, visibility, imports, syntax) is refused by both compilers with exit status 1 and a report that names the module and the line of the fault; no C++ and no binary comes out. The same program with just that fault put right is accepted.",
     ["programs"],
     "every fault of the catalogue in every context it can stand in: function, branch, loop, nested function, closure, generic, imported module; and every form src/tests.fu marks as refused",
     "The repository's tests run refused forms through the fu-built compiler only and in one context each; a refusal that is lost in a nested function, a generic or an imported module compiles silently.",
     COMP + ["src/solver.fu", "src/parser.fu", "src/lexer.fu"],
     [("syntax", "src/lexer.fu.cpp, src/parser.fu.cpp"), ("names, types, mutability, effects, unused and unreachable code", "src/solver.fu.cpp")],
     ["exit status, the module and line of the report, and the files left behind"],
     "runtime monitoring: a catalogue of faulty programs and their corrected twins placed in several contexts, exit status, report and output files observed for both compilers",
     "held on the faults of the catalogue; those compiled are counted in the evidence")

prop("C16", "References that may dangle are refused; accepted ones read what was written",
     "A use of a reference is refused when on some path what it refers to may have been moved, shrunk, reassigned or destroyed since: through the owner, another reference, a nested function, a closure, a loop, a jump, a deferred statement or a thrown error. In every accepted program a reference denotes the storage it was made from: it never dangles, and what is written through one name is read through the others.",
     ["programs", "inputs"],
     "every combination of owners, references, changes and control flow, in both compilers of the tree",
     "The tests hold a few dozen borrow faults, most of them straight-line; the analysis joins paths at branches, loops, jumps, try and closures, and what it forgets at a join is accepted silently and usually still reads the right bytes.",
     ["src/solver.fu.cpp", "src/lifetime.fu.cpp", "src/solver.fu", "src/lifetime.fu"],
     [("what each path invalidates, joined where paths meet", "src/solver.fu.cpp: bck_ passes"), ("regions a lifetime may refer to", "src/lifetime.fu.cpp")],
     ["which faults are refused", "AddressSanitizer and UBSan reports, and every result of accepted functions"],
     "runtime monitoring: random borrow-heavy functions accepted by the compilers run under ASan+UBSan with results compared against a reference interpreter, plus a table of borrow faults beside accepted twins",
     "held on the functions generated and faults tabled; both are counted in the evidence")

prop("C21", "Path functions follow the laws of paths",
     "For every path, directory and file name, and path without extension and extension, make up the path; a normal form leads to the same place, is in normal form, stays relative or absolute and keeps leading .. parts; join leads where the second path leads from the first; relative leads from the directory of the first path to the second.",
     ["inputs"],
     "every path text: absolute and relative, with empty, . and .. parts anywhere, dotted names, trailing slashes, empty paths",
     "The repository tests no path function; a lost .. or root shows only for paths of a particular shape, and then reads or writes another file.",
     ["lib/path.fu.cpp", "lib/path.fu"],
     [("path functions the compiler itself runs on", "lib/path.fu.cpp"), ("the library module programs import", "lib/path.fu")],
     ["the result of every call"],
     "runtime monitoring: every path of up to four parts and random longer ones through the real functions under ASan+UBSan, answers held against laws of lexical path resolution",
     "held on the paths tried")

prop("C22", "File functions report success only when the file is as asked",
     "When writing or reading a file reports success the bytes on disk, or the bytes read, are exactly those asked for, after what the string held before, also when the system reads and writes in parts; failures of any system call are reported as an error. Making directories, removing, renaming, listing, sizes and permissions have the effect they report, no descriptor leaks, and strings that share storage with the target are not changed.",
     ["inputs", "faults", "histories"],
     "every sequence of file operations on files of any size, with system calls that transfer any part of what was asked or fail at any point",
     "Local file systems hardly ever read or write short, so tests never see a transfer in parts; directories are created one level at a time and file errors are not provoked.",
     ["lib/file.fu.cpp", "lib/fs.fu.cpp", "lib/env.fu.cpp", "lib/file.fu", "lib/fs.fu"],
     [("whole-file reads and writes", "lib/file.fu.cpp"), ("directories", "lib/fs.fu.cpp"), ("their fu source", "lib/file.fu, lib/fs.fu")],
     ["results of every call", "contents, kinds and modes on disk after it", "open descriptors"],
     "runtime monitoring: random histories of file operations under ASan+UBSan with a preloaded shim that shortens and fails system calls, every result checked against the disk",
     "held on the histories and faults run")

prop("C23", "Running a child yields all its output and how it ended",
     "Running a command returns every byte it wrote to standard output and standard error, each in order and after what the strings held before, whatever the sizes, the interleaving, the pauses and the order in which the child closes its streams; the status says how the child ended, arguments arrive unchanged, a command that cannot be started is an error. No child and no descriptor is left behind, and the call always ends once the child has.",
     ["schedules", "inputs"],
     "every child: any amounts on either stream, in any order and timing, closing either early, exiting with any code or signal; any arguments",
     "The build runs the C++ compiler and little else, and that writes to one stream; loss needs one stream to close or fill while the other is still in use.",
     ["lib/spawn.fu.cpp", "lib/exec.fu.cpp", "lib/spawn.fu", "lib/exec.fu"],
     [("spawning and collecting output", "lib/spawn.fu.cpp"), ("shell commands", "lib/exec.fu.cpp"), ("their fu source", "lib/spawn.fu, lib/exec.fu")],
     ["streams, status and errors of every child", "descriptors and children left"],
     "runtime monitoring: children following random scripts of writes, pauses, closes and exits, with outputs, status, descriptors and leftover children checked after every call, under ASan+UBSan",
     "held on the scripts run")

prop("C24", "Bit sets and hash maps behave as mathematical sets and maps",
     "After any history of operations a bit set holds exactly the indexes added and not removed since, and its operations with another set (union, difference, common members, missing members, counting, complement up to an end) are those of sets. A hash map holds for every key the value set last, whatever the hasher and its collisions; lookups, removal, length, iteration with removal, and copies agree with that.",
     ["histories", "inputs"],
     "every history of operations, any set sizes and capacities, any keys and hashers, including ones that collide for all keys",
     "The repository's tests fill small maps and hardly touch bit sets; robin-hood probing, compaction and swaps of the last item go wrong only for particular arrangements of colliding keys.",
     ["src/lib/bitset.fu.cpp", "lib/BitSet.fu", "lib/hash.fu"],
     [("bit sets the compiler itself runs on", "src/lib/bitset.fu.cpp"), ("bit sets programs import", "lib/BitSet.fu"), ("hash maps programs import", "lib/hash.fu")],
     ["result of every operation, and all members after it"],
     "runtime monitoring: random histories on several sets and maps under ASan+UBSan, every result and the whole contents compared with a model set and map",
     "held on the histories run")

prop("C17", "The compiler ends properly on any text it is given",
     "Whatever bytes, files and imports it is given, with constructs nested up to some hundred levels, the compiler ends by itself in moderate time with exit status 0, having written C++, or 1, having written none: it does not crash, hang or touch memory which is not its own. A refusal names a place which exists in the text.",
     ["inputs"],
     "every text and every set of files, in both compilers of the tree",
     "The repository's tests give the compiler texts written by people who know the language; what a lexer or parser does at the end of a cut-off text, or a solver with a name used for something else, shows only on texts nobody writes.",
     ["src/lexer.fu.cpp", "src/parser.fu.cpp", "src/solver.fu.cpp", "src/compiler.fu.cpp", "src/lexer.fu", "src/parser.fu"],
     [("looking ahead at the end of the text", "src/lexer.fu.cpp"), ("limits on depth", "src/solver.fu.cpp"), ("import circles", "src/compiler.fu.cpp")],
     ["exit status, sanitizer reports, files written and the place each report names"],
     "runtime monitoring: the sanitized compiler of the snapshot and bin/fu run on mutated, cut, spliced, malformed and deeply nested texts and file sets",
     "held on the texts given")

prop("C18", "The same sources always give the same C++ and the same report",
     "What a compiler writes for a program, and what it says when it refuses one, depends on the texts of the program alone: not on earlier runs, the place of the project, the environment, what memory held before, or the C++ compiler the fu compiler was built with. The compiler also reproduces itself: compiled by itself it emits the same C++ for every program, its own sources included.",
     ["inputs", "histories"],
     "every program, accepted or refused, in both compilers of the tree; every directory, environment and state of memory",
     "The repository's tests compile each program once with one build of the compiler; an uninitialised variable, an order of evaluation C++ leaves open or a leftover of the previous program shows only when two runs are held against each other.",
     ["src/codegen.fu.cpp", "src/solver.fu.cpp", "src/compiler.fu.cpp", "src/build.fu.cpp", "src/codegen.fu", "src/solver.fu"],
     [("emission", "src/codegen.fu.cpp"), ("names and order of modules", "src/build.fu.cpp"), ("self-compilation", "src/cli.fu")],
     ["exit status, report and every byte of emitted C++, between two runs"],
     "runtime monitoring: differential runs of both compilers over places, environments, filled memory and stacks, and of builds by gcc and by clang with pattern-filled variables, the latter of the compiler compiled by itself",
     "held on the programs compiled")

prop("C19", "A build delivers a binary of the current sources, or fails and delivers none",
     "After any history of edits, moves, builds with other options, emptied caches, failing or killed C++ compilers, killed builds and builds at the same time, a build that reports success has put at the asked place a program that does what the sources and options of that moment say. A build that fails says so by its status, and leaves at that place nothing new; emitted C++ is likewise that of the current sources.",
     ["histories", "crash points", "schedules"],
     "every history of edits and builds with a shared cache, every point at which a build or the C++ compiler can be killed, builds running at once, files on different file systems",
     "The repository's tests build every program once into an empty place; stale objects, half-written files and builds that disturb each other need a history.",
     ["src/build.fu.cpp", "src/build.fu", "lib/file.fu.cpp", "lib/tea.fu.cpp"],
     [("names of cached objects and binaries", "src/build.fu"), ("the same in the snapshot", "src/build.fu.cpp"), ("moving finished files into place", "lib/file.fu.cpp")],
     ["status of every build, output of every delivered program, bytes at the destination"],
     "runtime monitoring: random histories of edits and builds with stubbed, failing and killed C++ compilers and killed builds; delivered programs are run and compared with a model of the sources",
     "held on the histories run, apart from the listed finding")

prop("C25", "Text, hash, random and vector helpers compute what their names say",
     "Hashes depend on the bytes alone wherever they lie, are those of the TEA rounds lib/tea.fu documents, and digests are that number in base 62 or 16; case conversion and trimming change exactly the ASCII letters and blanks; UTF-8 encoding and decoding are inverse, and decoding any bytes ends with every malformed sequence reported. Random numbers do not repeat across threads or across processes started together, shuffling permutes, bit counts count, the environment is read as it is, and vector arithmetic is componentwise f32 arithmetic.",
     ["inputs", "schedules"],
     "every byte string at every address, every code point, number and vector, threads drawing at once, processes started at the same moment",
     "The repository's tests use these helpers only on the compiler's own names; trailing bytes, unaligned slices, truncated sequences, bytes above 127 and concurrent draws never occur there.",
     ["lib/tea.fu.cpp", "lib/ascii.fu.cpp", "lib/utf8.fu.cpp", "lib/rand.fu.cpp", "lib/env.fu.cpp", "lib/unicode.fu", "lib/vec.fu"],
     [("hashing of trailing bytes", "lib/tea.fu.cpp"), ("seeding and stepping of random numbers", "lib/rand.fu.cpp"), ("decoding", "lib/unicode.fu")],
     ["every answer, against a second calculation in Python"],
     "runtime monitoring: drivers over the tree's C++ and over what both compilers make of lib/, under ASan+UBSan, answers compared with Python's; threads and processes drawing random numbers at once",
     "held on the arguments given")

prop("C26", "Accepted parallel loops compute what the sequential loop computes, race-free",
     "A program whose par::each, zip and map loops the compiler accepts prints what the same loops run in order print, for any number of worker threads, even when elements share storage; no two iterations race. A loop body that writes to anything the iterations share, or leaves the loop by a jump or an exception, is refused.",
     ["inputs", "schedules"],
     "every accepted loop body, every way elements share storage, every number of threads and distribution of iterations",
     "The repository's tests have four parallel loops with one write each, run once; a write to shared state let through, or storage shared by two threads without a copy, shows only under a particular interleaving.",
     ["lib/par.fu", "include/par/parfor.hpp", "src/solver.fu.cpp", "include/fu/vec.h"],
     [("the parallel loop", "include/par/parfor.hpp"), ("purectx, nothrow, noflow and novec assertions", "src/solver.fu.cpp"), ("shared storage", "include/fu/vec.h")],
     ["every access of two threads to one place without an order between them", "all output, against the sequential meaning", "whether each loop over shared state is refused"],
     "runtime monitoring: generated parallel programs from both compilers run by the real task queue, under ASan+UBSan, and under ThreadSanitizer with one thread per batch, output compared with a Python model; accepted loops over shared state are run under ThreadSanitizer",
     "held on the programs and schedules observed")
