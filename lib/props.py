G = "The test suite compiles a fixed set of programs"
PROPS = [
 dict(id="C01", title="Integer and boolean expressions evaluate to their defined values",
  statement="For every well-typed integer or boolean expression and every operand values, the compiled program computes the value the language defines: two's-complement wrapping at the type's width, operations carried out at the wider operand's type, truncating division, short-circuit logic, casts that truncate or extend by the source's signedness, and operator precedence and associativity as documented by the grammar.",
  over=["programs", "inputs"], q="all well-typed integer/bool expression trees over i8..u64, bool and all operand values in the domain (no division by zero, shift counts below the width)",
  why=G + " with a handful of operator/type combinations; the space of operator x type x width-mix x nesting x value combinations (and register/stack interaction of nested operands) is never sampled.",
  files=["src/compiler/codegen/asm/asm_codegen.c", "src/compiler/parser/parser.c", "src/compiler/parser/typechecker.c", "src/compiler/parser/validator.c", "src/compiler/lexer/lexer.c"],
  mech=[("expression code generation, cast table", "asm_codegen.c"), ("precedence table", "parser.c"), ("implicit casts of mixed operands", "typechecker.c")],
  technique="generated typed expression trees, differential against a big-integer reference evaluator",
  note="Random search over generated programs compiled by the working tree's compiler and run natively; trusts the reference evaluator, as/ld and the emit prelude."),
 dict(id="C02", title="Control flow executes exactly the statements the program defines, in order",
  statement="For every structured program, the compiled code executes the same sequence of statements as the source defines: branches, loops (while, for, range, loop, do-while, do-unless), match cases and their range modes, break, continue, early return and short-circuit evaluation, with assignments and compound assignments taking effect in order and no statement corrupting the state of another.",
  over=["programs", "inputs"], q="all nestings of the statement forms and all branch outcomes",
  why=G + " with one small example per statement; nestings such as continue inside a match inside a range loop, and every combination of outcomes, are never run.",
  files=["src/compiler/codegen/asm/asm_codegen.c", "src/compiler/parser/parser.c", "src/compiler/parser/validator.c"],
  mech=[("statement code generation, break/continue label stack", "asm_codegen.c"), ("statement parsers", "parser.c")],
  technique="generated structured programs, trace comparison against a statement interpreter",
  note="Random search; each program's emitted value trace must equal the model's. Trusts the model and as/ld."),
 dict(id="C03", title="Floating-point expressions follow IEEE 754 at their declared width",
  statement="For every well-typed f32/f64 expression and operand values, including infinities, NaN, signed zeros and subnormals, the compiled program produces the IEEE 754 result at the operands' width: arithmetic, negation, comparisons (unordered comparisons false, != true), mixed-width promotion, conversions to and from every integer type, and passing and returning floats through calls.",
  over=["programs", "inputs"], q="all well-typed float expression trees and operand values (float-to-integer casts only where the value is representable; f80 excluded)",
  why=G + " with a few benign float values; NaN ordering, width mixes, spills of several live floats and conversions of large unsigned values are not sampled.",
  files=["src/compiler/codegen/asm/asm_codegen.c", "src/compiler/parser/typechecker.c", "src/compiler/lexer/lexer.c"],
  mech=[("float code generation and the cast table", "asm_codegen.c"), ("implicit casts", "typechecker.c")],
  technique="generated typed float expression trees, bit-exact differential against an IEEE reference evaluator",
  note="Random search; results compared bit for bit except NaN payloads."),
 dict(id="C04", title="Memory accesses reach exactly the object the source names",
  statement="For every program over locals, globals, parameters, structs, unions, arrays, pointers and nested combinations of them, every load yields the last value stored to that object and every store changes only the bytes of the object it names: member and element addressing, pointer arithmetic scaled by the base type, literals, copies of whole structs, zero initialisation, address-of and dereference, and sizeof/len agree with the layout.",
  over=["programs", "inputs"], q="all nestings of scalar, struct, union, array and pointer types and all sequences of reads, writes and copies on them (in-bounds accesses only)",
  why=G + " touching one struct or one array at a time; overlap between neighbours, odd sizes, nested paths and aliasing through pointers need generated layouts and histories.",
  files=["src/compiler/codegen/asm/asm_codegen.c", "src/compiler/codegen/asm/relocation.c", "src/compiler/parser/validator.c", "src/compiler/parser/typechecker.c"],
  mech=[("address generation, store/copy by size", "asm_codegen.c"), ("layout and sizes of types", "validator.c"), ("static data of globals", "relocation.c")],
  technique="generated layouts and operation histories, byte-level memory model as oracle",
  note="Random search; every object is read back after each history and compared with a byte memory model. Trusts the model and as/ld."),
 dict(id="C05", title="Calls pass arguments and results intact, including across the C ABI",
  statement="For every function signature, a call delivers each argument's value to the matching parameter and the returned value to the caller, whatever mix of integer, float, pointer and struct types fills registers and spills to the stack, through direct calls, function pointers, const lambdas, capturing lambdas, recursion and variadic functions; exported functions and extern functions interoperate with code compiled by a C compiler in both directions; caller state is preserved.",
  over=["programs", "inputs"], q="all signatures up to 12 parameters over scalar and small/large struct types, all argument values",
  why=G + " with a few fixed signatures; register exhaustion, struct classification (INTEGER/SSE/MEMORY) and argument-order interactions are combinatorial.",
  files=["src/compiler/codegen/asm/asm_codegen.c", "src/compiler/parser/parser.c", "src/compiler/parser/validator.c", "std/utils.csp"],
  mech=[("call and prologue code generation, struct classification", "asm_codegen.c"), ("lambdas", "parser.c"), ("va_list", "asm_codegen.c")],
  technique="generated signatures and call graphs; differential against gcc-compiled callers/callees and an interpreter",
  note="Random search; C interoperation is judged by objects gcc compiled from the same generated signature."),
 dict(id="C06", title="The assembly and the C backend give a program the same behaviour",
  statement="For every program in the language subset both backends implement, compiling with the assembly backend and with the C backend yields executables that produce the same output and exit status, equal to what the language defines.",
  over=["programs", "inputs", "configurations"], q="all programs over expressions, statements, functions, lambdas, structs, tuples, arrays, pointers, variadics, compile-time types and the standard library in the common subset (defer, with and the else-operator excluded)",
  why=G + " mostly with the default backend; the C backend's operator precedence, integer promotion and cast placement differ from the assembly backend per construct combination.",
  files=["src/compiler/codegen/transpiler/c_codegen.c", "src/compiler/codegen/asm/asm_codegen.c", "src/compiler/parser/typechecker.c"],
  mech=[("C code generator", "c_codegen.c"), ("assembly code generator", "asm_codegen.c")],
  technique="differential testing of the two backends over generated programs, with the reference model as third vote",
  note="Random search over the generators of C01-C04, C08, C14-C18, C20, C22-C25 and C27-C30 compiled by the C backend; gcc is trusted."),
 dict(id="C07", title="How a program is built, stored or started does not change what it does",
  statement="For every accepted program, whatever combination of options it is built with (with or without optimisation and debug information, dynamically or statically linked, assembled or linked by hand from the written assembly, C code or object file, called from a C program through a library `cspc lib` made, under any path and output name, over an existing file, silently or with all reports), the result behaves as the program says. `cspc run` and `cspc shell` execute it the same way and hand the given arguments to it unchanged. Compiling the same sources again gives the same code.",
  over=["programs", "configurations"], q="all programs of the other checks' language subsets and all combinations of the build options",
  why=G + " and builds each of its programs one way; reachability-based removal, debug directives, linking modes and file handling interact with the program and with each other.",
  files=["src/compiler/main.c", "src/compiler/toolchain.c", "src/compiler/optimizer/optimizer.c", "src/compiler/codegen/asm/linker.c", "src/compiler/codegen/asm/asm_codegen.c", "src/compiler/codegen/transpiler/c_codegen.c", "src/compiler/platform/linux/linux_platform.c"],
  mech=[("options and actions", "main.c"), ("removal of unreachable code", "optimizer.c"), ("linking", "linker.c"), ("debug information", "asm_codegen.c")],
  technique="metamorphic testing: generated programs built with generated option combinations, judged by the reference model; repeated compilation compared byte for byte",
  note="Random search. Optimisation levels are compared through the model, so a build fails on its own. Uses as, ld and gcc to finish partial builds."),
 dict(id="C08", title="Compile-time evaluation gives the value run-time evaluation gives",
  statement="For every constant initialiser and every call of a [constexpr] function that the compiler accepts for evaluation at compile time, the value placed in the program equals the value the same expression or function computes at run time; whatever cannot be evaluated is rejected with a diagnostic, never evaluated to something else.",
  over=["programs", "inputs"], q="all constant expressions and constexpr functions over the statements and types the evaluator implements",
  why=G + " with one or two constexpr functions; a second interpreter of the language disagrees with the compiler only on particular operator/type/value/statement combinations.",
  files=["src/compiler/optimizer/constexpr.c", "src/compiler/interpreter/interpreter.c", "src/compiler/codegen/asm/relocation.c"],
  mech=[("constant evaluation", "constexpr.c"), ("interpreter of functions", "interpreter.c"), ("static data", "relocation.c")],
  technique="generated constexpr functions and constant expressions; compile-time value compared with the reference interpreter and with the same function at run time",
  note="Random search; constructs the evaluator rejects are outside the generated subset."),
 dict(id="C09", title="Tokens mean the same whatever surrounds them and however they are written",
  statement="Every literal form denotes its value: integers in each base with separators up to 64 bits, floats, characters, and strings of any length with every escape sequence, concatenation and line break, byte for byte. Identifiers that differ in any character name different things, and inserting, removing or changing blanks, line breaks, line comments and nested block comments between tokens never changes a program's behaviour.",
  over=["inputs", "programs"], q="all literals and identifiers, and all layouts of a program's tokens (operators separated from each other)",
  why=G + " in one fixed layout with short literals; buffer-size boundaries, escape parity, comment nesting and token adjacency depend on arbitrary input text.",
  files=["src/compiler/lexer/lexer.c", "src/compiler/parser/parser.c", "src/compiler/codegen/asm/asm_codegen.c", "src/compiler/codegen/codegen_utils.c"],
  mech=[("tokenizer", "lexer.c"), ("literal parsers", "parser.c"), ("string data and escapes", "asm_codegen.c, relocation.c"), ("symbol name mangling", "codegen_utils.c")],
  technique="generated literals and identifiers against their denotation; metamorphic re-layout of generated programs",
  note="Random search; a re-laid-out program must still produce the output the reference interpreter gives."),
 dict(id="C10", title="Macro expansion is faithful token substitution",
  statement="Replacing any token sequence of a program by calls of macros that expand to it, with any nesting, argument positions, overloads by argument count, brackets and `@`-joined identifiers, leaves the program's behaviour unchanged. Expansion never alters the macro's body or arguments, and the built-in macros denote the line, file, function and version of their use.",
  over=["programs"], q="all ways of factoring a program's tokens into macro definitions and calls",
  why=G + " using macros once each; repeated, nested and overloaded expansions that share token objects only interfere in particular call sequences.",
  files=["src/compiler/preprocessor/preprocessor.c", "src/compiler/lexer/lexer.c"],
  mech=[("macro definition, argument collection and expansion", "preprocessor.c"), ("builtin macros", "preprocessor.c")],
  technique="metamorphic: generated factorings of generated programs into macros, output compared with the reference interpreter's",
  note="Random search; the unfactored program's output is known from the reference interpreter."),
 dict(id="C11", title="Every name denotes the declaration the scoping rules select",
  statement="For every arrangement of nested blocks, shadowing, parameters, lambdas, functions, globals, namespaces, reopened namespaces, using statements and imported files, each use of a simple, qualified or `::`-rooted name denotes the declaration the scoping rules select. Importing the same file several times, under any path, declares its contents once.",
  over=["programs"], q="all trees of namespaces, files and blocks with arbitrarily repeated names",
  why=G + " with distinct names nearly everywhere; wrong resolution needs the same identifier declared in several scopes in a particular arrangement.",
  files=["src/compiler/parser/parser.c", "src/compiler/parser/utils.c", "src/compiler/ast/ast.c", "src/compiler/preprocessor/preprocessor.c", "src/compiler/codegen/codegen_utils.c"],
  mech=[("identifier resolution", "parser.c"), ("imports", "preprocessor.c"), ("symbol mangling", "codegen_utils.c")],
  technique="generated scope trees in which every declaration has a unique value; resolution model as oracle",
  note="Random search; each use emits the value of the declaration it denotes, compared with a model of the scoping rules."),
 dict(id="C12", title="Programs with an error are rejected with a diagnostic at the error",
  statement="For every program that contains one error the language defines (undefined or redefined names, wrong kinds or counts of arguments, type mismatches, assignments to constants, misplaced statements, malformed tokens or syntax, bad macros, imports or main functions), wherever it is, the compiler ends with a non-zero status and no executable, and its first error names the file and line of the error. The same program without the error is accepted.",
  over=["programs"], q="all ways of placing one error of a known kind into a well-formed program",
  why="The repository's tests contain two erroneous programs; whether a check fires depends on the kind of error, the types involved, and the scope, statement, file and layout around it.",
  files=["src/compiler/parser/validator.c", "src/compiler/parser/typechecker.c", "src/compiler/parser/parser.c", "src/compiler/lexer/lexer.c", "src/compiler/preprocessor/preprocessor.c", "src/compiler/error/default.c"],
  mech=[("identifier and type validation", "validator.c"), ("implicit conversions", "typechecker.c"), ("diagnostics", "error/default.c, error/error.c")],
  technique="generated minimal pairs: a well-formed program and the same program with one injected error at a known line",
  note="Random search over about 150 kinds of errors and a matrix of type mismatches in random contexts."),
 dict(id="C13", title="The compiler ends with a result or a diagnostic on any input",
  statement="Whatever bytes a source file contains, the compiler ends by itself: it writes an executable and exits 0, or prints a diagnostic and exits 1. It never crashes, hangs, runs into a failed assertion or accesses memory it does not own.",
  over=["inputs", "programs"], q="all byte strings as source text: arbitrary bytes, mutations of programs at byte and token level, deep nestings, and grammatical programs without regard to types",
  why=G + " that are nearly all well-formed; the paths taken on malformed, ill-typed or truncated input are hardly ever run.",
  files=["src/compiler/lexer/lexer.c", "src/compiler/preprocessor/preprocessor.c", "src/compiler/parser/parser.c", "src/compiler/parser/validator.c", "src/compiler/parser/typechecker.c", "src/compiler/interpreter/interpreter.c", "src/compiler/error/default.c"],
  mech=[("tokenizer and preprocessor", "lexer.c, preprocessor.c"), ("parser tables and lookahead", "parser.c"), ("validation of ill-typed trees", "validator.c, typechecker.c"), ("constant evaluation", "interpreter.c")],
  technique="structure-aware fuzzing of an address-sanitised build: byte and token mutations, type-blind grammatical programs",
  note="Random search on a build with AddressSanitizer; a rejection must print something, any other end is a violation."),
 dict(id="C14", title="Composite values are built, spread, copied, passed and returned member by member",
  statement="A tuple, struct (also with embedded structs) or array has, after being built from a literal with or without a type, complete or partial, nested, at run time or as a global's initializer, exactly the values written for its members, and zero for the others. Spreading an array or struct into an array literal or a variadic call yields its elements in order (reversed for the postfix form), and copies, arguments and results are independent of their origin.",
  over=["inputs", "histories"], q="all nestings of tuples, structs and arrays, all literals of them, all sequences of copies, spreads and calls",
  why=G + " of small flat structs; offsets, sizes and sharing go wrong only for particular nestings and orders of operations.",
  files=["src/compiler/codegen/asm/asm_codegen.c", "src/compiler/codegen/asm/relocation.c", "src/compiler/parser/validator.c", "src/compiler/parser/typechecker.c", "src/compiler/parser/parser.c"],
  mech=[("literals and spreads", "asm_gen_struct_lit, asm_gen_spread_element, unpack_call_args in asm_codegen.c"), ("global initializers", "relocation.c"), ("embedded structs, sizes", "validator.c")],
  technique="model-based testing: generated histories over composite values compiled, run and compared with a value-tree model",
  note="Random search; spread operands are variables; anonymous literals have members of exactly the right types."),
 dict(id="C15", title="Vectors and hashmaps of the standard library behave as lists and dictionaries",
  statement="For every sequence of operations on any number of vectors and hashmaps, of any element, key and value type and across every growth, each vector holds the elements a list would hold and each hashmap maps the keys a dictionary would map to the values last put.",
  over=["histories", "inputs"], q="all operation sequences over vectors and hashmaps of integer, struct and string types",
  why=G + " with one small vector and map; growth, colliding, equal and zero keys and key/value layouts only arise in particular histories and types.",
  files=["src/std/vec.csp", "src/std/hashmap.csp", "src/std/memory.csp", "src/std/algorithm.csp"],
  mech=[("vector storage and growth", "vec.csp"), ("open addressing and rehashing", "hashmap.csp"), ("allocation", "memory.csp")],
  technique="stateful model-based testing against list and dict models",
  note="Random search over operation sequences compiled into CSpydr programs."),
 dict(id="C16", title="Strings and characters of the standard library follow their specification",
  statement="For every input, the functions on dynamic strings, C strings and characters return what their specification (for the C-like ones: the C standard) says, including conversions between numbers and text in every base, and they leave every byte outside of the strings and buffers they were given untouched and unread.",
  over=["inputs", "histories"], q="all strings, positions, buffer sizes, numbers and bases",
  why=G + " with a few literal strings; terminators, overlaps, extreme numbers, empty strings and capacity limits depend on the values.",
  files=["src/std/string.csp", "src/std/c_str.csp", "src/std/character.csp", "src/std/libc/string.csp"],
  mech=[("C string functions", "c_str.csp"), ("dynamic strings", "string.csp"), ("character classes", "character.csp")],
  technique="model-based testing against byte-string models, on buffers ending at a guard page",
  note="Random search; buffers end at an inaccessible page and start after a canary."),
 dict(id="C17", title="Allocated memory is disjoint, keeps its contents and has the size asked for",
  statement="For every history of allocating, resizing, copying, comparing, filling and freeing memory blocks and of arenas of any chunk size, blocks that are alive never overlap, every byte of them can be used, and they keep the bytes last written until they are freed, also across resizing. Fresh memory of calloc is zero; requests that cannot be met are reported with nil.",
  over=["histories"], q="all histories of block and arena operations of all sizes",
  why=G + " with a single allocation; overlaps, stale pointers and lost bytes need several blocks alive, sizes around page and chunk limits, and resizing in both directions.",
  files=["src/std/memory.csp", "src/std/arena.csp", "src/std/utils.csp"],
  mech=[("block allocation", "memory.csp"), ("arenas", "arena.csp")],
  technique="stateful model-based testing against byte-array models of the blocks",
  note="Random search over histories of up to a few dozen operations compiled into CSpydr programs."),
 dict(id="C18", title="Formatted and plain output produce exactly the documented text",
  statement="For every format string and matching arguments, fmt::format, fmt::time and the printf family produce the text their documentation specifies: every directive, literal percent signs, unknown and truncated directives, extreme numbers. The output functions of std::io write exactly the bytes of their arguments to the file descriptor they name.",
  over=["inputs"], q="all format strings, argument lists and sequences of output calls",
  why=G + " printing a few values; extreme values, argument counts beyond the registers, trailing or unknown directives and the error output depend on the format and arguments.",
  files=["src/std/fmt.csp", "src/std/io.csp", "src/std/c_str.csp", "src/std/string.csp"],
  mech=[("format interpretation", "fmt.csp"), ("number conversion", "c_str.csp"), ("output", "io.csp")],
  technique="model-based testing of generated formats and arguments; output caught in a pipe",
  note="Random search; floating-point arguments have exact decimal digits."),
 dict(id="C20", title="Numeric, random, UUID, array and option helpers compute what they define",
  statement="For every argument and history: std::math, the byte-order and hash functions, the limits, sum, first, last, max, min, abs, bit and swap macros return the mathematically defined result at the width of their type; std::random produces the sequence of its seed and state, also when states are saved and switched; UUIDs survive parsing and serializing; options hold exactly the value put in, or none.",
  over=["inputs", "histories"], q="all arguments, element types, seeds and histories of random states",
  why=G + " that print a handful of results; extreme values, every element type, several random states and unusual bytes in UUIDs depend on arguments and history.",
  files=["src/std/math.csp", "src/std/algorithm.csp", "src/std/random.csp", "src/std/array.csp", "src/std/option.csp", "src/std/utils.csp", "src/std/types.csp"],
  mech=[("arithmetic", "math.csp, algorithm.csp"), ("random states", "random.csp"), ("macros", "array.csp, option.csp, utils.csp, types.csp")],
  technique="model-based testing against reference definitions and a model of the random state",
  note="Random search; the reference for random numbers is the additive feedback generator std::random implements."),
 dict(id="C24", title="Files and directories of the standard library behave as the file system says",
  statement="For every sequence of opening, reading, writing, seeking, asking for sizes and positions and closing of files through any number of handles, contents, positions and reported failures are those of a byte-array model of the file system. Reading a directory yields each of its entries exactly once, also after rewinding or seeking.",
  over=["histories"], q="all sequences of file operations and all directories",
  why=G + " that read and write one file; modes, positions after failures, reads at the end, several handles and directories larger than a buffer depend on the history.",
  files=["src/std/file.csp", "src/std/directory.csp", "src/std/io.csp", "src/std/syscall.csp"],
  mech=[("file handles", "file.csp"), ("directory reading", "directory.csp"), ("stat layout", "io.csp")],
  technique="stateful model-based testing against a byte-array model of the file system",
  note="Random search in a scratch directory; the kernel never fails or cuts short a valid transfer there."),
 dict(id="C25", title="System call wrappers make the call they name with their arguments",
  statement="For every wrapper in std::syscall and every argument values and result, the wrapper makes exactly the Linux system call it is named after, passes each argument in its position in the width the kernel looks at, and returns the kernel's result. The enumerators of std::Syscall are the numbers of the calls they name.",
  over=["inputs"], q="all wrappers, arguments and results",
  why=G + " that use a dozen calls with fixed arguments; argument order, numbers and garbage in the upper halves of arguments show only for particular calls and values.",
  files=["src/std/syscall.csp", "src/std/types.csp", "src/std/net.csp"],
  mech=[("wrappers and macros", "syscall.csp"), ("inline assembly", "src/compiler/codegen/asm/asm_codegen.c")],
  technique="generated calls with random arguments and results, intercepted by a seccomp listener and compared with the kernel's ABI",
  note="The calls are reported instead of executed; numbers and argument widths are those of Linux on x86-64."),
 dict(id="C27", title="Command lines are dispatched to the handlers of their flags",
  statement="For every set of flags and every command line, flags::parse calls the handler of the first flag of each argument's name, in the order of the arguments, with the converted argument that follows; help lists every flag; an unknown argument, a missing or a malformed value ends it with an error, after the handlers of what came before. args::shift yields the arguments one by one, and std::error returns the last error recorded, under the number the system gives its kind.",
  over=["inputs", "histories"], q="all sets of flags, all command lines, all histories of error operations",
  why=G + " nothing of it; names that are prefixes or duplicates of each other, values that look like flags, missing values and the state after an error depend on the command line.",
  files=["src/std/flags.csp", "src/std/error.csp"],
  mech=[("parser and help", "flags.csp"), ("error state, error kinds", "error.csp")],
  technique="model-based testing of generated flags and command lines against a reference parser",
  note="Random search; integer values are decimal numbers of an i64."),
 dict(id="C29", title="Ending processes, assertions and unit tests report what happened",
  statement="However a process ends through std::process or an assertion, all exit handlers run in the order of their registration with the exit code (none for a panic), the message names the reason and the place, and the exit status is the one asked for. Statuses of children are decoded as the system encodes them, and std::testing counts each test as ok, skipped or failed and returns the number of failures, whatever the tests do.",
  over=["inputs", "histories"], q="all ways to end, all handler registrations, all statuses, all lists of tests",
  why=G + " that end normally; handler order and limits, each way to end, signals and many failures in one test show only when a process really ends that way.",
  files=["src/std/process.csp", "src/std/assert.csp", "src/std/testing.csp", "src/std/syscall.csp"],
  mech=[("exit, handlers, status", "process.csp"), ("assertions", "assert.csp"), ("test runner", "testing.csp")],
  technique="model-based testing: generated endings, tests and signals in child processes whose output and status are caught",
  note="Random search; texts are compared without colours and with runs of blanks as one."),
 dict(id="C21", title="The linter reports exactly what the compiler reports",
 statement="For any program, csp-lint ends by itself and gives the same diagnostics (severity, file, line, column, text, order) as cspc up to the end of validation, in its plain, verbose and output-file modes; its summary counts them and its exit status is 0 exactly when there are none. In live mode, after every edit of any file of the program the new report is that of the edited program, and an interrupt ends it.",
  over=["programs", "histories"], q="all programs (valid, with errors and warnings, garbage), all four modes, all sequences of edits in live mode",
  why=G + " and never run csp-lint; editors and scripts rely on its output for arbitrary broken programs and long sessions.",
  files=["src/linter/linter.c", "src/linter/error.c", "src/linter/main.c", "src/linter/live.c", "src/compiler/error/error.c", "src/compiler/error/default.c"],
  mech=[("passes", "lint_passes in linter.c"), ("verbose reports, summary", "src/linter/error.c"), ("live sessions", "live_session in live.c")],
  technique="differential fuzzing: csp-lint against cspc on generated and mutated programs; histories of edits in live mode",
  note="Live mode: one file is edited at a time, while the linter waits. Programs on which cspc itself fails are C13's."),
 dict(id="C22", title="Size does not change what a program means",
  statement="A program computes the same values however many functions, locals, globals, members, parameters, cases, constants, macros, lambdas or strings it has, however deep its blocks, expressions, namespaces and aliases are nested, however large its frames, arrays and texts are, and however long or alike its names are. It is compiled in a time that does not explode with these sizes.",
  over=["programs", "inputs"], q="all sizes of all parts of a program up to the documented limits",
  why=G + " of a few lines; displacements, label numbers, buffers, name comparisons and repeated passes go wrong only beyond some size.",
  files=["src/compiler/codegen/asm/asm_codegen.c", "src/compiler/parser/parser.c", "src/compiler/parser/validator.c", "src/compiler/ast/ast_iterator.c", "src/compiler/hashmap.c", "src/compiler/lexer/lexer.c"],
  mech=[("frames, labels, offsets", "asm_codegen.c"), ("names", "lexer.c, hashmap.c, validator.c"), ("passes over the program", "ast_iterator.c")],
  technique="metamorphic testing: generated programs whose parts are enlarged or repeated, results computed by a formula that does not depend on the size",
  note="Random search; sizes up to 200000 for data, 500 for declarations, 120 for nesting."),
 dict(id="C23", title="Shorthand means what it abbreviates",
  statement="Custom infix and prefix operators, infix calls, pipes with and without holes, else expressions and powers have the value of the calls and operators they stand for, with the documented precedences and left-associativity, however they are nested; a hole always means the value of the pipe it is written in. Values bound by with statements are dropped exactly once, innermost first, on every way out (end, break, continue, return), deferred statements run at the exit of their function, and neither changes what the function returns.",
  over=["programs", "inputs"], q="all nestings of operators, infix calls, pipes, else expressions, powers, with and defer statements",
  why=G + " using one construct at a time; wrong bindings, lost return values and skipped drops need two or more of them nested.",
  files=["src/compiler/parser/parser.c", "src/compiler/parser/validator.c", "src/compiler/codegen/asm/asm_codegen.c", "src/compiler/codegen/transpiler/c_codegen.c"],
  mech=[("operators, infix calls, pipes, powers", "parse_pipe, parse_infix_call, parse_custom_infix_operator in parser.c"), ("with, defer", "asm_gen_stmt in asm_codegen.c"), ("else expressions", "asm_codegen.c, c_codegen.c")],
  technique="model-based testing: generated programs compiled and run, values and the order of effects compared with an evaluator of the longhand",
  note="Random search; defer statements stand at the start of a function."),
 dict(id="C28", title="Compile-time questions about types are answered by the structure they have",
  statement="Two types compare equal exactly if they have the same structure through any aliases, the same names where structs and enums are named, and the same constness; size comparisons, sizeof and alignof give the laid-out sizes. type::is_*, type::reg_class, type::to_str, match (type), typeof of an expression or a variable and len answer for every type according to that structure.",
  over=["inputs"], q="all types built from primitives, pointers, arrays, functions, tuples, structs, unions, enums, aliases and const, and all questions about them",
  why=G + " with simple types; nesting, aliases, constness and two similar tuples in one program are only met by generated types.",
  files=["src/compiler/parser/typechecker.c", "src/compiler/parser/validator.c", "src/compiler/parser/parser.c", "src/compiler/ast/types.c"],
  mech=[("type equality", "types_equal in typechecker.c"), ("type questions", "iter_validate_type_expr in validator.c"), ("tuples", "get_compatible_tuple in parser.c")],
  technique="model-based testing: generated types and questions compiled and run, answers compared with a structural model",
  note="Random search; names invented for tuples and recursive types are not judged."),
 dict(id="C30", title="Dynamic calls reach the object's own implementation",
  statement="A method called on a dyn value runs the implementation that the type of the object it was made from has for this interface, on that very object, with the arguments and the return value unchanged, whatever variables, members, calls, arrays or pointers the value went through and however many types, also of the same layout, implement the interface. Copies of a dyn value are independent of each other, and receivers and arguments are evaluated once.",
  over=["programs", "histories"], q="all sets of interfaces, implementing types and implementations, and all ways a dyn value is made, moved, assigned and called",
  why=G + " with one or two implementing types; which table entry is called depends on all types, methods and conversions of the program together, which only generated combinations vary.",
  files=["src/compiler/ast/vtable.c", "src/compiler/parser/validator.c", "src/compiler/codegen/asm/asm_codegen.c", "src/compiler/optimizer/optimizer.c"],
  mech=[("vtables", "vtable.c"), ("conversion to dyn, dynamic calls", "validator.c, asm_codegen.c"), ("reachability of implementations", "optimizer.c")],
  technique="model-based testing: generated interfaces, implementations and histories of dyn values compiled and run, compared with a model of the objects",
  note="Random search; methods are called on dyn values only (not through pointers to interfaces)."),
]
