"""The property table: writes /verif/properties.jsonl and /verif/MANIFEST.json.
Run: /opt/vp/venv/bin/python tools/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
P = []


def p(id, title, statement, over, text, why, files, mech, tech, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  tech=tech, note=note, state=state, observe=observe))


DIFF = "online differential monitor: real compiler output executed, every observation compared with a UBSan-instrumented reference execution"
TRUST = " Trusts clang 18 -O0 (wasm32) as the reference for defined ILP32 C, and wasmtime."

p("C01", "Integer expressions and assignments mean what ILP32 C says",
  "For every accepted program, each integer expression (all operators, types from bool to unsigned long long, casts, implicit conversions, "
  "compound assignment, ++/--, through every kind of lvalue) evaluates to the value ILP32 C gives it, whenever C gives it one. "
  "The value of an assignment expression, the object stored, and neighbouring objects are all as C says, and side effects happen exactly once.",
  ["programs", "inputs"], "all integer expressions over all operand types and values with defined C behaviour",
  "The suite has a few hundred fixed expressions, most of int type; the operator x type x type x value x nesting space is unbounded, and folding, "
  "narrow-type wrapping and instruction selection interact.",
  ["c.c", "w.c", "p.c"],
  [("usual arithmetic conversions", "c.c ts_arith_common/ts_binop_common"), ("operator lowering", "c.c compile_binary/compile_unary/compile_opassign"),
   ("narrow type wrapping", "c.c asm_numerical_cast, compile_cast"), ("constant folding", "c.c fundef_fold_constants/arithmetic_eval")],
  DIFF, "Random exploration: the compared observations are exact; nothing is proved about unvisited expressions." + TRUST)

p("C02", "Control flow executes the statements C says, in order, exactly once",
  "For every accepted program, if/while/do/for/switch/break/continue/goto/return, short-circuit operators, ?: and the comma operator execute exactly the "
  "sequence of side effects C prescribes, and locals keep their values across every nesting.",
  ["programs", "histories"], "all structured nestings of statements and all branch outcomes",
  "Tests run a handful of fixed loops; nestings of switch fallthrough, goto, continue in do-while, and early return inside blocks are combinatorial.",
  ["c.c"], [("statement compilation to wasm blocks", "c.c compile_stmt/fundef_compile"), ("switch tables", "c.c compile_switch"), ("flattening and peephole", "c.c fundef_flatten/fundef_peephole")],
  DIFF, "Trace equality on random programs; every step a program takes is an observation." + TRUST)

p("C03", "Objects have C layout, initial values, addresses and copy semantics",
  "For every accepted set of declarations, sizes, alignments, offsets, initial bytes of globals and locals (nested arrays, structs, unions, strings, enums, addresses), "
  "pointer arithmetic and comparison, and aggregate assignment, return and field access behave as ILP32 C says. Writing one object changes no other.",
  ["programs", "inputs"], "all nested aggregate types, initializers and access paths",
  "Tests fix a dozen aggregates; type nesting, initializer shapes and mixed access widths multiply without bound.",
  ["c.c", "w.c"], [("layout", "c.c measure_type/measure_offset"), ("static data building", "c.c initialize_bulk_data"), ("bulk copy", "c.c compile_bulkasn"), ("data relocation at link", "w.c link/data segments")],
  DIFF, "Random exploration, including whole-object byte dumps." + TRUST)

p("C04", "Floating-point arithmetic and conversions are IEEE-exact",
  "For every accepted program, float and double arithmetic, comparison, conversion between floating and integer types in either direction, literals and mixed expressions "
  "produce the correctly rounded IEEE-754 result with the operand types C says, including signed zeros, infinities and NaNs.",
  ["programs", "inputs"], "all floating expressions and operand values",
  "Tests check a few decimal outputs; rounding, promotion float->double, negative zero and conversion edges need bit-exact comparison over many operands.",
  ["c.c", "w.c"], [("conversions", "c.c asm_numerical_cast"), ("constant emission", "w.c hextoud/udtohex, c.c arithmetic_eval"), ("comparison lowering", "c.c compile_binary")],
  DIFF, "Bit-exact comparison (NaN payload ignored) on random programs." + TRUST)

p("C05", "Calls, varargs and function pointers pass and return the right values",
  "For every accepted program, each call (direct, recursive, mutual, through a function pointer or a table of them, variadic, struct-returning) evaluates its arguments once, "
  "the callee sees exactly the converted argument values, the caller receives exactly the converted result, va_arg yields the promoted arguments in order, the argument count is the number passed, and the caller's "
  "locals, address-taken objects and stack frame are unchanged by the call except through pointers passed.",
  ["programs", "histories"], "all signatures, argument lists, call depths and call graphs",
  "Tests use a few int signatures; register vs stack residency of locals, frame sizes, variadic layout and indirect-call type indices depend on the whole function.",
  ["c.c", "w.c", "lib/include/stdarg.h"],
  [("calls and argument conversion", "c.c compile_call"), ("frame layout", "c.c fundef_compile (bulk locals, $sp)"), ("varargs", "c.c compile_va_arg, lib/include/stdarg.h"),
   ("function tables", "w.c element segments, call_indirect types")],
  DIFF, "Random call graphs and signatures; argument values and frames are observed in every callee." + TRUST)

p("C06", "Optimisation never changes what a program does",
  "For every accepted program without undefined behaviour, compiling at any -O level gives a valid module with the same output, exit code and traps.",
  ["programs"], "all programs and optimisation levels",
  "The suite runs only at the default level; peephole rules fire on instruction patterns that arise from combinations of constructs.",
  ["c.c"], [("peephole optimiser", "c.c fundef_peephole"), ("-O handling", "c.c main")],
  "online differential monitor: each program is run as compiled at -O0, -O1, -O2, -O3 and -O9 and the observation streams compared",
  "Random programs from all language generators; differences that follow undefined behaviour are not judged." + TRUST)

p("C07", "Constant expressions have the value the same expression has at run time",
  "For every constant expression with defined behaviour, the value the compiler computes (initializers, enumerators, array sizes, case labels, static_assert, macro conditions, folded code) "
  "is the value the same expression yields when evaluated at run time over variables, and no constant expression crashes the compiler.",
  ["inputs"], "all constant expressions over all types and operand values",
  "Folding reimplements every operator on the host; tests cover a few int cases, while each operator x type x edge value is a separate path.",
  ["c.c"], [("static evaluation", "c.c static_eval/arithmetic_eval/arithmetic_constant_expr"), ("folding", "c.c fundef_fold_constants, node-level folding"), ("numeric conversion", "c.c numval_convert")],
  "online differential monitor: compile-time values observed in running programs and static assertions, against a UBSan-guarded reference that evaluates the same expressions over run-time variables",
  "Random expressions; those with undefined behaviour are dropped." + TRUST)

p("C08", "Tokens, literals, macros, conditionals, generic and scoping mean what C says",
  "For every accepted source, literals and strings denote the values C gives them, comments, spacing, line ends and skipped conditional blocks do not matter, macros expand as their definition "
  "says (arguments evaluated in place, nested and variadic ones and countof(...) included), generic selects by the operand's type, declarators declare the type C says, and each identifier refers to the innermost visible declaration.",
  ["inputs", "programs"], "all token sequences, macro definitions and uses, declarators and scope nestings",
  "Scanner states, macro nesting and shadowing combine freely; the tests have one fixed example of each.",
  ["p.c", "c.c", "l.c"], [("lexer automaton", "p.c yylex"), ("conditional blocks and macros", "p.c pp_* / macro expansion"), ("literal decoding", "l.c strtocc32/strtou8c"),
   ("block-local hoisting", "c.c expr_hoist_locals"), ("generic", "c.c INTR_GENERIC")],
  DIFF, "Random sources with layout noise; every literal is observed unit by unit." + TRUST)

p("C09", "Linked modules are valid, WAT equals binary, and memory regions are disjoint",
  "For every accepted program and every -O/-s/-a, the .wasm output is a well-formed module that validates; the .wat output is valid WebAssembly text that denotes the same module (imports, types, "
  "globals, elements, data, every instruction and immediate); it imports only wasi_snapshot_preview1 functions, exports exactly memory and _start, contains no unreachable function; and static data, "
  "the stack of the requested size, the argument area and the heap do not overlap and lie inside the initial memory, none of them at address 0.",
  ["programs", "inputs"], "all programs and linker options",
  "Tests look only at program output; encoders of rarely used immediates, region arithmetic for odd sizes and the two writers are only exercised by the combinations programs need.",
  ["w.c", "c.c", "l.c"], [("binary writer", "w.c wasm_*"), ("text writer", "w.c watify/format_inscode"), ("layout", "w.c/c.c link: data, sp$, stack_base, heap_base"), ("reachability", "w.c dependency walk")],
  "offline checker over both outputs: an independent decoder compares binary and assembled text item by item and checks layout invariants; the engine validates",
  "Random and repository programs. Trusts wasmtime's WAT assembler and validator.")

p("C10", "Separate compilation, link order and input kind do not change the program",
  "For every set of modules, compiling them together, separately to .wo/.o/.wat objects, or any mixture, in any order, gives programs that behave the same and as C's linkage rules say: statics are private to "
  "their module, externs denote the one definition, initialized addresses and function pointers refer to the right object across modules. An object module in another spelling of the same text (white space, comments, string escapes, hexadecimal numbers) links to the same bytes. Compilation is deterministic: the same inputs give the same bytes, on a "
  "file or on standard output, from any directory.",
  ["programs", "histories"], "all module sets, object formats, orders",
  "Tests compile single files; symbol mangling, relocation of data and function references and the object reader/writer pair have to agree on every construct.",
  ["w.c", "c.c", "l.c", "p.c"], [("object writer", "w.c/c.c write_wo"), ("object reader", "w.c parse_wat"), ("linker", "w.c load_library_wat_modules/wat_line_link"), ("module headers", "p.c #include of module headers")],
  DIFF + "; repeated builds are compared byte for byte", "Random module graphs against a reference linker (wasm-ld)." + TRUST)

p("C15", "Literals keep their exact value in code, static data and object files",
  "For every literal, integer (any base and suffix), floating (decimal or hexadecimal, float or double, including subnormals, infinities from overflow, signed zeros), character or string, the running program sees exactly "
  "the value and type C gives it, whether it is used in code, in a scalar, array or struct initializer, and whether it went through an object file (.wo) or not.",
  ["inputs"], "all literals",
  "Each literal is converted several times (scan, fold, print as hex float, re-read, encode as LEB or bytes); tests sample a few values far from the edges.",
  ["p.c", "l.c", "w.c", "c.c"], [("scanning", "p.c token to number"), ("hex float round trip", "l.c udtohex/hextoud/uftohex/hextouf"), ("LEB128", "w.c wasm_signed/wasm_unsigned"), ("data bytes", "c.c bindouble/binfloat/...")],
  DIFF + "; the object-file route is compared with the direct one", "Random literals with edge values." + TRUST)

p("C26", "SIMD and scalar instruction intrinsics compute the documented results",
  "For every intrinsic of wasm_simd128.h, wasm.h and sys/intrs.h called with valid arguments, and any composition of them through locals, parameters, globals, arrays, struct fields and pointers of type v128_t, "
  "the result, lane by lane, is the one the intrinsic's documented prototype and the WebAssembly instruction of that name define; stores change exactly the addressed bytes.",
  ["programs", "inputs"], "all intrinsics and argument values",
  "The suite calls a fraction of the ~400 intrinsics once; each has its own opcode, immediate and prototype, and v128 values have their own path through the compiler.",
  ["lib/include/wasm_simd128.h", "lib/include/wasm.h", "w.c", "c.c", "p.c"],
  [("intrinsic prototypes", "lib/include/wasm*.h"), ("opcodes and immediates", "w.h/w.c instr tables"), ("asm() calls", "c.c compile_acapp, p.c parse_asm_code"), ("v128 objects", "c.c asm_load/asm_store")],
  DIFF, "Random compositions of all intrinsics; the reference is clang's <wasm_simd128.h>." + TRUST)

MODEL = "online monitor: the tree's library, compiled by the tree's compiler, runs random command histories; every result is checked against an independent model"

p("C16", "malloc, calloc, realloc, free keep live blocks disjoint, aligned and intact",
  "For every history of malloc, calloc, realloc, free and sbrk, with or without memory running out: every block handed out is 16-byte aligned, lies inside memory above data and stack, overlaps no live block and no "
  "region obtained from sbrk, and keeps its contents until freed or resized; calloc memory is zero; realloc keeps the first min(old, new) bytes, and when it fails it returns NULL and leaves the old block as it was; requests that "
  "cannot be satisfied (including ones whose size overflows) return NULL and never a smaller block; repeated balanced histories do not grow memory without bound.",
  ["histories", "inputs"], "all allocation histories and sizes, with memory failing at any point",
  "The tests allocate a few blocks; splitting, bucket lists, sbrk interleaving, out-of-memory paths and near-overflow sizes need long histories.",
  ["lib/src/stdlib.c", "lib/src/unistd.c"], [("allocator", "stdlib.c realloc/malloc/calloc/free, sbrkblock, pushblock, popblock"), ("sbrk", "unistd.c sbrk, memory.grow")],
  MODEL + " of the heap (interval map of live blocks, fill patterns, memory top)", "Random histories; wasmtime limits memory to inject allocation failure.")

p("C17", "string.h and ctype.h functions meet their C contracts",
  "For every argument within its domain, the functions of string.h (mem*, str*, strtok, strdup/strndup, case-insensitive comparisons) and ctype.h return the value the C standard (or POSIX) gives, write exactly "
  "the bytes it says, and touch no other byte; the sign of comparisons treats bytes as unsigned.",
  ["inputs"], "all arguments: contents, lengths, offsets, overlaps and aliasing within each function's domain",
  "Tests check a few fixed strings; boundary lengths, embedded high bytes, empty needles, overlap directions and word-at-a-time loops need dense coverage.",
  ["lib/src/string.c", "lib/src/ctype.c", "lib/include/string.h", "lib/include/ctype.h"], [("string functions", "lib/src/string.c"), ("classification tables", "lib/src/ctype.c")],
  MODEL + " (Python reference functions), with guard bytes around every buffer", "Random arguments at boundary values; exhaustive for single-character functions.")

p("C18", "qsort sorts, bsearch finds, rand and div behave as C says",
  "For every array, element size, length and consistent comparison, qsort permutes the elements into order, changes no byte outside the array and calls the comparison only with pointers to elements; bsearch on a sorted array "
  "calls it as (key, element), finds an equal element if and only if there is one, with a logarithmic number of calls. rand() is in 0..RAND_MAX, repeats exactly after srand of the same seed, and without srand is the sequence "
  "of srand(1). abs/div and their long and long long forms give exact results.",
  ["inputs"], "all arrays, sizes, orders; all seeds; all operands",
  "Tests sort one small array; combsort's gap schedule, equal keys, odd element sizes and boundary lengths decide correctness.",
  ["lib/src/stdlib.c", "lib/src/string.c"], [("qsort", "stdlib.c qsort/newgap, string.c memswap"), ("bsearch", "stdlib.c bsearch"), ("rand", "stdlib.c jrand48/rand/srand")],
  MODEL + "; the comparison function itself monitors its arguments", "Random arrays biased to awkward lengths and orders.")

p("C19", "printf of integers, characters and strings follows the format exactly",
  "For every format with d i u x X o b c s % conversions, flags, width, precision (constant or '*') and length modifiers, and every argument value, each function of the printf family writes exactly the characters "
  "C defines (b: binary like x with prefix 0b), returns their number, and the buffer versions write at most n bytes including the terminator and no byte beyond it.",
  ["inputs"], "all formats, arguments, buffer sizes",
  "The suite checks a few hundred fixed combinations; flags x width x precision x value x length is far larger and each combination has its own padding arithmetic.",
  ["lib/src/stdio.c", "lib/include/stdio.h", "lib/include/stdarg.h"], [("integer conversion", "stdio.c _ntoa_*"), ("driver", "stdio.c _vsnprintf"), ("variadic calls", "c.c va_arg, lib/include/stdarg.h")],
  MODEL, "Random formats; the model is 30 lines of Python. The width of %p and %n are left out.")

p("C20", "printf of floating-point values is correctly rounded and formatted",
  "For every double, flags, width and precision, e f g a conversions (both cases) write the correctly rounded decimal or hexadecimal digits with the sign, point, exponent and padding C defines (negative zero, infinities and "
  "nan included), with the three departures the library documents and its tests pin: %f of magnitudes above 1e9 is written as %e, %f digits after the ninth are zeros, and %g keeps trailing zeros.",
  ["inputs"], "all doubles and formats",
  "Rounding carries, ties, powers of ten, subnormals and huge precisions are measure-zero cases no sample of fixed strings settles.",
  ["lib/src/stdio.c"], [("decimal expansion", "stdio.c _dtodgs/_rnddgs/_ftoa"), ("hexadecimal", "stdio.c _atoa")],
  MODEL + " (exact rational rounding)", "Random doubles biased to ties, powers of ten and extremes.")

p("C21", "Text-to-number, scanf and multibyte conversions follow C",
  "For every text and base, strtol, strtoul, strtoll, strtoull, atoi, atol and atoll yield the value, end position, clamping and errno C defines (32-bit long); strtod and atof accept exactly C's subject sequences, are exact for "
  "hexadecimal and short decimal texts and within a few ulp otherwise; sscanf, snscanf and fscanf consume input items, assign, count and return as C's scanf does, touch no byte outside of the objects they assign and leave the "
  "stream at the first character not consumed; mbtowc, mblen, wctomb, mbstowcs and wcstombs convert UTF-8 exactly within their limits.",
  ["inputs"], "all texts, bases, formats and limits",
  "Overflow boundaries, incomplete exponents and prefixes, widths that cut an item short and limits that cut a character short only fail at exact inputs.",
  ["lib/src/stdlib.c", "lib/src/stdio.c"], [("number scanning", "stdlib.c strntonum/strtod_dec/strtod_hex"), ("formatted input", "stdio.c _vsnscanf/_aton/_atod"), ("UTF-8", "stdlib.c mbtowc/wctomb_chk")],
  MODEL, "Results that C leaves undefined (values a scanf object cannot represent, stray bytes given to mbstowcs) are not judged; decimal strtod is documented to round imperfectly: 12 ulp.")

p("C23", "math.h functions are exact where C says so and accurate elsewhere",
  "For every double argument, sqrt, ceil, floor, fabs, round, trunc, nearbyint, fmod, frexp, modf, ldexp, scalbn, copysign, fmax, fmin and the classification functions return exactly the value C and IEEE 754 define, and the "
  "elementary functions (exp, log, pow, sin, tanh, atan2 ...) return the right special values and are within 4 ulp of the true result over their whole domain.",
  ["inputs"], "all double arguments",
  "Argument reduction, overflow thresholds, subnormal results and special values are isolated points and ranges in 2^64 (or 2^128) arguments.",
  ["lib/src/math.c"], [("elementary functions", "math.c ieee754_*"), ("decomposition", "math.c frexp/modf/scalbn")],
  "Driver programs run under wasmtime with an online monitor comparing every result to glibc's libm, bit for bit or in ulp", "pow with |y| > 2^31 is judged to 1024 ulp: the algorithm's (fdlibm's) own reduction is that coarse there.")

p("C22", "Streams keep C's order, position and data across any history",
  "For every history of fopen, freopen, fclose, fread, fwrite, getc, putc, fgets, fputs, ungetc, fseek, ftell, rewind, fgetpos, fsetpos, fflush, setvbuf, fprintf, fscanf, remove and rename that obeys C's rules for switching between "
  "input and output, in every buffering mode and buffer size, every call returns what C says, reads see exactly the bytes at the stream's position (pushed back character first), ftell reports that position, the indicators are right, "
  "the file holds every byte written so far after fflush and fclose, and after exit or a return from main no byte is lost, duplicated or misplaced.",
  ["inputs", "histories"], "all operation histories over all file contents and buffering modes",
  "Buffer edges, a seek inside the buffer, push-back at a buffer boundary and appends after seeks only go wrong in particular sequences.",
  ["lib/src/stdio.c", "lib/src/unistd.c", "lib/src/fcntl.c"], [("buffered streams", "stdio.c _flsbuf/_filbuf/fread/fwrite/fseek/ftell/ungetc/fflush/closeall"), ("descriptors", "unistd.c/fcntl.c over WASI")],
  MODEL, "What C leaves open is not judged: end-of-file indicator after output, position of a fresh append stream, a failed seek's effect on a pushed back character, flushing input streams.")


p("C11", "Startup, termination and memory layout hold for every program and environment",
  "For every form of main, -s stack size, -a argument size, argument vector and environment: the program sees exactly its arguments (or, when they exceed the -a area, a diagnostic and an empty argv[0], never memory damage); getenv "
  "returns exactly the values of the environment; returning from main and exit(n) end with that status after running atexit functions in reverse order, including functions registered early, from other functions and up to the "
  "32 that C guarantees, and after writing all stream output; abort and _exit run none of them and never report success for abort; recursion down to the declared stack size, heap blocks and arguments never disturb each other or static data.",
  ["inputs", "configurations"], "all main forms, -s/-a values, arguments, environments, registration orders and exits",
  "Layout and termination order depend on link options, on what is registered first and on argument sizes next to limits.",
  ["lib/src/crt.args.c", "lib/src/crt.argv.c", "lib/src/crt.void.c", "lib/src/stdlib.c", "lib/src/stdio.c", "w.c", "c.c"],
  [("start code", "c.c process_top_node/_start, lib/src/crt.*.c"), ("memory layout", "w.c g_stacksz, g_argvbsz, stack_base, heap_base"), ("exit", "crt terminate, stdlib.c atexit/exit/abort, stdio.c closeall")],
  MODEL, "Exit statuses above 125 are refused by the WASI host and not used.")

p("C24", "time.h follows the calendar for every time and format",
  "For every time_t and TZ offset, gmtime, localtime and their _r forms give the proleptic Gregorian date or a null pointer when the year does not fit; mktime is their inverse, accepts fields outside of their ranges and normalizes them; "
  "asctime, ctime and strftime produce C's texts for every conversion of C90, never write past the limit they are given and return the length; difftime, time, clock, tzset, tzname and timezone agree with the clock and TZ.",
  ["inputs"], "all times, broken-down times, TZ values, formats and limits",
  "Leap years, centuries, years past 2038, negative times and limits equal to the text's length only fail at exact inputs.",
  ["lib/src/time.c"], [("calendar", "time.c secs_to_tm/mktime"), ("formatting", "time.c strftime/asctime_r"), ("time zone", "time.c tzset")],
  MODEL, "Daylight saving is not implemented by the library and not judged; %c and %x may use C99's or the library's own date layout.")

p("C25", "Descriptors, directories and paths act on the file system as POSIX says",
  "For every history of open, read, write, pread, pwrite, lseek, ftruncate, close, fcntl, stat, lstat, fstat, mkdir, rmdir, unlink, remove, rename, link, symlink, readlink and access, and every set of preopened directories, each call has the "
  "result, error and effect of its POSIX counterpart on the file the path names (the longest preopened prefix wins), writes nothing outside of the buffers it is given, and reports the kind, size, links, identity and time of the file; "
  "readdir, telldir, seekdir, rewinddir, scandir and alphasort list every entry exactly once in directories of any size.",
  ["inputs", "histories"], "all histories over all trees and preopened directories",
  "Prefix matching, entries that straddle the directory buffer and stale bits in results depend on particular names, sizes and histories.",
  ["lib/src/unistd.c", "lib/src/fcntl.c", "lib/src/stat.c", "lib/src/dirent.c", "lib/src/stdio.c"],
  [("paths", "fcntl.c find_relpath/find_abspath/openat"), ("descriptors", "unistd.c"), ("stat", "stat.c to_public_stat"), ("directories", "dirent.c readdir/scandirat")],
  MODEL, "Errors that POSIX systems legitimately report differently are interchangeable; permissions are outside of WASI.")


p("C13", "The compiler and linker survive every input and diagnose what they refuse",
  "For every source file, object file, option list and combination of them, valid or not, wcpl terminates without undefined behaviour: no invalid memory access, use of freed or uninitialized memory, arithmetic overflow, failed "
  "assertion, signal or endless loop. It either exits with 0 and has written its output, a valid WebAssembly module if a program was asked for, or exits with a nonzero status and a message on standard error.",
  ["inputs"], "all byte strings as source or object files, all command lines",
  "Error paths run after arbitrary parser states; the suite compiles correct programs with a compiler that is not instrumented.",
  ["c.c", "p.c", "w.c", "l.c"], [("parser", "p.c parse_*, preprocessor"), ("compiler", "c.c process_*, compile_*, asm_*"), ("object reader", "w.c parse_wat"), ("linker", "w.c link_wat_modules"), ("buffers", "l.c buf*, cb*")],
  "AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer watch the real compiler and linker on the repository's programs, generated programs, mutants of both, mutated object files and malformed command lines; a monitor judges termination, exit status, messages and the validity of accepted modules (wasmtime's validator)",
  "Inputs nest at most a few hundred levels and do not ask for objects of hundreds of megabytes; the text inside inline asm is the user's.")

p("C14", "Invalid programs are rejected with a located diagnostic and leave no output",
  "A program, header or set of modules that breaks a rule of the WCPL dialect (syntax, undeclared or redefined names, types of operands, arguments, assignments, initializers and returns, control statements, labels, constants, "
  "declarations, preprocessor directives, mismatched or missing or repeated definitions at link time) is rejected, in every context where the violation can stand: wcpl exits with a nonzero status, names the file and the line of the violation on standard "
  "error, and neither writes nor removes the output file; while the program which differs from it only in that the rule is kept is accepted. The same holds for inputs that cannot be read; output that cannot be written is reported with a nonzero status.",
  ["inputs"], "all violations of the dialect's rules in all contexts",
  "The suite checks acceptance of correct programs only; a missing check in one of the typing or linking paths lets wrong programs through silently.",
  ["c.c", "p.c", "w.c", "l.c"], [("syntax and preprocessor", "p.c parse_*"), ("names and types", "c.c expr_compile/process_*, c.c expr_hoist_locals"), ("linking", "w.c link_wat_modules"), ("output", "c.c main, w.c write_*")],
  "a monitor of exit status, diagnostics and output files over violations with valid twins instantiated in random contexts, random link-time mismatches, headers, faults in reading and writing (full device, closed stdout, directories), and mutants of generated programs judged where clang reports an error of a listed kind",
  "Rules that the documentation or the original code does not enforce are not judged: const, volatile and restrict, casts as lvalues, casts between pointers and floats, comparison of distinct pointer types, redeclaration of a parameter in the body, "
  "a second #else, functions returning arrays, va_start's second argument, operands of inline asm and SIMD immediates.")

p("C12", "The compiler compiled by itself behaves like the native one",
  "For every source, object file, set of modules and option, wcpl compiled by wcpl to WebAssembly (at any -O level) and run under a WASI host gives what the natively compiled wcpl gives: the same exit status, byte for byte the same output files "
  "and, texts of the operating system's errors aside, the same diagnostics; compiling its own sources once more gives the same module again.",
  ["inputs", "configurations"], "all source files, object files and options",
  "The suite compiles the compiler by itself once and does not compare what the result does; a difference needs a construct of the compiler's own source (in its parser, number conversion, sorting, hashing, string handling, file access or library) that only some input reaches.",
  ["c.c", "p.c", "w.c", "l.c", "lib/src/stdio.c", "lib/src/stdlib.c", "lib/src/string.c"],
  [("compiler", "c.c, p.c"), ("linker and writers", "w.c"), ("host library", "l.c, lib/src/*.c")],
  "the same inputs go to the native compiler and to the self-compiled one under wasmtime; a monitor compares statuses, files and messages of both executions: the repository's programs, generated programs at every -O, mutants, mutated objects and multi-module links",
  "Decimal texts in comments of .wo and .wat files and inputs that use __DATE__ or __TIME__ are not compared.")

p("C27", "Headers, modules and embedded files are found where the documentation says",
  "#include <n> and module lookup search the -I / WCPL_INCLUDE_PATH directories, then the include subdirectories of the -L / WCPL_LIBRARY_PATH directories, then the embedded library, each "
  "kind in the order given, and in a directory n, n.h, n.wh (modules: n.o, n.wo); #include \"n\" looks in the current directory first, #include <n> never does; a / in the name is a . in the file "
  "name. The first match is used, whatever else exists; a name found nowhere is refused with a located diagnostic and no output. The embedded library works without any option from any "
  "directory, every embedded header can be included, and its files are exactly what was compressed. -v, -w and -q do not change the output.",
  ["programs", "inputs"], "all placements of variants of headers and modules, orders and spellings of options, and embedded files",
  "Tests give one -L and one -I; precedence only shows when several variants of the same name exist, and the embedded library is not linked by them at all.",
  ["p.c", "c.c", "w.c", "l.c"], [("header lookup", "p.c pws_from_modname/parse_include_directive"), ("module lookup", "w.c load_library_wat_module"), ("search bases", "c.c init_wcpl/main"), ("embedded archive", "l.c mopen/zinflate")],
  "online monitor: programs report which variants they were built from; decompressor under ASan/UBSan against zlib",
  "Random layouts; the order between options and environment variables is not judged. Trusts zlib.")


p("C28", "Headers publish the values, layouts and WASI signatures the specifications give",
  "For every header and combination and order of inclusion (repeats included): the published constants (limits, stdint, float, errno, fcntl, stat, wasi/api) have the values of the C and WASI preview1 "
  "specifications wherever a constant may be used; published types and structs have the specified size, signedness and field offsets; every PRI/SCN macro prints and reads exactly its type, touching no "
  "other byte; S_IS* classify every mode; assert evaluates its operand exactly once and aborts when it is false, and evaluates nothing under NDEBUG; _panicf formats its message to standard "
  "error; every WASI function is imported with its preview1 signature, and calling it directly does what WASI says with the arguments given.",
  ["inputs", "programs", "histories"], "all sets and orders of headers, uses of constants, values of types, modes, sequences of raw WASI calls",
  "Tests touch a few constants through higher-level functions; a wrong layout or width only shows for large values, particular fields or 64-bit arguments.",
  ["lib/include/*.h", "lib/include/wasi/api.h", "lib/src/stdlib.c"],
  [("WASI declarations", "lib/include/wasi/api.h"), ("format macros", "lib/include/inttypes.h"), ("assert", "lib/include/assert.h, lib/include/NDEBUG/assert.h"), ("message printer", "lib/src/stdlib.c _panicf")],
  "online monitor: values observed by generated programs against tables written from the specifications; decoded imports; model-based histories of raw WASI calls",
  "Random subsets; iovec lists have one non-empty element (the host moves one per call). Trusts wasmtime's WASI.")


p("C29", "Inline assembly does exactly what the instructions written in it do",
  "A program that uses the asm form - a cast of asm, asm applied to any number of argument expressions, asm nested in asm, with register declarations, C locals and parameters named in "
  "local.get/set/tee (under any shadowing), globals and functions of any module, loads and stores of every width with offset and align, and immediates written as constant expressions or macro "
  "parameters - compiles, and behaves as its instructions in their written order together with the C around it: arguments are evaluated and converted to the declared parameter types, then the "
  "code runs. Every result, local, global and byte of memory comes out the same, at every optimization level, as WASM or WAT and through object files.",
  ["programs", "inputs"], "all well-formed uses of asm in functions, in any expression context",
  "Tests only use the asm forms of the library headers, single instructions applied to arguments; mixed, nested and shadowed uses never occur.",
  ["p.c", "c.c", "w.c"],
  [("asm parser", "p.c parse_asm_instr/parse_asm_code"), ("local renaming", "c.c expr_hoist_locals"), ("application", "c.c compile_acapp"), ("flattening and peephole", "c.c expr_flatten/fundef_peephole")],
  "online differential monitor: generated functions against the same instructions assembled by the runtime from a text module of the generator's own",
  "No control-flow or SIMD instructions in asm (SIMD is C07); no address-taken locals. Trusts wasmtime's text assembler and execution.")




p("C30", "Host failures and partial transfers are reported and lose nothing silently",
  "For every history of stream, descriptor, path, directory and clock calls in which the host (WASI) fails any of its calls with any error number or transfers fewer bytes than asked: the library call concerned reports the failure as its "
  "specification says (-1, NULL or EOF, errno holding the host's error; for streams the error indicator, never the end-of-file indicator); calls the host does not fail report success; short reads are continued until the request is satisfied "
  "or the file ends, and what is read is exactly the file's next bytes, also after clearerr; what is written reaches the host in order, without duplicates, and is missing only if a call on the stream, its error indicator, fflush or fclose says so; "
  "a program whose arguments or environment cannot be fetched says so on standard error and runs with none; no descriptor is leaked by a failing call, nothing outside of the buffers given is written, and nothing traps or hangs.",
  ["inputs", "histories", "faults"], "all histories and all failures and short transfers of the host at any point of them",
  "The tests run on a host that never fails and always transfers everything; failures at a particular call of a particular history never occur in them.",
  ["lib/src/stdio.c", "lib/src/unistd.c", "lib/src/fcntl.c", "lib/src/stat.c", "lib/src/dirent.c", "lib/src/time.c"],
  [("buffered output", "stdio.c writebuf/_flushbuf/fwrite/fputs/fflush"), ("buffered input", "stdio.c _fillbuf/fread/fgets"), ("errno", "unistd.c, fcntl.c, stat.c, dirent.c error returns")],
  "fault injection by a WASI host of the harness's own (in-memory files, event log, plan of failures and short transfers) and an offline checker of the recorded log against what the program saw",
  "stdout and stderr themselves, fclose's errno, and seeks on failing streams are not judged; a write cut short may be reported as an error (POSIX allows to continue).")


p("C31", "Large programs mean the same as small ones",
  "Whatever the number and the size of a program's parts - functions, globals, data objects, literals, types, parameters, variable arguments, locals, frame bytes, switch cases, nesting levels, operators of an expression, statements, "
  "macros, enumerators, struct members, array dimensions, typedefs, bytes of identifiers, literals, lines and comments, modules linked - the program compiles, its module is valid and it behaves as its parts do in a small program; "
  "that holds across every size at which a table grows or an encoding changes width, at every optimisation level and also through object files.",
  ["inputs"], "all valid programs that fit the memory of the machine and the limits the documentation states",
  "The tests' programs are small: tables seldom grow while they are in use, indexes and offsets fit one or two bytes.",
  ["c.c", "p.c", "l.c", "w.c"], [("growing tables", "l.c bufgrow/bufnewbk and their users"), ("symbol table", "p.c post_symbol/intern_symbol"), ("encodings", "w.c, l.c LEB128 writers"), ("data layout", "c.c initialize_bulk_data, w.c data placement")],
  "online differential monitor: generated programs, large in one to three dimensions around growth and encoding boundaries, against the reference compiler's module (many-module programs against values the harness computes)",
  "Sizes up to 3000 functions/globals/cases, 5000 literals, 300 parameters, 600 locals, 60 KB tokens, 3 MB data, 150 modules; deep nesting to 250.")



ALL = P


def main():
    from vf.run import registry
    reg = registry()
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            if q["id"] not in reg:
                continue
            a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]]}
            if q["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in q["state"]]
            if q["observe"]:
                a["observe_at"] = list(q["observe"])
            a["hook_needed"] = None
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                                "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"], "anchors": a}) + "\n")
            assert len(q["title"]) <= 80, q["id"]
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
           "notes": "No hooks: the checks observe unmodified builds of /repo (native, ASan/UBSan-instrumented, and self-hosted) and the programs they produce."}
    for q in P:
        if q["id"] in reg:
            man["checks"].append({"property": q["id"], "quick_cmd": "./check %s" % q["id"], "thorough_cmd": "./check %s thorough" % q["id"],
                                  "evidence_file": "evidence/%s.json" % q["id"], "technique": q["tech"], "level": "exploration", "level_note": q["note"]})
    missing = set(reg) - {q["id"] for q in P}
    assert not missing, missing
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(man["checks"]), "checks; planned but unbuilt:", [q["id"] for q in P if q["id"] not in reg])


main()
