"""Texts of the properties and of their manifest entries (see meta.py)."""
IR = "LLVM-IR abstract interpretation of the code generator's emitted templates"
PROPS = [
dict(id="C01", title="Integer arithmetic is exact or stops the program",
     statement="""For all operands of integer types of at most 64 bits (int, uint, sized, byte, char), every +, -, *, unary minus, ++, -- and
     compound assignment (+=, -=, *=), through any assignable target (variable, mutable parameter, field, element, map entry, pointer), yields exactly the
     mathematical result of the operand values, or the program stops with a run-time error. It never wraps around, never reinterprets a negative
     value as unsigned and never delivers a value outside the range of the operation's type; it does not stop when the result fits that type.""",
     over=["programs", "inputs"], quant="every operator, every pair of operand types, every assignment target form, all operand values",
     why="The tests execute a few dozen operand combinations; the property ranges over all type pairs, target forms and 2^128 operand values.",
     files=["grayc/src/codegen/codegen.c", "grayc/src/runtime/runtime.h"],
     mech=[("overflow-checked helpers", "grayc/src/runtime/runtime.h: gray_*_check"), ("choice of helper per operand types", "grayc/src/codegen/codegen.c: emit_expression infix/prefix/postfix, compound assignment")],
     technique="abstract interpretation (intervals + overflow facts) of every C template the code generator can emit",
     note="Every template the code generator can emit for the listed operators is derived from the current source by constant propagation and judged together with the run-time helpers over all operand values. Trusts clang's lowering to IR and the interpreter in lib/absint.py. Literals above 2^63-1 are a recorded finding."),
dict(id="C02", title="Division never reaches a trap or a wrong quotient",
     statement="""A division or remainder (/, %, /=, %=) of integers (including 128 and 256-bit ones) or floating values whose divisor is zero
     stops the program with a run-time error, and so does dividing the smallest value of a signed type by -1 when the quotient does not fit.
     In all other cases integer operands of at most 64 bits give the exact truncated quotient or remainder of the operand values, through every
     assignable target, and no division stops the program for any other reason.""",
     over=["programs", "inputs"], quant="all operand types, target forms and operand values, zero and MIN/-1 included",
     why="Tests divide by literal zero in a handful of forms; the guard must hold on each of the emitted forms for each type pair.",
     files=["grayc/src/codegen/codegen.c", "grayc/src/runtime/bigint.h"],
     mech=[("zero and MIN/-1 guards", "grayc/src/codegen/codegen.c: infix division, compound division"), ("wide division", "grayc/src/runtime/bigint.h: *_divmod")],
     technique="abstract interpretation of every emitted division template: each machine division must be dominated by facts excluding trapping operands",
     note="Decides trap-freedom and, up to 64 bits, exactness of the quotient. For 128/256-bit operands only the stopping behaviour is decided, not the digits."),
dict(id="C03", title="Bitwise operators and shifts are defined for all operands",
     statement="""bit_and, bit_or, bit_xor, bit_not, bit_shift_left and bit_shift_right on integers of at most 64 bits (int, uint, sized, byte, char) give
     the same result for the same operand values on every run, and the result is a value of the left operand's type (of the only operand's type for
     bit_not). A shift by an amount below 0 or of 64 and more stops the program with a run-time error, and no other bitwise operation stops it; a
     right shift keeps the sign of a signed operand and fills an unsigned one with zeros.""",
     over=["programs", "inputs"], quant="every bitwise operator, every pair of operand types, all operand values and shift amounts",
     why="Tests shift a few int values by small constants; C leaves wide, negative and promoted shifts undefined only for particular types and values.",
     files=["grayc/src/codegen/codegen.c"],
     mech=[("shift amount check and result type", "grayc/src/codegen/codegen.c: infix bit operators, prefix bit_not")],
     technique="abstract interpretation of every emitted bitwise template, with the bits of the result term compared to the operator's definition",
     note="All templates over all operand type pairs. 128/256-bit operands have no bitwise operators in the language. Trusts clang's lowering and the interpreter in lib/absint.py."),
dict(id="C04", title="Element access stays in bounds and reaches the named element",
     statement="""Reading an element of an array, map or string, and assigning, compound-assigning (+=, -=, *=, /=, %=), incrementing or decrementing an element of
     an array or map, reaches exactly the element the index or key value names, for integer indices of every type of at most 64 bits, whether the container is a variable, a
     mutable parameter, an element, a field (direct or through a pointer) or a call result. An array or string index below 0 or not below the length stops the program with a
     run-time error, however large the index is, and so does reading or updating an absent map key, while plain assignment to it adds the entry; nothing else here stops the program.""",
     over=["programs", "inputs"], quant="every container form, element type and index type, all index values and lengths",
     why="Tests index small arrays with small ints; truncated or unchecked indices show only for other index types, huge values and rarely used container forms.",
     files=["grayc/src/codegen/codegen.c", "grayc/src/runtime/array.c", "grayc/src/runtime/map.c"],
     mech=[("element templates", "grayc/src/codegen/codegen.c: index expression, element assignment, compound assignment"), ("bounds-checked accessors", "grayc/src/runtime/array.c: gray_array_get_ptr, gray_array_set")],
     technique="abstract interpretation of every emitted element-access template against the contracts of the runtime accessors, themselves proved on the runtime's IR",
     note="That gray_map_get finds the entry of an equal key is assumed here. Passing an element by reference and the arrays/maps/strings library functions are not covered."),
dict(id="C05", title="A nil pointer is never followed",
     statement="""Reading, assigning, compound-assigning, incrementing or decrementing storage reached through a pointer (p^, a field of p, an element, map entry or string
     character of such a field, chains of pointers, pointers held in fields, array elements, map entries or returned by calls) stops the program with a nil-pointer run-time error
     when any pointer on the way is nil, before any memory is touched through it. When no pointer on the way is nil the program is not stopped for that reason.
     The same holds for taking the address of a field so reached and for assigning or appending to an array, map or string so reached, also inside loops.""",
     over=["programs", "inputs"], quant="every access path of up to three pointers, every kind of access, every pointer possibly nil",
     why="Tests dereference nil through a couple of shapes; each shape and access has its own template in the generator.",
     files=["grayc/src/codegen/codegen.c"],
     mech=[("nil tests", "grayc/src/codegen/codegen.c: dereference, member access, assignment through pointers")],
     technique="abstract interpretation of every emitted pointer-access template with each pointer of the program possibly nil: a dominating test of that very pointer is required",
     note="Dangling pointers are not covered. Access shapes whose emitted C a compiler rejects (for example ++ on a field reached through a pointer) cannot run and are counted separately."),
dict(id="C12", title="Comparisons, when arms and ranges order operands by value",
     statement="""The six comparisons between integers of at most 64 bits of any two types, and between 128 or 256-bit integers of one type, decide
     the mathematical order of the operand values, also when one operand is negative and the other unsigned. A value arm of a when statement runs
     exactly when it is the first arm with a value equal to the subject, and membership in range(a, b, step), with in, not_in or as a when arm, holds
     exactly for the values a, a+step, ... before b (descending for a negative step). A zero step stops the program, and nothing else here does.""",
     over=["programs", "inputs"], quant="every comparison form, every pair of operand types, all operand values",
     why="Tests compare small positive values; wrong conversions show only for negative, unsigned or multi-word values.",
     files=["grayc/src/codegen/codegen.c", "grayc/src/runtime/bigint.h"],
     mech=[("comparison and range templates", "grayc/src/codegen/codegen.c: infix comparison, in/not_in, when"), ("wide comparison", "grayc/src/runtime/bigint.h: *_lt/_eq/...")],
     technique="abstract interpretation of every emitted comparison template, with branch decisions read as order facts over the exact operand values",
     note="Integer operands only; floats and strings are not covered. Ranges are decided for the element and bound types listed in the check."),
dict(id="M01", title="What a variable holds or a function returns outlives the block that made it",
     statement="""A string, array, map, struct, Error or nesting of these that is assigned to a variable, parameter, field, element or map entry (also through a pointer, a
     reference, a mutable parameter or a module-level variable), put into an array by append, insert_at, prepend or fill, or returned by a function, stays valid after the
     blocks, loop iterations and functions it was made in have ended: nothing reachable from the stored value lies in memory that was released with them.
     However a block or function is left (end, break, continue, return), the memory area in use afterwards is the one that was in use before.""",
     over=["programs", "histories"], quant="every target form, owning type and nesting of blocks, loops and exits",
     why="Released memory usually still holds the old bytes, so a test passes until an unrelated allocation reuses it.",
     files=["grayc/src/codegen/codegen.c", "grayc/src/runtime/runtime.c", "grayc/src/runtime/map.c", "grayc/src/runtime/array.c", "grayc/src/stdlib/arrays.c"],
     mech=[("moving values out of a block", "grayc/src/codegen/codegen.c: emit_move_to_arena, storage_arena, emit_*_deep_copy"), ("leaving blocks", "grayc/src/codegen/codegen.c: emit_scratch_arena_unwind, emit_loop_exit_unwind, return escape")],
     technique="region analysis: abstract interpretation of the emitted templates with arenas as regions, reachability of released regions from the assigned storage",
     note="Struct types that contain themselves through an array are a recorded finding. Closures, threads and library functions other than the four array operations are not covered; pointers are taken to point to what new() made."),
dict(id="C07", title="A function is left once: depth, ensure calls and returned values are in order",
     statement="""However a function is left (the end of its body, return with or without values, or_return, from inside any nesting of blocks and loops), each ensure statement that stands before
     that point runs exactly once, in reverse order, after the returned values have been computed and before the caller goes on. The depth of calls of the thread is counted up once at the start and
     down once at the end, so that only calls nested too deeply stop the program. The values the caller receives are the returned ones; next to a propagated error they are zero or empty.""",
     over=["programs", "histories"], quant="every form of return, return type and nesting, 0 to 3 ensure statements",
     why="Tests call a function a few times; a depth that is not given back, or an ensure that runs too early, shows only after thousands of calls or with a particular way out.",
     files=["grayc/src/codegen/codegen.c", "grayc/src/runtime/runtime.h", "grayc/src/runtime/runtime.c"],
     mech=[("leaving functions", "grayc/src/codegen/codegen.c: emit_return_statement, emit_function_declaration, emit_ensure_cleanup"), ("depth of calls", "grayc/src/runtime/runtime.h: gray_enter_func, gray_exit_func")],
     technique="typestate of the call protocol by abstract interpretation of the emitted function templates, linked with the runtime's depth counter",
     note="An ensure that stands after the return that is taken is not judged (it runs too). Returned strings and structs are judged by M01. main and exit() are not covered."),
dict(id="C09", title="A collection cannot change while for_each runs over it",
     statement="""While the body of a for_each over an array or map held in a variable runs, every operation of the arrays and maps modules that adds, removes, reorders or clears
     elements of that collection, and m[k] = v, stops the program with P0034 or P0035 before anything has changed. However the loop is left (end, break, continue, return from
     inside, also through nested loops), the collection can be changed afterwards exactly as before the loop. A new collection an operation makes from one that is being
     iterated over is not affected.""",
     over=["programs", "histories"], quant="every changing operation, every nesting of loops and every way out of them",
     why="Tests mutate in the loop body of one simple loop; a mark left behind by an unusual exit, or an operation without the check, only shows in a particular combination.",
     files=["grayc/src/codegen/codegen.c", "grayc/src/runtime/array.c", "grayc/src/runtime/map.c", "grayc/src/stdlib/arrays.c", "grayc/src/stdlib/maps.c"],
     mech=[("iteration guard", "grayc/src/codegen/codegen.c: emit_for_each, emit_iteration_guard_*, emit_scratch_arena_unwind"), ("checks of the mark", "grayc/src/runtime/array.c, map.c, grayc/src/stdlib/arrays.c: iterating")],
     technique="typestate of the iteration mark by abstract interpretation of every changing runtime function and of the emitted loop templates",
     note="A collection that is a field, an element or a function's result is iterated through a temporary and not protected. Assigning a[i] or the whole variable is not an operation of this property. Deep copies of elements inside generated code are not followed."),
dict(id="C14", title="Loops run their body exactly for the values the language prescribes",
     statement="""for over range(a, b, step) runs its body for a, a+step, ... as long as the value is before b in the direction of the step, in that order; a zero step, or a next value that
     is not an int, stops the program. for_each runs it once for every element of an array, entry of a map in its order or byte of a string, with exactly that index, key and value; while runs it
     as long as its condition, evaluated before each iteration, is true. break leaves exactly the innermost loop and continue proceeds with its next iteration, in every nesting.""",
     over=["programs", "inputs"], quant="every kind of loop, form of collection and element or key type, pairs of nested loops, all bounds and lengths",
     why="Tests run a few small loops; descending and empty ranges, unusual key types and exits from nested loops fail only in combinations nobody wrote down.",
     files=["grayc/src/codegen/codegen.c"],
     mech=[("loops", "grayc/src/codegen/codegen.c: emit of for, for_each, while, loop, break and continue")],
     technique="abstract interpretation of the emitted loop templates; each path is replayed against a reference of the loop semantics, with branch decisions read as order facts",
     note="Each loop is followed for its first iterations (two back edges per loop); the templates do not depend on the iteration number. Collections that change during the loop are the subject of C09. for_each over arrays of 128 or 256-bit integers does not compile and is not covered."),
dict(id="S01", title="Library calls take the documented arguments and run the documented function",
     statement="""Every function of the standard library documented in STANDARD.md is accepted with the documented number and kinds of arguments, has the documented result type, and its
     call compiles, evaluates each argument once and passes the arguments, still alive and in the documented order, to the implementation of that function. A call with another number of
     arguments, with an argument of another basic kind, of a function the module does not have, or of a module that is not imported is rejected at compile time.""",
     over=["programs"], quant="all 322 documented signatures, with variables and with results of calls as arguments",
     why="Tests call each function with a few variables in the documented way; a dropped check, a swapped argument, a temporary that dies early or a wrong result type shows only for calls nobody wrote.",
     files=["grayc/src/typechecker/typechecker.c", "grayc/src/codegen/codegen.c"],
     mech=[("call checking", "grayc/src/typechecker/typechecker.c: resolve_stdlib_call and its tables"), ("call emission", "grayc/src/codegen/codegen.c: emit_*_call")],
     technique="abstract interpretation of the type checker on every documented call and its variations; the emitted C templates are interpreted as LLVM IR with the arguments traced into the callee, temporaries' lifetimes by compiler data-flow analysis",
     note="What the implementation then computes is not judged. print functions, functions over function values and functions documented without a signature are left out."),
dict(id="T01", title="A value is stored only where its type fits",
     statement="""A program that stores a value in a place of another type is rejected at compile time, whichever way it is stored: declaration, assignment to a variable, field, element, map value or
     pointer target, argument, returned value, field or element of a literal; so is one that uses a value where the language requires another kind of type (conditions, operators, indexes, keys,
     ranges, increments, dereferences). The same program with a value of the right type, an integer where a float is expected, or nil where a pointer or error is expected, is accepted.""",
     over=["programs"], quant="all pairs of 27 types (44 in the thorough tier) in 18 ways of storing, and each type in 20 uses",
     why="Each of the ways has its own comparison of types, each with its own exceptions; tests sample a few pairs of a few of them, and what slips through is reinterpreted memory or C that does not compile.",
     files=["grayc/src/typechecker/typechecker.c", "grayc/src/typechecker/types.c"],
     mech=[("statement and expression checking", "grayc/src/typechecker/typechecker.c: check_statement, resolve_expression and the call resolvers")],
     observe=["exit status and diagnostics of gray check"],
     technique="abstract interpretation of the whole type checker (LLVM IR, all paths) on the syntax tree of one program per way of storing and pair of types, compared with the language's compatibility rules",
     note="Conversions among integer types, between integers and enums, from bool to integer arguments and nil as an argument or element are not judged: the documentation leaves them open."),
dict(id="T02", title="Constants, by-value parameters and loop variables cannot be modified",
     statement="""A program that would modify a constant, a parameter not marked mutable, a loop variable, or a field, element or value that is part of one is rejected at compile time, whether it does so by
     assignment, compound assignment, ++ or --, by passing it to a mutable parameter of a function, method or function variable, to a library function that changes its argument, or by taking a
     reference or address. The same program with a mutable variable, or one that changes what a pointer points to, is accepted.""",
     over=["programs"], quant="11 kinds of variable, access paths of up to two steps (three in the thorough tier) through structs, arrays, maps and pointers, and every way of modifying each type",
     why="Each way of modifying has its own mutability check which has to find the variable at the end of the access path; a path or a way forgotten in one of them is a constant that changes, and no test names the combination.",
     files=["grayc/src/typechecker/typechecker.c", "STANDARD.md"],
     mech=[("mutability checks", "grayc/src/typechecker/typechecker.c: immutable_root_name, check_mutable_arg, the checks of assignments, postfix operators, calls and ref"),
           ("library functions that modify", "grayc/src/runtime and stdlib sources, parameters marked & in STANDARD.md")],
     observe=["exit status and diagnostics of gray check"],
     technique="abstract interpretation of the whole type checker (LLVM IR, all paths) on one program per variable kind, access path and way of modifying; effect analysis of the C library (which parameters are written through) decides which library functions modify",
     note="Aliasing through pointers is allowed by the language and not judged."),
dict(id="T03", title="A function with a result returns one on every way through it",
     statement="""A function that declares a result (without naming it) is rejected at compile time if the end of its body can be reached without a return, whichever branches are taken, however often its loops
     run and wherever break and continue lead; break or continue outside a loop is rejected. A function every way through which returns is accepted.""",
     over=["programs"], quant="all function bodies of if, when, for, for_each, as_long_as and loop statements nested two deep",
     why="Tests try a few shapes; a shape misjudged compiles to a C function that falls off its end and returns garbage.",
     files=["grayc/src/typechecker/typechecker.c"], mech=[("return analysis", "grayc/src/typechecker/typechecker.c: all_paths_return, block_has_return"), ("loop depth", "grayc/src/typechecker/typechecker.c: check_statement")],
     observe=["exit status and diagnostics of gray check"],
     technique="abstract interpretation of the whole type checker (LLVM IR, all paths) on one program per shape of body, compared with a control-flow semantics of the statements",
     note="Endless loops without a return, dead code and named results are not judged; conditions are taken to be able to go either way."),
]
GO = "path-sensitive typestate analysis of the SSA form (merge-by-note abstract interpretation) with goan/"
PROPS += [
dict(id="G01", title="Updates only trust the project's release downloads",
     statement="""gray update and gray install request data only from constant addresses of the GitHub API or from https URLs on github.com below the
     project's release download path, with no dot segments leading out of it, whatever a server's answer contains. What they read from a response is bounded
     in size, and a name in a downloaded archive never decides a place outside the directory it is unpacked to.""",
     over=["inputs", "configurations"], quant="every response of a server, every archive, on Linux and Windows",
     why="Tests feed a few URLs; a single request or extraction that skips the comparison is enough for an attacker and no test covers the commands' network paths.",
     files=["cli/update.go"], mech=[("URL validation", "cli/update.go"), ("archive extraction", "cli/update.go")],
     technique=GO + ": trusted-source facts at every request and extraction",
     note="Redirects followed inside net/http are not judged. Redirect targets, TLS and checksums are out of scope."),
dict(id="G02", title="A failed command never reports success",
     statement="""When an operation that does the work of gray, build, check, fmt, doc, new, verify, update or install fails (reading an input the user named,
     writing, closing, renaming or removing an output, running the compiler or the program, a request), the command exits with a non-zero status, and the error or the failing process is reported.
     The exit status of the compiler or program it ran is passed on, and a command that succeeds exits with 0.""",
     over=["fault_sequences", "inputs"], quant="every failure of every file, process and network operation on every path",
     why="Tests cannot make each file operation fail in turn; ignored errors show only under faults.",
     files=["cli/main.go", "cli/commands.go", "cli/fmt.go", "cli/doc.go", "cli/new.go", "cli/verify.go", "cli/update.go", "internal/grayc/grayc.go"],
     mech=[("error propagation", "cli/*.go: RunE functions and what they call"), ("exit status", "cli/main.go: main")],
     technique=GO + ": every error must be found nil before success",
     note="Best-effort work (the ~/.gray cache, removal of temporary files, fallbacks while looking for the compiler) is exempt. Messages other than the final one are not judged."),
dict(id="G03", title="Installation never leaves a broken program",
     statement="""gray update and gray install replace the installed program only by moving into place, in one step, a file of their own that was completely
     written, made executable, forced to disk and closed without an error; at every moment, also when the process is killed or a step fails, the installed path holds the complete old
     or the complete new program (on Windows the old one may have been moved aside). The embedded compiler and runtime are unpacked the same way, into a directory named after the content of all of them.""",
     over=["crash_points", "fault_sequences", "schedules"], quant="every failure or kill point, several processes unpacking at once",
     why="Tests do not crash the process between two file operations or fill the disk.",
     files=["cli/update.go", "internal/grayc/embedded.go", "internal/grayc/grayc.go"], mech=[("replacement of the program", "cli/update.go"), ("extraction of the runtime", "internal/grayc/embedded.go")],
     technique=GO + ": typestate of every created file up to the rename",
     note="The rename itself is taken to be atomic on one file system. For the unpacked runtime forcing to disk is not required."),
dict(id="G04", title="gray new touches only the project directory it may create",
     statement="""gray new creates files and directories only in the current directory's entry with the given name and below it, and only when that name is a
     single plain path element and nothing exists there (or what existed was removed). It removes an existing directory only with --force and after the user answered y or yes to the question
     asked for that removal.""",
     over=["inputs"], quant="every name, option and answer",
     why="Tests try a few names; a path that skips a test of the name deletes or writes elsewhere.",
     files=["cli/new.go"], mech=[("name validation", "cli/new.go: isValidProjectName"), ("creation and removal", "cli/new.go: createProject, extractTemplate")],
     technique=GO + ": facts about the name at every creation and removal",
     note="Linux path rules. Races with other processes between the test and the creation are not judged."),
dict(id="G05", title="gray fmt --check changes nothing and misses nothing",
     statement="""gray fmt --check never writes, renames or removes anything but its own temporary copies, and runs the formatter on nothing else. It exits with 0 only
     if every input file was read and its whole content was found equal to what the formatter made of a complete copy of it.""",
     over=["inputs", "fault_sequences"], quant="every set of files and every failure",
     why="Tests check one or two files; a skipped comparison or a formatted original shows only for particular contents or failures.",
     files=["cli/fmt.go", "internal/grayc/grayc.go"], mech=[("check mode", "cli/fmt.go: runFmt"), ("formatter call", "internal/grayc/grayc.go: Fmt")],
     technique=GO + ": typestate of every file content from reading to comparison",
     note="That the set of inputs is complete is decided only as far as reported errors go (G02). What the formatter itself does to a copy is not judged here."),
]
NA = [
dict(id="N01", title="Library functions compute the documented result",
     statement="""Sorting returns a sorted permutation, JSON and binary encodings decode to what was encoded, and the string, regex, hash and time functions compute what STANDARD.md documents, for every
     argument.""",
     over=["inputs"], quant="all arguments",
     why="Tests sample a few values per function.", files=["STANDARD.md", "grayc/src/codegen/codegen.c"], mech=[("library", "grayc/src")],
     reason="""functional correctness of loops over data of any length: every such result needs an inductive argument about the contents of buffers (a sorted permutation, a digest, an inverse), which dataflow,
     typestate or interval domains do not express; the calls themselves (arity, types, argument order, lifetimes) are decided by S01, bounds and effects by C04, C09 and T02"""),
dict(id="N02", title="Channels deliver every message exactly once",
     statement="""Whatever the schedule of the threads, each value sent on a channel is received exactly once and in order, and a blocked operation continues when it can.""",
     over=["schedules"], quant="all interleavings of any number of threads", why="Tests see a few schedules.", files=["STANDARD.md"], mech=[("channels", "runtime channel functions")],
     reason="a liveness and counting property of unboundedly many interleavings: lock discipline could be decided statically, delivery exactly once and progress cannot without exploring schedules, which is another family"),
dict(id="N03", title="Formatting keeps the meaning of a program",
     statement="""gray fmt writes a program with the same tokens in the same order, formatting it again changes nothing, and no comment is lost.""",
     over=["inputs"], quant="all source files", why="Tests format a few files.", files=["STANDARD.md"], mech=[("formatter", "grayc/src/fmt")],
     reason="the output is a function of token streams and white space of any length; that printing and lexing are inverse needs an inductive proof about both scanners, not a flow property; that --check compares and never writes is decided by G05"),
dict(id="N04", title="Compilation ends for every input text",
     statement="""For any bytes given as source, the compiler ends with a diagnostic or a program and does not crash or loop.""",
     over=["inputs"], quant="all byte sequences", why="Tests give well-formed text and a few errors.", files=["STANDARD.md"], mech=[("lexer and parser", "grayc/src/lexer, grayc/src/parser")],
     reason="termination and memory safety of recursive descent over text of any length depend on relations between positions, lengths and heap nodes that no abstract domain at hand keeps precisely enough to stay quiet on the present code"),
]
