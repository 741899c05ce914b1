import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
DRV=["src/ucc/ucc.c","src/ucc/ucc_ext.c","src/ucc/ucc_path.c","src/util/io.c","src/util/tmpfile.c"]
p("P01","Exit status 0 means every requested output is complete and correct",
 "If a ucc invocation (-E, -S, -c or link, with or without -o, to files or to standard output, with -MD/-MF) exits 0, then every output it was asked for exists and is byte-for-byte what an undisturbed run of the same command produces. This holds whatever I/O errors (failed, short or interrupted reads and writes, full disk, failing open or close) the driver, cpp, cc1 or the tools they start meet on the way.",
 ["fault_sequences","inputs","configurations"],
 "for every sequence of failing or short open/read/write/close calls in any stage, every output mode and every source text",
 "Tests run on a healthy disk; whether an error at the Nth write of one of three cooperating processes is noticed depends on buffer boundaries and on every unchecked stdio call, which no fixed test samples.",
 DRV+["src/cc1/cc1.c","src/cc1/cc1_out.c","src/cc1/out/write.c","src/cc1/out/section.c","src/cpp2/main.c","src/cpp2/preproc.c","src/cpp2/deps.c"],
 [("output flush and close checking in cc1","src/cc1/cc1_out.c, src/cc1/cc1.c"),("stdout flush and close checking in cpp","src/cpp2/main.c main"),("cat_fnames / rename_or_move copying results to their destination","src/ucc/ucc_ext.c"),("read error detection","src/util/io.c fline, cat")],
 observe="exit status of ucc and the bytes of the files it names")
p("P02","A failed compilation leaves no partial or wrong output behind",
 "If a ucc invocation exits with a non-zero status, each regular-file output path it was asked to write (-o, or the default .o/.s/.i/a.out name) is either absent, or unchanged from before the invocation, or holds the complete correct output. It never holds a truncated, empty or mixed result that a later build step would take for good.",
 ["fault_sequences","inputs"],
 "for every error, in any input (compile errors included) or at any system call of any stage, that makes the invocation fail",
 "The clean-up code runs only on failures at particular points in particular stages; tests check exit codes of failing compilations but not the file system left behind by each possible failure point.",
 DRV,[("runner removes its -o file when a stage fails or is killed","src/ucc/ucc_ext.c runner"),("outputs are moved into place only after every input compiled","src/ucc/ucc.c process_files, rename_files")],
 observe="the output paths after a failing invocation")
p("P03","Temporary files are private, exclusive and always removed",
 "Every temporary file ucc makes lies directly in $TMPDIR (or /tmp when unset), is created exclusively (never opening a file that already existed) and is readable and writable by the user only. However the invocation ends - success, compile error, failing or crashing stage, failed fork or exec - short of the driver itself being killed by a signal, none of them is left behind, provided unlink itself works; with -save-temps the intermediates go to the named files in the current directory instead.",
 ["fault_sequences","histories","configurations"],
 "for every failure point in every stage, every combination of inputs and every content of the temporary directory",
 "Leaks appear only on exit paths taken when a particular stage fails, and permission or exclusivity slips are invisible to tests that only look at the result.",
 ["src/ucc/ucc.c","src/util/tmpfile.c","src/ucc/ucc_ext.c"],
 [("remove_these list and atexit handler","src/ucc/ucc.c tmpfilenam, unlink_files"),("mkstemp in $TMPDIR under umask 077","src/util/tmpfile.c, src/ucc/ucc.c main")],
 observe="the temporary directory after the driver exits; flags and mode of each creation")
p("P04","Only the named outputs are created, changed or removed",
 "An invocation creates, modifies or removes no file other than the outputs it was asked for (output file, dependency file, -save-temps files) and its own temporary files: source files, headers, objects given as inputs, unrelated files, files reached through odd names (spaces, shell metacharacters, leading dashes) and special files such as /dev/null or a symlink given as the output all keep their identity and content. This holds for successful, failing and fault-ridden invocations alike.",
 ["fault_sequences","inputs","configurations"],
 "for every command line, every file naming and every failure point",
 "Destroying an input or /dev/null needs a particular name or a failure at a particular stage; tests use tame names in a scratch directory and do not diff the rest of the file system.",
 DRV,[("rename_or_move runs the shell to copy a result","src/ucc/ucc_ext.c rename_or_move"),("remove(to_remove) on failure","src/ucc/ucc_ext.c runner"),("expected_filename derives output names","src/ucc/ucc.c")],
 observe="a diff of the whole simulated file system across the invocation")
p("P05","A failing, crashing or unstartable stage stops the build and is reported",
 "If any stage (cpp, cc1, as, ld, the copying shell, a -wrapper) exits non-zero, is killed by a signal or cannot be started, ucc starts no later stage for the build and exits non-zero: 128+signal when a stage was killed by a signal. This also holds when the driver process has inherited unrelated children that exit meanwhile: ucc waits for exactly the process it started before using its output.",
 ["fault_sequences","schedules"],
 "for every stage, every exit status and signal, every moment a stage can die, and every schedule of unrelated child processes",
 "Tests only see stages that exit normally by themselves; deaths by signal at arbitrary moments, failed fork/exec and foreign children are never exercised.",
 ["src/ucc/ucc_ext.c","src/ucc/ucc.c"],[("fork/exec/wait and status decoding","src/ucc/ucc_ext.c runner"),("die() and exit status","src/ucc/ucc.c die")],
 observe="which programs are executed after the failing one, and the driver's exit status")
p("P06","Compilation is reproducible",
 "The outputs, diagnostics and exit status of cpp, cc1 and the whole driver are a function of the command line, the input files, the working directory and the documented environment only. They do not depend on where memory happens to be allocated, on what uninitialised heap or stack memory contains, on process ids, temporary file names, the clock (unless __DATE__, __TIME__ or __TIMESTAMP__ is used), unrelated environment variables, or on how reads are split.",
 ["schedules","histories","inputs"],
 "for every source program, every memory layout and memory content, every timing and every split of the input",
 "Two test runs on one machine see nearly the same allocator behaviour, so ordering by address or use of uninitialised memory passes the tests and shows up later as an irreproducible build.",
 ["src/util/dynmap.c","src/util/dynarray.c","src/cc1/type_nav.c","src/cc1/inline.c","src/cc1/out/section.c","src/cc1/out/dbg.c","src/cpp2/macro.c","src/ucc/ucc.c"],
 [("hash maps keyed by pointers and strings","src/util/dynmap.c"),("zeroing allocators","src/util/alloc.c"),("temporary name hidden from the output","src/cc1/cc1.c -fno-track-initial-fname")],
 observe="bytes of outputs and diagnostics across runs")
p("P07","Running out of memory ends in a controlled failure",
 "If any allocation made by the driver, cpp or cc1 fails - one allocation or all from some point on - the process reports it and terminates with a non-zero status or an abort; it never dereferences the null result, corrupts its heap, hangs, or exits 0 with an output different from the normal one.",
 ["fault_sequences","inputs"],
 "for every allocation of every run and every source program",
 "Allocation never fails in tests; each of thousands of allocation sites per run is a separate failure point.",
 ["src/util/alloc.c","src/util/dynarray.c","src/util/dynmap.c","src/util/io.c","src/cc1/tokenise.c"],
 [("allocation wrappers that abort on failure","src/util/alloc.c")],observe="process status, memory errors, outputs")
p("P08","Concurrent invocations do not disturb one another",
 "Any number of ucc invocations running at the same time in the same directory with the same TMPDIR, writing different outputs, each produce exactly the output, diagnostics and exit status they produce when run alone, however their system calls interleave and whichever of them fail or meet faults.",
 ["schedules","fault_sequences"],
 "for every interleaving of the system calls of concurrent invocations (make -j)",
 "Tests run invocations one after another or with uncontrolled overlap, so a shared or predictable file name collides only by luck.",
 ["src/ucc/ucc.c","src/util/tmpfile.c","src/ucc/ucc_ext.c"],[("unique temporary names held open","src/ucc/ucc.c tmpfilenam, src/util/tmpfile.c"),("copying results into place","src/ucc/ucc_ext.c rename_or_move, cat_fnames")],
 observe="outputs and status of each invocation")
p("P09","Each output is independent of history and of sibling inputs",
 "What an invocation writes to an output does not depend on what was there before (an older, longer or shorter output, leftovers of an earlier failed run) nor on which other inputs share the command line: compiling several files in one invocation gives for each the same bytes as compiling it alone, and -E of several files to one output gives their concatenation. A newly created output has the permissions the caller's umask allows (0666 or, for a linked program, 0777, less the umask).",
 ["histories","inputs","configurations"],
 "for every history of earlier invocations over the same paths, every set and order of inputs in one invocation and every umask",
 "Tests compile one file into a fresh directory; stale outputs, several inputs of different kinds in one command line and unusual umasks are not exercised.",
 ["src/ucc/ucc.c","src/ucc/ucc_ext.c","src/ucc/umask.h"],[("per-file argument vectors","src/ucc/ucc.c gen_obj_file, process_files"),("append and truncate modes","src/ucc/ucc.c rename_files, src/ucc/ucc_ext.c cat_fnames"),("umask saved and restored","src/ucc/ucc.c main, src/ucc/ucc_ext.c runner")],
 observe="bytes and mode of each output over a history of invocations")
p("P10","Dependency files are complete, so dependency-driven rebuilds are never stale",
 "The make rule written by -MD (to the default name or to -MF's), by -MM, names the source and every header outside the system include directories that the preprocessor read for it, exactly once and in a form make reads back as those names. Therefore, over any history of edits, additions of includes and reverts of the sources and headers, rebuilding exactly those outputs whose recorded prerequisites changed gives the same outputs as rebuilding everything, and compiling with -MD gives the same output as without.",
 ["histories","inputs"],
 "for every include graph and every sequence of edits and rebuilds",
 "A missing prerequisite only shows when that header is the one edited later; tests compare one dependency file for one fixed include graph.",
 ["src/cpp2/deps.c","src/cpp2/include.c","src/cpp2/directive.c","src/cpp2/main.c","src/ucc/ucc.c"],[("set of included files","src/cpp2/deps.c deps_add, src/cpp2/directive.c"),("naming of the dependency file","src/ucc/ucc.c parse_argv, generate_depfile")],
 observe="dependency file against the files the simulated kernel saw opened; outputs over an edit history")
p("P11","Date and time macros follow the clock they promise",
 "__DATE__, __TIME__ and __TIMESTAMP__ expand to the calendar date (Mmm dd yyyy, the day with two digits) and time (hh:mm:ss, and asctime's format for __TIMESTAMP__) of one single clock reading taken during the run (of the main source file's modification time, in local time, for __TIMESTAMP__), for every clock value - around midnight, the new year, leap days - and stay the same throughout one preprocessing run however the clock moves. With SOURCE_DATE_EPOCH set all three are that instant in UTC and the output is independent of the clock and of file times, while an unusable value is an error.",
 ["schedules","histories","configurations"],
 "for every clock value, every advance or jump of the clock during the run, every file time and every SOURCE_DATE_EPOCH",
 "Tests run at one moment of real time and cannot visit the new year, leap days or a clock that moves between two uses.",
 ["src/cpp2/main.c","src/cpp2/eval.c","src/cpp2/macro.c"],[("current_time and calctime","src/cpp2/main.c")],observe="expansion of the macros")
p("P12","Damaged input is diagnosed, never mishandled",
 "Whatever bytes the input files contain - sources, headers or intermediates cut off at an arbitrary point or with flipped, lost or duplicated bytes - and whatever read of them fails, cpp and the driver terminate within a bounded number of steps without any invalid memory access, heap corruption or signal other than their own abort; and a source that ends inside a block comment or inside an unclosed conditional is never accepted with exit status 0.",
 ["inputs","fault_sequences"],
 "for every truncation point and every corruption of every input",
 "Tests feed well-formed files or a few hand-written errors; a crash needs the cut to fall at a particular byte.",
 ["src/cpp2/preproc.c","src/cpp2/directive.c","src/cpp2/eval.c","src/cpp2/macro.c","src/cpp2/str.c","src/util/io.c","src/util/str.c"],[("line reading, splicing and comment stripping","src/cpp2/preproc.c"),("end-of-input validation","src/cpp2/directive.c parse_end_validate")],observe="status and memory errors of cpp and the driver")
CG=["src/cc1/out/x86_64.c","src/cc1/out/func.c","src/cc1/out/stack.c","src/cc1/out/alloca.c","src/cc1/vla.c","src/cc1/gen_asm.c"]
p("P13","Compiled code survives asynchronous interruption at any instruction",
 "A function compiled by ucc computes the same results when it is interrupted before any of its instructions by code that overwrites everything the SysV x86-64 ABI lets an asynchronous signal handler overwrite: all stack below the 128-byte red zone, or, when compiled with -mno-red-zone, all stack below the stack pointer. No live value is ever kept below that limit, and the stack pointer always points into the running thread's stack, so that a handler can run.",
 ["schedules","programs","configurations"],
 "for every interruption point in every execution of every compiled program (with locals, VLAs, struct returns, varargs, nested calls, stack protector)",
 "A value kept below the red zone is lost only if a signal arrives in a window of a few instructions, which no test can time.",
 CG,[("stack allocation and red zone use","src/cc1/out/stack.c, src/cc1/out/func.c"),("-m[no-]red-zone","src/cc1/cc1.c"),("VLA stack handling","src/cc1/out/alloca.c, src/cc1/vla.c")],observe="results of compiled code under simulated interrupts")
p("P14","Compiled code relies on nothing the ABI does not promise it",
 "Code compiled by ucc computes the same results whatever its caller and callees leave in places the SysV x86-64 ABI does not define: caller-saved registers and flags across calls, the upper bits of registers carrying narrow arguments and return values beyond those gcc and clang rely on, padding, never-written stack memory, and the parts of argument memory a callee may overwrite.",
 ["schedules","programs"],
 "for every content of the undefined places at every call and return boundary of every compiled program",
 "In a test both sides are usually compiled by the same compiler, so leftover register contents happen to be benign.",
 CG+["src/cc1/ops/expr_funcall.c","src/cc1/ops/__builtin_va.c"],[("call sequence and spilling of live registers","src/cc1/out/x86_64.c impl_call"),("argument and return value conversion","src/cc1/out/x86_64.c, src/cc1/ops/expr_funcall.c")],observe="results of compiled code under a hostile caller and callee environment")
p("P15","Compiled code keeps every promise the ABI makes to callers and callees",
 "At every call instruction executed by ucc-compiled code the stack is 16-byte aligned and %al bounds the number of vector registers used by a variadic call; at every return rbx, rbp, r12-r15, rsp, the direction flag and the x87/SSE control state are what they were at entry, and rax holds the address of a result returned in memory; and no load or store goes outside the function's own frame, its objects and its caller's argument area.",
 ["schedules","programs"],
 "for every call and return executed by every compiled program, at every call depth and with every mix of arguments, VLAs and early exits",
 "A clobbered register or misaligned stack matters only to particular callers or callees; tests check printed results, not the machine state at each boundary.",
 CG,[("callee-saved register use and prologue/epilogue","src/cc1/out/x86_64.c"),("stack alignment at calls","src/cc1/out/x86_64.c, src/cc1/out/func.c"),("variadic call setup","src/cc1/out/x86_64.c")],observe="machine state at each call and return")
p("P16","Volatile accesses happen exactly as written",
 "Each read or write of a volatile scalar in the source (device registers, flags shared with a signal handler) is performed by the compiled code exactly once, as one access of the object's own width and address, in source order; none is added, dropped, merged, split or reordered, whatever values the device returns, including for reads whose value is unused, compound assignments, volatile struct members and pointers to volatile. (What C leaves open is left open: the order of unsequenced accesses, and whether an assignment whose value is used re-reads the object.)",
 ["schedules","programs"],
 "for every program over volatile objects and every sequence of values an asynchronous device supplies",
 "Ordinary memory gives the same result however often it is read, so tests cannot see a duplicated or dropped access.",
 ["src/cc1/out/x86_64.c","src/cc1/out/val.c","src/cc1/ops/expr_deref.c","src/cc1/ops/expr_assign.c","src/cc1/ops/expr_assign_compound.c","src/cc1/ops/expr_cast.c"],[("load and store emission","src/cc1/out/x86_64.c impl_deref, impl_store")],observe="trace of accesses seen by a simulated device")
p("P17","The stack protector catches every overwrite of the guard",
 "In a function the -fstack-protector heuristics select (and in every function with -fstack-protector-all), if the guard word between the locals and the saved frame is changed at any moment between the prologue and the epilogue by an overrun of a local array, then __stack_chk_fail is called before the function returns on every exit path; if it is not changed, __stack_chk_fail is never called and the results are those of the unprotected build.",
 ["fault_sequences","programs","configurations"],
 "for every overrun of every protected array, at every moment of the function's execution, on every return path",
 "Tests check that the instruction sequence is present; whether every path and every array is covered needs the overwrite to happen at run time.",
 ["src/cc1/out/stack_protector.c","src/cc1/out/func.c","src/cc1/gen_asm.c","src/cc1/out/stack.c"],[("guard insertion and check","src/cc1/out/stack_protector.c"),("placement of the guard above the locals","src/cc1/out/func.c, src/cc1/out/stack.c")],observe="calls of __stack_chk_fail under injected overruns")
p("P18","Compiled functions are reentrant and thread-safe as written",
 "A compiled function that uses only its arguments, automatic variables, and objects passed to it gives the same results when several threads execute it, interleaved at any instruction, or when it is re-entered by a signal handler at any instruction: compilation introduces no hidden shared state (static temporaries, shared spill areas, writable literals).",
 ["schedules","programs"],
 "for every instruction-level interleaving of concurrent executions of every such function",
 "Hidden static state is invisible to single-threaded tests, and uncontrolled thread tests hit the few-instruction window only by luck.",
 CG+["src/cc1/decl_init.c","src/cc1/ops/expr_compound_lit.c","src/cc1/ops/expr_struct.c"],[("temporaries for struct values, compound literals and spills","src/cc1/out/func.c, src/cc1/ops/expr_compound_lit.c, src/cc1/out/x86_64.c")],observe="results per simulated thread")
p("P19","Stack use stays bounded over long executions",
 "Stack acquired for variable-length arrays, argument passing, temporaries and spills is released as the language says: a loop body, however it is left (fall through, continue, break, goto), gives back its VLAs on each iteration, so a loop of any number of iterations runs in a stack bounded independently of the iteration count, and the stack pointer is back where it was after every full call expression.",
 ["histories","programs"],
 "for every program and every number of iterations, under a bounded simulated stack",
 "A leak of a few bytes per iteration passes every short test and overflows the stack only in long runs.",
 ["src/cc1/vla.c","src/cc1/out/alloca.c","src/cc1/out/func.c","src/cc1/ops/stmt_code.c","src/cc1/ops/stmt_goto.c","src/cc1/out/x86_64.c"],[("VLA scope exit restoring the stack pointer","src/cc1/vla.c, src/cc1/ops/stmt_code.c"),("argument stack clean-up","src/cc1/out/x86_64.c")],observe="stack pointer and low-water mark over iterations")
p("P20","Compiled programs interact with their environment as written",
 "Whatever answers a program's environment gives to the external functions it calls, the code ucc compiles for it makes exactly the external calls, in the order and with the argument values, that the source prescribes, and ends with the prescribed return value and object contents: arithmetic and conversions on every integer and floating type, pointers and arrays, initialisers, structs, unions and bit-fields, short-circuit and conditional evaluation, loops, switches and gotos, variadic and inlined calls all compute what C says on each history of answers, at every optimisation and code generation option (-O, -fno-const-fold, -fpic, -g, -pg, -mno-red-zone, -fomit-frame-pointer and the like).",
 ["schedules","histories","programs","configurations"],
 "for every program, every combination of options and every sequence of answers, callbacks and memory contents the environment supplies",
 "A wrong register, flag, spill slot or folded constant shows only in particular combinations of operators, live values and answers; tests check a few hundred fixed snippets, mostly one operator at a time and with one set of values.",
 ["src/cc1/out/x86_64.c","src/cc1/out/op.c","src/cc1/out/out.c","src/cc1/out/virt.c","src/cc1/out/val.c","src/cc1/out/ctrl.c","src/cc1/ops","src/cc1/const.c","src/cc1/decl_init.c"],
 [("register allocation, spilling and flags","src/cc1/out/virt.c, src/cc1/out/val.c"),("operators and conversions","src/cc1/out/x86_64.c, src/cc1/out/op.c, src/cc1/ops/expr_op.c, src/cc1/ops/expr_cast.c"),("constant folding","src/cc1/const.c, src/cc1/ops/expr_op.c"),("control flow and merged values","src/cc1/out/ctrl.c, src/cc1/ops")],
 observe="history of external calls with arguments, result and objects against a reference execution under the same answers")
p("P21","Invalid programs are diagnosed and valid ones accepted",
 "cc1 rejects every program that violates a constraint and accepts every program it documents as supported, with the diagnostic location pointing at the offending construct.",
 ["programs"],"for every program","Tests sample hand-written errors.",["src/cc1/fold.c","src/cc1/parse_type.c","src/cc1/parse_stmt.c"],[("folding and type checks","src/cc1/fold.c")])
p("P22","Preprocessing follows the standard's translation phases",
 "Macro expansion, stringification, pasting, conditional inclusion and line control give the token sequence and line numbers the standard prescribes.",
 ["inputs"],"for every source text","Tests sample macros.",["src/cpp2/eval.c","src/cpp2/macro.c","src/cpp2/directive.c"],[("macro evaluation","src/cpp2/eval.c")])
p("P23","Object layout and symbols interoperate with the platform compilers",
 "Sizes, alignments, offsets, bitfield layout, name mangling, linkage and visibility of everything emitted agree with gcc and clang for the target.",
 ["programs"],"for every declaration","Tests sample declarations.",["src/cc1/sue.c","src/cc1/pack.c","src/cc1/mangle.c","src/cc1/decl.c"],[("layout computation","src/cc1/fold_sue.c, src/cc1/pack.c")])
p("P24","Constant folding agrees with run-time evaluation",
 "Whenever cc1 evaluates an expression at compile time the value equals what the generated code would compute for it at run time.",
 ["programs"],"for every constant expression","Tests sample expressions.",["src/cc1/const.c","src/cc1/op.c","src/cc1/ops/expr_op.c","src/cc1/ops/expr_cast.c"],[("const_fold","src/cc1/const.c")])
p("P25","Debug information describes the program",
 "With -g the emitted DWARF (types, locations, scopes, line table) describes the source program and is accepted by the assembler and debuggers.",
 ["programs"],"for every program","Tests sample programs.",["src/cc1/out/dbg.c","src/cc1/out/dbg_lbl.c"],[("DWARF emission","src/cc1/out/dbg.c")])
p("P26","Sanitized programs stop exactly at undefined operations",
 "Whatever answers its environment gives, a program compiled with -fsanitize=... or -ftrapv executes as the source prescribes up to the first instrumented operation that is undefined for the values those answers lead to, and stops there in a trap or in the -fsanitize-error=call= handler; on a history of answers that makes no operation undefined it runs on as it would without the option. Instrumented are signed +, -, *, negation, ++, -- and the compound assignments; division and % by zero and of the smallest value by -1; shift counts out of range and left shifts of negative values; VLA sizes; indexes into declared arrays; loads through null or misaligned pointers; _Bool loads; nonnull arguments and returns_nonnull results; __builtin_unreachable; floating division by zero.",
 ["histories","programs","configurations"],"for every program, combination of sanitizers and sequence of answers",
 "Tests try one or two operand values per sanitizer in isolation; a check that reads a stale flag, loses a value across its branch or uses the limits of the wrong type shows only with other operands, types or surrounding code.",
 ["src/cc1/sanitize.c","src/cc1/sanitize_opt.c","src/cc1/ops/expr_op.c","src/cc1/ops/expr_assign_compound.c","src/cc1/ops/expr_cast.c","src/cc1/out/op.c"],[("sanitizer checks","src/cc1/sanitize.c"),("overflow checks","src/cc1/ops/expr_op.c (gen_op_trapv), src/cc1/ops/expr_assign_compound.c"),("load checks","src/cc1/ops/expr_cast.c")],
 observe="history of external calls up to the trap against a reference execution under the same answers")
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
