RULES = {
 'P13': 'one generated program, call and interrupt schedule (which instructions are interrupted, what the handler writes below the red zone and into dead registers); non-trivial: at least one interrupt was delivered',
 'P14': 'one generated program and call executed benignly and under a hostile caller/callee (dead registers, flags, upper bits, padding, argument memory and never-written stack filled with garbage at the chosen boundaries); non-trivial: at least one hostile boundary',
 'P15': 'one generated program and call single-stepped with the ABI invariants checked at every call and return instruction; non-trivial: at least one call was executed',
 'P16': 'one generated program over simulated device memory, every device access trapped and compared with the access trace of the same source compiled by gcc -O0 (the executable reference model); non-trivial: at least one device access',
 'P17': 'one generated protected program, once undisturbed and once with the guard of one activation overwritten at one instruction between its prologue and its check; non-trivial: the overwrite was injected',
 'P18': 'one generated program executed by 1-3 simulated threads switched at instruction granularity and re-entered by simulated signal handlers, each execution compared with running alone; non-trivial: at least one switch or re-entry',
 'P20': 'one generated program and call executed with seeded answers of every external function, contents of memory and registers, and compared - every external call with its arguments, the result and the final objects - with the same source compiled by gcc -O0 (the executable reference model; clang -O1 must agree with gcc before a difference counts); non-trivial: at least one external call was answered',
 'P26': 'one generated program with operations at the edge of what is defined, compiled with a seeded set of sanitizers, executed with seeded answers of every external function and compared - every external call, and whether and where it stops - with the same source compiled by gcc -O0 with the same sanitizers in trap mode; non-trivial: at least two external calls were answered',
 'P19': 'one generated program with variable-length arrays run for hundreds to thousands of iterations on a bounded simulated stack, with the stack pointer sampled at marks; non-trivial: more than 50 marks',
}
REAL = 'real code: cc1 (from /repo/src) compiles the generated program, the machine code it emits runs natively on the CPU one instruction at a time. Stubs: threads, signals, external functions, the volatile device and the assembler-to-process loader (GNU as assembles; the simulator relocates and maps the object)'
ASSUME = ['the host CPU, GNU as and the simulator\'s own ELF relocation are right', 'generated programs stay within defined behaviour (differences on programs that are not well defined would be false alarms; batches on the unchanged tree are clean)', 'P20 takes gcc -O0 and clang -O1, where they agree, as the model of what the source means; P16 takes gcc -O0 as the model of what the source says', 'a clean batch is evidence, not proof: seeds are sampled']
TECH = {
 'P26': 'deterministic simulation: seeded environment drives the operands of sanitized operations, history and stop checked against a reference execution',
 'P13': 'deterministic simulation: seeded asynchronous interrupts at instruction granularity that clobber everything below the red zone, undisturbed run as reference',
 'P14': 'deterministic simulation: seeded hostile caller/callee environments, benign run as reference',
 'P15': 'deterministic simulation: single-stepped execution with ABI invariants checked at every call and return',
 'P16': 'deterministic simulation: simulated volatile device, access trace compared with a reference compilation',
 'P17': 'deterministic simulation: guard overwrites injected at seeded instructions',
 'P18': 'deterministic simulation: seeded instruction-level thread interleaving and signal re-entry, solo runs as reference',
 'P20': 'deterministic simulation: seeded environment answering every external call, interaction history checked for refinement of a reference execution',
 'P19': 'deterministic simulation: long histories on a bounded stack with stack-pointer invariants',
}
NOTE = 'Seeded sampling of programs, calls and schedules; real cc1 output executed instruction by instruction under a simulator that owns threads, signals, callers, callees, device and stack. A clean batch is evidence, not proof.'
