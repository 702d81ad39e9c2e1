SORACLE = "Runs the real machine on generated inputs and compares what is observed with independent models written from the reference documentation. Inputs are sampled, not exhausted."
ORACLE = ("Runs the real machine on generated inputs; an online trace monitor compares every recorded event with an independent reference. "
          "Trusts the reference interpreter, written from the documentation and language tests.")
P("C01", "Expression evaluation matches the documented semantics for every value",
  "Every expression accepted by the compiler evaluates to the value and type the language documents: operator precedence and associativity, numeric promotion, rounding on assignment to integers, and left-to-right evaluation that computes every operand exactly once. Integer overflow, division by zero, invalid shifts and out-of-range conversions are reported as errors at the position of the failing operator and never wrap, truncate silently or crash.",
  ["programs", "inputs"], "all well-typed expressions over all operators, types, literals and variables",
  "Tests check a few hand-picked operands per operator; the property ranges over all nestings of operators and all operand values, including the edges of the integer and double domains.",
  ["core/src/compiler/exprs.rs", "core/src/parser.rs", "core/src/vm/context.rs", "core/src/lexer.rs", "core/src/num.rs"],
  [("expression parser with precedence climbing", "core/src/parser.rs"), ("typed code generation and casts", "core/src/compiler/exprs.rs"), ("checked arithmetic in the VM", "core/src/vm/context.rs")],
  "exploration", "trace-refinement runtime monitor vs reference interpreter on generated expressions", ORACLE)
P("C02", "Control flow executes exactly the statements the program prescribes",
  "For every program made of IF, SELECT CASE, FOR, DO, WHILE, GOTO, GOSUB, RETURN, EXIT and END, in any nesting, execution visits exactly the statements, in the order and number of times, that the structured semantics of the language prescribe. Reading or changing a variable always acts on that variable alone, regardless of how many others are live, and the final outcome (end of file, END code, or error with its position) is the prescribed one.",
  ["programs"], "all programs combining structured and unstructured control flow with scalar and array variables",
  "Golden tests fix the bytecode of small programs; they cannot cover how nested blocks, jumps and register allocation interact in arbitrary compositions.",
  ["core/src/compiler/top.rs", "core/src/compiler/codegen.rs", "core/src/compiler/syms.rs", "core/src/vm/context.rs", "core/src/vm/mod.rs", "core/src/parser.rs", "core/src/mem.rs"],
  [("statement compilation and fixups", "core/src/compiler/top.rs"), ("register allocation", "core/src/compiler/syms.rs"), ("instruction dispatch", "core/src/vm/context.rs")],
  "exploration", "trace-refinement runtime monitor vs reference interpreter on generated programs", ORACLE)
P("C03", "User-defined functions and subroutines bind, isolate and return correctly",
  "Calling a user-defined FUNCTION or SUB evaluates its arguments once and in order, binds them by value with the declared types, gives each activation its own locals (also under recursion), shares exactly the variables declared SHARED, and returns the last value assigned to the function name or the default of its type. After any number of calls, returns, EXITs and errors, the caller's variables and pending evaluations are intact.",
  ["programs"], "all programs with user-defined callables, including recursion, forward declarations and calls nested in expressions",
  "Tests call a handful of functions in isolation; frame layout errors show only when particular numbers of locals, temporaries and nested calls coincide.",
  ["core/src/compiler/top.rs", "core/src/compiler/args.rs", "core/src/compiler/syms.rs", "core/src/vm/context.rs", "core/src/vm/mod.rs"],
  [("call frames and register windows", "core/src/vm/context.rs"), ("argument compilation", "core/src/compiler/args.rs"), ("callable symbol tables", "core/src/compiler/syms.rs")],
  "exploration", "trace-refinement runtime monitor vs reference interpreter on generated call graphs", ORACLE)
P("C04", "Run-time errors are precise and error handlers resume where they must",
  "A run-time error stops the failing statement with no later effect of it, and is reported with the right message and the line and column of the failing construct. ON ERROR RESUME NEXT continues at the statement following the failing one, ON ERROR GOTO continues at its target and ON ERROR GOTO 0 makes errors fatal again, whatever blocks, subroutines or function calls were active when the error happened, and without corrupting any other variable. A handler set within a callable ends with that call.",
  ["programs", "fault_sequences"], "all programs with failing statements at any point and any sequence of handler changes",
  "Tests raise single errors at top level; the property quantifies over every failing point inside nested blocks, GOSUBs and calls and over sequences of errors.",
  ["core/src/vm/mod.rs", "core/src/vm/context.rs", "core/src/compiler/top.rs", "core/src/image.rs"],
  [("error handler dispatch and frame unwinding", "core/src/vm/mod.rs"), ("statement boundaries in debug info", "core/src/image.rs")],
  "fault_enumeration", "trace-refinement runtime monitor vs reference interpreter with injected failures", ORACLE)
P("C05", "Programs compiled piecewise behave as one program on a machine that persists",
  "A machine runs any sequence of chunks as if they were consecutive parts of one program: variables, arrays, DATA position, functions and labels of earlier chunks stay usable with their values and types, and a chunk that is rejected by the compiler, that ends, that aborts with an error or that is interrupted leaves no other trace than the effects of what it already executed. CLEAR and NEW are the only ways to forget state.",
  ["histories"], "all sequences of accepted, rejected, failing and ending chunks over one machine",
  "Tests issue one or two chunks; stale compiler state (upcalls, constants, symbol scopes, fixups) shows only after particular histories of successes and failures.",
  ["core/src/compiler/mod.rs", "core/src/image.rs", "core/src/vm/mod.rs", "std/src/lib.rs"],
  [("incremental image building", "core/src/image.rs"), ("compiler state kept between chunks", "core/src/compiler/mod.rs")],
  "exploration", "trace-refinement runtime monitor vs reference interpreter over histories of chunks", ORACLE)
P("C06", "Any source text is accepted or rejected cleanly with a located error",
  "Compiling any sequence of bytes, read in any fragmentation and with any read fault, terminates with success or with a single error that carries a message and a line and column inside the source; it never crashes or hangs, it is deterministic, and it reports the first offending construct at its own position. Jumps and EXITs that would enter, or leave a loop around, the body of a callable are rejected. A rejected source leaves the compiler able to accept and run anything it could before.",
  ["inputs", "fault_sequences"], "all byte strings, fragmentations of the reader and read faults",
  "Tests check some forty malformed programs; the space of malformed text, where error recovery and lookahead code runs, is unbounded.",
  ["core/src/lexer.rs", "core/src/parser.rs", "core/src/reader.rs", "core/src/compiler/mod.rs"],
  [("lexer", "core/src/lexer.rs"), ("error recovery in the parser", "core/src/parser.rs"), ("position tracking", "core/src/reader.rs")],
  "exploration", "crash, hang and diagnostics monitors over hostile and mutated sources, with planted errors whose position is known",
  "Sources are sampled, not exhausted. Positions are checked exactly only for planted errors; otherwise they must lie inside the source. Nesting below 10000 blocks.")
P("C12", "Formatting of the source never changes what a program does",
  "Two sources that differ only in the case of keywords and identifiers, in blanks between tokens, in comments and blank lines, in line endings, or in separating statements by colons or newlines are both accepted or both rejected, and when run produce the same output, errors and final state.",
  ["programs"], "all programs and all sequences of layout changes that the grammar declares equivalent",
  "Tests use one layout per construct; equivalences involve every pair of adjacent tokens in every context.",
  ["core/src/lexer.rs", "core/src/reader.rs", "core/src/parser.rs", "core/src/ast.rs", "core/src/compiler/ids.rs"],
  [("tokenizer", "core/src/lexer.rs"), ("symbol keys", "core/src/ast.rs")],
  "exploration", "differential runtime monitor between a program and its reformatted variants",
  "Relies on the harness' own tokenizer to produce equivalent variants of 500 real and many generated programs.")
P("C08", "Interrupting a program at any moment loses nothing but its remaining work",
  "Whenever a running program is interrupted, at any yield point or while any host operation is pending, it stops without executing another statement, everything it did before stays in effect exactly as if those statements alone had run, pending calls, blocks, GOSUBs and error handlers are discarded, and the same machine then runs any further program correctly. A program that can run forever always reaches a point where it can be interrupted.",
  ["schedules", "programs"], "all programs and all moments at which the interruption may arrive",
  "Tests press one break in one loop; the moment of an interruption ranges over every instruction, call depth, block and pending error handler of every program.",
  ["core/src/vm/mod.rs", "core/src/vm/context.rs", "core/src/compiler/top.rs", "std/src/lib.rs"],
  [("yields and interruption of the VM", "core/src/vm/mod.rs"), ("yield points of loops", "core/src/compiler/top.rs"), ("break signals in the machine", "std/src/lib.rs")],
  "exploration", "interruptions injected at random yields and host calls; a prefix monitor against the reference interpreter and a state monitor afterwards",
  ORACLE + " Interruptions are delivered at yields and at recorded host calls, the points where the single-threaded VM can observe them.")
P("C09", "Limits stop programs with errors and never change what fits within them",
  "The configured depth of calls and amount of memory are enforced exactly: a program that fits behaves as with any larger limit, and one that does not fails with the documented error at the offending operation, with all earlier effects intact, an error that the program itself may handle and after which the machine is usable. Source code that is too big for the virtual machine (variables, temporaries, constants, arguments, jumps, nesting) is rejected with an error and never miscompiled.",
  ["programs", "configurations"], "all programs and all values of the limits, including sources of any size",
  "Tests cover each limit once at one size; overflow of registers, jumps and constants depends on how many of each coincide.",
  ["core/src/vm/mod.rs", "core/src/mem.rs", "core/src/compiler/codegen.rs", "core/src/compiler/syms.rs", "core/src/parser.rs", "core/src/bytecode.rs"],
  [("limits of the machine", "core/src/vm/mod.rs"), ("heap capacity", "core/src/mem.rs"), ("register allocation limits", "core/src/compiler/syms.rs"), ("jump ranges", "core/src/bytecode.rs")],
  "exploration", "monitors comparing the traces of the same program under different limits, and programs of known size around each limit",
  "Sizes up to 23000 statements, 330 variables, parameters, nested blocks or expressions; call depth up to 300. Memory of strings is unbounded by design.")
P("C10", "Hosts see in the variables of a program exactly what the program left there",
  "Globals that an embedding host defines start with the given values and types and are shared by all code; at any pause between chunks, querying a global or a top-level variable by name, whole or by subscripts, returns exactly the type, shape and value that the program last stored, distinguishes variables that do not exist from accesses of the wrong kind, count of subscripts or range, and never disturbs the program.",
  ["histories", "inputs"], "all sets of injected globals and all sequences of chunks and queries",
  "Tests query a few variables after one program; the mapping from names to registers depends on all declarations of all chunks.",
  ["core/src/vm/mod.rs", "core/src/compiler/mod.rs", "core/src/image.rs", "core/src/compiler/syms.rs"],
  [("queries of globals", "core/src/vm/mod.rs"), ("injection of globals", "core/src/compiler/mod.rs"), ("symbols published to the host", "core/src/image.rs")],
  "exploration", "host-side state monitor that models every variable and queries them all after every chunk",
  "Trusts the model, which knows the value of every variable by construction. Arrays up to 3 dimensions of 4 and chunks of straight-line code.")
P("C07", "No script crashes, hangs or corrupts the machine that runs it",
  "Whatever commands and functions of the complete machine a script calls, with whatever arguments, on consoles of any size, interactive or not, textual or graphical, with whatever keys pressed, files present and failures of the console injected, execution ends with success or with an error that carries a position, never with a crash, and the machine runs the next script correctly. The same script under the same conditions always does the same.",
  ["programs", "configurations", "fault_sequences"], "all scripts of all commands, all consoles, keys, files and failures of the console",
  "Tests call each command with a few arguments on a fixed mock console; crashes hide in combinations of arguments, sizes, pending keys, nested programs and faults.",
  ["std/src/lib.rs", "std/src/console/mod.rs", "std/src/console/graphics.rs", "std/src/console/readline.rs", "std/src/console/pager.rs", "repl/src/editor.rs", "std/src/program.rs", "std/src/numerics.rs", "std/src/strings.rs"],
  [("machine", "std/src/lib.rs"), ("graphical console", "std/src/console/graphics.rs"), ("editor", "repl/src/editor.rs"), ("pager", "std/src/console/pager.rs")],
  "exploration", "crash, hang, liveness and determinism monitors over random scripts of all commands on random consoles with injected faults", SORACLE)
P("C11", "Callables of the host receive exactly the arguments that calls pass",
  "For every declared syntax of a command or function, a call that matches it reaches the callable once, with each argument in its place: its value converted to the declared type, its separator, whether it is missing, and for references the very variable, readable and writable with its type; a call that does not match is rejected at compile time. Results and errors of callables come back with the declared type and at the position of the argument or call they concern.",
  ["programs", "configurations"], "all declarable syntaxes and all calls of them",
  "Tests exercise a dozen hand-written syntaxes; the matching and layout of arguments range over sequences of required, optional, repeated, typed, untyped and reference arguments and separators.",
  ["core/src/compiler/args.rs", "core/src/callable.rs", "core/src/vm/mod.rs", "core/src/compiler/codegen.rs"],
  [("compilation of arguments", "core/src/compiler/args.rs"), ("scope of callables", "core/src/callable.rs"), ("upcalls", "core/src/vm/mod.rs")],
  "exploration", "monitor inside recording callables compared with a model of argument passing over random syntaxes and calls",
  "Trusts the model of which calls match which syntaxes, written from the documentation of the metadata. Up to 6 parameters per syntax.")
