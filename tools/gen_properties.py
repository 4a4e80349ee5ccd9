#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as Python so that it can be edited comfortably).
import json, sys
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, state=state or [], mechanism=mechanism, observe_at=observe or [], hook_needed=hook)))
def m(name, where): return dict(name=name, where=where)

MERGE="wasm-merge/src/lib.rs"
p("C01","A successful merge returns exactly the finished tool's output",
  "Whenever a merge reports success, the external merge tool was actually run for that request, it ran to completion, exited successfully and wrote nothing on its error stream, and the bytes returned are exactly the complete output it wrote. "
  "A merge never reports success with an empty, truncated, stale or foreign module because a write was cut short, the tool was killed or failed silently, or a read returned early. "
  "When no fault occurs a merge does succeed, for modules and outputs of any size and content.",
  ["inputs","fault_sequences","crash_points","schedules"],
  "every merge request, every sequence of OS faults (short/failed writes and reads, interrupted calls, failed launches) and every way and moment for the tool to die, fail or stall",
  "The one merge test needs a real wasm-merge binary and samples two tiny modules with no fault; a killed tool, a silent non-zero exit, a short write or an interrupted read is never produced by a test.",
  [MERGE,"wasm-merge/src/error.rs"],
  [m("stage-by-stage error mapping and check of the tool's result before the output is read",MERGE+": MergeOptions::merge")],
  ["return value of MergeOptions::merge","process table, file contents"])
p("C02","Every merge failure surfaces as an error naming stage and cause",
  "If creating or writing a temporary file, launching the tool, the tool itself (non-zero exit, death by a signal, or any message on its error stream) or reading the output fails, the merge returns an error: never success and never a panic. "
  "The error names the stage that failed (input creation, input write, output creation, launch, tool execution, output read) and carries the operating system's error, or, for the tool, the complete text it wrote on its error stream. "
  "Faults the OS contract asks callers to absorb (interrupted calls, short transfers, a temporary name already taken) are absorbed and do not fail the merge.",
  ["fault_sequences","crash_points","inputs"],
  "every request x every OS call it makes x every error that call can return, and every tool outcome (exit code, signal, error text of any size and encoding)",
  "test_merge_fail covers one tool-reported failure and only where the tool is installed; no test makes an OS call fail.",
  [MERGE,"wasm-merge/src/error.rs"],
  [m("one Error variant per stage",  "wasm-merge/src/error.rs: Error"), m("map_err at every fallible call", MERGE+": MergeOptions::merge")],
  ["variant and text of the returned Error"])
p("C03","The merge tool receives exactly what was requested",
  "The tool is launched with exactly one input file per module of the request, the primary module (if any) first and the other modules in the order given; each file holds exactly that module's bytes when the tool starts reading and is paired with exactly that module's namespace, followed by one output path. "
  "Exactly the command-line options of the enabled settings are passed, each once, and none for disabled settings. "
  "Namespaces and temporary-directory paths reach the tool verbatim whatever characters they contain: no part of them is split, expanded, dropped or executed.",
  ["inputs","configurations","fault_sequences","schedules"],
  "every list of modules, contents and namespaces, all 2^23 option settings, every temporary-directory name, under short writes and interrupted calls",
  "The tests use two modules, two fixed alphabetic namespaces and two options; file contents under short writes, odd names and option combinations are never looked at.",
  [MERGE,"wasm-merge/src/options.rs"],
  [m("option to flag mapping","wasm-merge/src/options.rs: option!"), m("argument construction",MERGE+": MergeOptions::merge, as_bash_arguments")],
  ["argument vector of the launched process","contents of files named by it when the tool opens them"])
p("C04","A merge leaves nothing behind and touches nothing else",
  "When a merge returns, with success or any error, every temporary file it created has been removed, every descriptor it opened is closed, and the tool process has ended and been reaped. "
  "Files that existed before, including files that already carry a name the merge would have liked to use, are neither modified nor removed, and nothing is created outside the temporary directory. "
  "Temporary files are created exclusively and are accessible only to the calling user.",
  ["fault_sequences","crash_points","inputs","schedules"],
  "every request and every fault sequence short of the removal itself failing or the process being killed",
  "No test looks at the temporary directory, descriptors or process table after a merge, and none drives the error paths on which leaks happen.",
  [MERGE],
  [m("NamedTempFile ownership and drop order",MERGE+": MergeOptions::merge"), m("waiting for the tool (Command::output)",MERGE+": MergeOptions::merge")],
  ["directory listing, descriptor table, process table at return"])
p("C05","Concurrent, repeated and interrupted merges do not affect each other",
  "Any number of merges running concurrently in one process, one after another, or on a machine where an earlier process was killed in the middle of a merge (leaving its files and perhaps its tool still running) each behave exactly as they would alone. "
  "In particular each successful merge returns the output for its own modules, even when the requests use the same namespaces or equal random seeds, and a failing merge disturbs no other.",
  ["schedules","histories","crash_points","fault_sequences"],
  "every interleaving of the system calls of several merges and of their tools, every history of earlier merges, every point at which an earlier process died",
  "No test runs two merges at once or after a crash; cargo's test threads give an uncontrolled handful of interleavings at best.",
  [MERGE],
  [m("unique exclusive temporary names per merge, no shared state",MERGE+": MergeOptions::merge")],
  ["results of each of several merges"])
p("C06","A merge always completes, however slow or talkative the tool is",
  "A merge waits for the tool however long it takes, never kills or abandons it, and returns within a bounded number of steps once the tool has ended. "
  "It cannot deadlock with the tool: arbitrarily large output on the tool's standard output, error stream or both, in any order and chunking, is drained, whatever the pipe capacity. "
  "Transient conditions (interrupted calls, short reads and writes) only delay it.",
  ["schedules","fault_sequences","inputs"],
  "every tool speed, every volume and interleaving of tool output, every pipe capacity and schedule, any finite burst of transient conditions",
  "The tests run a tool that prints nothing and ends in milliseconds; filling both pipes or outwaiting a timeout never happens.",
  [MERGE],
  [m("stdout and stderr drained concurrently before waiting (Command::output)",MERGE+": MergeOptions::merge")],
  ["progress of the calling thread in simulated steps and time"])

WASP=["wasp-compiler/src/lib.rs","wasp-compiler/src/ast/pest/wasp.pest","wasp-compiler/src/ast/pest/mod.rs","wasp-compiler/src/ast/wasp.rs","wasp-compiler/src/joinpoints.rs"]
p("C07","A damaged analysis source is never half-accepted",
  "If the stored text of a wasp analysis is cut short before its closing parenthesis, compilation fails: it never succeeds with only part of the analysis. "
  "If the text is damaged in any other way (bytes flipped, blocks lost, zeroed, duplicated, swapped or stale, or two versions mixed), compilation either fails with an error or yields exactly what the damaged text itself says. "
  "It never panics and never loops.",
  ["fault_sequences","crash_points","inputs"],
  "every analysis text, every crash point while it was being written, every corruption of the stored bytes",
  "Tests feed about forty fixed texts; none of them is a torn or corrupted version of a larger file.",
  WASP,
  [m("grammar anchored at start and end of input","wasp-compiler/src/ast/pest/wasp.pest: wasp_input"), m("validation of converted tree","wasp-compiler/src/ast/wasp.rs: TryFrom impls")],
  ["result of wasp_compiler::compile"])
p("C08","An accepted analysis is represented completely and faithfully",
  "A well-formed analysis is accepted; whenever compilation succeeds, the result lists exactly the global sections and advice written in the source, each once and in source order, with each advice's kind, parameter names, argument/result types and types of access (read-only or mutable, static or dynamic) as written and its guest code verbatim; the join points reported are exactly those the listed advice needs, no more and no fewer. "
  "An analysis that repeats a parameter name, binds argument types to result variables or the reverse, or mixes access kinds is rejected with an error that says so.",
  ["inputs","fault_sequences","histories"],
  "every analysis text, as read back from intact or damaged storage and compiled in any order with others",
  "Tests compare a handful of fixed programs; the space of advice combinations, orders, type lists, spacing, comments and guest texts is not sampled.",
  WASP,
  [m("grammar to tree to validated root conversion","wasp-compiler/src/ast/wasp.rs"), m("join point collection","wasp-compiler/src/joinpoints.rs: WaspRoot::join_points"),m("interface of required exports","wasp-compiler/src/wasp_interface.rs")],
  ["CompilationResult.wasp_root, CompilationResult.join_points, WaspInterface"])
p("C09","Compilation is repeatable and independent of everything but the text",
  "Compiling the same text gives an equal result, or the same error message, every time: on any thread, concurrently with other compilations in any interleaving, before or after any other successful or failed compilation, whatever the random hash seeds, clock or environment. "
  "Compilation performs no I/O and starts no process.",
  ["schedules","histories","inputs","configurations"],
  "every text, every history and interleaving of other compilations, every hash seed",
  "Each test compiles one text once in one process with one hash seed.",
  WASP,
  [m("pure function over &str","wasp-compiler/src/lib.rs: compile"), m("hash-set of specialised join points compared as a set","wasp-compiler/src/joinpoints.rs: JoinPoints")],
  ["results of repeated calls"])

CORE=["wastrumentation/src/lib.rs","wastrumentation/src/instrument","wastrumentation/src/parse_nesting","wastrumentation/src/stack_library.rs"]
WLANG="supported-languages/webassembly/src/generate"
p("C10","Instrumenting with a forwarding analysis does not change the program",
  "A module instrumented with an analysis that only observes and forwards behaves exactly like the original for every host: same results, same traps, same sequence of calls to the host with the same arguments, and same memory, global and table contents visible to the host at each of those moments. "
  "This holds at every moment of a history: when the host re-enters the module, traps in the middle, abandons a call and continues with the next one, or when memory growth is refused.",
  ["programs","histories","fault_sequences","configurations"],
  "every valid input module, every set of hooks and target functions, every host behaviour including traps, re-entry and refused growth at any point",
  "The integration tests run hand-picked inputs with a well-behaved host, and need compilers that are not part of this build.",
  CORE,
  [m("instruction rewriting that re-pushes what the hook returns","wastrumentation/src/instrument"), m("shadow stack for dynamic argument passing","wastrumentation/src/stack_library.rs")],
  ["host-visible trace of original and instrumented module"])
p("C11","The analysis observes exactly the events of its join points",
  "For every execution of an instrumented module the analysis receives exactly one notification per executed join point of each hook it selected within the target functions, in execution order, with the actual operand values, the right operation and the true function and instruction indices; it receives none for hooks it did not select. "
  "This stays true when an execution is cut short by a trap at an arbitrary point, with exactly the events before that point delivered, and when the host re-enters the module.",
  ["programs","histories","crash_points","configurations"],
  "every module, hook set, target set, host behaviour and point of interruption",
  "Integration tests compare a few recorded logs for fixed programs.",
  CORE+["wastrumentation/src/analysis/mod.rs"],
  [m("hook call emission with serialized indices","wastrumentation/src/instrument"),m("hook interface","wastrumentation/src/analysis/mod.rs")],
  ["sequence of hook calls seen by a simulated analysis"])
p("C12","Only the selected functions and hooks are instrumented",
  "Functions outside the configured target set behave and are encoded as before: they notify nothing and their instructions are unchanged up to renumbering. "
  "Within targets, a module instrumented for no hooks behaves exactly as the original, and enabling one hook never changes which events another hook reports.",
  ["programs","configurations","histories"],
  "every module, target set and hook subset under every host behaviour",
  "Tests use whole-module instrumentation with one or all hooks.",
  CORE, [m("target filter","wastrumentation/src/instrument/mod.rs"),m("per-hook traversal","wastrumentation/src/instrument")],
  ["events per function; function bodies"])
p("C13","What an analysis returns is what the program continues with",
  "If a hook returns a value different from the one it was given (operand, result, condition, branch choice, call target, argument or return value, loaded, stored or grown quantity), the program continues exactly as if the instruction had produced or consumed that value, and nothing else about the execution changes. "
  "A generic function-application hook that does not forward, forwards more than once, or is interrupted between, gets precisely those executions of the base function.",
  ["programs","histories","fault_sequences"],
  "every module, every analysis decision sequence, every host behaviour",
  "Tests cover a few fixed interceptions on fixed programs.",
  CORE, [m("hook results replace operands","wastrumentation/src/instrument"),m("base-call apply table","wastrumentation/src/instrument/function_application.rs")],
  ["results of instrumented module versus reference semantics with substitution"])
p("C14","The argument shadow stack never mixes up calls",
  "Values stored for a pending call are read back unchanged, type by type and position by position, until that call's frame is released, whatever other calls are made, nested, re-entered or abandoned by traps in between. "
  "Frames are released in last-in-first-out order with nothing left allocated after balanced use, and when memory for a frame cannot be obtained the call traps instead of overwriting live data.",
  ["histories","fault_sequences","inputs","crash_points"],
  "every set of signatures, every history of frame allocations, accesses and releases, growth refused or a trap at any point",
  "Unit tests check the text generated for two signatures and one store/load round trip, always with memory available.",
  [WLANG+"/instrumentation/mod.rs","supported-languages/rust/src/generate/instrumentation/mod.rs","supported-languages/assemblyscript/src/generate/instrumentation/mod.rs","wastrumentation/src/stack_library.rs"],
  [m("bump allocation and offsets per signature",WLANG+"/instrumentation/mod.rs")],
  ["exports of generated library under a simulated host"])
p("C15","A failing pipeline stage fails the instrumentation",
  "If compiling the analysis, parsing or rewriting the input, compiling the instrumentation library, or merging fails for any reason (including faults of the tools, files and processes involved), instrumentation returns that stage's error; it never yields a module that is missing the analysis, the instrumentation or parts of the input. "
  "Malformed or truncated input modules are reported as errors, not as panics or as output.",
  ["fault_sequences","crash_points","inputs","configurations"],
  "every fault at every stage, every truncation or corruption of the input module",
  "No test fails a stage.",
  ["wastrumentation/src/lib.rs","wastrumentation/src/compiler/mod.rs",MERGE],
  [m("stage results propagated as Error variants","wastrumentation/src/lib.rs: Wastrumenter::wastrument")],
  ["Result of Wastrumenter::wastrument"])
p("C16","Instrumentation means the same whatever the hash seeds and history",
  "Instrumenting the same input with the same analysis and configuration, in any process, on any thread and after any other instrumentation, yields modules that validate and behave identically. "
  "Internal iteration order over hash sets and maps never shows in behaviour.",
  ["schedules","histories","programs","configurations"],
  "every module, configuration, hash seed and history",
  "Each test instruments once per process under one hash seed.",
  CORE, [m("hash sets of functions and signatures","wastrumentation/src/instrument/function_application.rs")],
  ["behaviour of several instrumentations of the same input"])
p("C17","Functions reported as immutable can be replayed or skipped safely",
  "A function the static analysis reports as immutable never reads or writes memory, tables or globals and never calls the host, directly or through any callee; called with the same arguments at any moment of any history it gives the same result or trap and leaves all state unchanged. "
  "Imported functions are never reported.",
  ["programs","histories"],
  "every module and every state in which a reported function may be called",
  "Tests compare the reported index set for a few fixed modules.",
  ["wastrumentation-static-analysis/src/lib.rs"], [m("purity fixpoint over call graph","wastrumentation-static-analysis/src/lib.rs: immutable_functions")],
  ["state before and after, and results of, calls to reported functions"])
p("C18","The analysis-language back ends generate equivalent libraries",
  "The Rust, AssemblyScript and WebAssembly back ends generate instrumentation libraries and analysis glue with the same exported interface and behaviour for the same signatures and hooks, so an analysis keeps its meaning when the back end changes.",
  ["programs","configurations"],
  "every set of signatures and hooks",
  "common-language-tests compares them on a few signatures and needs the external compilers.",
  ["supported-languages/rust","supported-languages/assemblyscript","supported-languages/webassembly"], [m("three code generators","supported-languages/*/src/generate")],
  ["exports of the compiled libraries"])
p("C19","The command-line tools do what their arguments say, or fail",
  "When the instrumenter or the static-analysis command exits with status 0, its output (file or standard output) holds exactly the complete result its arguments describe, and nothing else: "
  "the given input instrumented with the analysis at the given path, for exactly the hooks and target functions named (all of them where none are named), or the list of exactly the immutable functions whose body has at least the given number of instructions. "
  "If any argument, read, compilation, instrumentation or write fails, the exit status is not 0 and the reason is on the error stream; short reads and writes and interruptions are absorbed. Inputs and other files are never changed and nothing temporary stays behind.",
  ["inputs","configurations","fault_sequences"],
  "every command line, input, analysis, kind of output, and every sequence of failing, short or interrupted system calls, full disks and failing stages",
  "No test runs either command.",
  ["cli/src/main.rs","wastrumentation-static-analysis/src/main.rs"],
  [m("argument parsing, mapping of hook names and targets, reading, writing","cli/src/main.rs: main"),m("reading, filtering by body size, writing","wastrumentation-static-analysis/src/main.rs: main")],
  ["exit status, standard streams and files of the command under a simulated system"])
p("C20","The analyses that come with the repository report what happened, and only watch",
  "Instrumenting a program with any of the Rust analyses in benchmarking-node/input-analyses/rust (compiled against wastrumentation-rs-stdlib) leaves what the program does unchanged, except for what the analysis says it changes: denan replaces NaNs by 0, safe-heap traps on accesses that are out of bounds or not aligned to the size of the value. "
  "What the analysis' exported functions answer afterwards (counts per instruction, block, loop, branch, global, call edge, memory access, coverage, call depth, signatures) is exactly what the execution of the program so far gives, including the first and the last occurrence of everything, across traps, re-entrance and host calls.",
  ["programs","histories","selections"],
  "every program, every embedder and history of calls and traps, every selection of the hooks the analysis uses and of target functions",
  "No test runs these analyses; most are used for measurements only.",
  ["benchmarking-node/input-analyses/rust","wastrumentation-instr-lib/tests/analyses/rust/wastrumentation-rs-stdlib","wastrumentation/src"],
  [m("counters and tables of each analysis","benchmarking-node/input-analyses/rust/*/src/lib.rs"),m("advice macro and deserialisation of notifications","wastrumentation-rs-stdlib/src/lib.rs")],
  ["answers of the analysis' exported functions after a simulated history; all events of the program"])
with open(sys.argv[1] if len(sys.argv)>1 else "/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
