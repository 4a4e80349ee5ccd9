#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection (seeded schedules and faults)"
TRUST_M = ("Trusts the simulated kernel (files, pipes, processes, futexes, clock) and the simulated merge "
           "tool; the merge code, tempfile and std are the real ones. A clean run is evidence over the seeds explored, not proof.")
TRUST_W = ("Trusts the reference reader written from the grammar and its documentation; compiler and parser are the real ones. "
           "A clean run is evidence over the seeds explored, not proof.")
TRUST_B = ("Trusts a compiler, written for this, of the part of AssemblyScript that is generated (text it does not know counts as not decided); "
           "the Rust libraries are compiled by the real rustc against stand-ins for wee_alloc and the entry crate. ")
TRUST_S = "Trusts stand-ins for the parts of libm, wee_alloc, strum, circular-buffer and enum-collections that the analyses use. "
TRUST_I = "Trusts a stand-in for the crate clio (files and standard streams as arguments); clap is the real one. "
TRUST_C = ("Trusts the stand-in for the git-only dependency wasabi_wasm (written to its published interface), the stand-in for the merge tool "
           "(which packs its inputs) and the harness's WebAssembly interpreter, which runs original and instrumented code alike; "
           "the instrumenter, the library generator, the compilers and the merge code are the real ones. A clean run is evidence over the seeds explored, not proof.")
CHECKS = {
 "C01": ("exploration", "Seeded search over requests, OS faults and tool deaths; success is compared with what the simulated tool really wrote. "),
 "C02": ("fault_enumeration", "Every OS call of every sampled request is failed once with every errno of a table, every tool death enumerated, plus sampled fault sequences; stage and cause of the error are checked. "),
 "C03": ("exploration", "The simulated tool records its argument vector and the bytes it reads; compared with the request for random options, names and directories under short writes. "),
 "C04": ("fault_enumeration", "File system, descriptor table and process table are audited at every return under enumerated single faults and sampled fault sequences. "),
 "C05": ("exploration", "Concurrent, repeated and post-crash merges under a seeded scheduler; each compared with the same merge alone. "),
 "C07": ("fault_enumeration", "Every crash point of sampled analyses on a simulated disk plus random disk corruptions; what is accepted must be what an independent reader makes of the damaged text, never a panic, hang or half an analysis. "),
 "C08": ("exploration", "Histories of compilations of generated analyses, some damaged; each result compared with an independent reference reader of the language. "),
 "C09": ("exploration", "Concurrent and repeated compilations under a seeded scheduler with switches at allocations and locks, random hash seeds, clock and environment; results compared with isolated processes. "),
 "C06": ("exploration", "Tool speed, output volume, pipe capacity, schedules and transient bursts are drawn; deadlock, unbounded waiting, killing and abandoning are detected. "),
 "C10": ("exploration", "Generated programs run original and instrumented in one simulated embedder (host calls, re-entrance, traps, refused memory growth, shared state changed underneath); every event and all visible state are compared, with an analysis that observes only. "),
 "C11": ("exploration", "A tracer inside the interpreter of the original says which notification must come when, with which arguments; the instrumented program's notifications are compared event by event, also past traps and analyses that trap. "),
 "C12": ("exploration", "Random selections of functions and hooks: code outside the targets is compared with what it was, larger selections must not change what the smaller one reports, none selected must import nothing. "),
 "C13": ("exploration", "Analyses that return other values and apply calls zero, one or many times with changed arguments and results; compared with the original under the same substitutions made by the interpreter. "),
 "C14": ("exploration", "Histories of nested, abandoned and churned frames on the generated argument-stack library under refused memory growth; every live frame is read back after every step, in the WebAssembly, AssemblyScript and Rust libraries. "),
 "C18": ("exploration", "The libraries of the three back ends go through the same histories, programs are instrumented with each of them, and analyses written in wasp are compiled by the real glue generator and driven by nested, trapping and substituting histories of notifications against a model; exported interfaces are compared. "),
 "C15": ("exploration", "Each stage is made to fail (compilers, parser, type inference, encoder, merge tool, system calls, full disk) alone, together and in concurrent histories, and inputs are damaged; stage, reason and completeness of each result are checked. "),
 "C16": ("exploration", "The same request in simulated processes with other hash seeds, thread schedules and histories of other and failed instrumentations; interfaces and behaviour of every distinct result are compared. "),
 "C19": ("exploration", "Both commands run whole (real main, real argument parser) on a simulated system: random command lines in every spelling, inputs, analyses, file and standard streams, failing and short system calls, full disks, failing stages; exit status, output, error text and all other files are judged. "),
 "C20": ("exploration", "Every analysis that comes with the repository is compiled by the real rustc and linked to instrumented generated programs in a simulated embedder (host calls, re-entrance, traps, refused growth); events are compared with the original and every answer of the analysis with what a tracer in the interpreter of the original saw. "),
 "C17": ("exploration", "Reported functions are called in the middle of histories of the program and its embedder, which change memory, globals and tables; results must not depend on and calls must not change state. "),
}
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
m = {
 "version": 1,
 "setup_cmd": "(cd sim && cargo build --offline --bins) && (cd core && cargo build --offline --bins && cargo build --offline -p csim --bin bsim --features backends && cargo build --offline -p csim --bin isim --features cli && rt/build.sh target/wasm-rt && analyses/build.sh /repo target/analyses)",
 "hooks": {"guard": "none", "enable": "no hooks: the simulator interposes libc underneath the unmodified code", "source_commits": []},
 "checks": [],
 "not_applicable": [],
}
for p in sorted(CHECKS):
    lv, note = CHECKS[p]
    trust = TRUST_S + TRUST_C if p == "C20" else TRUST_I + TRUST_C if p == "C19" else TRUST_B + TRUST_C if p in ("C14", "C18") else TRUST_C if p >= "C10" else TRUST_W if p in ("C07", "C08", "C09") else TRUST_M
    m["checks"].append({
        "property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"./check.sh {p} thorough",
        "technique": TECH, "level": lv, "level_note": note + trust,
    })
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    if p not in CHECKS:
        m["not_applicable"].append({"property": p, "reason": NA[p]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
