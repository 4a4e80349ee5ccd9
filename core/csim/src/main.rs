//! csim check PROP | replay FILE | show PROP INDEX | selfcheck PROP N

mod backend;
mod case;
mod check;
#[cfg(feature = "cli")]
mod cli;
mod draw;
mod drive;
#[cfg(feature = "backends")]
mod glue;
mod hooks;
mod ops;
mod pipe;
mod prog;
mod run;
mod shipped;
mod stack;
mod wasm;
mod world;

use case::*;
use std::time::{Duration, Instant};

pub fn verif() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| "/verif".into(), Into::into)
}

fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}

struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        simos::alloc_point();
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        simos::alloc_point();
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        simos::alloc_point();
        std::alloc::System.alloc_zeroed(l)
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

const ROOM: &str = "-room-for-arguments-";

/// The same addresses in every run, so that nothing can depend on chance there.
fn fixed_addresses() {
    const NO_RANDOMIZE: libc::c_ulong = 0x0040000;
    if std::env::var_os("WSIM_FIXED").is_some() {
        return;
    }
    unsafe {
        use std::os::unix::process::CommandExt;
        let p = libc::personality(0xffff_ffff);
        if p >= 0 {
            libc::personality(p as libc::c_ulong | NO_RANDOMIZE);
        }
        // with room for the arguments of a simulated program
        let room = vec![ROOM; 3000];
        let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).args(room).env("WSIM_FIXED", "1").exec();
        let _ = e;
    }
}

fn main() {
    fixed_addresses();
    let a: Vec<String> = std::env::args().filter(|a| a != ROOM).collect();
    let code = match a.get(1).map(String::as_str) {
        Some("check") => check_prop(&a[2]),
        Some("replay") => replay(&a[2]),
        Some("show") => show(&a[2], a[3].parse().expect("index")),
        Some("selfcheck") => match deterministic(&a[2], env_u64("VERIF_SEED", 1), a[3].parse().expect("count")) {
            Ok(k) => {
                println!("{k} cases, each run twice, identical");
                0
            }
            Err(e) => {
                println!("NOT DETERMINISTIC: {e}");
                2
            }
        },
        _ => {
            eprintln!("usage: csim check PROP | replay FILE | show PROP INDEX | selfcheck PROP N");
            2
        }
    };
    std::process::exit(code);
}

fn tier() -> String {
    std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into())
}

pub fn text_of(module: &str) -> String {
    if module.is_empty() {
        return String::new();
    }
    wasmprinter::print_bytes(unhex(module)).unwrap_or_else(|e| format!("{e}"))
}

/// The same seed must give the same execution: runs a sample twice and compares.
fn deterministic(prop: &str, seed: u64, n: u64) -> Result<u64, String> {
    let total = draw::total(prop, "quick").max(1);
    for k in 0..n {
        let i = k * (total / n.max(1)).max(1);
        let (c, _) = drive::case_at(prop, seed, i);
        let (d, _) = drive::case_at(prop, seed, i);
        if c != d {
            return Err(format!("case {i} of {prop} is not the same twice"));
        }
        // what a replay file holds must be the whole case
        let j = serde_json::to_string(&c).map_err(|e| e.to_string())?;
        let d: Case = serde_json::from_str(&j).map_err(|e| e.to_string())?;
        if c != d {
            return Err(format!("case {i} of {prop} does not survive being written down"));
        }
        let (a, b) = (drive::judge(&c, true), drive::judge(&d, true));
        if a.hash != b.hash || a.log != b.log || a.schedule != b.schedule || a.harness_error != b.harness_error {
            let d = a.log.iter().zip(&b.log).find(|(x, y)| x != y);
            return Err(format!("case {i} of {prop}: two runs differ: {d:?}; {:?} {:?}", a.harness_error, b.harness_error));
        }
        if !a.schedule.is_empty() {
            let mut t = c.clone();
            t.schedule = Some(hex(&a.schedule));
            let b = drive::judge(&t, true);
            if a.hash != b.hash {
                let d = a.log.iter().zip(&b.log).find(|(x, y)| x != y);
                return Err(format!("case {i} of {prop}: replaying the recorded schedule differs: {d:?}"));
            }
        }
    }
    Ok(n)
}

pub fn known_findings() -> Vec<String> {
    std::fs::read_to_string(verif().join("KNOWN_FINDINGS.txt"))
        .unwrap_or_default()
        .lines()
        .filter(|l| l.starts_with("finding:"))
        .map(str::to_string)
        .collect()
}

fn check_prop(prop: &str) -> i32 {
    let tier = tier();
    let seed = env_u64("VERIF_SEED", 1);
    let start = Instant::now();
    let cap = env_u64("WSIM_CAP_S", if tier == "thorough" { 7200 } else { 420 });
    println!("check {prop} tier {tier} seed {seed}");
    if prop == "C20" {
        shipped::preload();
    }
    let det = match deterministic(prop, seed, if tier == "thorough" { 200 } else { 40 }) {
        Ok(n) => n,
        Err(e) => {
            println!("ERROR: {e}");
            return 2;
        }
    };
    let total = env_u64("WSIM_TOTAL", draw::total(prop, &tier));
    let st = drive::search(prop, seed, total, Duration::from_secs(cap));
    for l in known_findings().iter().filter(|l| l.contains(&format!("property={prop} "))) {
        let class = l.split_whitespace().find_map(|w| w.strip_prefix("class=")).unwrap_or("");
        if st.known.get(class).copied().unwrap_or(0) > 0 {
            println!("KNOWN-FINDING: {}", l.trim_start_matches("finding:").trim());
        }
    }
    let mut violation = None;
    if let Some((index, v)) = st.hits.first() {
        println!("case {index}: {} / {}: {}", v.prop, v.class, v.msg);
        let small = drive::minimise(prop, seed, *index, &v.class, Duration::from_secs(60));
        let r = drive::judge(&small, true);
        let msg = r.violations.iter().find(|x| x.prop == prop && x.class == v.class).map_or(v.msg.clone(), |x| x.msg.clone());
        let dir = verif().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{prop}-{}-{seed}-{index}.json", v.class));
        let rep = Replay {
            property: prop.into(),
            class: v.class.clone(),
            message: msg.clone(),
            found_by: format!("seed {seed}, case {index}, tier {tier}"),
            program: text_of(&small.module).lines().map(str::to_string).collect(),
            case: small,
            trace: r.log,
        };
        std::fs::write(&path, serde_json::to_string_pretty(&rep).expect("json")).expect("replay file");
        violation = Some((path, msg));
    }
    let wall = start.elapsed().as_secs_f64();
    evidence(prop, &tier, seed, &st, det, wall, total);
    println!(
        "{} runs in {wall:.1}s, {} distinct executions, {} behaviour shapes, {} events compared, {} instructions interpreted",
        st.runs,
        st.hashes.len(),
        st.shapes.len(),
        st.events,
        st.steps
    );
    if let Some((path, msg)) = violation {
        println!("{msg}");
        println!("VIOLATION property={prop} replay={}", path.display());
        return 1;
    }
    if !st.harness_errors.is_empty() {
        for e in st.harness_errors.iter().take(5) {
            println!("ERROR: {e}");
        }
        return 2;
    }
    println!("{prop} held on everything explored");
    0
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C10" => "a case counts if at least four events were compared and the original ran at least 20 instructions; distinct by the hash of program run, events and simulated system calls",
        "C11" | "C13" => "a case counts if the analysis was notified at least three times; distinct by the hash of events and simulated system calls",
        "C12" => "a case counts if at least four events were compared and a function outside the targets (or a larger selection, or none) was compared",
        "C14" => "a case counts if frames were nested and read back (kind program: if the same calls were made in 48 rounds); distinct by the hash of the history",
        "C15" => "a case counts if a stage was made to fail or its input damaged; distinct by the hash of system calls, schedule and results",
        "C16" => "a case counts if the same request gave at least two different byte strings, whose behaviour was compared",
        "C18" => "a case counts if frames were nested and read back, or events were compared, or the analysis ran advice (kind interface: always); distinct by the hash of the history",
        "C20" => "a case counts if the analysis was notified at least three times; distinct by the hash of events and of what the analysis executed",
        "C19" => "a case counts if anything was made to fail or target functions were named; distinct by the hash of system calls and results",
        _ => "a case counts if at least four calls of reported functions were compared between states and a function was not reported",
    }
}

fn evidence(prop: &str, tier: &str, seed: u64, st: &drive::Stats, det: u64, wall: f64, total: u64) {
    let (real, stub): (Vec<&str>, Vec<&str>) = match prop {
        "C17" => (
            vec!["wastrumentation-static-analysis (immutable_functions_from_binary)", "Rust standard library"],
            vec!["wasabi_wasm (own implementation of its published interface)", "WebAssembly engine (own interpreter)", "embedder of the module", "clock, randomness, hash seeds"],
        ),
        "C19" => (
            vec![
                "wastrumentation-cli and wastrumentation-static-analysis: main",
                "clap (arguments)",
                "wastrumentation (all of it)",
                "wastrumentation-lang-rust (library generator, compiler up to the call of rustc; the real rustc in some cases)",
                "wasm-merge crate",
                "Rust standard library: process, io, fs, env",
            ],
            vec![
                "clio (own)",
                "wasabi_wasm (own implementation of its published interface, with faults)",
                "the wasm-merge executable (packs its inputs)",
                "rust-to-wasm-compiler (says what it was asked for)",
                "kernel: files, standard streams, pipes, processes, exit, clock, randomness",
                "WebAssembly engine (own interpreter), embedder and analysis",
            ],
        ),
        "C20" => (
            vec![
                "the analyses of benchmarking-node/input-analyses/rust and the library they are written with (real rustc, real standard library)",
                "wastrumentation (all of it)",
                "wastrumentation-lang-webassembly",
                "wasm-merge crate",
            ],
            vec![
                "wasabi_wasm (own implementation of its published interface)",
                "wee_alloc, libm, strum, circular-buffer, enum-collections (own, of the parts that are used)",
                "the wasm-merge executable (packs its inputs; the harness links them)",
                "kernel",
                "WebAssembly engine (own interpreter), embedder of the program",
            ],
        ),
        "C14" | "C18" => (
            vec![
                "wastrumentation-lang-webassembly (library generator and compiler)",
                "wastrumentation-lang-assemblyscript and wastrumentation-lang-rust (library generators, glue of analyses, compilers up to the call of the outside compiler)",
                "rustc (the text of the Rust libraries is compiled by the real one)",
                "wastrumentation and wasm-merge (all of it, in the cases of kind program)",
                "wasp-compiler (in the cases of kind analysis)",
                "wat",
                "Rust standard library",
            ],
            vec![
                "asc (own compiler of the part of AssemblyScript that is generated; what it does not know counts as not decided)",
                "rust-to-wasm-compiler (hands the text to rustc)",
                "wee_alloc, compiler_builtins (own)",
                "WebAssembly engine (own interpreter)",
                "memory.grow of the engine",
                "hash seeds",
                "wasabi_wasm, the wasm-merge executable, the kernel, the embedder and the analysis (in the cases of kind program)",
                "the instrumented program under the analysis (in the cases of kind analysis)",
            ],
        ),
        _ => (
            vec!["wastrumentation (all of it)", "wastrumentation-lang-webassembly", "wasm-merge crate", "tempfile", "wat", "Rust standard library: process, io, fs, env"],
            vec![
                "wasabi_wasm (own implementation of its published interface, with faults)",
                "the wasm-merge executable (packs its inputs)",
                "kernel: file system, pipes, processes, clock, randomness, scheduler",
                "WebAssembly engine (own interpreter), embedder and analysis",
            ],
        ),
    };
    let v = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": st.violations,
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": rule(prop),
            "samples": st.samples.iter().take(3).collect::<Vec<_>>(),
            "planned_cases": total,
            "stopped_by_time_cap": st.timed_out,
            "runs_per_hour": if wall > 0.0 { (st.runs as f64 / wall * 3600.0) as u64 } else { 0 },
            "seeds": "one derived seed per case; VERIF_SEED and the case index decide everything",
            "simulated_seconds": st.sim_ns as f64 / 1e9,
            "simulated_steps": st.steps,
            "events_compared": st.events,
            "distinct_executions": st.hashes.len(),
            "distinct_schedules": st.scheds.len(),
            "distinct_behaviour_shapes": st.shapes.len(),
            "faults_injected": st.fired,
            "notifications_by_hook": st.hooks,
            "conditions_reached": st.counts,
            "outcomes": st.outcomes,
            "kinds_of_case": st.kinds,
            "cases_run_twice_and_identical": det,
            "known_findings_met": st.known,
            "unsupported_calls_met": st.unsupported,
            "real_components": real,
            "stubbed_components": stub,
        },
        "assumptions": [
            "the stand-in for wasabi_wasm reads and writes modules as the published library does",
            "the interpreter of the harness runs WebAssembly as the specification says (it runs original and instrumented code alike)",
            "merging connects imports and exports by namespace and name",
            "a clean batch is evidence over the sampled runs, not a proof",
        ],
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&v).expect("json")).expect("evidence file");
}

fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let rep: Replay = serde_json::from_str(&s).expect("replay format");
    let a = drive::judge(&rep.case, true);
    if let Some(e) = &a.harness_error {
        println!("ERROR: {e}");
        return 2;
    }
    for l in &a.log {
        println!("{l}");
    }
    println!("trace {} the recorded one", if a.log == rep.trace { "identical to" } else { "differs from" });
    match a.violations.iter().find(|v| v.prop == rep.property && v.class == rep.class) {
        Some(v) => {
            println!("{}", v.msg);
            println!("VIOLATION property={} replay={file}", rep.property);
            1
        }
        None => {
            println!("not reproduced: {} holds on this history now", rep.property);
            0
        }
    }
}

fn show(prop: &str, i: u64) -> i32 {
    let (mut c, _) = drive::case_at(prop, env_u64("VERIF_SEED", 1), i);
    let mut r = drive::judge(&c, true);
    println!("{}", text_of(&c.module));
    c.module.clear();
    println!("{}", serde_json::to_string_pretty(&c).expect("json"));
    for l in &r.log {
        println!("{l}");
    }
    r.log.clear();
    r.schedule.clear();
    println!("{}", serde_json::to_string_pretty(&r).expect("json"));
    0
}
