//! wsim check PROP | replay FILE | show PROP INDEX | selfcheck PROP N

mod case;
mod drive;
mod gen;
mod merge;
mod wasp;

use case::*;
use std::time::{Duration, Instant};

fn verif() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| "/verif".into(), Into::into)
}

fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}

struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        simos::alloc_point();
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        simos::alloc_point();
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        simos::alloc_point();
        std::alloc::System.alloc_zeroed(l)
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

/// The same addresses in every run, so that nothing can depend on chance there.
fn fixed_addresses() {
    const NO_RANDOMIZE: libc::c_ulong = 0x0040000;
    if std::env::var_os("WSIM_FIXED").is_some() {
        return;
    }
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && libc::personality(p as libc::c_ulong | NO_RANDOMIZE) >= 0 {
            use std::os::unix::process::CommandExt;
            let _ = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("WSIM_FIXED", "1").exec();
        }
    }
}

fn main() {
    fixed_addresses();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(String::as_str) {
        Some("check") => check(&a[2]),
        Some("replay") => replay(&a[2]),
        Some("show") => show(&a[2], a[3].parse().unwrap(), a.get(4).map(|s| s.parse().unwrap())),
        Some("selfcheck") => selfcheck(&a[2], a[3].parse().unwrap()),
        _ => {
            eprintln!("usage: wsim check PROP | replay FILE | show PROP INDEX [SUB] | selfcheck PROP N");
            2
        }
    };
    std::process::exit(code);
}

fn tier() -> String {
    std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into())
}

/// The same seed must give the same execution: runs a sample twice and compares.
fn deterministic(prop: &str, seed: u64, n: u64) -> Result<u64, String> {
    let total = gen::total(prop, "quick").max(1);
    let mut done = 0;
    for k in 0..n {
        let i = k * (total / n.max(1)).max(1);
        let (c, subs) = gen::cases(prop, "quick", seed, i);
        let a = drive::judge(&c, true);
        let b = drive::judge(&c, true);
        if a.hash != b.hash || a.tape != b.tape || a.sched != b.sched {
            let d = a.log.iter().zip(&b.log).find(|(x, y)| x != y);
            return Err(format!("case {i} of {prop}: two runs differ: {d:?}; {:?} {:?}", a.harness_error, b.harness_error));
        }
        // a recorded schedule must lead to the same execution as the seed that made it
        if c.before.is_none() && a.harness_error.is_none() {
            let mut t = c.clone();
            t.tape = Some(a.tape.clone());
            let b = drive::judge(&t, true);
            if a.hash != b.hash {
                let d = a.log.iter().zip(&b.log).find(|(x, y)| x != y);
                return Err(format!("case {i} of {prop}: replaying the recorded schedule differs: {d:?}"));
            }
        }
        done += 1;
        for s in subs(&c, &a).into_iter().step_by(37) {
            if drive::judge(&s, false).hash != drive::judge(&s, false).hash {
                return Err(format!("a derived case of {i} of {prop}: two runs differ"));
            }
            done += 1;
        }
    }
    Ok(done)
}

fn selfcheck(prop: &str, n: u64) -> i32 {
    match deterministic(prop, env_u64("VERIF_SEED", 1), n) {
        Ok(k) => {
            println!("{k} cases, each run at least twice, identical");
            0
        }
        Err(e) => {
            println!("NOT DETERMINISTIC: {e}");
            2
        }
    }
}

pub fn known_findings() -> Vec<String> {
    std::fs::read_to_string(verif().join("KNOWN_FINDINGS.txt"))
        .unwrap_or_default()
        .lines()
        .filter(|l| l.starts_with("finding:"))
        .map(str::to_string)
        .collect()
}

fn check(prop: &str) -> i32 {
    let tier = tier();
    let seed = env_u64("VERIF_SEED", 1);
    let start = Instant::now();
    let cap = env_u64("WSIM_CAP_S", if tier == "thorough" { 7200 } else { 420 });
    println!("check {prop} tier {tier} seed {seed}");
    let det = match deterministic(prop, seed, if tier == "thorough" { 200 } else { 40 }) {
        Ok(n) => n,
        Err(e) => {
            // a data race or an uncontrolled source in the code under test, or a harness defect
            println!("ERROR: {e}");
            return 2;
        }
    };
    let total = env_u64("WSIM_TOTAL", gen::total(prop, &tier));
    let st = drive::search(prop, &tier, seed, total, Duration::from_secs(cap));
    for l in known_findings().iter().filter(|l| l.contains(&format!("property={prop} "))) {
        let class = l.split_whitespace().find_map(|w| w.strip_prefix("class=")).unwrap_or("");
        if st.known.get(class).copied().unwrap_or(0) > 0 {
            println!("KNOWN-FINDING: {}", l.trim_start_matches("finding:").trim());
        }
    }
    let mut violation = None;
    if let Some((index, case, v)) = st.hits.first() {
        println!("case {index}: {} / {}: {}", v.prop, v.class, v.msg);
        let small = drive::minimise(case, prop, &v.class, Duration::from_secs(60));
        let r = drive::judge(&small, true);
        let msg = r.violations.iter().find(|x| x.prop == prop && x.class == v.class).map_or(v.msg.clone(), |x| x.msg.clone());
        let dir = verif().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{prop}-{}-{seed}-{index}.json", v.class));
        let rep = Replay {
            property: prop.into(),
            class: v.class.clone(),
            message: msg.clone(),
            found_by: format!("seed {seed}, case {index}, tier {tier}"),
            case: small,
            trace: r.log,
        };
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("replay file");
        violation = Some((path, msg));
    }
    let wall = start.elapsed().as_secs_f64();
    evidence(prop, &tier, seed, &st, det, wall, total);
    println!(
        "{} runs in {wall:.1}s, {} distinct executions, {} distinct schedules, {} outcome shapes, simulated {:.0} s",
        st.runs,
        st.hashes.len(),
        st.scheds.len(),
        st.shapes.len(),
        st.sim_ns as f64 / 1e9
    );
    if let Some((path, msg)) = violation {
        println!("{msg}");
        println!("VIOLATION property={prop} replay={}", path.display());
        return 1;
    }
    if !st.harness_errors.is_empty() {
        for e in st.harness_errors.iter().take(5) {
            println!("ERROR: {e}");
        }
        return 2;
    }
    println!("{prop} held on everything explored");
    0
}

fn evidence(prop: &str, tier: &str, seed: u64, st: &drive::Stats, det: u64, wall: f64, total: u64) {
    let wasp = matches!(prop, "C07" | "C08" | "C09");
    let level = level(prop);
    let (real, stub): (Vec<&str>, Vec<&str>) = if wasp {
        (vec!["wasp-compiler (all of it)", "pest", "Rust standard library"], vec!["disk and file system", "scheduler, futexes, clock, randomness"])
    } else {
        (
            vec!["wasm-merge (all of it)", "tempfile", "rustix (libc back end)", "Rust standard library: process, io, fs, env"],
            vec!["kernel: file system, pipes, processes, clock, randomness, scheduler", "bash", "the wasm-merge executable"],
        )
    };
    let v = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "wall_s": wall,
        "violations": st.violations,
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": gen::rule(prop),
            "samples": st.samples.iter().take(4).collect::<Vec<_>>(),
            "planned_cases": total,
            "stopped_by_time_cap": st.timed_out,
            "runs_per_hour": if wall > 0.0 { (st.runs as f64 / wall * 3600.0) as u64 } else { 0 },
            "seeds": "one derived seed per case; VERIF_SEED and the case index decide everything",
            "simulated_seconds": st.sim_ns as f64 / 1e9,
            "simulated_steps": st.steps,
            "context_switches": st.switches,
            "distinct_executions": st.hashes.len(),
            "distinct_schedules": st.scheds.len(),
            "distinct_outcome_shapes": st.shapes.len(),
            "faults_injected": st.fired,
            "rare_conditions_reached": st.probes,
            "outcomes": st.outcomes,
            "kinds_of_case": st.kinds,
            "cases_run_twice_and_identical": det,
            "known_findings_met": st.known,
            "unsupported_calls_met": st.unsupported,
            "real_components": real,
            "stubbed_components": stub,
        },
        "assumptions": gen_assumptions(prop),
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&v).unwrap()).expect("evidence file");
}

fn level(prop: &str) -> &'static str {
    match prop {
        "C02" | "C04" | "C07" => "fault_enumeration",
        _ => "exploration",
    }
}

fn gen_assumptions(prop: &str) -> Vec<&'static str> {
    if matches!(prop, "C07" | "C08" | "C09") {
        return vec![
            "the reference reader of the wasp language written for the harness states the intended language",
            "a clean batch is evidence over the sampled runs, not a proof",
        ];
    }
    vec![
        "the simulated kernel behaves as Linux does for the calls the code makes (see DESIGN.md)",
        "the wasm-merge executable follows its documented command line, reads its inputs before writing its output, and signals failure by exit status or on stderr",
        "a clean batch is evidence over the sampled runs, not a proof",
    ]
}

fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let rep: Replay = serde_json::from_str(&s).expect("replay format");
    let a = drive::judge(&rep.case, true);
    if let Some(e) = &a.harness_error {
        println!("ERROR: {e}");
        return 2;
    }
    for l in &a.log {
        println!("{l}");
    }
    let same = a.log == rep.trace;
    println!("trace {} the recorded one", if same { "identical to" } else { "differs from" });
    match a.violations.iter().find(|v| v.prop == rep.property && v.class == rep.class) {
        Some(v) => {
            println!("{}", v.msg);
            println!("VIOLATION property={} replay={file}", rep.property);
            1
        }
        None => {
            println!("not reproduced: {} holds on this history now", rep.property);
            0
        }
    }
}

fn show(prop: &str, i: u64, sub: Option<usize>) -> i32 {
    let (c, subs) = gen::cases(prop, &tier(), env_u64("VERIF_SEED", 1), i);
    let mut r = drive::judge(&c, true);
    let mut c = c;
    if let Some(k) = sub {
        c = subs(&c, &r).remove(k);
        r = drive::judge(&c, true);
    }
    println!("{}", serde_json::to_string_pretty(&c).unwrap());
    for l in &r.log {
        println!("{l}");
    }
    r.log.clear();
    r.tape.clear();
    println!("{}", serde_json::to_string_pretty(&r).unwrap());
    0
}
