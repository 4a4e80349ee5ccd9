//! Runs cases in processes of their own, searches in parallel, minimises, writes replay files.

use crate::case::*;
use crate::{gen, merge, wasp};
use simos::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- one child process

pub enum Child<T> {
    Out(T),
    Died(String),
    Hung,
}

const CPU_LIMIT: u64 = 20;
const WALL_LIMIT: u64 = 240;

/// Runs `f` in a fork of this (single-threaded) process and returns the string it produces.
pub fn in_child(f: impl FnOnce() -> String) -> Child<String> {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            return Child::Died("harness: pipe".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            libc::close(fds[0]);
            libc::close(fds[1]);
            return Child::Died("harness: fork".into());
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &nocore);
            let out = fds[1];
            std::panic::set_hook(Box::new(move |info| {
                // a panic inside the simulator or the harness is our fault, not the code's
                if simos::sim_tid().is_none() {
                    let s = format!("HARNESS {info}");
                    libc::write(out, s.as_ptr().cast(), s.len());
                    libc::_exit(77);
                }
            }));
            let s = f();
            let b = s.as_bytes();
            let mut p = 0;
            while p < b.len() {
                let n = simos::shim::raw(libc::SYS_write, out as usize, b.as_ptr() as usize + p, b.len() - p, 0, 0, 0);
                if n <= 0 {
                    break;
                }
                p += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut v = vec![];
        let mut buf = [0u8; 65536];
        let start = Instant::now();
        let mut hung = false;
        loop {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, 2000);
            if r == 0 {
                if start.elapsed() > Duration::from_secs(WALL_LIMIT) {
                    hung = true;
                    libc::kill(pid, libc::SIGKILL);
                    break;
                }
                continue;
            }
            let n = libc::read(fds[0], buf.as_mut_ptr().cast(), buf.len());
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        if hung {
            return Child::Died("harness: wall clock limit".into());
        }
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            return Child::Out(String::from_utf8_lossy(&v).to_string());
        }
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 77 {
            return Child::Died(format!("harness: {}", String::from_utf8_lossy(&v)));
        }
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            if s == libc::SIGXCPU || s == libc::SIGKILL {
                return Child::Hung;
            }
            return Child::Died(format!("killed by signal {s}"));
        }
        Child::Died(format!("ended with status {st:#x}"))
    }
}

fn v(prop: &str, class: &str, msg: &str) -> Violation {
    Violation { prop: prop.into(), class: class.into(), msg: msg.into(), caller: None, unit: None }
}

fn run_plain(case: &Case, want_log: bool) -> RunResult {
    let mut extra: BTreeMap<String, u64> = BTreeMap::new();
    let mut h0 = 0;
    let snap = if case.before.is_some() && case.wasp.is_none() {
        match in_child(|| merge::run_before(case)) {
            Child::Out(s) => match serde_json::from_str::<merge::BeforeOut>(&s) {
                Ok(merge::BeforeOut(Ok((snap, crashed, probes, h)))) => {
                    extra = probes;
                    h0 = h;
                    if crashed {
                        *extra.entry("process_crash".into()).or_insert(0) += 0;
                    }
                    Some(snap)
                }
                Ok(merge::BeforeOut(Err(e))) => {
                    // the doomed process got stuck before it died: a plain C06 matter
                    let mut r = RunResult::default();
                    r.violations.push(v("C06", "deadlock", &format!("in the process that was to be killed: {e}")));
                    return r;
                }
                Err(e) => return RunResult { harness_error: Some(format!("snapshot: {e}")), ..Default::default() },
            },
            Child::Died(s) if s.starts_with("harness") => return RunResult { harness_error: Some(s), ..Default::default() },
            Child::Died(s) => {
                let mut r = RunResult::default();
                r.violations.push(v("C02", "died", &format!("the process of the merge {s}")));
                return r;
            }
            Child::Hung => {
                let mut r = RunResult::default();
                r.violations.push(v("C06", "spins", "the merge consumes processor time without end"));
                return r;
            }
        }
    } else {
        None
    };
    let wasp = case.wasp.is_some();
    let mut base: Vec<[String; 2]> = vec![];
    if let Some(bs) = wasp::baselines(case) {
        for pair in bs {
            let mut two = [String::new(), String::new()];
            for (k, c) in pair.iter().enumerate() {
                let r = run_plain(c, false);
                if r.harness_error.is_some() {
                    return r;
                }
                match r.outcomes.first() {
                    Some(o) => two[k].clone_from(o),
                    None => return r,
                }
            }
            base.push(two);
        }
    }
    let out = in_child(|| {
        let r = if wasp { wasp::run_case(case, want_log, &base) } else { merge::run_case(case, snap, want_log) };
        serde_json::to_string(&r).unwrap()
    });
    match out {
        Child::Out(s) => match serde_json::from_str::<RunResult>(&s) {
            Ok(mut r) => {
                for (k, n) in extra {
                    *r.probes.entry(k.clone()).or_insert(0) += n;
                    r.interesting.push(k);
                }
                r.hash ^= h0.rotate_left(17);
                r
            }
            Err(e) => RunResult { harness_error: Some(format!("result: {e}: {}", s.chars().take(200).collect::<String>())), ..Default::default() },
        },
        Child::Died(s) if s.starts_with("harness") => RunResult { harness_error: Some(s), ..Default::default() },
        Child::Died(s) => {
            let mut r = RunResult::default();
            if wasp {
                r.violations.push(v("C07", "died", &format!("the compiling process {s} (stack overflow or abort)")));
            } else {
                r.violations.push(v("C02", "died", &format!("the process of the merge {s}")));
            }
            r
        }
        Child::Hung => {
            let mut r = RunResult::default();
            if wasp {
                r.violations.push(v("C07", "spins", "compilation consumes processor time without end"));
            } else {
                r.violations.push(v("C06", "spins", "the merge consumes processor time without end"));
            }
            r
        }
    }
}

/// The case reduced to one of its merges, alone on the machine.
pub fn solo(case: &Case, c: usize, u: usize) -> Case {
    let mut s = case.clone();
    s.callers = vec![vec![case.callers[c][u].clone()]];
    s.faults = case.faults.iter().filter(|f| f.caller == c && f.unit == u).cloned().map(|mut f| { f.caller = 0; f.unit = 0; f }).collect();
    s.before = None;
    s.tape = None;
    s.roles = BTreeMap::new();
    s
}

/// Runs a case; for C05 a misbehaviour counts only if the same merge does not show it alone.
pub fn judge(case: &Case, want_log: bool) -> RunResult {
    let mut r = run_plain(case, want_log);
    if r.harness_error.is_none() && case.prop == "C05" {
        let multi = case.callers.len() > 1 || case.callers.iter().any(|c| c.len() > 1) || case.before.is_some();
        let mut add = vec![];
        if multi {
            let mut seen: BTreeSet<String> = BTreeSet::new();
            for x in &r.violations {
                if !seen.insert(format!("{}{}{:?}{:?}", x.prop, x.class, x.caller, x.unit)) {
                    continue;
                }
                let units: Vec<(usize, usize)> = match (x.caller, x.unit) {
                    (Some(c), Some(u)) => vec![(c, u)],
                    _ => case.callers.iter().enumerate().flat_map(|(c, ms)| (0..ms.len()).map(move |u| (c, u))).collect(),
                };
                let alone = units.iter().any(|(c, u)| {
                    (0..4u64).any(|k| {
                        let mut s = solo(case, *c, *u);
                        s.seed = if k == 0 { s.seed } else { Rng::mix(s.seed, k) };
                        if k % 2 == 0 {
                            s.env.preempt = 0;
                        }
                        run_plain(&s, false).violations.iter().any(|y| y.prop == x.prop && y.class == x.class)
                    })
                });
                if !alone {
                    let mut y = x.clone();
                    y.prop = "C05".into();
                    y.msg = format!("{} (alone, the same merge does not do this)", y.msg);
                    add.push(y);
                }
            }
        }
        r.violations.extend(add);
    }
    r
}

// ---------------------------------------------------------------- search

#[derive(Default, serde::Serialize, serde::Deserialize)]
#[serde(default)]
pub struct Stats {
    pub runs: u64,
    pub violations: u64,
    pub hits: Vec<(u64, Case, Violation)>,
    pub harness_errors: Vec<String>,
    pub hashes: BTreeSet<u64>,
    pub nontrivial: BTreeSet<u64>,
    pub scheds: BTreeSet<u64>,
    pub shapes: BTreeSet<u64>,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub unsupported: BTreeSet<String>,
    pub sim_ns: u64,
    pub steps: u64,
    pub switches: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub kinds: BTreeMap<String, u64>,
    pub timed_out: bool,
    pub known: BTreeMap<String, u64>,
}

/// Classes of violation listed in KNOWN_FINDINGS.txt for a property.
pub fn known_classes(prop: &str) -> BTreeSet<String> {
    crate::known_findings()
        .iter()
        .filter(|l| l.contains(&format!("property={prop} ")))
        .filter_map(|l| l.split_whitespace().find_map(|w| w.strip_prefix("class=")).map(str::to_string))
        .collect()
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.violations += o.violations;
        self.hits.extend(o.hits);
        self.harness_errors.extend(o.harness_errors);
        self.hashes.extend(o.hashes);
        self.nontrivial.extend(o.nontrivial);
        self.scheds.extend(o.scheds);
        self.shapes.extend(o.shapes);
        for (k, n) in o.fired {
            *self.fired.entry(k).or_insert(0) += n;
        }
        for (k, n) in o.probes {
            *self.probes.entry(k).or_insert(0) += n;
        }
        for (k, n) in o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += n;
        }
        for (k, n) in o.kinds {
            *self.kinds.entry(k).or_insert(0) += n;
        }
        self.unsupported.extend(o.unsupported);
        self.sim_ns += o.sim_ns;
        self.steps += o.steps;
        self.switches += o.switches;
        self.samples.extend(o.samples);
        self.timed_out |= o.timed_out;
        for (k, n) in o.known {
            *self.known.entry(k).or_insert(0) += n;
        }
    }

    fn add(&mut self, index: u64, case: &Case, r: &RunResult, prop: &str, known: &BTreeSet<String>) -> bool {
        self.runs += 1;
        if let Some(e) = &r.harness_error {
            self.harness_errors.push(format!("case {index}: {e}"));
            return true;
        }
        *self.kinds.entry(case.kind.clone()).or_insert(0) += 1;
        self.hashes.insert(r.hash);
        self.scheds.insert(r.sched);
        self.shapes.insert(r.shape);
        if gen::nontrivial(prop, case, r) {
            self.nontrivial.insert(r.hash);
        }
        for (k, n) in &r.fired {
            *self.fired.entry(k.clone()).or_insert(0) += n;
        }
        for (k, n) in &r.probes {
            *self.probes.entry(k.clone()).or_insert(0) += n;
        }
        for o in &r.outcomes {
            let k = o.split(' ').skip(1).take(if o.contains("err") { 2 } else { 1 }).collect::<Vec<_>>().join(" ");
            *self.outcomes.entry(k).or_insert(0) += 1;
        }
        self.unsupported.extend(r.unsupported.iter().cloned());
        self.sim_ns += r.sim_ns;
        self.steps += r.steps;
        self.switches += r.switches;
        if self.samples.len() < 2 && gen::nontrivial(prop, case, r) {
            let mut c = serde_json::to_value(case).unwrap();
            if let Some(o) = c.as_object_mut() {
                o.remove("roles");
                // a text of many kilobytes says nothing more than its beginning
                if let Some(l) = o.get_mut("wasp").and_then(|w| w.get_mut("texts")).and_then(|t| t.as_array_mut()) {
                    for t in l {
                        if let Some(x) = t.as_str().filter(|x| x.len() > 400) {
                            *t = format!("{} ... ({} bytes)", x.chars().take(300).collect::<String>(), x.len()).into();
                        }
                    }
                }
                if let Some(l) = o.get_mut("wasp").and_then(|w| w.get_mut("threads")).and_then(|t| t.as_array_mut()) {
                    for t in l {
                        if let Some(x) = t.as_array_mut() {
                            x.truncate(8);
                        }
                    }
                }
            }
            self.samples.push(serde_json::json!({"index": index, "case": c, "outcomes": r.outcomes, "fired": r.fired}));
        }
        let mut mine: Vec<&Violation> = vec![];
        for v in r.violations.iter().filter(|v| v.prop == prop) {
            if known.contains(&v.class) {
                *self.known.entry(v.class.clone()).or_insert(0) += 1;
            } else {
                mine.push(v);
            }
        }
        if let Some(v) = mine.first() {
            self.violations += 1;
            self.hits.push((index, case.clone(), (*v).clone()));
            return true;
        }
        false
    }
}

/// One worker: its share of the indices, until done, out of time, or past a violation found.
fn worker(prop: &str, tier: &str, seed: u64, w: u64, n_workers: u64, total: u64, deadline: Instant, min_hit: &std::sync::atomic::AtomicU64) -> Stats {
    use std::sync::atomic::Ordering::SeqCst;
    let mut st = Stats::default();
    let mut i = w;
    let known = known_classes(prop);
    while i < total {
        if i > min_hit.load(SeqCst) {
            break;
        }
        if Instant::now() > deadline {
            st.timed_out = true;
            break;
        }
        let (base, subs) = gen::cases(prop, tier, seed, i);
        let mut stop = false;
        // a base case, whose run tells which system calls there are, then cases derived from it
        let r = judge(&base, false);
        stop |= st.add(i, &base, &r, prop, &known);
        if !stop {
            for c in subs(&base, &r) {
                let r2 = judge(&c, false);
                if st.add(i, &c, &r2, prop, &known) {
                    stop = true;
                    break;
                }
            }
        }
        if stop {
            min_hit.fetch_min(i, SeqCst);
            break;
        }
        i += n_workers;
    }
    st
}

pub fn search(prop: &str, tier: &str, seed: u64, total: u64, cap: Duration) -> Stats {
    let n: u64 = 8;
    let shared = unsafe {
        libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
    };
    assert!(shared != libc::MAP_FAILED);
    let min_hit = unsafe { &*(shared as *const std::sync::atomic::AtomicU64) };
    min_hit.store(u64::MAX, std::sync::atomic::Ordering::SeqCst);
    let deadline = Instant::now() + cap;
    let mut kids = vec![];
    for w in 0..n {
        let mut fds = [0i32; 2];
        unsafe {
            assert!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) == 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let st = worker(prop, tier, seed, w, n, total, deadline, min_hit);
                let s = serde_json::to_string(&st).unwrap();
                let b = s.as_bytes();
                let mut p = 0;
                while p < b.len() {
                    let k = libc::write(fds[1], b.as_ptr().add(p).cast(), b.len() - p);
                    if k <= 0 {
                        break;
                    }
                    p += k as usize;
                }
                libc::_exit(0);
            }
            libc::close(fds[1]);
            kids.push((pid, fds[0]));
        }
    }
    let mut all = Stats::default();
    for (pid, fd) in kids {
        let mut v = vec![];
        let mut buf = [0u8; 65536];
        unsafe {
            loop {
                let k = libc::read(fd, buf.as_mut_ptr().cast(), buf.len());
                if k <= 0 {
                    break;
                }
                v.extend_from_slice(&buf[..k as usize]);
            }
            libc::close(fd);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
        match serde_json::from_slice::<Stats>(&v) {
            Ok(s) => all.merge(s),
            Err(e) => all.harness_errors.push(format!("worker {pid}: {e}")),
        }
    }
    all.hits.sort_by_key(|h| h.0);
    all
}

// ---------------------------------------------------------------- minimising

fn still(case: &Case, prop: &str, class: &str) -> bool {
    let r = judge(case, false);
    r.harness_error.is_none() && r.violations.iter().any(|v| v.prop == prop && v.class == class)
}

pub fn minimise(case: &Case, prop: &str, class: &str, budget: Duration) -> Case {
    let start = Instant::now();
    let mut best = case.clone();
    let mut tried: BTreeSet<String> = BTreeSet::new();
    loop {
        let mut progress = false;
        for c in gen::shrinks(&best) {
            if start.elapsed() > budget {
                return best;
            }
            let key = serde_json::to_string(&c).unwrap();
            if !tried.insert(key) {
                continue;
            }
            if still(&c, prop, class) {
                best = c;
                progress = true;
                break;
            }
        }
        if !progress {
            break;
        }
    }
    // the schedule: take it down to explicit decisions, then drop every switch that does not matter
    if best.tape.is_none() {
        let r = judge(&best, false);
        let mut t = best.clone();
        t.tape = Some(r.tape.clone());
        if still(&t, prop, class) {
            let mut tape = r.tape;
            let cut = |tape: &mut Vec<u8>| {
                while tape.last() == Some(&0) {
                    tape.pop();
                }
            };
            cut(&mut tape);
            let mut size = tape.len().div_ceil(2).max(1);
            while size >= 1 && start.elapsed() < budget {
                let mut at = 0;
                while at < tape.len() && start.elapsed() < budget {
                    let end = (at + size).min(tape.len());
                    if tape[at..end].iter().any(|b| *b != 0) {
                        let mut c = tape.clone();
                        c[at..end].iter_mut().for_each(|b| *b = 0);
                        let mut k = t.clone();
                        k.tape = Some(c.clone());
                        if still(&k, prop, class) {
                            tape = c;
                        }
                    }
                    at = end;
                }
                if size == 1 {
                    break;
                }
                size = size.div_ceil(2);
            }
            cut(&mut tape);
            t.tape = Some(tape);
            if still(&t, prop, class) {
                best = t;
            }
        }
    }
    best
}
