//! Runs cases in processes of their own, searches in parallel, minimises.

use crate::case::*;
use crate::prog::Tape;
use crate::{check, draw};
use simos::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub enum Child {
    Out(String),
    Harness(String),
    Died(String),
    Hung,
}

const CPU_LIMIT: u64 = 20;
const WALL_LIMIT: u64 = 240;

fn send(fd: i32, b: &[u8]) {
    let mut p = 0;
    while p < b.len() {
        let n = simos::shim::raw(libc::SYS_write, fd as usize, b.as_ptr() as usize + p, b.len() - p, 0, 0, 0);
        if n <= 0 {
            break;
        }
        p += n as usize;
    }
}

/// Runs `f` in a fork of this (single-threaded) process, on a large stack, and returns the string it produces.
pub fn in_child(f: impl FnOnce() -> String + Send) -> Child {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            return Child::Harness("pipe".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            libc::close(fds[0]);
            libc::close(fds[1]);
            return Child::Harness("fork".into());
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &nocore);
            let out = fds[1];
            std::panic::set_hook(Box::new(move |info| {
                // a panic inside the simulator or the harness is our fault, not the code's
                if simos::sim_tid().is_none() {
                    send(out, format!("HARNESS {info}").as_bytes());
                    libc::_exit(77);
                }
                #[cfg(feature = "cli")]
                if crate::cli::RUNNING.load(SeqCst) {
                    eprintln!("{info}");
                }
            }));
            std::thread::scope(|s| {
                let t = std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, move || {
                    send(out, f().as_bytes());
                    libc::_exit(0);
                });
                if let Err(e) = t {
                    send(out, format!("HARNESS thread: {e}").as_bytes());
                    libc::_exit(77);
                }
            });
            libc::_exit(78);
        }
        libc::close(fds[1]);
        let mut v = vec![];
        let mut buf = [0u8; 65536];
        let start = Instant::now();
        let mut late = false;
        loop {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            if libc::poll(&mut p, 1, 2000) == 0 {
                if start.elapsed() > Duration::from_secs(WALL_LIMIT) {
                    late = true;
                    libc::kill(pid, libc::SIGKILL);
                    break;
                }
                continue;
            }
            let n = libc::read(fds[0], buf.as_mut_ptr().cast(), buf.len());
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        let text = String::from_utf8_lossy(&v).to_string();
        if late {
            return Child::Harness("wall clock limit".into());
        }
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            return Child::Out(text);
        }
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            return if s == libc::SIGXCPU || s == libc::SIGKILL { Child::Hung } else { Child::Died(format!("is killed by signal {s}")) };
        }
        if libc::WEXITSTATUS(st) == 77 || libc::WEXITSTATUS(st) == 78 {
            return Child::Harness(text);
        }
        Child::Died(format!("ends with status {st:#x}"))
    }
}

pub fn judge(case: &Case, want_log: bool) -> RunResult {
    let mut r = RunResult::default();
    match in_child(|| serde_json::to_string(&check::run_case(case, want_log)).expect("json")) {
        Child::Out(s) => match serde_json::from_str::<RunResult>(&s) {
            Ok(r) => return r,
            Err(e) => r.harness_error = Some(format!("result: {e}: {}", s.chars().take(200).collect::<String>())),
        },
        Child::Harness(s) => r.harness_error = Some(s),
        Child::Died(s) => r.violate(&case.prop, "died", format!("the instrumenting process {s} (stack overflow or abort)")),
        Child::Hung => r.violate(&case.prop, "spins", "instrumenting consumes processor time without end"),
    }
    r
}

pub fn case_seed(prop: &str, seed: u64, index: u64) -> u64 {
    let p = prop.bytes().fold(0u64, |h, b| h * 131 + u64::from(b));
    Rng::mix(Rng::mix(seed, p), index)
}

pub fn case_at(prop: &str, seed: u64, index: u64) -> (Case, Vec<u32>) {
    let s = case_seed(prop, seed, index);
    let mut t = Tape::record(s);
    let c = draw::draw(prop, &mut t, s);
    (c, t.v)
}

// ---------------------------------------------------------------- search

#[derive(Default, serde::Serialize, serde::Deserialize)]
#[serde(default)]
pub struct Stats {
    pub runs: u64,
    pub violations: u64,
    pub hits: Vec<(u64, Violation)>,
    pub harness_errors: Vec<String>,
    pub hashes: BTreeSet<u64>,
    pub nontrivial: BTreeSet<u64>,
    pub shapes: BTreeSet<u64>,
    pub scheds: BTreeSet<u64>,
    pub fired: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    pub hooks: BTreeMap<String, u64>,
    pub kinds: BTreeMap<String, u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub unsupported: BTreeSet<String>,
    pub sim_ns: u64,
    pub steps: u64,
    pub events: u64,
    pub samples: Vec<serde_json::Value>,
    pub timed_out: bool,
    pub known: BTreeMap<String, u64>,
}

/// Classes of violation listed in KNOWN_FINDINGS.txt for a property.
pub fn known_classes(prop: &str) -> BTreeSet<String> {
    crate::known_findings()
        .iter()
        .filter(|l| l.contains(&format!("property={prop} ")))
        .filter_map(|l| l.split_whitespace().find_map(|w| w.strip_prefix("class=")).map(str::to_string))
        .collect()
}

fn hash(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf2_9ce4_8422_2325, |h, x| (h ^ u64::from(*x)).wrapping_mul(0x0000_0100_0000_01b3))
}

impl Stats {
    fn absorb(&mut self, o: Stats) {
        let add = |a: &mut BTreeMap<String, u64>, b: BTreeMap<String, u64>| {
            for (k, n) in b {
                *a.entry(k).or_insert(0) += n;
            }
        };
        self.runs += o.runs;
        self.violations += o.violations;
        self.hits.extend(o.hits);
        self.harness_errors.extend(o.harness_errors);
        self.hashes.extend(o.hashes);
        self.nontrivial.extend(o.nontrivial);
        self.shapes.extend(o.shapes);
        self.scheds.extend(o.scheds);
        add(&mut self.fired, o.fired);
        add(&mut self.counts, o.counts);
        add(&mut self.hooks, o.hooks);
        add(&mut self.kinds, o.kinds);
        add(&mut self.outcomes, o.outcomes);
        add(&mut self.known, o.known);
        self.unsupported.extend(o.unsupported);
        self.sim_ns += o.sim_ns;
        self.steps += o.steps;
        self.events += o.events;
        self.samples.extend(o.samples);
        self.timed_out |= o.timed_out;
    }

    fn add(&mut self, index: u64, case: &Case, r: &RunResult, prop: &str, known: &BTreeSet<String>) -> bool {
        self.runs += 1;
        if let Some(e) = &r.harness_error {
            self.harness_errors.push(format!("case {index}: {e}"));
            return true;
        }
        *self.kinds.entry(case.kind.clone()).or_insert(0) += 1;
        *self.outcomes.entry(r.outcome.clone()).or_insert(0) += 1;
        self.hashes.insert(r.hash);
        self.shapes.insert(r.shape);
        if !r.schedule.is_empty() {
            self.scheds.insert(hash(&r.schedule));
        }
        if r.nontrivial {
            self.nontrivial.insert(r.hash);
        }
        let add = |a: &mut BTreeMap<String, u64>, b: &BTreeMap<String, u64>| {
            for (k, n) in b {
                *a.entry(k.clone()).or_insert(0) += n;
            }
        };
        add(&mut self.fired, &r.fired);
        add(&mut self.counts, &r.counts);
        add(&mut self.hooks, &r.hooks);
        self.unsupported.extend(r.unsupported.iter().cloned());
        self.sim_ns += r.sim_ns;
        self.steps += r.steps;
        self.events += r.events;
        if self.samples.is_empty() && r.nontrivial && case.module.len() < 3000 {
            let mut c = serde_json::to_value(case).expect("json");
            if let Some(o) = c.as_object_mut() {
                o.insert("module".into(), serde_json::Value::from(crate::text_of(&case.module).lines().take(60).collect::<Vec<_>>()));
                o.retain(|_, v| !v.as_array().is_some_and(Vec::is_empty));
                if let Some(l) = o.get_mut("jobs").and_then(|j| j.as_array_mut()) {
                    for j in l.iter_mut().flat_map(|t| t.as_array_mut().into_iter().flatten()) {
                        if let Some(o) = j.as_object_mut() {
                            o.remove("input");
                        }
                    }
                }
            }
            self.samples.push(serde_json::json!({"index": index, "case": c, "outcome": r.outcome, "fired": r.fired, "events": r.events}));
        }
        let mut mine: Vec<&Violation> = vec![];
        for v in r.violations.iter().filter(|v| v.prop == prop) {
            if known.contains(&v.class) {
                *self.known.entry(v.class.clone()).or_insert(0) += 1;
            } else {
                mine.push(v);
            }
        }
        if let Some(v) = mine.first() {
            self.violations += 1;
            self.hits.push((index, (*v).clone()));
            return true;
        }
        false
    }
}

#[allow(clippy::too_many_arguments)]
fn worker(prop: &str, seed: u64, w: u64, n: u64, total: u64, deadline: Instant, min_hit: &AtomicU64) -> Stats {
    let mut st = Stats::default();
    let known = known_classes(prop);
    let mut i = w;
    while i < total && i <= min_hit.load(SeqCst) {
        if Instant::now() > deadline {
            st.timed_out = true;
            break;
        }
        let (c, _) = case_at(prop, seed, i);
        let r = judge(&c, false);
        if st.add(i, &c, &r, prop, &known) {
            min_hit.fetch_min(i, SeqCst);
            break;
        }
        i += n;
    }
    st
}

pub fn search(prop: &str, seed: u64, total: u64, cap: Duration) -> Stats {
    let n: u64 = 8;
    let shared = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
    assert!(shared != libc::MAP_FAILED);
    let min_hit = unsafe { &*(shared as *const AtomicU64) };
    min_hit.store(u64::MAX, SeqCst);
    let deadline = Instant::now() + cap;
    let mut kids = vec![];
    for w in 0..n {
        let mut fds = [0i32; 2];
        unsafe {
            assert!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) == 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let st = worker(prop, seed, w, n, total, deadline, min_hit);
                send(fds[1], serde_json::to_string(&st).expect("json").as_bytes());
                libc::_exit(0);
            }
            libc::close(fds[1]);
            kids.push((pid, fds[0]));
        }
    }
    let mut all = Stats::default();
    for (pid, fd) in kids {
        let mut v = vec![];
        let mut buf = [0u8; 65536];
        unsafe {
            loop {
                let k = libc::read(fd, buf.as_mut_ptr().cast(), buf.len());
                if k <= 0 {
                    break;
                }
                v.extend_from_slice(&buf[..k as usize]);
            }
            libc::close(fd);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
        match serde_json::from_slice::<Stats>(&v) {
            Ok(s) => all.absorb(s),
            Err(e) => all.harness_errors.push(format!("worker {pid}: {e}")),
        }
    }
    all.hits.sort_by_key(|h| h.0);
    all
}

// ---------------------------------------------------------------- minimising

fn still(case: &Case, prop: &str, class: &str) -> bool {
    let r = judge(case, false);
    r.harness_error.is_none() && r.violations.iter().any(|v| v.prop == prop && v.class == class)
}

/// First on the tape of choices the case was drawn from, then on the case itself, then on its schedule.
pub fn minimise(prop: &str, seed: u64, index: u64, class: &str, budget: Duration) -> Case {
    let start = Instant::now();
    let (mut best, mut tape) = case_at(prop, seed, index);
    let s = case_seed(prop, seed, index);
    let over = |f: u32| start.elapsed() > budget * f / 10;
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut attempt = |v: &[u32], best: &mut Case| -> bool {
        let mut t = Tape::replay(v.to_vec());
        let c = draw::draw(prop, &mut t, s);
        let key = serde_json::to_string(&c).expect("json");
        if key == serde_json::to_string(best).expect("json") {
            return true;
        }
        if !seen.insert(key) {
            return false;
        }
        if still(&c, prop, class) {
            *best = c;
            return true;
        }
        false
    };
    loop {
        let before = tape.len();
        let mut size = tape.len() / 2;
        while size > 0 && !over(5) {
            let mut at = 0;
            while at < tape.len() && !over(5) {
                let end = (at + size).min(tape.len());
                let mut v = tape.clone();
                v.drain(at..end);
                if attempt(&v, &mut best) {
                    tape = v;
                } else if tape[at..end].iter().any(|x| *x != 0) {
                    let mut v = tape.clone();
                    v[at..end].fill(0);
                    if attempt(&v, &mut best) {
                        tape = v;
                    }
                    at = end;
                } else {
                    at = end;
                }
            }
            size /= 2;
        }
        if tape.len() == before || over(5) {
            break;
        }
    }
    for k in 0..tape.len() {
        if over(6) {
            break;
        }
        for x in [1, tape[k] / 2, tape[k].saturating_sub(1)] {
            if x < tape[k] {
                let mut v = tape.clone();
                v[k] = x;
                if attempt(&v, &mut best) {
                    tape = v;
                    break;
                }
            }
        }
    }
    // what the case says
    loop {
        let mut progress = false;
        for c in shrinks(&best) {
            if over(8) {
                break;
            }
            if still(&c, prop, class) {
                best = c;
                progress = true;
                break;
            }
        }
        if !progress || over(8) {
            break;
        }
    }
    // the schedule: down to explicit decisions, then every switch that does not matter is dropped
    if best.preempt > 0 {
        let r = judge(&best, true);
        let mut t = best.clone();
        let mut v = r.schedule;
        t.schedule = Some(hex(&v));
        if still(&t, prop, class) {
            let mut size = v.len().div_ceil(2).max(1);
            while !over(10) {
                let mut at = 0;
                while at < v.len() && !over(10) {
                    let end = (at + size).min(v.len());
                    if v[at..end].iter().any(|b| *b != 0) {
                        let mut w = v.clone();
                        w[at..end].fill(0);
                        let mut k = t.clone();
                        k.schedule = Some(hex(&w));
                        if still(&k, prop, class) {
                            v = w;
                        }
                    }
                    at = end;
                }
                if size == 1 {
                    break;
                }
                size = size.div_ceil(2);
            }
            while v.last() == Some(&0) {
                v.pop();
            }
            t.schedule = Some(hex(&v));
            if still(&t, prop, class) {
                best = t;
            }
        }
    }
    best
}

fn shrinks(c: &Case) -> Vec<Case> {
    let mut out: Vec<Case> = vec![];
    let mut with = |f: &dyn Fn(&mut Case)| {
        let mut d = c.clone();
        f(&mut d);
        if d != *c {
            out.push(d);
        }
    };
    with(&|d| d.os_faults.clear());
    with(&|d| d.preempt = 0);
    with(&|d| d.alloc_stride = 0);
    with(&|d| d.disk_quota = None);
    with(&|d| d.missing = false);
    with(&|d| d.more.clear());
    for i in 0..c.jobs.len() {
        if c.jobs.len() > 1 {
            with(&|d| {
                d.jobs.remove(i);
                d.os_faults.retain(|f| f.caller != i);
                d.os_faults.iter_mut().filter(|f| f.caller > i).for_each(|f| f.caller -= 1);
            });
        }
        for j in 0..c.jobs[i].len() {
            if c.jobs[i].len() > 1 {
                with(&|d| {
                    d.jobs[i].remove(j);
                    d.os_faults.retain(|f| f.caller != i || f.unit != j);
                    d.os_faults.iter_mut().filter(|f| f.caller == i && f.unit > j).for_each(|f| f.unit -= 1);
                });
            }
            with(&|d| d.jobs[i][j].input = None);
            with(&|d| d.jobs[i][j].analysis_fails = None);
            with(&|d| d.jobs[i][j].library_fails = None);
            with(&|d| d.jobs[i][j].parse_fails = None);
            with(&|d| d.jobs[i][j].encode_fails = None);
            with(&|d| d.jobs[i][j].infer_fails = None);
            with(&|d| d.jobs[i][j].analysis_text = None);
            with(&|d| d.jobs[i][j].analysis_len = 0);
            with(&|d| d.jobs[i][j].fate = None);
            with(&|d| d.jobs[i][j].conf = Conf::default());
        }
    }
    for i in 0..c.os_faults.len() {
        with(&|d| {
            d.os_faults.remove(i);
        });
    }
    for i in 0..c.script.calls.len() {
        with(&|d| {
            d.script.calls.remove(i);
        });
    }
    for i in (0..c.script.host.len()).rev() {
        with(&|d| {
            d.script.host.remove(i);
        });
    }
    with(&|d| d.script.subs.clear());
    with(&|d| d.script.hook_traps.clear());
    with(&|d| d.script.applies.clear());
    with(&|d| d.script.refuse.clear());
    with(&|d| d.script.imports.clear());
    for i in 0..c.script.subs.len() {
        with(&|d| {
            d.script.subs.remove(i);
        });
    }
    for i in 0..c.conf.groups.len() {
        if c.jobs.is_empty() {
            with(&|d| {
                let g = d.conf.groups.remove(i);
                let _ = g;
            });
        }
    }
    if c.jobs.is_empty() {
        with(&|d| d.conf.off.clear());
        with(&|d| d.conf.targets = None);
        with(&|d| d.conf.primary = 0);
    }
    for n in [16usize, 4, 1] {
        for i in (0..c.stack.len()).step_by(n) {
            with(&|d| {
                let e = (i + n).min(d.stack.len());
                d.stack.drain(i..e);
            });
        }
    }
    for i in 0..c.signatures.len() {
        if c.signatures.len() > 1 {
            with(&|d| {
                d.signatures.remove(i);
            });
        }
        for k in 0..c.signatures[i].0.len() {
            with(&|d| {
                d.signatures[i].0.remove(k);
            });
        }
        for k in 0..c.signatures[i].1.len() {
            with(&|d| {
                d.signatures[i].1.remove(k);
            });
        }
    }
    with(&|d| d.stack_refuse.clear());
    for i in 0..c.backends.len() {
        if c.backends.len() > 1 {
            with(&|d| {
                d.backends.remove(i);
            });
        }
    }
    for i in 0..c.advices.len() {
        if c.advices.len() > 1 {
            with(&|d| {
                d.advices.remove(i);
            });
        }
        for k in 0..c.advices[i].acts.len() {
            with(&|d| {
                d.advices[i].acts.remove(k);
            });
        }
    }
    for i in 0..c.drive.len() {
        with(&|d| {
            d.drive.remove(i);
        });
        let Drive::Apply { bases, .. } = &c.drive[i] else { continue };
        for k in 0..bases.len() {
            let change = |d: &mut Case, f: &dyn Fn(&mut Vec<Base>)| {
                if let Drive::Apply { bases, .. } = &mut d.drive[i] {
                    f(bases);
                }
            };
            with(&|d| {
                change(d, &|b| {
                    b.remove(k);
                })
            });
            with(&|d| change(d, &|b| b[k].inner.clear()));
            for j in 0..bases[k].inner.len() {
                with(&|d| {
                    change(d, &|b| {
                        b[k].inner.remove(j);
                    })
                });
            }
            with(&|d| change(d, &|b| b[k].trap = false));
        }
    }
    if c.lib != 0 && !c.kind.starts_with("program") {
        with(&|d| d.lib = 0);
    }
    out
}
