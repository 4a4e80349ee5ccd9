//! Draws cases from a tape of choices.

use crate::case::*;
use crate::hooks::{self, H};
use crate::prog::{self, Style, Tape};
use crate::wasm::{self, Module, Trace, Ty};
use crate::run;
use crate::world::{Knobs, Script, Sub, EVERY};
use simos::Site;

pub fn total(prop: &str, tier: &str) -> u64 {
    let (q, t) = match prop {
        "C10" => (120_000, 4_000_000),
        "C11" => (130_000, 4_000_000),
        "C20" => (40_000, 1_500_000),
        "C12" => (90_000, 3_000_000),
        "C13" => (110_000, 4_000_000),
        "C14" => (8_000, 800_000),
        "C15" => (50_000, 2_000_000),
        "C18" => (13_000, 1_000_000),
        "C16" => (24_000, 1_200_000),
        "C19" => (70_000, 3_000_000),
        _ => (150_000, 8_000_000),
    };
    if tier == "thorough" {
        t
    } else {
        q
    }
}

pub fn chosen(groups: &[usize], off: &[H]) -> Vec<H> {
    let on = hooks::expected(groups, off);
    std::iter::once(H::GenericApply).chain(hooks::HOOKS.iter().map(|x| x.0)).filter(|h| on[*h as usize]).collect()
}

pub fn conf(t: &mut Tape, n_funcs: u32, selective: bool) -> Conf {
    let mut c = Conf::default();
    let all: Vec<usize> = (0..hooks::GROUPS.len()).collect();
    match t.weighted(&[8, 10, 8, 1]) {
        0 => c.groups = all,
        1 => c.groups = all.into_iter().filter(|_| t.chance(500)).collect(),
        2 => {
            for _ in 0..=t.below(3) {
                let g = t.below(hooks::GROUPS.len() as u32) as usize;
                if !c.groups.contains(&g) {
                    c.groups.push(g);
                }
            }
        }
        _ => (),
    }
    if t.chance(if selective { 500 } else { 150 }) {
        let on = chosen(&c.groups, &[]);
        if !on.is_empty() {
            for _ in 0..=t.below(6) {
                let h = t.pick(&on);
                if !c.off.contains(&h) {
                    c.off.push(h);
                }
            }
        }
    }
    if t.chance(if selective { 750 } else { 250 }) && n_funcs > 0 {
        let mut v: Vec<u32> = (0..n_funcs).filter(|_| t.chance(500)).collect();
        if t.chance(100) {
            // an order and indices an analysis might come up with
            v.reverse();
            v.push(n_funcs + t.below(3));
        }
        if t.chance(60) {
            if let Some(x) = v.first().copied() {
                v.push(x);
            }
        }
        c.targets = Some(v);
    }
    c.primary = t.below(4) as u8;
    c
}

fn no_analysis() -> Knobs {
    Knobs { subs: 0, hook_traps: 0, applies: 0, host_faults: 600 }
}

pub fn program(t: &mut Tape, style: Style) -> (Vec<u8>, u32) {
    let b = prog::module(t, style);
    let n = Module::decode(&b).map_or(0, |m| m.funcs.len() as u32);
    (b, n)
}

pub fn draw(prop: &str, t: &mut Tape, seed: u64) -> Case {
    let mut c = Case { prop: prop.into(), seed, ..Default::default() };
    match prop {
        "C10" | "C11" | "C13" => {
            let style = Style::draw(t);
            let (b, n) = program(t, style);
            c.module = hex(&b);
            c.conf = conf(t, n, false);
            let knobs = match prop {
                "C10" => no_analysis(),
                "C11" => Knobs { subs: 0, hook_traps: 350, applies: 0, host_faults: 500 },
                _ => {
                    if !c.conf.groups.contains(&0) && t.chance(400) {
                        c.conf.groups.push(0);
                    }
                    Knobs { subs: 850, hook_traps: 100, applies: 700, host_faults: 350 }
                }
            };
            let on = chosen(&c.conf.groups, &c.conf.off);
            c.script = Script::draw(t, &knobs, &on);
            if prop == "C13" && t.chance(900) {
                aim(t, &mut c);
            }
            c.kind = if c.conf.targets.is_some() { "some functions" } else { "all functions" }.into();
            if prop == "C10" && n > 0 && t.chance(4) {
                if let Some(b) = also_exported(&b, "call_base", t.below(n)) {
                    c.module = hex(&b);
                    c.kind = "a name that is taken".into();
                }
            }
        }
        "C12" => {
            let style = Style::draw(t);
            let (b, n) = program(t, style);
            c.module = hex(&b);
            c.script = Script::draw(t, &no_analysis(), &[]);
            match t.weighted(&[6, 1, 4]) {
                0 => {
                    c.kind = "targets".into();
                    c.conf = conf(t, n, true);
                    if c.conf.targets.is_none() {
                        c.conf.targets = Some((0..n).filter(|_| t.chance(400)).collect());
                    }
                }
                1 => {
                    c.kind = "no hooks".into();
                    c.conf = conf(t, n, true);
                    c.conf.groups.clear();
                    c.conf.off.clear();
                }
                _ => {
                    c.kind = "more hooks".into();
                    c.conf = conf(t, n, true);
                    let mut d = c.conf.clone();
                    // the same and more
                    for g in 0..hooks::GROUPS.len() {
                        if !d.groups.contains(&g) && t.chance(500) {
                            d.groups.push(g);
                        }
                    }
                    d.off.retain(|_| t.chance(300));
                    c.more.push(d);
                }
            }
        }
        "C14" if t.chance(150) => {
            let style = Style::draw(t);
            let (b, n) = program(t, style);
            c.module = hex(&b);
            c.conf = conf(t, n, false);
            if !c.conf.groups.contains(&0) {
                c.conf.groups.push(0);
            }
            c.conf.off.retain(|h| *h != H::GenericApply);
            c.script = Script::draw(t, &Knobs { subs: 0, hook_traps: 0, applies: 500, host_faults: 100 }, &[]);
            let lib = t.weighted(&[600, 400, 15]) as u8;
            c.lib = if cfg!(feature = "backends") { lib } else { 0 };
            c.kind = "program".into();
        }
        "C14" => {
            stack(t, &mut c);
            let all = t.chance(40);
            c.backends = match (cfg!(feature = "backends"), all) {
                (false, _) => vec![],
                (true, true) => vec![0, 1, 2],
                (true, false) => vec![0, 1],
            };
        }
        "C15" => failing(t, &mut c),
        "C20" => crate::shipped::draw(t, &mut c),
        "C18" => back_ends(t, &mut c),
        #[cfg(feature = "cli")]
        "C19" => crate::cli::draw(t, &mut c),
        "C16" => {
            let style = Style::draw(t);
            let (b, n) = program(t, style);
            c.module = hex(&b);
            c.conf = conf(t, n, false);
            let on = chosen(&c.conf.groups, &c.conf.off);
            c.script = Script::draw(t, &Knobs { subs: 300, hook_traps: 100, applies: 300, host_faults: 400 }, &on);
            c.preempt = [0, 40, 200][t.below(3) as usize];
            c.alloc_stride = [0, 0, 9, 40][t.below(4) as usize];
            // several threads; the job without anything of its own is the one in question
            for _ in 0..=t.below(3) {
                let mut jobs = vec![];
                for _ in 0..t.below(3) {
                    jobs.push(other_job(t, &c, n));
                }
                jobs.push(Job { conf: c.conf.clone(), ..Default::default() });
                if t.chance(300) {
                    jobs.push(Job { conf: c.conf.clone(), ..Default::default() });
                }
                c.jobs.push(jobs);
            }
            c.kind = format!("{} threads, history {}", c.jobs.len(), c.jobs.iter().map(|j| j.len() - 1).max().unwrap_or(0));
        }
        _ => {
            let mut style = Style::draw(t);
            style.funcs += 2;
            style.pure_ = [550, 700, 900, 300][t.below(4) as usize];
            style.slip = [8, 0, 30, 100][t.below(4) as usize];
            let (b, _) = program(t, style);
            c.module = hex(&b);
            c.script = Script::draw(t, &no_analysis(), &[]);
            c.kind = "program".into();
        }
    }
    c
}

/// Chooses the values the analysis returns among the notifications that do occur, each hook alike however
/// often it is notified.
fn aim(t: &mut Tape, c: &mut Case) {
    let Ok(m) = Module::decode(&unhex(&c.module)) else { return };
    let m = std::rc::Rc::new(m);
    c.script.subs.clear();
    for _ in 0..=t.below(4) {
        let trace = Trace { on: run::on(&c.conf.groups, &c.conf.off), targets: run::targets(&m, &c.conf.targets) };
        let x = run::reference(&m, &c.script, Some(trace));
        let on: Vec<(H, u32, Ty)> = x.hook_counts.into_iter().filter(|x| x.1 > 0).filter_map(|(h, n)| Some((h, n, h.answer()?))).collect();
        if on.is_empty() || x.error.is_some() || x.limit {
            return;
        }
        let (h, n, ty) = t.pick(&on);
        let bits = match t.below(3) {
            0 => u64::from(t.below(9)),
            1 => u64::from(t.below(4)).wrapping_sub(3),
            _ => prog::value(t, ty),
        };
        let nth = if t.chance(80) { EVERY } else { t.below(n) };
        c.script.subs.push(Sub { h, nth, bits });
    }
}

/// A program much like the one of the case: its signatures with other types or in other numbers, or one of
/// the same length that differs in a byte.
fn relative(t: &mut Tape, c: &Case) -> Option<Vec<u8>> {
    let b = unhex(&c.module);
    if t.chance(400) {
        for _ in 0..40 {
            let mut d = b.clone();
            let k = b.len() - 1 - t.below((b.len() as u32).min(4000) - 8) as usize;
            d[k] ^= 1 << t.below(7);
            if wasm::validate(&d).is_ok() && Module::decode(&d).is_ok() {
                return Some(d);
            }
        }
        return None;
    }
    let m = Module::decode(&b).ok()?;
    let how = t.below(6);
    let other = |t: &mut Tape, x: &Ty| match how {
        0 => match x {
            Ty::I32 => Ty::I64,
            Ty::I64 => Ty::F32,
            Ty::F32 => Ty::F64,
            Ty::F64 => Ty::I32,
            r => *r,
        },
        1 if !x.is_ref() => t.pick(&prog::NUM),
        _ => *x,
    };
    let mut sigs = vec![];
    for f in 0..m.funcs.len() as u32 {
        let y = m.fty(f);
        let (mut a, mut r): (Vec<Ty>, Vec<Ty>) = (y.params.iter().map(|x| other(t, x)).collect(), y.results.iter().map(|x| other(t, x)).collect());
        match how {
            2 => std::mem::swap(&mut a, &mut r),
            3 => a.reverse(),
            4 if t.chance(300) => a.truncate(1),
            5 if t.chance(500) => continue,
            _ => (),
        }
        sigs.push((a, r));
    }
    Some(prog::skeleton(&sigs))
}

/// Another instrumentation, of the same or another program, that may fail.
fn other_job(t: &mut Tape, c: &Case, n: u32) -> Job {
    let mut j = Job { conf: conf(t, n, false), ..Default::default() };
    match t.below(8) {
        5 | 6 => {
            j.input = relative(t, c).map(|b| hex(&b));
            j.conf = c.conf.clone();
        }
        7 => {
            // the same but for one thing
            j.conf = c.conf.clone();
            match t.below(4) {
                0 => j.conf.targets = if j.conf.targets.is_some() { None } else { Some((0..n).filter(|_| t.chance(500)).collect()) },
                1 => {
                    let g = t.below(hooks::GROUPS.len() as u32) as usize;
                    match j.conf.groups.iter().position(|x| *x == g) {
                        Some(k) => drop(j.conf.groups.remove(k)),
                        None => j.conf.groups.push(g),
                    }
                }
                2 => j.conf.primary = t.below(4) as u8,
                _ => j.analysis_len = 1 + t.below(3000) as usize,
            }
        }
        0 => {
            let style = Style::draw(t);
            let (b, n) = program(t, style);
            j.conf = conf(t, n, false);
            j.input = Some(hex(&b));
        }
        1 => j.analysis_fails = Some("no".into()),
        2 => j.encode_fails = Some("no".into()),
        3 => j.parse_fails = Some("no".into()),
        _ => (),
    }
    j
}

pub fn text(t: &mut Tape) -> String {
    let words = ["error", "line 3:", "\u{1b}[31m", "`", "é", "{}", "%s", "\n", "unexpected", "\"", "\\", "0"];
    (0..t.below(6)).map(|_| t.pick(&words)).collect::<Vec<_>>().join(" ")
}

pub const SITES: [Site; 14] = [
    Site::OpenCreate, Site::Write, Site::Spawn, Site::Pipe, Site::Read, Site::PipeRead, Site::Poll, Site::Wait, Site::OpenExisting, Site::Unlink,
    Site::Close, Site::Seek, Site::Stat, Site::OpenDev,
];

fn failing(t: &mut Tape, c: &mut Case) {
    let style = Style::draw(t);
    let (b, n) = program(t, style);
    c.module = hex(&b);
    c.preempt = [0, 60][t.below(2) as usize];
    c.alloc_stride = [0, 25][t.below(2) as usize];
    let threads = 1 + if t.chance(250) { t.below(3) } else { 0 };
    let mut kinds = vec![];
    for caller in 0..threads as usize {
        let mut jobs = vec![];
        for unit in 0..=[0, 1, 2][t.weighted(&[6, 3, 2])] {
            let mut j = Job { conf: conf(t, n, false), ..Default::default() };
            if t.chance(350) && !j.conf.groups.contains(&0) {
                j.conf.groups.push(0);
            }
            for _ in 0..[1, 0, 2][t.weighted(&[8, 2, 2])] {
                match t.weighted(&[3, 2, 3, 2, 2, 4, 3, 7, 5, 2]) {
                    0 => j.analysis_fails = Some(text(t)),
                    1 => j.library_fails = Some(text(t)),
                    2 => {
                        let at = [0, 1, 3, 10, 50, 300][t.below(6) as usize];
                        j.infer_fails = Some((at, format!("untypeable {}", t.below(100))));
                    }
                    3 => j.parse_fails = Some(format!("unreadable {}", text(t))),
                    4 => j.encode_fails = Some(format!("unwritable {}", text(t))),
                    5 => {
                        let mut f = Fate { delay: [0, 1_000_000, 3_000_000_000][t.below(3) as usize], chunk: [0, 7, 4096][t.below(3) as usize], ..Default::default() };
                        match t.below(3) {
                            0 => f.exit = [1, 2, 127, 255][t.below(4) as usize],
                            1 => f.signal = [9, 11, 6, 15][t.below(4) as usize],
                            _ => f.stderr = format!("Fatal: {}", text(t)),
                        }
                        if (f.exit != 0 || f.signal != 0) && t.chance(400) {
                            f.no_output = true;
                        }
                        f.at = t.below(5);
                        j.fate = Some(f);
                    }
                    6 => {
                        let site = t.pick(&SITES);
                        let all = simos::faults::effects(site);
                        let e = all[t.below(all.len() as u32) as usize];
                        let f = OsFault::from_sim(&simos::Fault { caller, unit, site, nth: t.below(4), effect: e });
                        c.os_faults.push(f);
                    }
                    7 => j.input = Some(hex(&damaged(t, &b))),
                    8 => j.analysis_text = Some(analysis_text(t)),
                    _ => j.analysis_len = [1, 4096, 65_535, 65_536, 65_537, 200_000][t.below(6) as usize],
                }
            }
            kinds.push(job_kind(&j, c.os_faults.iter().any(|f| f.caller == caller && f.unit == unit)));
            jobs.push(j);
        }
        c.jobs.push(jobs);
    }
    if t.chance(30) {
        c.missing = true;
        kinds.push("no tool".into());
    }
    if t.chance(40) {
        c.disk_quota = Some([0, 100, 2000, 20_000][t.below(4) as usize]);
        kinds.push("disk fills up".into());
    }
    kinds.sort();
    kinds.dedup();
    c.kind = kinds.join(" + ");
    if kinds.len() > 2 {
        c.kind = "several".into();
    }
}

fn job_kind(j: &Job, os: bool) -> String {
    let mut v = vec![];
    let mut add = |b: bool, s: &'static str| {
        if b {
            v.push(s);
        }
    };
    add(j.analysis_fails.is_some(), "analysis compiler fails");
    add(j.library_fails.is_some(), "library compiler fails");
    add(j.infer_fails.is_some(), "typing fails");
    add(j.parse_fails.is_some(), "parsing fails");
    add(j.encode_fails.is_some(), "encoding fails");
    add(j.fate.is_some(), "merge tool fails");
    add(os, "system call fails");
    add(j.input.is_some(), "damaged input");
    add(j.analysis_text.is_some(), "analysis text");
    add(j.analysis_len > 0, "analysis size");
    if v.len() > 1 {
        return "several".into();
    }
    v.first().copied().unwrap_or("plain").into()
}

fn analysis_text(t: &mut Tape) -> String {
    let good = "(module (func (export \"f\") (result i32) i32.const 1))";
    match t.below(6) {
        0 => good.into(),
        1 => good[..t.below(good.len() as u32) as usize].into(),
        2 => "(module (func (result i32)))".into(),
        3 => "(module (func call $nowhere))".into(),
        4 => String::new(),
        _ => {
            let mut v: Vec<char> = good.chars().collect();
            let k = t.below(v.len() as u32) as usize;
            v[k] = t.pick(&['(', ')', '"', ' ', 'x', '\0', 'é', ';']);
            v.into_iter().collect()
        }
    }
}

/// A module as a damaged disk, a truncated download or a careless producer leaves it.
pub fn damaged(t: &mut Tape, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    match t.below(9) {
        0 => v.truncate(t.below(v.len() as u32 + 1) as usize),
        1 => {
            let k = t.below(v.len() as u32) as usize;
            v[k] ^= 1 << t.below(8);
        }
        2 => {
            let k = t.below(v.len() as u32) as usize;
            v[k] = t.below(256) as u8;
        }
        3 => {
            let k = t.below(v.len() as u32) as usize;
            let n = 1 + t.below(16) as usize;
            let e = (k + n).min(v.len());
            v.drain(k..e);
        }
        4 => {
            let k = t.below(v.len() as u32 + 1) as usize;
            let n = 1 + t.below(16) as usize;
            for _ in 0..n {
                v.insert(k, t.below(256) as u8);
            }
        }
        5 => {
            // a section that never reached the disk reads as zeros
            let k = t.below(v.len() as u32) as usize;
            let e = (k + 1 + t.below(64) as usize).min(v.len());
            v[k..e].fill(0);
        }
        6 => {
            let e = v.clone();
            v.extend(e);
        }
        7 => v.push(0),
        _ => v = (0..t.below(40)).map(|_| t.below(256) as u8).collect(),
    }
    v
}

fn stack(t: &mut Tape, c: &mut Case) {
    let n_sigs = 1 + t.below(4);
    for _ in 0..n_sigs {
        let one = |t: &mut Tape| -> Vec<u8> {
            let n = match t.weighted(&[8, 4, 1]) {
                0 => t.below(4),
                1 => t.below(12),
                _ => [16, 31, 32, 33, 64, 100][t.below(6) as usize],
            };
            let fixed = if t.chance(150) { Some(t.below(4) as u8) } else { None };
            (0..n).map(|_| fixed.unwrap_or_else(|| t.below(4) as u8)).collect()
        };
        let s = (one(t), one(t));
        if !c.signatures.contains(&s) || t.chance(100) {
            c.signatures.push(s);
        }
    }
    let most = if t.chance(200) { 120 } else { 24 };
    let n = 2 + t.below(most);
    let bits = |t: &mut Tape| {
        let ty = t.pick(&prog::NUM);
        prog::value(t, ty)
    };
    for _ in 0..n {
        let s = t.below(8);
        c.stack.push(match t.weighted(&[10, 7, 2, 6, 4, 4, 9, 2, 2]) {
            0 => {
                let k = t.below(5);
                StackOp::Values(s, (0..k).map(|_| bits(t)).collect())
            }
            1 => StackOp::Types(s),
            2 => StackOp::Nest(s, [20, 100, 500, 3000][t.weighted(&[6, 4, 2, 1])], bits(t)),
            3 => StackOp::Set(t.below(12), t.below(16), bits(t), t.chance(500)),
            4 => StackOp::SetResults(t.below(12), (0..3).map(|_| bits(t)).collect()),
            5 => StackOp::Get(t.below(12), t.below(16), t.chance(500)),
            6 => StackOp::Release,
            7 => StackOp::Abandon(t.below(64)),
            _ => StackOp::Churn(s, 1 + t.below(6), [3, 30, 400][t.weighted(&[6, 3, 1])]),
        });
    }
    let k = t.below(4);
    for _ in 0..k {
        c.stack_refuse.push(t.chance(400));
    }
    c.kind = if c.stack_refuse.iter().any(|x| *x) { "memory refused" } else { "memory granted" }.into();
}

/// The back ends against each other: libraries, programs instrumented with them, and analyses.
fn back_ends(t: &mut Tape, c: &mut Case) {
    match t.weighted(&[500, 200, 250, 50]) {
        0 => analysis(t, c),
        1 => {
            stack(t, c);
            c.backends = if t.chance(300) { vec![2, 0, 1] } else { vec![0, 1] };
            c.kind = if c.backends.len() == 3 { "library, all back ends".into() } else { "library, without Rust".into() };
        }
        2 => {
            let style = Style::draw(t);
            let (b, n) = program(t, style);
            c.module = hex(&b);
            c.conf = conf(t, n, false);
            if !c.conf.groups.contains(&0) && t.chance(900) {
                c.conf.groups.push(0);
            }
            c.conf.off.retain(|h| *h != H::GenericApply);
            let on = chosen(&c.conf.groups, &c.conf.off);
            c.script = Script::draw(t, &Knobs { subs: 300, hook_traps: 100, applies: 700, host_faults: 350 }, &on);
            c.lib = if t.chance(40) { 2 } else { 1 };
            c.kind = format!("program, library in {}", crate::backend::NAME[c.lib as usize]);
        }
        _ => {
            c.kind = "interface".into();
            c.conf.groups = (0..hooks::GROUPS.len()).filter(|_| t.chance(300)).collect();
        }
    }
}

#[cfg(not(feature = "backends"))]
fn analysis(_: &mut Tape, _: &mut Case) {}

#[cfg(feature = "backends")]
fn analysis(t: &mut Tape, c: &mut Case) {
    use crate::glue;
    stack(t, c);
    c.stack.clear();
    c.stack_refuse.clear();
    c.lib = t.weighted(&[600, 400, 8]) as u8;
    c.kind = format!("analysis, library in {}", crate::backend::NAME[c.lib as usize]);
    let n = 1 + t.below(6);
    for _ in 0..n {
        let kind = if t.chance(250) { 0 } else { t.below(glue::KINDS as u32) as u8 };
        if c.advices.iter().any(|a| a.kind == kind) {
            continue;
        }
        let mut a = Advice { kind, means: t.below(3) as u8, ..Default::default() };
        const FORMALS: [&str; 21] = ["func", "args", "results", "f", "a", "r", "cond", "label", "target", "dflt", "table", "index", "x", "Y", "fooBar", "values", "k", "Condition", "WasmFunctions", "condition", "length"];
        while a.names.len() < glue::formals(kind) {
            // the next one that is free: an exhausted tape must not draw for ever
            let k = t.below(FORMALS.len() as u32) as usize;
            let x = (k..k + FORMALS.len()).map(|k| FORMALS[k % FORMALS.len()]).find(|x| !a.names.iter().any(|n| n == x));
            a.names.push(x.expect("a free name").into());
        }
        let side = |t: &mut Tape| t.below(2) as u8;
        for _ in 0..t.below(7) {
            let apply = kind == 0;
            let f = glue::n_fields(kind) as u32;
            a.acts.push(match t.weighted(&[3, 4, 3, if apply { 5 } else { 0 }, if apply { 4 } else { 0 }, if apply { 6 } else { 0 }, if apply { 1 } else { 0 }]) {
                0 => Act::Count,
                1 => Act::Report(t.below(f.max(1)) as u8),
                2 => {
                    let field = if glue::answers(kind) && t.chance(500) { Some(t.below(f.max(1)) as u8) } else { None };
                    Act::Return(t.below(12) as u8, prog::i32_value(t) as i32, field)
                }
                3 => Act::Walk(side(t), t.chance(500)),
                4 => {
                    let ty = t.pick(&prog::NUM);
                    Act::Set(side(t), t.below(6), prog::value(t, ty), t.chance(400))
                }
                5 => Act::Call,
                _ => Act::Outside(1 + t.below(4) as u8, side(t), t.below(6) as u8, t.below(3) as u8),
            });
        }
        c.advices.push(a);
    }
    let n = 2 + t.below(14);
    c.drive = (0..n).map(|_| drive(t, c.advices.len() as u32, 0, c.advices.iter().any(|a| a.kind == 0))).collect();
}

#[cfg(feature = "backends")]
fn drive(t: &mut Tape, advices: u32, depth: u32, apply: bool) -> Drive {
    let bits = |t: &mut Tape| {
        let ty = t.pick(&prog::NUM);
        prog::value(t, ty)
    };
    if !apply || t.chance(500) {
        let n = t.below(6);
        return Drive::Notify(t.below(advices) as u8, (0..n).map(|_| if t.chance(400) { t.below(2).into() } else { bits(t) }).collect());
    }
    let n_args = t.below(8);
    let args = (0..n_args).map(|_| bits(t)).collect();
    let mut bases = vec![];
    for _ in 0..t.below(3) {
        let n_res = t.below(4);
        let n_inner = if depth < 3 { t.below(3) } else { 0 };
        bases.push(Base {
            results: (0..n_res).map(|_| bits(t)).collect(),
            inner: (0..n_inner).map(|_| drive(t, advices, depth + 1, apply)).collect(),
            catch: t.chance(500),
            trap: t.chance(100),
        });
    }
    Drive::Apply { sig: t.below(4), f: prog::i32_value(t), idx: prog::i32_value(t), args, bases }
}

/// The module, with one more name for a function.
fn also_exported(b: &[u8], name: &str, f: u32) -> Option<Vec<u8>> {
    let leb = |b: &[u8]| {
        let (mut v, mut k) = (0usize, 0);
        loop {
            let x = *b.get(k)?;
            v |= usize::from(x & 0x7f) << (7 * k);
            k += 1;
            if x & 0x80 == 0 {
                return Some((v, k));
            }
        }
    };
    let to_leb = |mut v: usize, out: &mut Vec<u8>| loop {
        let x = (v & 0x7f) as u8;
        v >>= 7;
        out.push(if v == 0 { x } else { x | 0x80 });
        if v == 0 {
            break;
        }
    };
    let mut out = b.get(..8)?.to_vec();
    let mut at = 8;
    let mut done = false;
    while at < b.len() {
        let id = b[at];
        let (n, k) = leb(&b[at + 1..])?;
        let body = b.get(at + 1 + k..at + 1 + k + n)?;
        out.push(id);
        if id == 7 {
            let (count, k) = leb(body)?;
            let mut new = vec![];
            to_leb(count + 1, &mut new);
            new.extend_from_slice(&body[k..]);
            to_leb(name.len(), &mut new);
            new.extend_from_slice(name.as_bytes());
            new.push(0);
            to_leb(f as usize, &mut new);
            to_leb(new.len(), &mut out);
            out.extend_from_slice(&new);
            done = true;
        } else {
            to_leb(n, &mut out);
            out.extend_from_slice(body);
        }
        at += 1 + k + n;
    }
    done.then_some(out)
}
