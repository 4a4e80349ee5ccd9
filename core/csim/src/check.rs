//! Runs one case and judges it.

use crate::case::*;
use crate::hooks::{self, H};
use crate::pipe::{self, Req, Res, Result3};
use crate::run::{self, Held, Reference};
use crate::wasm::{self, *};
use crate::world::{Ev, Parts, World, K};
use simos::End;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub fn run_case(c: &Case, want_log: bool) -> RunResult {
    let mut r = match c.prop.as_str() {
        "C10" | "C11" | "C13" => behaves(c),
        "C12" => selective(c),
        "C14" if !c.module.is_empty() => leaks(c),
        "C14" => crate::stack::run(c),
        "C15" => failing(c),
        "C16" => same(c),
        "C17" => immutable(c),
        "C20" => crate::shipped::run(c),
        #[cfg(feature = "backends")]
        "C18" => match c.kind.as_str() {
            k if k.starts_with("library") => crate::stack::run(c),
            k if k.starts_with("program") => behaves(c),
            k if k.starts_with("analysis") => crate::glue::run(c),
            _ => interfaces(c),
        },
        #[cfg(feature = "cli")]
        "C19" => crate::cli::run(c),
        p => RunResult { harness_error: Some(format!("no property {p}")), ..Default::default() },
    };
    if !want_log {
        r.log.clear();
    }
    if r.outcome.is_empty() {
        r.outcome = if r.violations.is_empty() { "held".into() } else { "violated".into() };
    }
    r
}

fn req(c: &Case, conf: &Conf) -> Req {
    Req { input: unhex(&c.module), groups: conf.groups.clone(), off: conf.off.clone(), targets: conf.targets.clone(), primary: conf.primary, backend: c.lib, ..Default::default() }
}

fn program(c: &Case) -> Result<Rc<Module>, String> {
    let b = unhex(&c.module);
    wasm::validate(&b)?;
    Module::decode(&b).map(Rc::new)
}

pub fn bad_program(e: String) -> RunResult {
    RunResult { harness_error: Some(format!("generated program: {e}")), ..Default::default() }
}

pub fn trace_of(m: &Module, conf: &Conf) -> Trace {
    Trace { on: run::on(&conf.groups, &conf.off), targets: run::targets(m, &conf.targets) }
}

fn ev_kind(k: &K) -> u64 {
    match k {
        K::Started => 1,
        K::Enter => 2,
        K::Nested => 3,
        K::Ret => 4,
        K::Trapped(_) => 5,
        K::Host(_) => 6,
        K::HostTrap => 7,
        K::Hook(h) => 100 + *h as u64,
        K::HookTrap => 8,
        K::Apply => 9,
        K::Applied => 10,
    }
}

/// Takes the numbers of a reference run over into the result.
pub fn note(r: &mut RunResult, x: &Reference) {
    let mut pairs = BTreeSet::new();
    let mut before = 0;
    for Ev(k, a) in &x.log {
        let n = ev_kind(k);
        pairs.insert((before, n));
        before = n;
        r.mix(n);
        a.iter().for_each(|x| r.mix(*x));
    }
    for (a, b) in pairs {
        r.shape = (r.shape ^ (a << 16 | b)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(9);
    }
    r.events += x.log.len() as u64;
    r.steps += x.steps;
    for (k, n) in &x.counts {
        *r.fired.entry((*k).to_string()).or_insert(0) += n;
    }
    for (h, n) in &x.hook_counts {
        *r.hooks.entry(format!("{h:?}")).or_insert(0) += u64::from(*n);
    }
    let traps = x.log.iter().filter(|e| matches!(e.0, K::Trapped(_))).count() as u64;
    r.count("calls_that_trapped", traps);
    r.count("host_calls", x.log.iter().filter(|e| matches!(e.0, K::Host(_))).count() as u64);
    r.count("generic_applications", x.log.iter().filter(|e| matches!(e.0, K::Apply)).count() as u64);
    r.count("applications_of_imports", x.log.iter().filter(|e| matches!(e.0, K::Apply) && e.1.get(1) == Some(&1)).count() as u64);
}

pub fn log_of(r: &mut RunResult, x: &Reference) {
    r.log.extend(x.log.iter().enumerate().map(|(i, e)| format!("{i}: {e}")));
}

/// Instruments, and says what is wrong if that does not work out.
pub fn instrumented(c: &Case, conf: &Conf, seed: u64, r: &mut RunResult) -> Option<(Parts, Vec<u8>)> {
    let (res, ran) = run::instrument(&req(c, conf), seed);
    r.mix(ran.hash);
    r.sim_ns += ran.clock;
    r.steps += ran.steps;
    r.unsupported.extend(ran.unsupported);
    let taken = c.kind == "a name that is taken";
    let out = match res {
        Res::Ok(o) => o,
        Res::Err { stage, .. } if taken && stage != "merge" => {
            r.count("refused_for_a_name", 1);
            return None;
        }
        Res::Err { stage, text } => {
            r.violate(&c.prop, "refused", format!("a valid program is not instrumented: {stage}: {text}"));
            return None;
        }
        Res::Panic(e) => {
            r.violate(&c.prop, "panic", format!("instrumenting a valid program panics: {e}"));
            return None;
        }
        Res::None => {
            r.violate(&c.prop, "endless", format!("instrumenting does not end: {:?}", ran.end));
            return None;
        }
    };
    match run::parts(&out) {
        Ok((p, mods)) => {
            let f = p.target.exports.iter().find(|e| e.0 == "call_base" && matches!(e.1, wasm::Kind::Func));
            let typed = f.is_some_and(|e| p.target.fty(e.2).params == [wasm::Ty::I32; 2] && p.target.fty(e.2).results.is_empty());
            if run::on(&conf.groups, &conf.off)[H::GenericApply as usize] && !typed {
                r.violate(&c.prop, "broken", "the analysis is not given `call_base`".to_string());
            }
            let t = mods.into_iter().find(|m| m.0 == "instrumented_input").expect("target").1;
            Some((p, t))
        }
        Err(e) => {
            let class = if taken && e.contains("duplicate export") { "call-base-taken" } else { "broken" };
            r.violate(&c.prop, class, e);
            None
        }
    }
}

fn judge_held(c: &Case, h: Held, r: &mut RunResult) {
    match h {
        Held::Same => (),
        Held::Differs(d) => r.violate(&c.prop, "differs", d),
        Held::Runaway(d) => r.violate(&c.prop, "runaway", format!("the instrumented program does not come to an end: {d}")),
    }
}

// ---------------------------------------------------------------- C10, C11, C13

fn behaves(c: &Case) -> RunResult {
    let mut r = RunResult::default();
    let orig = match program(c) {
        Ok(m) => m,
        Err(e) => return bad_program(e),
    };
    let traced = c.prop != "C10";
    let trace = traced.then(|| trace_of(&orig, &c.conf));
    let x = run::reference(&orig, &c.script, trace);
    if let Some(e) = x.error {
        return bad_program(e);
    }
    note(&mut r, &x);
    log_of(&mut r, &x);
    if x.limit {
        r.outcome = "the original does not end in time".into();
        return r;
    }
    let hooks: u32 = x.hook_counts.values().sum();
    r.nontrivial = if traced { hooks >= 3 } else { x.log.len() >= 4 && x.steps >= 20 };
    let Some((parts, _)) = instrumented(c, &c.conf, c.seed, &mut r) else { return r };
    let h = run::instrumented(&orig, &c.script, &parts, &x, traced);
    judge_held(c, h, &mut r);
    r
}

// ---------------------------------------------------------------- C12

#[derive(Default)]
struct Map {
    to: HashMap<(u8, u32), u32>,
    from: HashMap<(u8, u32), u32>,
}

impl Map {
    /// Is it possible that this index is now that one?
    fn same(&mut self, space: u8, a: u32, b: u32) -> bool {
        *self.to.entry((space, a)).or_insert(b) == b && *self.from.entry((space, b)).or_insert(a) == a
    }
}

fn same_op(m: &mut Map, o: &Module, n: &Module, a: &Op, b: &Op) -> bool {
    use Op::*;
    match (a, b) {
        (Call(x), Call(y)) | (RefFunc(x), RefFunc(y)) => m.same(0, *x, *y),
        (CallIndirect(t, x), CallIndirect(u, y)) => o.types[*t as usize] == n.types[*u as usize] && m.same(1, *x, *y),
        (GlobalGet(x), GlobalGet(y)) | (GlobalSet(x), GlobalSet(y)) => m.same(2, *x, *y),
        (TableGet(x), TableGet(y)) | (TableSet(x), TableSet(y)) | (TableSize(x), TableSize(y)) | (TableGrow(x), TableGrow(y)) | (TableFill(x), TableFill(y)) => m.same(1, *x, *y),
        (TableCopy(x, s), TableCopy(y, t)) => m.same(1, *x, *y) && m.same(1, *s, *t),
        (TableInit(x, s), TableInit(y, t)) => {
            // one is the table and the other the segment
            m.same(3, *x, *y) && m.same(4, *s, *t)
        }
        (ElemDrop(x), ElemDrop(y)) => m.same(5, *x, *y),
        (MemoryInit(x), MemoryInit(y)) | (DataDrop(x), DataDrop(y)) => m.same(6, *x, *y),
        (BrTable(x, d), BrTable(y, e)) => x == y && d == e,
        (a, b) => format!("{a:?}") == format!("{b:?}"),
    }
}

fn same_code(m: &mut Map, o: &Module, n: &Module, a: &Code, b: &Code) -> bool {
    a.locals == b.locals && a.ops.len() == b.ops.len() && a.ops.iter().zip(&b.ops).all(|(x, y)| same_op(m, o, n, x, y))
}

/// Every function outside the target set still has its code.
fn untouched(o: &Module, n: &Module, targets: &[bool]) -> Result<u64, String> {
    let mut checked = 0;
    for f in 0..o.funcs.len() as u32 {
        let Some(code) = o.code(f) else { continue };
        if targets[f as usize] {
            continue;
        }
        checked += 1;
        let fits = |g: u32| n.code(g).is_some_and(|d| *n.fty(g) == *o.fty(f) && same_code(&mut Map::default(), o, n, code, d));
        let exported: Vec<u32> = o
            .exports
            .iter()
            .filter(|e| e.1 == Kind::Func && e.2 == f)
            .filter_map(|e| n.exports.iter().find(|x| x.0 == e.0 && x.1 == Kind::Func))
            .map(|e| e.2)
            .collect();
        let ok = if exported.is_empty() { (0..n.funcs.len() as u32).any(fits) } else { exported.iter().all(|g| fits(*g)) };
        if !ok {
            return Err(format!("the code of function {f}, which is no target, is not what it was"));
        }
    }
    Ok(checked)
}

/// What the analysis with these hooks sees and the host sees, out of a longer list.
fn only(log: &[Ev], on: &[bool; hooks::N_HOOKS]) -> Vec<Ev> {
    log.iter()
        .filter(|e| match e.0 {
            K::Hook(h) => on[h as usize],
            K::Apply | K::Applied => on[H::GenericApply as usize],
            _ => true,
        })
        .cloned()
        .collect()
}

fn selective(c: &Case) -> RunResult {
    let mut r = RunResult::default();
    let orig = match program(c) {
        Ok(m) => m,
        Err(e) => return bad_program(e),
    };
    let x = run::reference(&orig, &c.script, Some(trace_of(&orig, &c.conf)));
    if let Some(e) = x.error {
        return bad_program(e);
    }
    note(&mut r, &x);
    log_of(&mut r, &x);
    if x.limit {
        r.outcome = "the original does not end in time".into();
        return r;
    }
    let targets = run::targets(&orig, &c.conf.targets);
    let Some((parts, _)) = instrumented(c, &c.conf, c.seed, &mut r) else { return r };
    match untouched(&orig, &parts.target, &targets) {
        Ok(n) => {
            r.count("functions_found_unchanged", n);
            r.nontrivial = x.log.len() >= 4 && (n > 0 || !c.more.is_empty());
        }
        Err(e) => r.violate(&c.prop, "touched", e),
    }
    let none = run::on(&c.conf.groups, &c.conf.off).iter().all(|b| !b);
    if none {
        r.nontrivial = x.log.len() >= 4;
        let foreign = parts.target.imports.iter().filter(|i| i.0 == "WASTRUMENTATION_ANALYSIS" || i.0 == "wastrumentation_stack").count();
        if foreign > 0 || parts.stack.is_some() {
            r.violate(&c.prop, "touched", format!("no hook is selected, yet {foreign} imports of the analysis and its library appear"));
        }
    }
    if !r.violations.is_empty() {
        return r;
    }
    // functions which are no targets notify nothing, the others as ever
    let h = run::instrumented(&orig, &c.script, &parts, &x, true);
    judge_held(c, h, &mut r);
    // more hooks do not change what these report
    for more in &c.more {
        if !r.violations.is_empty() {
            break;
        }
        let Some((parts, _)) = instrumented(c, more, c.seed ^ 1, &mut r) else { break };
        let mut m = Machine::new(x.steps * 300 + 400_000, x.deepest * 10 + 80);
        let mut w = match World::new(&mut m, &orig, &c.script, None, Some(&parts)) {
            Ok(w) => w,
            Err(e) => {
                r.violate(&c.prop, "differs", e);
                break;
            }
        };
        w.max_events = 2_000_000;
        let done = w.drive(&mut m);
        if let Some(d) = &w.diverged {
            r.violate(&c.prop, "differs", format!("with more hooks: {d}"));
            break;
        }
        if !done {
            r.violate(&c.prop, "runaway", "with more hooks the program does not come to an end".to_string());
            break;
        }
        let on = run::on(&c.conf.groups, &c.conf.off);
        let (a, b) = (only(&x.log, &on), only(&w.log, &on));
        r.count("events_with_more_hooks", w.log.len() as u64);
        if a != b {
            let k = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
            let s = |v: &[Ev]| v.get(k).map_or("nothing more".to_string(), ToString::to_string);
            r.violate(&c.prop, "interferes", format!("with more hooks selected, event {k} of the ones selected before is {} instead of {}", s(&b), s(&a)));
        }
    }
    r
}

// ---------------------------------------------------------------- C14, by way of instrumented programs

/// After balanced use nothing is left allocated: entering the program over and over does not push its frames
/// further and further up.
fn leaks(c: &Case) -> RunResult {
    const ROUNDS: usize = 48;
    let mut r = RunResult::default();
    let orig = match program(c) {
        Ok(m) => m,
        Err(e) => return bad_program(e),
    };
    let Some((parts, _)) = instrumented(c, &c.conf, c.seed, &mut r) else { return r };
    let mut m = Machine::new(1_500_000, run::REF_DEPTH * 10 + 60);
    let mut w = match World::new(&mut m, &orig, &c.script, None, Some(&parts)) {
        Ok(w) => w,
        Err(e) => {
            r.violate("C14", "differs", e);
            return r;
        }
    };
    let v = w.rounds(&mut m, ROUNDS);
    if let Some(d) = &w.diverged {
        r.violate("C14", "differs", d.clone());
        return r;
    }
    r.steps += m.steps;
    r.events += v.len() as u64;
    r.count("rounds_of_balanced_calls", v.len() as u64);
    r.mix(v.len() as u64);
    v.iter().for_each(|x| r.mix(u64::from(x.0) << 32 | u64::from(x.1)));
    r.nontrivial = v.len() == ROUNDS;
    if v.len() == ROUNDS {
        for (what, at) in [("values", v.iter().map(|x| x.0).collect::<Vec<_>>()), ("types", v.iter().map(|x| x.1).collect())] {
            if at[8..].windows(2).all(|x| x[1] > x[0]) {
                r.violate("C14", "leak", format!("the {what} of the frame of the same call were put at {:?}: frames of calls that returned are not released", &at[..12]));
                return r;
            }
        }
    }
    r
}

// ---------------------------------------------------------------- C15

/// Instrumented modules carry what they should: what is in the pack and that it behaves.
fn complete(c: &Case, input: &[u8], q: &Req, out: &[u8], r: &mut RunResult) -> Result<(), String> {
    let valid = wasm::validate(input).is_ok();
    let Some(mods) = pipe::unpack(out) else { return Err("the result is not what the merge produced".into()) };
    let want = match &q.analysis {
        Result3::Module(v) => v.clone(),
        Result3::Wat(s) => wat::parse_str(s).map_err(|e| format!("an analysis that does not compile was accepted: {e}"))?,
        Result3::Fails(_) => return Err("an analysis that does not compile was accepted".into()),
    };
    if !mods.iter().any(|m| m.1 == want) {
        return Err("the analysis is not in the result".into());
    }
    if !valid {
        return Ok(());
    }
    let (parts, _) = run::parts(out)?;
    let orig = Rc::new(Module::decode(input).map_err(|e| format!("input: {e}"))?);
    let generic = run::on(&q.groups, &q.off)[H::GenericApply as usize];
    if generic && parts.stack.is_none() && parts.target.imports.iter().any(|i| i.0 == "wastrumentation_stack") {
        return Err("the instrumentation library is not in the result".into());
    }
    let conf = Conf { groups: q.groups.clone(), off: q.off.clone(), targets: q.targets.clone(), primary: q.primary };
    let x = run::reference(&orig, &c.script, Some(trace_of(&orig, &conf)));
    if x.error.is_none() && !x.limit {
        r.events += x.log.len() as u64;
        match run::instrumented(&orig, &c.script, &parts, &x, true) {
            Held::Same => r.count("results_that_behave", 1),
            Held::Differs(d) => return Err(format!("the result does not behave: {d}")),
            Held::Runaway(d) => return Err(format!("the result does not end: {d}")),
        }
    }
    Ok(())
}

/// Can this be taken apart into sections, types, instructions at all?
fn well_formed(b: &[u8]) -> bool {
    use wasmparser as wp;
    let f = wp::WasmFeatures::all();
    let mut p = wp::Parser::new(0);
    p.set_features(f);
    let mut header = false;
    for x in p.parse_all(b) {
        let Ok(x) = x else { return false };
        macro_rules! all {
            ($r:expr) => {
                for y in $r {
                    if y.is_err() {
                        return false;
                    }
                }
            };
        }
        match x {
            wp::Payload::Version { encoding, .. } => header = encoding == wp::Encoding::Module,
            wp::Payload::TypeSection(r) => all!(r),
            wp::Payload::ImportSection(r) => all!(r),
            wp::Payload::FunctionSection(r) => all!(r),
            wp::Payload::TableSection(r) => all!(r),
            wp::Payload::MemorySection(r) => all!(r),
            wp::Payload::GlobalSection(r) => all!(r),
            wp::Payload::ExportSection(r) => all!(r),
            wp::Payload::ElementSection(r) => all!(r),
            wp::Payload::DataSection(r) => all!(r),
            wp::Payload::CodeSectionEntry(b) => {
                let Ok(l) = b.get_locals_reader() else { return false };
                all!(l);
                let Ok(o) = b.get_operators_reader() else { return false };
                all!(o);
            }
            _ => (),
        }
    }
    header
}

fn to_req(c: &Case, j: &Job) -> Req {
    let analysis = if let Some(e) = &j.analysis_fails {
        Result3::Fails(e.clone())
    } else if let Some(t) = &j.analysis_text {
        Result3::Wat(t.clone())
    } else if j.analysis_len > 0 {
        let mut v = pipe::marker();
        v.extend((0..j.analysis_len as u32).map(|i| (i.wrapping_mul(2_654_435_761) >> 24) as u8));
        v.truncate(j.analysis_len.max(17));
        Result3::Module(v)
    } else {
        Result3::default()
    };
    let analysis = match (analysis, &j.library_fails) {
        (Result3::Wat(_), Some(_)) => Result3::default(),
        (a, _) => a,
    };
    Req {
        input: unhex(j.input.as_ref().unwrap_or(&c.module)),
        groups: j.conf.groups.clone(),
        off: j.conf.off.clone(),
        targets: j.conf.targets.clone(),
        primary: j.conf.primary,
        analysis,
        fail_lib: j.library_fails.clone(),
        backend: 0,
        faults: wasabi_wasm::fault::Faults { parse: j.parse_fails.clone(), encode: j.encode_fails.clone(), type_check: j.infer_fails.clone() },
    }
}

fn process(c: &Case, reqs: &[Vec<Req>], seed: u64) -> pipe::Ran {
    let cfg = simos::Config {
        seed,
        preempt: c.preempt,
        alloc_stride: c.alloc_stride,
        missing: if c.missing { vec![b"wasm-merge".to_vec()] } else { vec![] },
        tape: c.schedule.as_ref().map(|s| unhex(s)),
        disk_quota: c.disk_quota.unwrap_or(simos::Config::default().disk_quota),
        ..Default::default()
    };
    let faults = c.os_faults.iter().filter_map(OsFault::to_sim).collect();
    let mut fates = HashMap::new();
    for (k, js) in c.jobs.iter().enumerate() {
        for (u, j) in js.iter().enumerate() {
            if let Some(f) = &j.fate {
                fates.insert((k, u), f.to_sim());
            }
        }
    }
    pipe::run(reqs, cfg, faults, fates)
}

#[allow(clippy::too_many_lines)]
fn failing(c: &Case) -> RunResult {
    let mut r = RunResult::default();
    let reqs: Vec<Vec<Req>> = c.jobs.iter().map(|v| v.iter().map(|j| to_req(c, j)).collect()).collect();
    let ran = process(c, &reqs, c.seed);
    r.mix(ran.hash);
    r.schedule = ran.schedule.clone();
    r.sim_ns = ran.clock;
    r.steps = ran.steps;
    r.unsupported.extend(ran.unsupported.clone());
    for f in &ran.fired {
        *r.fired.entry(format!("{:?} {:?}", f.site, f.effect)).or_insert(0) += 1;
    }
    for (k, n) in &ran.probes {
        r.count(k, *n);
    }
    match &ran.end {
        End::Completed => (),
        e => r.violate("C15", "endless", format!("instrumenting does not end: {e:?}")),
    }
    let mut shape = vec![];
    for (k, js) in c.jobs.iter().enumerate() {
        for (u, j) in js.iter().enumerate() {
            let q = &reqs[k][u];
            let who = format!("thread {k}, instrumentation {u}");
            let formed = well_formed(&q.input);
            let valid = wasm::validate(&q.input).is_ok();
            // (stage, must the error surface, its reason)
            let mut may: Vec<(&str, bool, Option<&str>)> = vec![];
            match &q.analysis {
                Result3::Fails(e) => may.push(("compile analysis", true, Some(e))),
                Result3::Wat(s) if wat::parse_str(s).is_err() => may.push(("compile analysis", true, None)),
                _ => (),
            }
            if let Some(e) = &q.faults.parse {
                may.push(("parse", true, Some(e)));
            }
            if !formed {
                may.push(("parse", true, None));
            } else if !valid {
                may.extend([("parse", false, None), ("infer", false, None), ("encode", false, None), ("instrument", false, None)]);
            }
            if let Some((n, e)) = &q.faults.type_check {
                if ran.checked[k][u] > *n {
                    may.push(("infer", true, Some(e)));
                }
            }
            if let Some(e) = &q.faults.encode {
                may.push(("encode", true, Some(e)));
            }
            if let Some(e) = &q.fail_lib {
                let generic = run::on(&q.groups, &q.off)[H::GenericApply as usize];
                if generic {
                    // without any target function there may be nothing to compile
                    let some = valid && Module::decode(&q.input).is_ok_and(|m| run::targets(&m, &q.targets).iter().any(|b| *b));
                    may.push(("compile instrumentation", some, Some(e)));
                }
            }
            let tools: Vec<_> = ran.tools.iter().filter(|t| t.0 == k && t.1 == u).collect();
            let died = tools.iter().any(|t| t.4.is_some_and(|s| s != 0)) || (!tools.is_empty() && j.fate.as_ref().is_some_and(Fate::fails));
            if c.missing || died {
                may.push(("merge", true, None));
            } else if c.disk_quota.is_some() || ran.fired.iter().any(|f| f.caller == k && f.unit == u) {
                may.push(("merge", false, None));
            }
            let must = may.iter().any(|m| m.1);
            match &ran.res[k][u] {
                Res::None => shape.push("none".to_string()),
                Res::Panic(e) => {
                    shape.push("panic".into());
                    r.violate("C15", "panic", format!("{who}: panics: {e} (expected {may:?})"));
                }
                Res::Ok(out) => {
                    shape.push("ok".into());
                    if must {
                        r.violate("C15", "swallowed", format!("{who}: succeeds although {:?}", may.iter().filter(|m| m.1).collect::<Vec<_>>()));
                    } else if let Err(e) = complete(c, &q.input, q, out, &mut r) {
                        r.violate("C15", "incomplete", format!("{who}: {e}"));
                    }
                    r.mix(out.len() as u64);
                    r.count("successes", 1);
                    if u > 0 {
                        r.count("successes_after_other_instrumentations", 1);
                    }
                }
                Res::Err { stage, text } => {
                    shape.push(format!("err {stage}"));
                    *r.fired.entry(format!("stage fails: {stage}")).or_insert(0) += 1;
                    let mine: Vec<_> = may.iter().filter(|m| m.0 == *stage).collect();
                    if mine.is_empty() {
                        let class = if may.is_empty() { "spurious" } else { "wrong-stage" };
                        r.violate("C15", class, format!("{who}: the error is of stage `{stage}` ({text}), what fails is {may:?}"));
                    } else if mine.iter().all(|m| m.2.is_some_and(|e| !says(text, e))) {
                        r.violate("C15", "reason-lost", format!("{who}: stage `{stage}` says {text:?}, the reason is {:?}", mine[0].2));
                    }
                }
            }
        }
    }
    for s in &shape {
        for b in s.bytes() {
            r.shape = (r.shape ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
    }
    r.shape ^= c.kind.bytes().fold(7u64, |h, b| (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3));
    r.outcome = shape.first().cloned().unwrap_or_default();
    r.nontrivial = c.kind != "plain";
    r.log = shape;
    r.log.extend(ran.fired.iter().map(|f| format!("{f:?}")));
    r.log.push(format!("{:?} after {} steps, {} ns, {:x}", ran.end, ran.steps, ran.clock, ran.hash));
    r
}

pub fn says(text: &str, reason: &str) -> bool {
    let q = format!("{reason:?}");
    text.contains(reason.trim()) || text.contains(&q[1..q.len() - 1])
}

// ---------------------------------------------------------------- C16

fn interface_of(m: &Module) -> BTreeSet<String> {
    let mut s: BTreeSet<String> = m
        .imports
        .iter()
        .map(|(ns, n, e)| match e {
            Ext_::Func(t) => format!("import {ns}.{n} {:?}", m.types[*t as usize]),
            e => format!("import {ns}.{n} {e:?}"),
        })
        .collect();
    s.extend(m.exports.iter().map(|(n, k, i)| match k {
        Kind::Func => format!("export {n} {:?}", m.fty(*i)),
        k => format!("export {n} {k:?}"),
    }));
    s
}

fn same(c: &Case) -> RunResult {
    let mut r = RunResult::default();
    let orig = match program(c) {
        Ok(m) => m,
        Err(e) => return bad_program(e),
    };
    let x = run::reference(&orig, &c.script, Some(trace_of(&orig, &c.conf)));
    if let Some(e) = x.error {
        return bad_program(e);
    }
    note(&mut r, &x);
    log_of(&mut r, &x);
    // other processes with other hash seeds, then one with other threads and a history
    let reqs: Vec<Vec<Req>> = c.jobs.iter().map(|v| v.iter().map(|j| to_req(c, j)).collect()).collect();
    let mut outs: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    let mut faces: Vec<(String, BTreeSet<String>)> = vec![];
    // the one with a history first: what it leaves behind in this process would hide it otherwise
    for process_no in [2u64, 0, 1] {
        let alone = Case { prop: c.prop.clone(), ..Default::default() };
        let one = vec![vec![req(c, &c.conf)]];
        let ran = if process_no < 2 { process(&alone, &one, c.seed ^ ((process_no + 1) << 40)) } else { process(c, &reqs, c.seed) };
        r.mix(ran.hash);
        if process_no == 2 {
            r.schedule = ran.schedule.clone();
        }
        r.sim_ns += ran.clock;
        r.steps += ran.steps;
        r.unsupported.extend(ran.unsupported.clone());
        if ran.end != End::Completed {
            r.violate("C16", "endless", format!("process {process_no}: instrumenting does not end: {:?}", ran.end));
            return r;
        }
        for (k, v) in ran.res.into_iter().enumerate() {
            for (u, res) in v.into_iter().enumerate() {
                if process_no == 2 && (c.jobs[k][u] != Job { conf: c.conf.clone(), ..Default::default() }) {
                    continue;
                }
                let who = format!("process {process_no}, thread {k}, after {u} others");
                let out = match res {
                    Res::Ok(o) => o,
                    e => {
                        r.violate("C16", "fails", format!("{who}: {e:?}"));
                        return r;
                    }
                };
                if outs.contains_key(&out) {
                    r.count("byte_for_byte_the_same", 1);
                    continue;
                }
                match run::parts(&out) {
                    Ok((p, _)) => {
                        let mut f = interface_of(&p.target);
                        f.extend(p.stack.iter().flat_map(|s| interface_of(s)).map(|s| format!("library: {s}")));
                        faces.push((who.clone(), f));
                        if !x.limit {
                            match run::instrumented(&orig, &c.script, &p, &x, true) {
                                Held::Same => (),
                                Held::Differs(d) => r.violate("C16", "differs", format!("{who}: {d}")),
                                Held::Runaway(d) => r.violate("C16", "runaway", format!("{who}: {d}")),
                            }
                        }
                    }
                    Err(e) => r.violate("C16", "broken", format!("{who}: {e}")),
                }
                if !r.violations.is_empty() {
                    return r;
                }
                outs.insert(out, who);
            }
        }
    }
    for f in &faces {
        if f.1 != faces[0].1 {
            let d: Vec<_> = f.1.symmetric_difference(&faces[0].1).take(4).collect();
            r.violate("C16", "interface", format!("{} and {} import and export different things: {d:?}", faces[0].0, f.0));
            break;
        }
    }
    r.count("distinct_results_for_one_request", outs.len() as u64);
    r.shape ^= outs.len() as u64;
    r.nontrivial = outs.len() > 1 && x.log.len() >= 4;
    r.outcome = if x.limit { "the original does not end in time".into() } else { String::new() };
    r
}

// ---------------------------------------------------------------- C17

fn immutable(c: &Case) -> RunResult {
    let mut r = RunResult::default();
    let orig = match program(c) {
        Ok(m) => m,
        Err(e) => return bad_program(e),
    };
    let mut sets = vec![];
    for k in 0..2u64 {
        let b = unhex(&c.module);
        let x = crate::stack::simulated(c.seed ^ (k << 33), move || {
            let mut v: Option<Vec<u32>> = wastrumentation_static_analysis::immutable_functions_from_binary(&b).map(|s| s.into_iter().collect());
            if let Some(v) = &mut v {
                v.sort_unstable();
            }
            v
        });
        match x {
            Ok(Some(v)) => sets.push(v),
            Ok(None) => {
                r.violate("C17", "refused", "a valid module is not analysed");
                return r;
            }
            Err(e) => {
                r.violate("C17", "panic", format!("analysing a valid module panics: {e}"));
                return r;
            }
        }
    }
    if sets[0] != sets[1] {
        r.violate("C17", "unstable", format!("{:?} under one hash seed, {:?} under another", sets[0], sets[1]));
        return r;
    }
    let set = &sets[0];
    r.count("functions_reported", set.len() as u64);
    r.count("functions_not_reported", (orig.funcs.len() - set.len()) as u64);
    if let Some(f) = set.iter().find(|f| **f as usize >= orig.funcs.len() || orig.code(**f).is_none()) {
        r.violate("C17", "import", format!("function {f}, which is imported or does not exist, is reported"));
        return r;
    }
    let mut m = Machine::new(run::REF_STEPS, run::REF_DEPTH);
    let mut w = match World::new(&mut m, &orig, &c.script, None, None) {
        Ok(w) => w,
        Err(e) => return bad_program(e),
    };
    let args: Vec<u64> = c.script.calls.iter().flat_map(|c| c.args.iter().copied()).collect();
    w.watch(&mut m, set, &args);
    let done = w.drive(&mut m);
    let watch = w.watch.take().unwrap_or_default();
    let log = std::mem::take(&mut w.log);
    let x = Reference { log, steps: m.steps, deepest: m.deepest, counts: w.counts.clone(), hook_counts: BTreeMap::new(), error: None, limit: !done };
    note(&mut r, &x);
    log_of(&mut r, &x);
    r.count("calls_compared", watch.calls);
    r.count("calls_that_did_not_end", watch.unfinished);
    r.nontrivial = watch.calls >= 4 && orig.funcs.len() > set.len();
    r.shape ^= set.iter().fold(orig.funcs.len() as u64, |h, f| h.wrapping_mul(31) + u64::from(*f));
    r.mix(r.shape);
    if let Some((class, msg)) = watch.bad {
        r.violate("C17", class, format!("reported as immutable: {msg}"));
    } else if let Some(l) = m.leak {
        r.violate("C17", "leak", format!("while a function reported as immutable runs, it or something it calls {l}"));
    }
    r
}

// ---------------------------------------------------------------- C18

/// The back ends ask for the same of the instrumenter when the same hooks are chosen.
#[cfg(feature = "backends")]
fn interfaces(c: &Case) -> RunResult {
    use wastrumentation_lang_rust::generate::analysis as rust;
    let mut r = RunResult::default();
    let groups = c.conf.groups.clone();
    let x = crate::stack::simulated(c.seed, move || {
        let all = rust::Hook::all_hooks();
        let set: std::collections::HashSet<rust::Hook> =
            groups.iter().filter_map(|g| all.iter().find(|h| format!("{h:?}") == format!("{:?}", hooks::GROUPS[*g])).copied()).collect();
        let spec = rust::RustAnalysisSpec { source: wastrumentation_lang_rust::compile::options::RustSource::Manifest(rust_to_wasm_compiler::WasiSupport::Disabled, "x".into()), hooks: set.clone() };
        let p: wastrumentation::analysis::ProcessedAnalysis<wastrumentation_lang_rust::compile::Rust> = spec.into();
        let want = hooks::interface(&groups, &[]);
        (set.len(), all.len(), p.analysis_interface == want, rust::interface_from(&set) == want)
    });
    match x {
        Ok((n, all, a, b)) => {
            r.events = n as u64;
            r.mix(c.conf.groups.iter().fold(1, |h, g| h | 2 << g));
            r.nontrivial = n > 1;
            r.count("hook_sets_compared", 1);
            if n != c.conf.groups.len() || all != hooks::GROUPS.len() {
                r.violate("C18", "interface", format!("of the hooks {:?} the Rust back end knows {n}", c.conf.groups));
            } else if !a || !b {
                r.violate("C18", "interface", format!("the Rust back end has another interface for the hooks {:?}", c.conf.groups.iter().map(|g| hooks::GROUPS[*g]).collect::<Vec<_>>()));
            }
        }
        Err(e) => r.violate("C18", "panic", format!("the interface of the Rust back end panics: {e}")),
    }
    r
}
