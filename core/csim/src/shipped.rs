//! The analyses that come with the repository, as the real compiler makes them: what they leave alone, and what
//! they report against what the tracer saw.

use crate::case::*;
use crate::check::{bad_program, log_of, note, trace_of};
use crate::hooks::H;
use crate::prog::{Style, Tape};
use crate::run::{Reference, REF_DEPTH, REF_STEPS};
use crate::wasm::{self, *};
use crate::world::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

/// Everything but the generic application.
const ALL: [usize; 27] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27];

/// name, the groups of hooks it has advice for
pub const SHIPPED: [(&str, &[usize]); 17] = [
    ("forward", &ALL),
    ("opcodes", &ALL),
    ("icount", &ALL),
    ("coverage-instruction", &ALL),
    ("coverage-branch", &[5, 7, 10, 11, 12]),
    ("branches", &[5, 7, 10, 11]),
    ("block-profiling", &[1, 3, 5, 7, 24, 26]),
    ("call-graph", &[1]),
    ("call-stack-wastrumentation", &[0, 1, 2, 3, 4]),
    ("call-stack-eq-wasabi", &[1, 2, 3, 4]),
    ("loops", &[26]),
    ("globals", &[19]),
    ("cryptominer-detection", &[14]),
    ("memory-tracing", &[20, 21]),
    ("memstats", &[20, 21]),
    ("denan", &[0, 13, 14, 17, 18, 19, 20, 21]),
    ("safe-heap", &[20, 21]),
];

pub fn draw(t: &mut Tape, c: &mut Case) {
    let style = Style::draw(t);
    let (b, n) = crate::draw::program(t, style);
    c.module = hex(&b);
    let (name, groups) = SHIPPED[t.weighted(&[6, 3, 3, 4, 3, 2, 4, 3, 4, 2, 2, 3, 2, 4, 3, 4, 3])];
    c.kind = name.into();
    c.conf.groups = if t.chance(750) { groups.to_vec() } else { groups.iter().copied().filter(|_| t.chance(600)).collect() };
    if t.chance(200) && n > 0 {
        c.conf.targets = Some((0..n).filter(|_| t.chance(600)).collect());
    }
    c.script = Script::draw(t, &Knobs { subs: 0, hook_traps: 0, applies: 0, host_faults: 500 }, &[]);
}

enum Built {
    Module(Rc<Module>),
    /// what the compiler said
    Refused(String),
}

fn load(name: &str) -> Result<Rc<Built>, String> {
    thread_local! {
        static ALL: RefCell<HashMap<String, Rc<Built>>> = RefCell::default();
    }
    if let Some(b) = ALL.with(|m| m.borrow().get(name).cloned()) {
        return Ok(b);
    }
    let dir = crate::verif().join("core/target/analyses");
    let b = match std::fs::read(dir.join(format!("{name}.wasm"))) {
        Ok(b) => {
            wasm::validate(&b).map_err(|e| format!("the analysis {name} is not valid: {e}"))?;
            Built::Module(Rc::new(Module::decode(&b).map_err(|e| format!("the analysis {name}: {e}"))?))
        }
        Err(e) => Built::Refused(std::fs::read_to_string(dir.join(format!("{name}.failed"))).map_err(|_| format!("the analysis {name} is missing: {e}"))?),
    };
    let b = Rc::new(b);
    ALL.with(|m| m.borrow_mut().insert(name.to_string(), b.clone()));
    Ok(b)
}

/// Before the cases are run in processes of their own.
pub fn preload() {
    for (n, _) in SHIPPED {
        let _ = load(n);
    }
}

type Notes = [(H, bool, Vec<V>)];

fn at(args: &[V]) -> (u64, u64) {
    let n = args.len();
    (args[n - 2].i64(), args[n - 1].i64())
}

/// Number of the kind of instruction, as `opcodes` and `icount` list them.
fn kind(h: H) -> u32 {
    use H::*;
    match h {
        IfThenElse => 0,
        IfThenElsePost => 1,
        IfThen => 2,
        IfThenPost => 3,
        Br => 4,
        BrIf => 5,
        BrTable => 6,
        Select => 7,
        CallPre => 8,
        CallPost => 9,
        CallIndirectPre => 10,
        CallIndirectPost => 11,
        Drop => 14,
        Return => 15,
        MemorySize => 21,
        MemoryGrow => 22,
        BlockPre => 23,
        BlockPost => 24,
        LoopPre => 25,
        LoopPost => 26,
        GenericApply => 99,
        h => {
            let n = format!("{h:?}");
            [("Un", 12), ("Bi", 13), ("Const", 16), ("Local", 17), ("Global", 18), ("Load", 19), ("Store", 20)].into_iter().find(|x| n.starts_with(x.0)).map_or(99, |x| x.1)
        }
    }
}

fn width(h: H, a: &[V]) -> Option<usize> {
    let n = format!("{h:?}");
    if n.starts_with("Load") {
        crate::ops::Ld::from_id(a[2].i32() as i32).map(crate::ops::Ld::width)
    } else {
        crate::ops::St::from_id(a[3].i32() as i32).map(crate::ops::St::width)
    }
}

/// What an access is to: the address, and whether it writes.
fn access(h: H, a: &[V]) -> Option<(i64, bool)> {
    match kind(h) {
        19 => Some((i64::from(a[0].i32() as i32) + a[1].i64() as i64, false)),
        20 => Some((i64::from(a[0].i32() as i32) + a[2].i64() as i64, true)),
        _ => None,
    }
}

/// A question to the analysis and the answer it should give.
struct Ask {
    what: &'static str,
    args: Vec<V>,
    want: u64,
}

fn i32s(x: i64) -> V {
    V::I32(x as i32 as u32)
}

/// Where notifications came from, and places next to them.
fn places(notes: &Notes) -> BTreeSet<(u64, u64)> {
    let mut s = BTreeSet::new();
    for (h, end, a) in notes {
        if !*end && *h != H::GenericApply {
            let (f, i) = at(a);
            s.extend([(f, i), (f, i + 1), (f + 1, i), (f, i.wrapping_sub(1))]);
        }
    }
    s
}

#[allow(clippy::too_many_lines)]
fn asks(name: &str, notes: &Notes) -> Option<Vec<Ask>> {
    let mut v: Vec<Ask> = vec![];
    let mut ask = |what: &'static str, args: &[V], want: i64, wide: bool| {
        v.push(Ask { what, args: args.to_vec(), want: if wide { want as u64 } else { u64::from(want as i32 as u32) } });
    };
    let told: Vec<(H, &[V])> = notes.iter().filter(|n| !n.1).map(|n| (n.0, &n.2[..])).collect();
    let place = |f: u64, i: u64| [V::I64(f), V::I64(i)];
    match name {
        "opcodes" => {
            ask("total_instrs", &[], 27, false);
            for k in 0..27 {
                let n = told.iter().filter(|t| kind(t.0) == k).count();
                ask("get_count_instr", &[V::I32(k)], n as i64, false);
            }
        }
        "icount" => {
            let mut m: BTreeMap<u64, [i64; 27]> = BTreeMap::new();
            for (h, a) in &told {
                m.entry(at(a).0).or_default()[kind(*h) as usize] += 1;
            }
            ask("total_instrs", &[], 27, false);
            ask("total_counted_fs", &[], m.len() as i64, false);
            for (f, n) in &m {
                for (k, n) in n.iter().enumerate() {
                    ask("get_count_for", &[V::I64(*f), V::I32(k as u32)], *n, false);
                }
                ask("get_count_for", &[V::I64(*f), V::I32(27)], -1, false);
                if !m.contains_key(&(f + 1)) {
                    ask("get_count_for", &[V::I64(f + 1), V::I32(1)], -1, false);
                }
            }
        }
        "coverage-instruction" => {
            let s: BTreeSet<_> = told.iter().map(|t| at(t.1)).collect();
            for (f, i) in places(notes) {
                ask("get_coverage", &place(f, i), s.contains(&(f, i)).into(), false);
            }
        }
        "coverage-branch" | "branches" => {
            let mut m = BTreeMap::new();
            for (h, a) in &told {
                // the label a br_table goes to, the condition otherwise
                m.insert(at(a), if *h == H::BrTable { a[1].i32() } else { a[0].i32() } as i32);
            }
            for (f, i) in places(notes) {
                ask("get_coverage", &place(f, i), m.get(&(f, i)).copied().unwrap_or(-1).into(), false);
            }
        }
        "block-profiling" => {
            let mut m: BTreeMap<(u64, u64, i32), i64> = BTreeMap::new();
            for (h, a) in &told {
                let target = if matches!(h, H::CallPre | H::BlockPre | H::LoopPre) { 0 } else { a[0].i32() as i32 };
                let (f, i) = at(a);
                *m.entry((f, i, target)).or_insert(0) += 1;
            }
            for (f, i) in places(notes) {
                let mut ts: BTreeSet<i32> = m.keys().filter(|k| (k.0, k.1) == (f, i)).map(|k| k.2).collect();
                ts.extend([0, 1, -3]);
                for t in ts {
                    ask("get_count", &[V::I64(f), V::I64(i), i32s(t.into())], m.get(&(f, i, t)).copied().unwrap_or(0), true);
                }
            }
        }
        "call-stack-wastrumentation" | "call-stack-eq-wasabi" => {
            let (mut calls, mut depth, mut most) = (0, 0, 0);
            let (mut applies, mut inside, mut deepest) = (0, 0, 0);
            for (h, end, _) in notes {
                match (h, end) {
                    (H::CallPre | H::CallIndirectPre, false) => {
                        calls += 1;
                        depth += 1;
                        most = most.max(depth);
                    }
                    (H::CallPost | H::CallIndirectPost, false) => depth -= 1,
                    (H::GenericApply, false) => {
                        applies += 1;
                        inside += 1;
                        deepest = deepest.max(inside);
                    }
                    (H::GenericApply, true) => inside -= 1,
                    _ => (),
                }
            }
            ask("get_number_of_calls", &[], calls, false);
            ask("get_max_call_depth", &[], most, false);
            if name == "call-stack-wastrumentation" {
                ask("get_number_of_applies", &[], applies, false);
                ask("get_max_apply_depth", &[], deepest, false);
            } else {
                ask("get_call_stack", &[], depth, false);
            }
        }
        "loops" => {
            let mut m: BTreeMap<(u64, u64), i64> = BTreeMap::new();
            for (_, a) in &told {
                *m.entry(at(a)).or_insert(0) += 1;
            }
            ask("total_counted_loops", &[], m.len() as i64, false);
            for (f, i) in places(notes) {
                ask("get_count_for", &place(f, i), m.get(&(f, i)).copied().unwrap_or(-1), false);
            }
        }
        "globals" => {
            let mut m: BTreeMap<u64, [i64; 2]> = BTreeMap::new();
            for (h, a) in &told {
                m.entry(a[1].i64()).or_default()[usize::from(format!("{h:?}").starts_with("GlobalSet"))] += 1;
            }
            let top = m.keys().last().copied().unwrap_or(0) + 2;
            for g in (0..top.min(40)).chain(m.keys().copied()) {
                for k in 0..2 {
                    ask("get_inc", &[V::I64(g), V::I32(k)], m.get(&g).map_or(-2, |n| n[k as usize]), false);
                }
                ask("get_inc", &[V::I64(g), V::I32(7)], if m.contains_key(&g) { -1 } else { -2 }, false);
            }
        }
        "cryptominer-detection" => {
            let sets: [&[u32]; 5] = [&[33, 48, 63, 70], &[40, 55], &[43, 58], &[45, 60], &[42, 57]];
            for (k, s) in sets.iter().enumerate() {
                let n = told.iter().filter(|t| s.contains(&t.1[2].i32())).count();
                ask("get_signature", &[V::I32(k as u32)], n as i64, true);
            }
        }
        "memory-tracing" => {
            // what did not happen is not traced
            let done: Vec<_> = notes.iter().filter(|n| n.1).filter_map(|n| access(n.0, &n.2).map(|x| (x, at(&n.2)))).collect();
            ask("total_accesses", &[], done.len() as i64, true);
            ask("get_total_accesses_from_buffer", &[], done.len() as i64, false);
            for (k, ((p, w), (f, i))) in done.into_iter().enumerate() {
                let k = [V::I32(k as u32)];
                ask("get_nth_address", &k, p, true);
                ask("get_nth_operation", &k, w.into(), false);
                ask("get_nth_funct_index", &k, f as i64, true);
                ask("get_nth_instr_index", &k, i as i64, true);
            }
        }
        "memstats" => {
            let mut m: BTreeMap<(bool, i64), i64> = BTreeMap::new();
            for (h, a) in &told {
                let (p, w) = access(*h, a)?;
                let n = width(*h, a)? as i64;
                // with a table as large as the address it would count in, there is no telling
                if p < 0 || p + n > (MAX_PAGES * PAGE) as i64 / 4 {
                    return None;
                }
                for k in p..p + n {
                    *m.entry((w, k)).or_insert(0) += 1;
                }
            }
            for ((w, p), n) in &m {
                ask(if *w { "get_write_at" } else { "get_read_at" }, &[i32s(*p)], *n, false);
            }
        }
        _ => (),
    }
    Some(v)
}

fn edges(m: &mut Machine, w: &mut World, f: &HashMap<String, usize>) -> Result<Vec<(u64, u64)>, String> {
    let get = |n: &str| f.get(n).copied().ok_or(format!("nothing exports {n}"));
    let (total, from, to) = (get("get_total_edges")?, get("get_from_at")?, get("get_to_at")?);
    let one = |m: &mut Machine, w: &mut World, f: usize, a: &[V]| match m.call(w, f, a) {
        Ok(v) if v.len() == 1 => Ok(v[0].bits()),
        x => Err(format!("{x:?}")),
    };
    let n = one(m, w, total, &[])?.min(5000);
    let mut v = vec![];
    for k in 0..n {
        v.push((one(m, w, from, &[V::I32(k as u32)])?, one(m, w, to, &[V::I32(k as u32)])?));
    }
    v.sort_unstable();
    Ok(v)
}

/// Puts the questions. The number of answers that are right, or what is wrong.
fn answers(m: &mut Machine, w: &mut World, exports: &HashMap<String, usize>, name: &str, questions: &[Ask], notes: &Notes) -> Result<u64, (&'static str, String)> {
    let mut agreed = 0;
    for q in questions {
        let Some(f) = exports.get(q.what) else { return Err(("does-not-fit", format!("{name} does not export {}", q.what))) };
        if m.funcs[*f].ty.params != q.args.iter().map(|a| a.ty()).collect::<Vec<_>>() {
            return Err(("does-not-fit", format!("{name}: {} takes {:?}", q.what, m.funcs[*f].ty.params)));
        }
        m.max_steps = m.steps + 2_000_000;
        m.depth = 0;
        match m.call(w, *f, &q.args) {
            Ok(v) if v.len() == 1 && v[0].bits() == q.want => agreed += 1,
            x => {
                let got = match &x {
                    Ok(v) if v.len() == 1 => format!("{:#x}", v[0].bits()),
                    x => format!("{x:?}"),
                };
                return Err(("reports", format!("{name}: {} {:?} gives {got}, what happened gives {:#x}", q.what, q.args, q.want)));
            }
        }
    }
    if name == "call-graph" {
        let want: BTreeSet<(u64, u64)> = notes.iter().filter(|n| !n.1).map(|n| (at(&n.2).0, u64::from(n.2[0].i32()))).collect();
        m.max_steps = m.steps + 20_000_000;
        m.depth = 0;
        match edges(m, w, exports) {
            Ok(v) if v == want.iter().copied().collect::<Vec<_>>() => agreed += v.len() as u64 + 1,
            x => return Err(("reports", format!("{name}: edges {x:?}, what happened gives {want:?}"))),
        }
    }
    Ok(agreed)
}

pub fn run(c: &Case) -> RunResult {
    let mut r = RunResult::default();
    let name = c.kind.as_str();
    let built = match load(name) {
        Ok(b) => b,
        Err(e) => return RunResult { harness_error: Some(e), ..Default::default() },
    };
    let analysis = match &*built {
        Built::Module(m) => m.clone(),
        Built::Refused(e) if e.contains("while expanding `advice!`") || e.contains("no rules expected") => {
            let lines: Vec<_> = e.lines().filter(|l| l.starts_with("error")).collect();
            r.violate("C20", "does-not-compile", format!("the analysis {name} does not compile: {}", lines.join("; ")));
            return r;
        }
        Built::Refused(_) => {
            r.outcome = "the analysis needs what is not here".into();
            return r;
        }
    };
    let orig = match Module::decode(&unhex(&c.module)) {
        Ok(m) => Rc::new(m),
        Err(e) => return bad_program(e),
    };
    // what happens, and what the analysis should be told
    let mut m = Machine::new(REF_STEPS, REF_DEPTH);
    let mut w = match World::new(&mut m, &orig, &c.script, Some(Rc::new(trace_of(&orig, &c.conf))), None) {
        Ok(w) => w,
        Err(e) => return bad_program(e),
    };
    w.notes = Some(vec![]);
    w.denan = name == "denan";
    w.safe_heap = name == "safe-heap";
    let limit = !w.drive(&mut m);
    let notes = w.notes.take().unwrap_or_default();
    let x = Reference { log: std::mem::take(&mut w.log), steps: m.steps, deepest: m.deepest, counts: w.counts.clone(), hook_counts: w.hook_counts.clone(), error: None, limit };
    note(&mut r, &x);
    log_of(&mut r, &x);
    if limit {
        r.outcome = "the original does not end in time".into();
        return r;
    }
    let Some(questions) = asks(name, &notes) else {
        r.outcome = "addresses beyond what can be counted".into();
        return r;
    };
    let Some((mut parts, _)) = crate::check::instrumented(c, &c.conf, c.seed, &mut r) else { return r };
    parts.analysis = Some(analysis);
    let quiet: Vec<Ev> = x.log.iter().filter(|e| !matches!(e.0, K::Hook(_) | K::Apply | K::Applied)).cloned().collect();
    let told = notes.iter().filter(|n| !n.1).count() as u64;
    let mut m = Machine::new(x.steps * 600 + told * 60_000 + 4_000_000, x.deepest * 20 + 300);
    let mut w = match World::new(&mut m, &orig, &c.script, None, Some(&parts)) {
        Ok(w) => w,
        Err(e) => {
            r.violate("C20", "does-not-fit", format!("{name}: {e}"));
            return r;
        }
    };
    w.loose = true;
    w.expect = Some(&quiet);
    let done = w.drive(&mut m);
    if let Some(d) = &w.diverged {
        r.violate("C20", "disturbs", format!("under {name}: {d}"));
        return r;
    }
    if !done {
        r.violate("C20", "runaway", format!("under {name} the program does not come to an end: after event {} of {}, {} steps, depth {}", w.pos, quiet.len(), m.steps, m.deepest));
        return r;
    }
    r.steps += m.steps;
    r.count("notifications_to_real_analyses", told);
    let exports = std::mem::take(&mut w.analysis);
    let top = m.steps;
    match answers(&mut m, &mut w, &exports, name, &questions, &notes) {
        Ok(n) => r.count("reports_compared", n),
        Err((class, e)) => {
            // would all be right with functions for instructions, and the other way around?
            let swapped: Vec<_> = notes
                .iter()
                .cloned()
                .map(|(h, end, mut a)| {
                    let n = a.len();
                    if n >= 2 {
                        a.swap(n - 2, n - 1);
                    }
                    (h, end, a)
                })
                .collect();
            let also = asks(name, &swapped).map(|q| answers(&mut m, &mut w, &exports, name, &q, &swapped));
            if matches!(also, Some(Ok(_))) && class == "reports" {
                r.violate("C20", "location-swapped", format!("{e} (every answer is the one for the index of the instruction in place of that of the function, and the other way around)"));
            } else {
                r.violate("C20", class, e);
            }
        }
    }
    r.steps += m.steps - top;
    r.mix(m.steps);
    r.nontrivial = told >= 3;
    r
}
