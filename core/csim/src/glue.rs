//! Analyses written in wasp: drawn advice goes through the real compiler and the AssemblyScript back end, is
//! linked to a library of one of the back ends, and driven as an instrumented program drives it; a model of the
//! advice says what has to be seen.

use crate::backend::{self, Fail};
use crate::case::*;
use crate::hooks::{self, H};
use crate::stack::{self, simulated, Names, TYPES};
use crate::wasm::*;
use std::fmt::Write as _;
use std::rc::Rc;
use wastrumentation::analysis::{AnalysisInterface, ProcessedAnalysis};
use wastrumentation::compiler::{Compiles, DefaultCompilerOptions};
use wastrumentation_lang_assemblyscript::compile::compiler::Compiler as AsCompiler;
use wastrumentation_lang_assemblyscript::compile::options::CompilerOptions as AsOptions;
use wastrumentation_lang_assemblyscript::compile::AssemblyScript;
use wastrumentation_lang_assemblyscript::generate::analysis::wasp::WaspRoot;
use wastrumentation_lang_assemblyscript::generate::analysis::WaspAnalysisSpec;

/// A hook that can be advised: its head in wasp, the types of its formals, group of hooks, exported parameters.
struct Kind {
    h: H,
    group: usize,
    head: &'static str,
    formals: &'static [&'static str],
    params: &'static str,
    answers: bool,
    /// what the advice can look at
    fields: &'static [(usize, &'static str)],
}

pub const KINDS: usize = 14;

#[rustfmt::skip]
const TABLE: [Kind; KINDS] = [
    Kind { h: H::GenericApply, group: 0, head: "apply", formals: &["WasmFunction", "", ""], params: "iiiiiii", answers: false, fields: &[(0, "instr_f_idx"), (1, "length"), (2, "length")] },
    Kind { h: H::CallPre, group: 1, head: "call pre", formals: &["FunctionIndex"], params: "ill", answers: false, fields: &[(0, "index")] },
    Kind { h: H::CallPost, group: 2, head: "call post", formals: &["FunctionIndex"], params: "ill", answers: false, fields: &[(0, "index")] },
    Kind { h: H::CallIndirectPre, group: 3, head: "call_indirect pre", formals: &["FunctionTable", "FunctionTableIndex"], params: "iill", answers: true, fields: &[(0, "index"), (1, "index")] },
    Kind { h: H::CallIndirectPost, group: 4, head: "call_indirect post", formals: &["FunctionTable"], params: "ill", answers: false, fields: &[(0, "index")] },
    Kind { h: H::IfThen, group: 5, head: "if_then", formals: &["Condition"], params: "iiill", answers: true, fields: &[(0, "is_then"), (0, "is_skip"), (0, "continue_then"), (0, "continue_skip")] },
    Kind { h: H::IfThenElse, group: 7, head: "if_then_else", formals: &["Condition"], params: "iiill", answers: true, fields: &[(0, "is_then"), (0, "is_else"), (0, "continue_then"), (0, "continue_else")] },
    Kind { h: H::BrIf, group: 10, head: "br_if", formals: &["Condition", "Label"], params: "iill", answers: true, fields: &[(0, "is_branch"), (0, "is_skip"), (0, "continue_branch"), (0, "continue_skip"), (1, "label")] },
    Kind { h: H::BrTable, group: 11, head: "br_table", formals: &["Target", "Default"], params: "iiill", answers: true, fields: &[(0, "target"), (1, "deflt")] },
    Kind { h: H::Select, group: 12, head: "select", formals: &["Condition"], params: "ill", answers: true, fields: &[(0, "is_then"), (0, "is_else"), (0, "continue_then"), (0, "continue_else")] },
    Kind { h: H::BlockPre, group: 24, head: "block pre", formals: &[], params: "iill", answers: false, fields: &[] },
    Kind { h: H::BlockPost, group: 25, head: "block post", formals: &[], params: "ll", answers: false, fields: &[] },
    Kind { h: H::LoopPre, group: 26, head: "loop pre", formals: &[], params: "iill", answers: false, fields: &[] },
    Kind { h: H::LoopPost, group: 27, head: "loop post", formals: &[], params: "ll", answers: false, fields: &[] },
];

fn kind(k: u8) -> &'static Kind {
    &TABLE[k as usize % KINDS]
}

pub fn formals(k: u8) -> usize {
    kind(k).formals.len()
}

pub fn n_fields(k: u8) -> usize {
    kind(k).fields.len()
}

pub fn answers(k: u8) -> bool {
    kind(k).answers
}

fn types(p: &str) -> Vec<Ty> {
    p.bytes().map(|b| if b == b'l' { Ty::I64 } else { Ty::I32 }).collect()
}

/// A field as the hook's arguments make it.
fn field(k: &Kind, f: usize, a: &[V]) -> u32 {
    let yes = a[0].bits() as u32 != 0;
    let v = |i: usize| a[i].bits() as u32;
    match (k.h, f) {
        (H::GenericApply, _) => v(1 + f),
        (H::CallIndirectPre, 0) => v(1),
        (H::BrIf, 4) => v(1),
        (H::BrTable, 1) => v(2),
        (H::IfThen | H::IfThenElse | H::BrIf | H::Select, 0) => yes.into(),
        (H::IfThen | H::IfThenElse | H::BrIf | H::Select, 1) => (!yes).into(),
        (H::IfThen | H::IfThenElse | H::BrIf | H::Select, 2) => 1,
        (H::IfThen | H::IfThenElse | H::BrIf | H::Select, _) => 0,
        _ => v(0),
    }
}

// ---------------------------------------------------------------- the text

const REPORTS: [(&str, &str, Ty); 4] = [("i32", "reportA", Ty::I32), ("i64", "reportB", Ty::I64), ("f32", "reportC", Ty::F32), ("f64", "reportD", Ty::F64)];

fn constant(ty: &str, bits: u64) -> String {
    match ty {
        "i32" => format!("{}", bits as i32),
        "i64" => format!("{}", bits as i64),
        "f32" => format!("reinterpret<f32>({} as i32)", bits as i32),
        _ => format!("reinterpret<f64>({} as i64)", bits as i64),
    }
}

fn walk(tag: &str, values: &str) -> String {
    let mut s = format!("for (let k_ = 0; k_ < {values}.length; k_++) {{ switch ({values}.getType(k_)) {{\n");
    for (ty, report, _) in REPORTS {
        let _ = writeln!(s, "case WasmType.{ty}: {report}({tag}, {values}.get<{ty}>(k_)); break;");
    }
    s + "default: unreachable(); } }\n"
}

fn set(values: &str, slot: &str, bits: u64) -> String {
    let mut s = format!("if ({slot} < {values}.length) {{ switch ({values}.getType({slot})) {{\n");
    for (ty, _, _) in REPORTS {
        let _ = writeln!(s, "case WasmType.{ty}: {values}.set<{ty}>({slot}, {}); break;", constant(ty, bits));
    }
    s + "default: unreachable(); } }\n"
}

fn body(i: usize, a: &Advice) -> String {
    let k = kind(a.kind);
    if a.acts.is_empty() {
        return String::new();
    }
    let mut s = format!("counter_{i}++;\n");
    let formal = |n: usize| a.names[n % a.names.len()].as_str();
    let get = |f: u8| {
        let (n, x) = k.fields[f as usize % k.fields.len()];
        format!("{}.{x}", formal(n))
    };
    for (j, act) in a.acts.iter().enumerate() {
        let tag = format!("{}", i * 100 + j);
        match act {
            Act::Count => {
                let _ = writeln!(s, "reportA({tag}, counter_{i});");
            }
            Act::Report(f) => {
                if !k.fields.is_empty() {
                    let _ = writeln!(s, "reportA({tag}, {});", get(*f));
                }
            }
            Act::Return(when, v, f) => {
                let what = match (k.answers, f) {
                    (false, _) => String::new(),
                    (true, Some(f)) => format!(" {}", get(*f)),
                    (true, None) => format!(" {v}"),
                };
                let test = match when % 3 {
                    0 => format!("counter_{i} % 2 == 1"),
                    1 if !k.fields.is_empty() => get(*when / 3),
                    _ => format!("counter_{i} > {}", when / 3),
                };
                let _ = writeln!(s, "if ({test}) {{ return{what}; }}");
            }
            Act::Walk(side, helper) => {
                let v = formal(1 + *side as usize % 2);
                if *helper {
                    let _ = writeln!(s, "walkValues({tag}, {v});");
                } else {
                    s += &walk(&tag, v);
                }
            }
            Act::Set(side, slot, bits, helper) => {
                let v = formal(1 + *side as usize % 2);
                if *helper {
                    let _ = writeln!(s, "setValue_{i}_{j}({v}, {slot});");
                } else {
                    s += &set(v, &slot.to_string(), *bits);
                }
            }
            Act::Call => {
                let _ = writeln!(s, "{}.apply();", formal(0));
            }
            Act::Outside(when, side, how, by) => {
                let v = formal(1 + *side as usize % 2);
                let at = if how % 2 == 0 { format!("{v}.length + {by}") } else { format!("-{}", u32::from(*by) + 1) };
                let what = match how / 2 % 3 {
                    0 => format!("{v}.get<i32>({at})"),
                    1 => format!("{v}.set<i64>({at}, 5)"),
                    _ => format!("{v}.getType({at})"),
                };
                let _ = writeln!(s, "if (counter_{i} == {when}) {{ {what}; }}");
            }
        }
    }
    s
}

fn text(list: &[Advice]) -> String {
    let mut g = String::new();
    for (ty, name, _) in REPORTS {
        let _ = writeln!(g, "@external(\"host\", \"report_{ty}\")\ndeclare function {name}(tag: i32, value: {ty}): void;");
    }
    for i in 0..list.len() {
        let _ = writeln!(g, "let counter_{i}: i32 = 0;");
    }
    if list.iter().any(|a| kind(a.kind).h == H::GenericApply) {
        g += "function walkValues(tag: i32, values: DynValues): void {\n";
        g += &walk("tag", "values");
        g += "}\n";
        for (i, a) in list.iter().enumerate() {
            for (j, act) in a.acts.iter().enumerate() {
                if let Act::Set(_, _, bits, true) = act {
                    let _ = writeln!(g, "function setValue_{i}_{j}(values: DynValues, slot: i32): void {{\n{}}}", set("values", "slot", *bits));
                }
            }
        }
    }
    let mut s = format!("(aspect\n    (global >>>GUEST>>>{g}<<<GUEST<<<)\n");
    for (i, a) in list.iter().enumerate() {
        let k = kind(a.kind);
        let _ = write!(s, "    (advice {}", k.head);
        for (n, t) in k.formals.iter().enumerate() {
            let t = match (k.h, n) {
                (H::GenericApply, 1) => ["Args", "DynArgs", "MutDynArgs"][a.means as usize % 3],
                (H::GenericApply, 2) => ["Results", "DynResults", "MutDynResults"][a.means as usize % 3],
                _ => t,
            };
            let _ = write!(s, " ({} {t})", a.names[n]);
        }
        let _ = write!(s, " >>>GUEST>>>\n{}<<<GUEST<<<)\n", body(i, a));
    }
    s + ")\n"
}

// ---------------------------------------------------------------- what is seen

#[derive(Clone, Debug, PartialEq)]
enum Seen {
    Report(u32, V),
    Base { f: u32, own: bool, args: Vec<V> },
    Answer(Option<V>),
    After(Vec<V>),
    Caught,
    Trapped,
}

type Sig = (Vec<Ty>, Vec<Ty>);

fn vals(t: &[Ty], bits: &[u64], d: u64) -> Vec<V> {
    t.iter().enumerate().map(|(i, t)| V::from_bits(*t, bits.get(i).copied().unwrap_or(d + i as u64))).collect()
}

fn args_of(k: &Kind, bits: &[u64]) -> Vec<V> {
    vals(&types(k.params), bits, 3)
}

/// What the model keeps of a call under way.
struct Call {
    sig: usize,
    f: u32,
    /// results, then arguments
    slots: Vec<V>,
    bases: Vec<Base>,
    next: usize,
}

struct Model<'a> {
    sigs: &'a [Sig],
    list: &'a [Advice],
    counters: Vec<u32>,
    calls: Vec<Call>,
    seen: Vec<Seen>,
    calls_made: u64,
}

struct Over;

const MOST: usize = 4000;

impl Model<'_> {
    fn ops(&mut self, ops: &[Drive]) -> Result<(), Over> {
        for op in ops {
            self.op(op)?;
        }
        Ok(())
    }

    fn op(&mut self, op: &Drive) -> Result<(), Over> {
        if self.seen.len() > MOST {
            return Err(Over);
        }
        match op {
            Drive::Notify(i, bits) => {
                let Some(a) = self.list.get(*i as usize) else { return Ok(()) };
                let k = kind(a.kind);
                if k.h == H::GenericApply {
                    return Ok(());
                }
                let x = self.advice(*i as usize, &args_of(k, bits))?;
                self.seen.push(Seen::Answer(x));
            }
            Drive::Apply { sig, f, idx, args, bases } => {
                let Some(i) = self.list.iter().position(|a| kind(a.kind).h == H::GenericApply) else { return Ok(()) };
                if self.sigs.is_empty() {
                    return Ok(());
                }
                let sig = *sig as usize % self.sigs.len();
                let s = &self.sigs[sig];
                let mut slots = vals(&s.0, &[], 900);
                slots.extend(vals(&s.1, args, 40));
                self.calls.push(Call { sig, f: *f, slots, bases: bases.clone(), next: 0 });
                let a: Vec<V> = [*f, *idx, s.1.len() as u32, s.0.len() as u32, 0, 0, 0].into_iter().map(V::I32).collect();
                self.advice(i, &a)?;
                let c = self.calls.pop().expect("call");
                self.seen.push(Seen::After(c.slots));
            }
        }
        Ok(())
    }

    fn advice(&mut self, i: usize, a: &[V]) -> Result<Option<V>, Over> {
        self.calls_made += 1;
        let ad = &self.list[i];
        let k = kind(ad.kind);
        // without an answer of its own the advice leaves things as they are
        let plain = k.answers.then(|| a[0]);
        if ad.acts.is_empty() {
            return Ok(plain);
        }
        self.counters[i] += 1;
        for (j, act) in ad.acts.iter().enumerate() {
            let tag = (i * 100 + j) as u32;
            // counters go on counting while calls are nested
            let n = self.counters[i];
            let (nr, side) = match self.calls.last() {
                Some(c) if k.h == H::GenericApply => (self.sigs[c.sig].0.len(), c.slots.len()),
                _ => (0, 0),
            };
            let part = |s: u8| if s % 2 == 0 { nr..side } else { 0..nr };
            match act {
                Act::Count => self.seen.push(Seen::Report(tag, V::I32(n))),
                Act::Report(f) => {
                    if !k.fields.is_empty() {
                        self.seen.push(Seen::Report(tag, V::I32(field(k, *f as usize % k.fields.len(), a))));
                    }
                }
                Act::Return(when, v, f) => {
                    let go = match when % 3 {
                        0 => n as i32 % 2 == 1,
                        1 if !k.fields.is_empty() => field(k, (*when / 3) as usize % k.fields.len(), a) != 0,
                        _ => n as i32 > i32::from(when / 3),
                    };
                    if go {
                        return Ok(k.answers.then(|| match f {
                            Some(f) => V::I32(field(k, *f as usize % k.fields.len(), a)),
                            None => V::I32(*v as u32),
                        }));
                    }
                }
                Act::Walk(s, _) => {
                    let v: Vec<V> = self.calls.last().map(|c| c.slots[part(*s)].to_vec()).unwrap_or_default();
                    self.seen.extend(v.into_iter().map(|v| Seen::Report(tag, v)));
                }
                Act::Set(s, slot, bits, _) => {
                    let r = part(*s);
                    if let Some(c) = self.calls.last_mut() {
                        if (*slot as usize) < r.len() {
                            let at = r.start + *slot as usize;
                            c.slots[at] = V::from_bits(c.slots[at].ty(), *bits);
                        }
                    }
                }
                Act::Call => self.base()?,
                Act::Outside(when, ..) => {
                    if n == u32::from(*when) {
                        return Err(Over);
                    }
                }
            }
            if self.seen.len() > MOST {
                return Err(Over);
            }
        }
        Ok(plain)
    }

    fn base(&mut self) -> Result<(), Over> {
        let depth = self.calls.len();
        let Some(c) = self.calls.last_mut() else { return Ok(()) };
        let b = c.bases.get(c.next).cloned().unwrap_or_default();
        c.next += 1;
        let (r, _) = &self.sigs[c.sig];
        let (f, args, results) = (c.f, c.slots[r.len()..].to_vec(), vals(r, &b.results, 700));
        self.seen.push(Seen::Base { f, own: true, args });
        match self.ops(&b.inner) {
            Err(Over) if b.catch && self.seen.len() <= MOST => {
                self.calls.truncate(depth);
                self.seen.push(Seen::Caught);
            }
            x => x?,
        }
        if b.trap {
            return Err(Over);
        }
        let c = self.calls.last_mut().expect("call");
        c.slots[..results.len()].copy_from_slice(&results);
        Ok(())
    }
}

// ---------------------------------------------------------------- what really happens

struct Real<'a> {
    sigs: &'a [Sig],
    list: &'a [Advice],
    names: &'a [Names],
    lib: usize,
    analysis: usize,
    calls: Vec<(Call, u32)>,
    seen: Vec<Seen>,
    wrong: Option<String>,
}

impl Real<'_> {
    fn call(&mut self, m: &mut Machine, inst: usize, name: &str, a: &[V]) -> Result<Vec<V>, Trap> {
        let Some(Extern::Func(f)) = m.export(inst, name) else {
            self.wrong = Some(format!("there is no function {name}"));
            return Err(Trap::Host(9));
        };
        let t = m.funcs[f].ty.clone();
        if t.params != a.iter().map(|v| v.ty()).collect::<Vec<_>>() {
            self.wrong = Some(format!("{name} takes {:?}", t.params));
            return Err(Trap::Host(9));
        }
        m.call(self, f, a)
    }

    fn slots(&mut self, m: &mut Machine, sig: usize, ptr: u32, which: std::ops::Range<usize>) -> Result<Vec<V>, Trap> {
        let names = self.names;
        let mut v = vec![];
        for n in &names[sig].load[which] {
            v.extend(self.call(m, self.lib, n, &[V::I32(ptr)])?);
        }
        Ok(v)
    }

    fn store_results(&mut self, m: &mut Machine, sig: usize, ptr: u32, v: &[V]) -> Result<(), Trap> {
        let mut a = vec![V::I32(ptr)];
        a.extend(v);
        let names = self.names;
        self.call(m, self.lib, &names[sig].store_rets, &a).map(|_| ())
    }

    fn ops(&mut self, m: &mut Machine, ops: &[Drive]) -> Result<(), Trap> {
        for op in ops {
            self.op(m, op)?;
        }
        Ok(())
    }

    fn op(&mut self, m: &mut Machine, op: &Drive) -> Result<(), Trap> {
        if self.seen.len() > MOST {
            return Err(Trap::Events);
        }
        match op {
            Drive::Notify(i, bits) => {
                let Some(a) = self.list.get(*i as usize) else { return Ok(()) };
                let k = kind(a.kind);
                if k.h == H::GenericApply {
                    return Ok(());
                }
                let r = self.call(m, self.analysis, k.h.name(), &args_of(k, bits))?;
                self.seen.push(Seen::Answer(r.first().copied()));
            }
            Drive::Apply { sig, f, idx, args, bases } => {
                if self.sigs.is_empty() || !self.list.iter().any(|a| kind(a.kind).h == H::GenericApply) {
                    return Ok(());
                }
                let sig = *sig as usize % self.sigs.len();
                let s = &self.sigs[sig];
                let (argv, resv) = (vals(&s.1, args, 40), vals(&s.0, &[], 900));
                let names = self.names;
                let ptr = |v: Vec<V>| v.first().map_or(0, |v| v.i32());
                let sigv = ptr(self.call(m, self.lib, &names[sig].allocate, &argv)?);
                let sigtypv = ptr(self.call(m, self.lib, &names[sig].allocate_types, &[])?);
                self.store_results(m, sig, sigv, &resv)?;
                self.calls.push((Call { sig, f: *f, slots: vec![], bases: bases.clone(), next: 0 }, sigv));
                let a: Vec<V> = [*f, *idx, s.1.len() as u32, s.0.len() as u32, sigv, sigtypv, 0].into_iter().map(V::I32).collect();
                self.call(m, self.analysis, H::GenericApply.name(), &a)?;
                self.calls.pop();
                let v = self.slots(m, sig, sigv, 0..s.0.len() + s.1.len())?;
                self.seen.push(Seen::After(v));
                self.call(m, self.lib, &names[sig].free_types, &[V::I32(sigtypv)])?;
                self.call(m, self.lib, &names[sig].free, &[V::I32(sigv)])?;
            }
        }
        Ok(())
    }
}

const CALL_BASE: usize = 10;
const ABORT: usize = 11;

impl Ext for Real<'_> {
    fn host(&mut self, m: &mut Machine, id: usize, a: &[V]) -> Result<Vec<V>, Trap> {
        if self.seen.len() > MOST {
            return Err(Trap::Events);
        }
        match id {
            CALL_BASE => {
                let depth = self.calls.len();
                let (f, ptr) = (a[0].i32(), a[1].i32());
                let Some((c, mine)) = self.calls.last_mut() else {
                    self.wrong = Some("the function is called while none is applied".into());
                    return Err(Trap::Host(9));
                };
                let b = c.bases.get(c.next).cloned().unwrap_or_default();
                c.next += 1;
                let (sig, mine) = (c.sig, *mine);
                let (nr, na) = (self.sigs[sig].0.len(), self.sigs[sig].1.len());
                let args = if ptr == mine { self.slots(m, sig, mine, nr..nr + na)? } else { vec![] };
                self.seen.push(Seen::Base { f, own: ptr == mine, args });
                match self.ops(m, &b.inner) {
                    Err(e) if b.catch && !e.is_limit() && self.wrong.is_none() => {
                        self.calls.truncate(depth);
                        self.seen.push(Seen::Caught);
                    }
                    x => x?,
                }
                if b.trap {
                    return Err(Trap::Host(1));
                }
                let results = vals(&self.sigs[sig].0, &b.results, 700);
                self.store_results(m, sig, mine, &results)?;
            }
            ABORT => return Err(Trap::Unreachable),
            _ => self.seen.push(Seen::Report(a[0].i32(), a[1])),
        }
        Ok(vec![])
    }
    fn grow(&mut self, _: &mut Machine, _: usize, _: u32) -> bool {
        true
    }
    fn hook(&mut self, _: &mut Machine, _: usize, _: H, _: &[V]) -> Result<Option<V>, Trap> {
        unreachable!()
    }
    fn apply(&mut self, _: &mut Machine, _: u32, _: usize, _: bool, _: &[V]) -> Result<Vec<V>, Trap> {
        unreachable!()
    }
}

// ---------------------------------------------------------------- judging

fn fails(r: &mut RunResult, f: Fail) {
    match f {
        Fail::Bad(class, e) => r.violate("C18", class, e),
        Fail::Unknown(e) => {
            r.count("not_known_to_the_stand_in_compiler", 1);
            r.log.push(e);
        }
        Fail::Harness(e) => r.harness_error = Some(e),
    }
}

/// Compiles the analysis; also says whether its interface is the one of the other back ends for these hooks.
fn analysis(list: &[Advice], seed: u64) -> Result<(String, Vec<u8>, bool), Fail> {
    let wasp = text(list);
    let groups: Vec<usize> = list.iter().map(|a| kind(a.kind).group).collect();
    let r = simulated(seed, move || {
        let spec = WaspAnalysisSpec { wasp_source: wasp };
        let p: ProcessedAnalysis<AssemblyScript> = match (&spec).try_into() {
            Ok(p) => p,
            Err(e) => return Err(format!("{e}")),
        };
        let source: String = p.analysis_library;
        let direct = wasp_compiler::compile(&spec.wasp_source).map(|c| AnalysisInterface::from(&WaspRoot(c.wasp_root)));
        let same = p.analysis_interface == hooks::interface(&groups, &[]) && direct.is_ok_and(|d| d == p.analysis_interface);
        let comp = <AsCompiler as Compiles<AssemblyScript>>::setup_compiler().map_err(|e| e.to_string())?;
        let out = Compiles::<AssemblyScript>::compile(&comp, &<AsOptions as DefaultCompilerOptions<AssemblyScript>>::default_for(source.clone())).map_err(|e| e.reason);
        Ok((source, out, same))
    });
    match r {
        Ok(Ok((source, out, same))) => backend::as_outcome(&source, out, "the analysis").map(|b| (source, b, same)),
        Ok(Err(e)) => Err(Fail::Bad("refused", format!("the analysis is refused: {e}"))),
        Err(e) => Err(Fail::Bad("panic", format!("generating the analysis panics: {e}"))),
    }
}

pub fn run(c: &Case) -> RunResult {
    let mut r = RunResult::default();
    let sigs: Vec<Sig> = c.signatures.iter().map(|s| (s.0.iter().map(|t| TYPES[*t as usize % 4]).collect(), s.1.iter().map(|t| TYPES[*t as usize % 4]).collect())).collect();
    let (_, bytes, same) = match analysis(&c.advices, c.seed) {
        Ok(x) => x,
        Err(f) => {
            fails(&mut r, f);
            return r;
        }
    };
    if !same {
        r.violate("C18", "interface", "the interface of the analysis is not the one the other back ends give for the same hooks");
        return r;
    }
    let lib = match backend::library(c.lib, c.signatures.iter().map(stack::signature).collect(), c.seed) {
        Ok(b) => b,
        Err(f) => {
            fails(&mut r, f);
            return r;
        }
    };
    for (what, b) in [("analysis", &bytes), ("library", &lib)] {
        if let Err(e) = validate(b) {
            r.violate("C18", "invalid", format!("the {what} is not valid: {e}"));
            return r;
        }
    }
    let cs = c.signatures.clone();
    let names = match simulated(c.seed, move || stack::names(&cs.iter().map(stack::signature).collect::<Vec<_>>())) {
        Ok(n) => n,
        Err(e) => {
            r.violate("C18", "panic", e);
            return r;
        }
    };
    let (am, lm) = match (Module::decode(&bytes), Module::decode(&lib)) {
        (Ok(a), Ok(l)) => (Rc::new(a), Rc::new(l)),
        (a, l) => {
            r.harness_error = Some(format!("{:?} {:?}", a.err(), l.err()));
            return r;
        }
    };
    // what the model expects
    let mut model = Model { sigs: &sigs, list: &c.advices, counters: vec![0; c.advices.len()], calls: vec![], seen: vec![], calls_made: 0 };
    let mut whole = true;
    for op in &c.drive {
        if model.op(op).is_err() {
            if model.seen.len() > MOST {
                whole = false;
                break;
            }
            model.calls.clear();
            model.seen.push(Seen::Trapped);
        }
    }
    if !whole {
        r.outcome = "too long".into();
        return r;
    }
    let want = model.seen;
    r.count("advice_run", model.calls_made);
    r.count("traps", want.iter().filter(|s| matches!(s, Seen::Trapped | Seen::Caught)).count() as u64);
    r.count("applications_forwarded", want.iter().filter(|s| matches!(s, Seen::Base { .. })).count() as u64);
    for a in &c.advices {
        *r.hooks.entry(format!("{:?}", kind(a.kind).h)).or_insert(0) += 1;
    }
    // what happens
    let mut m = Machine::new(60_000_000, 400);
    let mut x = Real { sigs: &sigs, list: &c.advices, names: &names, lib: 0, analysis: 0, calls: vec![], seen: vec![], wrong: None };
    x.lib = match m.alloc(&lm, &[], None) {
        Ok(i) => i,
        Err(e) => {
            r.violate("C18", "imports", format!("the library: {e}"));
            return r;
        }
    };
    if let Err(e) = { let i = x.lib; m.start(&mut x, i) } {
        r.violate("C18", "trap", format!("the library does not start: {e:?}"));
        return r;
    }
    let mut imports = vec![];
    let fty = |p: &[Ty]| FTy { params: p.to_vec(), results: vec![] };
    for (ns, n, e) in &am.imports {
        let Ext_::Func(t) = e else {
            r.violate("C18", "imports", format!("the analysis imports {ns}.{n}, which is no function"));
            return r;
        };
        let want = am.types[*t as usize].clone();
        let f = match (ns.as_str(), n.as_str()) {
            ("wastrumentation_stack", n) => match m.export(x.lib, n) {
                Some(Extern::Func(f)) => Some(f),
                _ => None,
            },
            ("instrumented_input", "call_base") => Some(m.host_func(fty(&[Ty::I32, Ty::I32]), CALL_BASE)),
            ("env", "abort") => Some(m.host_func(FTy { params: want.params.clone(), results: vec![] }, ABORT)),
            ("host", n) => REPORTS.iter().position(|x| n == format!("report_{}", x.0)).map(|k| m.host_func(fty(&[Ty::I32, REPORTS[k].2]), k)),
            _ => None,
        };
        match f {
            Some(f) if m.funcs[f].ty.params == want.params && m.funcs[f].ty.results == want.results => imports.push(Extern::Func(f)),
            _ => {
                r.violate("C18", "imports", format!("the analysis imports {ns}.{n} as a function from {:?} to {:?}, which is not there", want.params, want.results));
                return r;
            }
        }
    }
    x.analysis = match m.alloc(&am, &imports, None) {
        Ok(i) => i,
        Err(e) => {
            r.harness_error = Some(e);
            return r;
        }
    };
    if let Err(e) = { let i = x.analysis; m.start(&mut x, i) } {
        r.violate("C18", "trap", format!("the analysis does not start: {e:?}"));
        return r;
    }
    for (k, n) in TABLE.iter().map(|k| (k, k.h.name())) {
        let is = m.export(x.analysis, n);
        let should = c.advices.iter().any(|a| kind(a.kind).h == k.h);
        let results: &[Ty] = if k.answers { &[Ty::I32] } else { &[] };
        match is {
            Some(Extern::Func(f)) if should => {
                let t = m.funcs[f].ty.clone();
                if t.params != types(k.params) || t.results != results {
                    r.violate("C18", "type", format!("the analysis exports {n} as a function from {:?} to {:?}", t.params, t.results));
                }
            }
            None if !should => (),
            _ => r.violate("C18", "missing", format!("the analysis {} {n}", if should { "does not export" } else { "exports, although there is no such advice," })),
        }
    }
    if !r.violations.is_empty() {
        return r;
    }
    for op in &c.drive {
        if let Err(e) = x.op(&mut m, op) {
            if e.is_limit() || x.wrong.is_some() {
                break;
            }
            x.calls.clear();
            x.seen.push(Seen::Trapped);
        }
    }
    let at = want.iter().zip(&x.seen).take_while(|(a, b)| a == b).count();
    r.log.extend(want.iter().map(|s| format!("{s:?}")));
    r.events = want.len() as u64;
    r.steps = m.steps;
    let mut before = 0;
    for s in &want {
        let k = match s {
            Seen::Report(t, v) => {
                r.mix(u64::from(*t) << 8 | v.bits());
                u64::from(*t)
            }
            Seen::Base { .. } => 1001,
            Seen::Answer(a) => {
                r.mix(a.map_or(7, |a| a.bits()));
                1002
            }
            Seen::After(_) => 1003,
            Seen::Caught => 1004,
            Seen::Trapped => 1005,
        };
        r.mix(k);
        r.shape ^= (before << 20 | k).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        before = k;
    }
    r.nontrivial = want.len() >= 6;
    if at < want.len() || at < x.seen.len() {
        let s = |v: &[Seen]| v.get(at).map_or("nothing more".into(), |s| format!("{s:?}"));
        let w = x.wrong.take().map(|w| format!(" ({w})")).unwrap_or_default();
        r.violate("C18", "differs", format!("with the {} library, event {at}: the advice asks for {}, seen is {}{w}", backend::NAME[c.lib as usize % 3], s(&want), s(&x.seen)));
    } else if let Some(w) = x.wrong {
        r.violate("C18", "differs", w);
    }
    r
}
