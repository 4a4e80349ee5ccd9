//! Analysis sources on a failing disk, compiled by the real wasp compiler in the simulated machine
//! (C07, C08), and compiled by several threads under a seeded scheduler (C09).

use crate::case::*;
use crate::gen::Subs;
use serde::{Deserialize, Serialize};
use simos::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::AssertUnwindSafe;
use std::sync::Mutex;

// ---------------------------------------------------------------- the disk

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Damage {
    pub kind: String,
    pub a: usize,
    #[serde(skip_serializing_if = "zero")]
    pub b: usize,
    #[serde(skip_serializing_if = "zero")]
    pub c: usize,
}

fn zero(n: &usize) -> bool {
    *n == 0
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Step {
    pub text: usize,
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub damage: Vec<Damage>,
}

/// What is on the disk after `new` was written (over `old`) and the damage happened.
pub fn damaged(new: &str, old: &str, ds: &[Damage]) -> Vec<u8> {
    let mut v = new.as_bytes().to_vec();
    let o = old.as_bytes();
    for d in ds {
        let n = v.len();
        let blk = |i: usize, s: usize| -> (usize, usize) { ((i * s).min(n), ((i + 1) * s).min(n)) };
        match d.kind.as_str() {
            // the crash came after a bytes had been written
            "cut" => v.truncate(d.a),
            // written in place over the old version, the crash came after a bytes
            "overwrite" => {
                let k = d.a.min(n);
                let mut w = v[..k].to_vec();
                if o.len() > k {
                    w.extend_from_slice(&o[k..]);
                }
                v = w;
            }
            // some blocks (of b bytes) of the new version never reached the disk: the old ones show
            "stale" => {
                let s = d.b.max(1);
                let (x, y) = blk(d.a, s);
                for (i, b) in v.iter_mut().enumerate().take(y).skip(x) {
                    *b = o.get(i).copied().unwrap_or(0);
                }
            }
            "zero" => {
                let (x, y) = blk(d.a, d.b.max(1));
                v[x..y].fill(0);
            }
            "lost" => {
                let (x, y) = blk(d.a, d.b.max(1));
                v.drain(x..y);
            }
            // block a was also written where block c belongs
            "dup" => {
                let (x, y) = blk(d.a, d.b.max(1));
                let (p, _) = blk(d.c, d.b.max(1));
                let data = v[x..y].to_vec();
                for (i, b) in data.into_iter().enumerate() {
                    if p + i < n {
                        v[p + i] = b;
                    }
                }
            }
            // block a appears once more before block c
            "insert" => {
                let (x, y) = blk(d.a, d.b.max(1));
                let (p, _) = blk(d.c, d.b.max(1));
                let data = v[x..y].to_vec();
                v.splice(p..p, data);
            }
            "swap" => {
                let s = d.b.max(1);
                let (x, y) = blk(d.a, s);
                let (p, q) = blk(d.c, s);
                if y - x == q - p && (y <= p || q <= x) {
                    for i in 0..y - x {
                        v.swap(x + i, p + i);
                    }
                }
            }
            "flip" => {
                if n > 0 {
                    v[d.a % n] ^= 1 << (d.b % 8);
                }
            }
            "byte" => {
                if n > 0 {
                    v[d.a % n] = d.b as u8;
                }
            }
            // the file was shortened and its old, longer tail shows again
            "tail" => {
                if o.len() > n {
                    v.extend_from_slice(&o[n..]);
                }
            }
            "twice" => v.extend_from_slice(o),
            k => panic!("damage {k}"),
        }
    }
    v
}

// ---------------------------------------------------------------- reference reader

/// One global section or advice, in a neutral form.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Item {
    pub kind: String,
    pub params: Vec<String>,
    /// specialised apply only: the parameters are mutable
    pub mutable: Option<bool>,
    pub body: String,
}

#[derive(Clone, Debug, Default)]
pub struct Reading {
    pub items: Vec<Item>,
    /// what is wrong with a text that is otherwise well formed: the words its error must hold
    pub problems: Vec<(String, Vec<String>)>,
    /// byte offset of the closing parenthesis
    pub close: usize,
}

struct Rd<'a> {
    s: &'a str,
    i: usize,
    problems: Vec<(String, Vec<String>)>,
}

type R<T> = Result<T, usize>;

impl Rd<'_> {
    fn rest(&self) -> &[u8] {
        &self.s.as_bytes()[self.i..]
    }
    fn skip(&mut self) {
        loop {
            match self.rest().first() {
                Some(b' ' | b'\n' | b'\r' | b'\t') => self.i += 1,
                Some(b'#') if self.rest().starts_with(b"#|") => match self.s[self.i + 2..].find("|#") {
                    Some(k) => self.i += 2 + k + 2,
                    None => return,
                },
                _ => return,
            }
        }
    }
    fn is(&mut self, l: &str) -> bool {
        if self.rest().starts_with(l.as_bytes()) {
            self.i += l.len();
            true
        } else {
            false
        }
    }
    /// skips blanks, then wants `l`
    fn want(&mut self, l: &str) -> R<()> {
        self.skip();
        if self.is(l) {
            Ok(())
        } else {
            Err(self.i)
        }
    }
    fn ident(&mut self) -> R<String> {
        self.skip();
        let n = self.rest().iter().take_while(|b| b.is_ascii_alphabetic()).count();
        if n == 0 {
            return Err(self.i);
        }
        let t = self.s[self.i..self.i + n].to_string();
        self.i += n;
        Ok(t)
    }
    fn ty(&mut self) -> R<String> {
        self.skip();
        if !self.rest().first().is_some_and(u8::is_ascii_uppercase) {
            return Err(self.i);
        }
        let n = self.rest().iter().take_while(|b| b.is_ascii_alphanumeric()).count();
        if n < 2 {
            return Err(self.i);
        }
        let t = self.s[self.i..self.i + n].to_string();
        self.i += n;
        Ok(t)
    }
    fn guest(&mut self) -> R<String> {
        self.want(">>>GUEST>>>")?;
        let k = self.s[self.i..].find("<<<GUEST<<<").ok_or(self.s.len())?;
        let b = self.s[self.i..self.i + k].to_string();
        self.i += k + "<<<GUEST<<<".len();
        Ok(b)
    }
    /// ( name Kind )
    fn formal(&mut self, kind: &str) -> R<String> {
        self.want("(")?;
        let n = self.ident()?;
        self.want(kind)?;
        self.want(")")?;
        Ok(n)
    }
    fn typed(&mut self) -> R<(String, String)> {
        self.want("(")?;
        let n = self.ident()?;
        let t = self.ty()?;
        self.want(")")?;
        Ok((n, t))
    }
    fn typed_list(&mut self) -> R<Vec<(String, String)>> {
        let mut v = vec![self.typed()?];
        loop {
            self.skip();
            if self.rest().first() != Some(&b'(') {
                return Ok(v);
            }
            v.push(self.typed()?);
        }
    }
    fn unique(&mut self, names: &[String]) {
        let mut seen = BTreeSet::new();
        for n in names {
            if !seen.insert(n) {
                self.problems.push((format!("parameter `{n}` is repeated"), vec![n.clone()]));
            }
        }
    }

    fn definition(&mut self) -> R<Item> {
        self.skip();
        if self.is("global") {
            let body = self.guest()?;
            return Ok(Item { kind: "global".into(), params: vec![], mutable: None, body });
        }
        self.want("advice")?;
        self.skip();
        let mut mutable = None;
        let (kind, params) = if self.is("apply") {
            let f = self.formal("WasmFunction")?;
            let start = self.i;
            let np = self.problems.len();
            match self.generic(&f) {
                Ok(x) => x,
                Err(_) => {
                    self.i = start;
                    self.problems.truncate(np);
                    self.want("(")?;
                    self.skip();
                    let m = self.is("Mut");
                    let args = self.typed_list()?;
                    self.want(")")?;
                    self.want("(")?;
                    if m {
                        self.want("Mut")?;
                    }
                    let ress = self.typed_list()?;
                    self.want(")")?;
                    mutable = Some(m);
                    let mut params = vec![f.clone()];
                    let mut names = vec![f];
                    for (what, l) in [("arg", &args), ("res", &ress)] {
                        for (n, t) in l {
                            params.push(format!("{what} {n} {t}"));
                            names.push(n.clone());
                            if !["I32", "I64", "F32", "F64"].contains(&t.as_str()) {
                                self.problems.push((format!("type `{t}` is unknown"), vec![t.clone()]));
                            }
                        }
                    }
                    self.unique(&names);
                    ("apply-spe".to_string(), params)
                }
            }
        } else if self.is("call_indirect") {
            self.skip();
            if self.is("pre") {
                let a = self.formal("FunctionTable")?;
                let b = self.formal("FunctionTableIndex")?;
                self.unique(&[a.clone(), b.clone()]);
                ("call_indirect-pre".into(), vec![a, b])
            } else {
                self.want("post")?;
                ("call_indirect-post".into(), vec![self.formal("FunctionTable")?])
            }
        } else if self.is("call") {
            self.skip();
            let q = if self.is("pre") {
                "call-pre"
            } else {
                self.want("post")?;
                "call-post"
            };
            (q.into(), vec![self.formal("FunctionIndex")?])
        } else if self.is("block") || self.rest().starts_with(b"loop") {
            let w = if self.is("loop") { "loop" } else { "block" };
            self.skip();
            if self.is("pre") {
                (format!("{w}-pre"), vec![])
            } else {
                self.want("post")?;
                (format!("{w}-post"), vec![])
            }
        } else if self.is("select") {
            ("select".into(), vec![self.formal("Condition")?])
        } else if self.is("if_then_else") {
            ("if_then_else".into(), vec![self.formal("Condition")?])
        } else if self.is("if_then") {
            ("if_then".into(), vec![self.formal("Condition")?])
        } else if self.is("br_if") {
            let a = self.formal("Condition")?;
            let b = self.formal("Label")?;
            self.unique(&[a.clone(), b.clone()]);
            ("br_if".into(), vec![a, b])
        } else {
            self.want("br_table")?;
            let a = self.formal("Target")?;
            let b = self.formal("Default")?;
            self.unique(&[a.clone(), b.clone()]);
            ("br_table".into(), vec![a, b])
        };
        let body = self.guest()?;
        Ok(Item { kind, params, mutable, body })
    }

    fn generic(&mut self, f: &str) -> R<(String, Vec<String>)> {
        let (an, at) = self.typed()?;
        let (rn, rt) = self.typed()?;
        let means = match (at.as_str(), rt.as_str()) {
            ("Args", "Results") => "high-level",
            ("DynArgs", "DynResults") => "dynamic",
            ("MutDynArgs", "MutDynResults") => "mutable-dynamic",
            _ => {
                self.problems.push((format!("`{at}` and `{rt}` do not go together as arguments and results"), vec![at, rt]));
                "?"
            }
        };
        let v = vec![f.to_string(), an, rn];
        self.unique(&v);
        Ok((format!("apply-{means}"), v))
    }
}

/// Reads an analysis as the language is documented; Err: not well formed at about that offset.
pub fn read(text: &str) -> Result<Reading, usize> {
    let mut r = Rd { s: text, i: 0, problems: vec![] };
    let mut items = vec![];
    r.want("(")?;
    r.want("aspect")?;
    loop {
        r.skip();
        if !r.is("(") {
            break;
        }
        items.push(r.definition()?);
        r.want(")")?;
    }
    r.want(")")?;
    let close = r.i - 1;
    r.skip();
    if r.i != text.len() {
        return Err(r.i);
    }
    Ok(Reading { items, problems: r.problems, close })
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Joins {
    pub flags: BTreeSet<String>,
    pub specialised: BTreeSet<String>,
}

pub fn joins_of(items: &[Item]) -> Joins {
    let mut j = Joins::default();
    for i in items {
        match i.kind.as_str() {
            "global" => {}
            "apply-spe" => {
                let types = |w: &str| i.params.iter().filter(|p| p.starts_with(w)).map(|p| p.rsplit(' ').next().unwrap().to_string()).collect::<Vec<_>>().join(", ");
                j.specialised.insert(format!("SpecialisedJoinPoint {{ result_types: [{}], argument_types: [{}] }}", types("res "), types("arg ")));
            }
            k if k.starts_with("apply-") => {
                j.flags.insert("generic".into());
            }
            k => {
                j.flags.insert(k.into());
            }
        }
    }
    j
}

fn helpers_of(items: &[Item]) -> (bool, bool, bool) {
    let any = |f: &dyn Fn(&str) -> bool| items.iter().any(|i| f(&i.kind));
    (
        any(&|k| k.starts_with("apply-") && k != "apply-spe"),
        any(&|k| matches!(k, "if_then" | "if_then_else" | "br_if" | "br_table" | "select")),
        any(&|k| k.starts_with("call")),
    )
}

// ---------------------------------------------------------------- what the compiler says

#[derive(Clone, Debug)]
pub enum Out {
    Ok { items: Vec<Item>, joins: Joins, helpers: (bool, bool, bool) },
    Err { syntax: bool, text: String },
    Panic(String),
}

fn items_of(root: &wasp_compiler::ast::wasp::Root) -> Vec<Item> {
    use wasp_compiler::ast::pest::CallQualifier;
    use wasp_compiler::ast::wasp::*;
    let t = |t: &WasmType| {
        let n = match t {
            WasmType::I32 => "I32",
            WasmType::F32 => "F32",
            WasmType::I64 => "I64",
            WasmType::F64 => "F64",
        };
        // what generated code calls it
        if t.to_string() == n.to_lowercase() { n } else { "a type by another name" }
    };
    root.0
        .iter()
        .map(|d| {
            let mut mutable = None;
            let (kind, params, body): (String, Vec<String>, &String) = match d {
                AdviceDefinition::AdviceGlobal(b) => ("global".into(), vec![], b),
                AdviceDefinition::AdviceTrap(s) => match s {
                    TrapSignature::TrapApply(x) => match &x.apply_hook_signature {
                        ApplyHookSignature::Gen(g) => (
                            format!(
                                "apply-{}",
                                match g.generic_means {
                                    GenericTarget::HighLevel => "high-level",
                                    GenericTarget::Dynamic => "dynamic",
                                    GenericTarget::MutableDynamic => "mutable-dynamic",
                                }
                            ),
                            vec![g.parameter_function.clone(), g.parameter_arguments.clone(), g.parameter_results.clone()],
                            &x.body,
                        ),
                        ApplyHookSignature::Spe(p) => {
                            mutable = Some(p.mutable_signature);
                            let mut v = vec![p.apply_parameter.clone()];
                            v.extend(p.parameters_arguments.iter().map(|a| format!("arg {} {}", a.identifier, t(&a.identifier_type))));
                            v.extend(p.parameters_results.iter().map(|a| format!("res {} {}", a.identifier, t(&a.identifier_type))));
                            ("apply-spe".into(), v, &x.body)
                        }
                    },
                    TrapSignature::TrapCall(x) => (
                        match x.call_qualifier {
                            CallQualifier::Pre => "call-pre".into(),
                            CallQualifier::Post => "call-post".into(),
                        },
                        vec![x.formal_target.0.clone()],
                        &x.body,
                    ),
                    TrapSignature::TrapBlockPre(x) => ("block-pre".into(), vec![], &x.body),
                    TrapSignature::TrapBlockPost(x) => ("block-post".into(), vec![], &x.body),
                    TrapSignature::TrapLoopPre(x) => ("loop-pre".into(), vec![], &x.body),
                    TrapSignature::TrapLoopPost(x) => ("loop-post".into(), vec![], &x.body),
                    TrapSignature::TrapSelect(x) => ("select".into(), vec![x.select_formal_condition.0.clone()], &x.body),
                    TrapSignature::TrapCallIndirectPre(x) => ("call_indirect-pre".into(), vec![x.formal_table.0.clone(), x.formal_index.0.clone()], &x.body),
                    TrapSignature::TrapCallIndirectPost(x) => ("call_indirect-post".into(), vec![x.formal_table.0.clone()], &x.body),
                    TrapSignature::TrapIfThen(x) => ("if_then".into(), vec![x.branch_formal_condition.0.clone()], &x.body),
                    TrapSignature::TrapIfThenElse(x) => ("if_then_else".into(), vec![x.branch_formal_condition.0.clone()], &x.body),
                    TrapSignature::TrapBrIf(x) => ("br_if".into(), vec![x.branch_formal_condition.0.clone(), x.branch_formal_label.0.clone()], &x.body),
                    TrapSignature::TrapBrTable(x) => ("br_table".into(), vec![x.branch_formal_target.0.clone(), x.branch_formal_default.0.clone()], &x.body),
                },
            };
            Item { kind, params, mutable, body: body.clone() }
        })
        .collect()
}

fn joins_said(j: &wasp_compiler::joinpoints::JoinPoints) -> Joins {
    let mut r = Joins::default();
    for (n, b) in [
        ("generic", j.generic),
        ("if_then", j.if_then),
        ("if_then_else", j.if_then_else),
        ("br_if", j.br_if),
        ("br_table", j.br_table),
        ("call-pre", j.call_pre),
        ("call-post", j.call_post),
        ("call_indirect-pre", j.call_indirect_pre),
        ("call_indirect-post", j.call_indirect_post),
        ("block-pre", j.block_pre),
        ("block-post", j.block_post),
        ("loop-pre", j.loop_pre),
        ("loop-post", j.loop_post),
        ("select", j.select),
    ] {
        if b {
            r.flags.insert(n.into());
        }
    }
    r.specialised = j.specialized.iter().map(|s| format!("{s:?}")).collect();
    r
}

/// Calls the real compiler; to be called as simulated code.
fn compile(text: &str) -> Out {
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| wasp_compiler::compile(text)));
    harness(|| match r {
        Ok(Ok(c)) => Out::Ok {
            items: items_of(&c.wasp_root),
            joins: joins_said(&c.join_points),
            helpers: (c.wasp_root.instruments_generic_apply(), c.wasp_root.instruments_if(), c.wasp_root.instruments_call()),
        },
        Ok(Err(e)) => {
            use wasp_compiler::Error;
            Out::Err { syntax: matches!(e, Error::PestError(_) | Error::ConversionError(_)), text: e.to_string() }
        }
        Err(p) => Out::Panic(
            p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_else(|| "?".into()),
        ),
    })
}

fn out_text(o: &Out) -> String {
    match o {
        Out::Ok { items, joins, .. } => format!("ok {} {:?}", serde_json::to_string(items).unwrap(), joins),
        Out::Err { text, .. } => format!("err {text}"),
        Out::Panic(p) => format!("panic {p}"),
    }
}

// ---------------------------------------------------------------- judging

fn quote(s: &str) -> String {
    let t: String = s.chars().take(160).collect();
    format!("{t:?}{}", if s.chars().count() > 160 { "…" } else { "" })
}

#[derive(Default)]
struct Seen {
    as_written: u64,
    inverted: u64,
}

struct Obs {
    thread: usize,
    k: usize,
    text: Option<String>,
    /// the closing parenthesis of the undamaged text is missing from this one
    torn: bool,
    hurt: bool,
    step: Step,
    out: Out,
}

static OBS: Mutex<Vec<Obs>> = Mutex::new(Vec::new());

fn judge_obs(o: &Obs, seen: &mut Seen, v: &mut Vec<Violation>, probes: &mut BTreeMap<String, u64>) {
    let Some(text) = &o.text else {
        *probes.entry("not_utf8".into()).or_insert(0) += 1;
        return;
    };
    let at = format!("thread {} step {}", o.thread, o.k);
    let mut add = |props: &[&str], class: &str, msg: String| {
        for p in props {
            v.push(Violation { prop: (*p).into(), class: class.into(), msg: format!("{at}: {msg}"), caller: None, unit: None });
        }
    };
    let both: &[&str] = if o.hurt { &["C07", "C08"] } else { &["C08"] };
    let reference = read(text);
    let mut p = |s: &str| *probes.entry(s.into()).or_insert(0) += 1;
    match &o.out {
        Out::Panic(e) => add(&["C07", "C08"], "panic", format!("compiling {} panicked: {e}", quote(text))),
        Out::Ok { items, joins, helpers } => {
            if o.torn {
                add(&["C07"], "half-accepted", format!("a text cut short before its closing parenthesis was accepted: {}", quote(text)));
                return;
            }
            let Ok(rf) = reference else {
                add(both, "misread", format!("accepted, although it is not an analysis: {}", quote(text)));
                return;
            };
            if let Some((why, _)) = rf.problems.first() {
                add(both, "accepted-invalid", format!("accepted, although {why}: {}", quote(text)));
                return;
            }
            p(if o.hurt { "damaged_accepted" } else { "intact_accepted" });
            for (a, b) in items.iter().zip(&rf.items) {
                if let (Some(x), Some(y)) = (a.mutable, b.mutable) {
                    if x == y {
                        seen.as_written += 1;
                    } else {
                        seen.inverted += 1;
                    }
                }
            }
            let plain = |l: &[Item]| l.iter().map(|i| Item { mutable: i.mutable.map(|_| false), ..i.clone() }).collect::<Vec<_>>();
            let (got, want) = (plain(items), plain(&rf.items));
            if got != want {
                let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                add(
                    both,
                    "misread",
                    format!(
                        "{} entries written, {} in the result; entry {k} is {} but was written as {}; text {}",
                        want.len(),
                        got.len(),
                        got.get(k).map_or("missing".into(), |i| quote(&format!("{i:?}"))),
                        want.get(k).map_or("nothing".into(), |i| quote(&format!("{i:?}"))),
                        quote(text)
                    ),
                );
                return;
            }
            let wj = joins_of(&rf.items);
            if *joins != wj {
                add(both, "joinpoints", format!("join points {joins:?} reported, needed are {wj:?}; text {}", quote(text)));
            } else if *helpers != helpers_of(&rf.items) {
                add(&["C08"], "helpers", format!("(generic apply, branches, calls) needed: {:?}, reported {helpers:?}; text {}", helpers_of(&rf.items), quote(text)));
            }
        }
        Out::Err { syntax, text: e } => match reference {
            Ok(rf) if rf.problems.is_empty() => {
                add(&["C08"], "rejected-valid", format!("a well-formed analysis was rejected: {} with `{}`", quote(text), quote(e)));
            }
            Ok(rf) => {
                p("semantic_error");
                if *syntax || !rf.problems.iter().any(|(_, words)| words.iter().all(|w| e.contains(w.as_str()))) {
                    let why = rf.problems.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join("; ");
                    add(&["C08"], "unclear-error", format!("{why}; the error does not say so: `{}`; text {}", quote(e), quote(text)));
                }
            }
            Err(_) => p(if o.hurt { "damaged_rejected" } else { "syntax_error" }),
        },
    }
}

// ---------------------------------------------------------------- running

fn steps_of(w: &WaspCase) -> Vec<Vec<Step>> {
    let mut t = w.threads.clone();
    if let Some((lo, hi)) = w.cuts {
        if t.is_empty() {
            t.push(vec![]);
        }
        t[0].extend((lo..hi).map(|a| Step { text: 0, damage: vec![Damage { kind: "cut".into(), a, ..Damage::default() }] }));
    }
    t
}

/// Results of compiling each text alone, twice, in processes of their own with different hash
/// seeds, clocks and environments.
pub fn baselines(case: &Case) -> Option<Vec<[Case; 2]>> {
    let w = case.wasp.as_ref()?;
    if w.scenario != "concurrent" {
        return None;
    }
    Some(
        (0..w.texts.len())
            .map(|k| {
                [0u64, 1].map(|j| {
                    let mut c = case.clone();
                    c.seed = Rng::mix(case.seed ^ 0xba5e, j);
                    c.tape = None;
                    c.env = Env { clock_jumps: j == 1, ..Env::default() };
                    let x = c.wasp.as_mut().unwrap();
                    x.scenario = "alone".into();
                    x.texts = vec![w.texts[k].clone()];
                    x.threads = vec![vec![Step::default()]];
                    x.cuts = None;
                    x.alloc_stride = 0;
                    x.noise = j == 1;
                    c
                })
            })
            .collect(),
    )
}

pub fn run_case(case: &Case, want_log: bool, base: &[[String; 2]]) -> RunResult {
    let wc = case.wasp.as_ref().unwrap();
    let disk = wc.scenario == "disk" || wc.scenario == "intact";
    let mut cfg = case.config();
    cfg.max_steps = 4_000_000;
    cfg.alloc_stride = wc.alloc_stride;
    cfg.env_noise = wc.noise;
    let mut faults = vec![];
    if disk {
        for f in &case.faults {
            faults.push(f.to_sim());
        }
    }
    let mut w = World::new(cfg, faults, HashMap::new());
    if wc.noise {
        w.now = Rng::mix(case.seed, 77) % 4_000_000_000_000_000_000;
    }
    let steps = steps_of(wc);
    let mut fs: Vec<Box<dyn FnOnce() + Send + 'static>> = vec![];
    for (t, st) in steps.iter().enumerate() {
        let path = format!("/work/analysis{t}.wasp");
        let ino = w.add_pre(path.as_bytes(), INodeKind::File, vec![]);
        let st = st.clone();
        let wc = wc.clone();
        fs.push(Box::new(move || {
            for (k, s) in st.iter().enumerate() {
                let (bytes, torn, hurt) = harness(|| {
                    let new = &wc.texts[s.text];
                    let old = wc.texts.get(s.text + 1).or(wc.texts.first()).unwrap();
                    let b = damaged(new, old, &s.damage);
                    let torn = s.damage.len() == 1
                        && s.damage[0].kind == "cut"
                        && match read(new) {
                            Ok(r) if r.problems.is_empty() => s.damage[0].a <= r.close,
                            _ => false,
                        };
                    world().inodes[ino].data = b.clone();
                    let hurt = *new.as_bytes() != b[..];
                    (b, torn, hurt)
                });
                let text = if disk {
                    // through the file system, as a caller of the compiler would
                    set_unit(0);
                    match std::fs::read_to_string(&path) {
                        Ok(t) => {
                            harness(|| assert!(t.as_bytes() == &bytes[..], "harness: what was read is not what is stored"));
                            Some(t)
                        }
                        Err(_) => None,
                    }
                } else {
                    harness(|| String::from_utf8(bytes.clone()).ok())
                };
                harness(|| drop(bytes));
                set_unit(1);
                let out = match &text {
                    Some(t) => compile(t),
                    None => harness(|| Out::Err { syntax: true, text: "not read".into() }),
                };
                set_unit(0);
                harness(|| {
                    let line = out_text(&out);
                    world().ev(format!("t{t} step {k} {:?}{}: {}", s.text, if hurt { " damaged" } else { "" }, quote(&line)));
                    OBS.lock().unwrap().push(Obs { thread: t, k, text, torn, hurt, step: s.clone(), out });
                });
            }
        }));
    }
    let w = run(w, fs);
    let obs = std::mem::take(&mut *OBS.lock().unwrap());
    let mut v: Vec<Violation> = vec![];
    let mut probes: BTreeMap<String, u64> = w.probes.iter().map(|(k, n)| ((*k).to_string(), *n)).collect();
    let mut fired: BTreeMap<String, u64> = BTreeMap::new();
    let mut add = |p: &str, class: &str, msg: String| v.push(Violation { prop: p.into(), class: class.into(), msg, caller: None, unit: None });
    match &w.end {
        End::Completed => {}
        End::Deadlock(s) => {
            add("C07", "stuck", format!("compilation never finishes: {s}"));
            add("C09", "stuck", format!("compilation never finishes: {s}"));
        }
        e => return RunResult { harness_error: Some(format!("unexpected end {e:?}")), ..Default::default() },
    }
    for ((t, u), n) in &w.other_io {
        if *u == 1 {
            add("C09", "io", format!("compilation on thread {t} made {n} file, pipe or process calls"));
        }
    }
    if !w.procs.is_empty() {
        add("C09", "process", "compilation started a process".into());
    }
    let panicked = obs.iter().any(|o| matches!(o.out, Out::Panic(_)));
    if w.stdout_noise > 0 && !panicked {
        add("C09", "io", format!("compilation wrote {} bytes to a standard stream", w.stdout_noise));
    }
    let mut seen = Seen::default();
    let mut hash = w.hash;
    let mut shape: BTreeSet<String> = BTreeSet::new();
    let mut interesting = vec![];
    let mut outcomes = vec![];
    let (mut oks, mut errs) = (0u64, 0u64);
    for o in &obs {
        let line = out_text(&o.out);
        hash = progs::fnv(hash, line.as_bytes());
        judge_obs(o, &mut seen, &mut v, &mut probes);
        for d in &o.step.damage {
            *fired.entry(format!("disk:{}", d.kind)).or_insert(0) += 1;
        }
        if o.hurt {
            interesting.push("damaged".to_string());
        }
        match &o.out {
            Out::Ok { items, .. } => {
                oks += 1;
                for i in items {
                    shape.insert(format!("{}{:?}", i.kind, i.mutable));
                }
                if !items.is_empty() {
                    interesting.push("accepted".into());
                }
            }
            Out::Err { syntax, .. } => {
                errs += 1;
                shape.insert(format!("err{syntax}"));
                if !syntax {
                    interesting.push("semantic".into());
                }
            }
            Out::Panic(_) => {}
        }
        if wc.scenario == "alone" {
            outcomes.push(line);
        } else if wc.scenario == "concurrent" {
            let b = &base[o.step.text];
            if b.iter().any(|x| *x != line) {
                let x = b.iter().find(|x| **x != line).unwrap();
                v.push(Violation {
                    prop: "C09".into(),
                    class: "differs".into(),
                    msg: format!("thread {} step {}: {} gives {} here, alone it gives {}", o.thread, o.k, quote(&wc.texts[o.step.text]), quote(&line), quote(x)),
                    caller: None,
                    unit: None,
                });
            }
        }
    }
    if wc.scenario != "alone" {
        outcomes.push(format!("compilations accepted {}", if oks == 0 { "none" } else if errs == 0 { "all" } else { "some" }));
    }
    if seen.as_written > 0 && seen.inverted > 0 {
        v.push(Violation {
            prop: "C08".into(),
            class: "mutable-mixed".into(),
            msg: format!("of the specialised apply advice, {} have the mutability written, {} the opposite", seen.as_written, seen.inverted),
            caller: None,
            unit: None,
        });
    } else if seen.inverted > 0 {
        v.push(Violation {
            prop: "C08".into(),
            class: "mutable-inverted".into(),
            msg: "every specialised apply advice has the opposite of the mutability written".into(),
            caller: None,
            unit: None,
        });
    }
    if obs.len() > 1 {
        interesting.push("history".into());
    }
    if w.switches > 0 && steps.len() > 1 {
        interesting.push("interleaved".into());
    }
    for f in &w.fired {
        *fired.entry(format!("{:?}:{}", f.site, effect_str(f.effect).split(':').next().unwrap())).or_insert(0) += 1;
    }
    *probes.entry("compilations".into()).or_insert(0) += obs.len() as u64;
    interesting.sort();
    interesting.dedup();
    let mut sh = 0xcbf2_9ce4_8422_2325;
    for s in &shape {
        sh = progs::fnv(sh, s.as_bytes());
    }
    RunResult {
        violations: v,
        tape: w.tape_out.clone(),
        hash,
        sched: w.sched_hash,
        shape: sh,
        steps: w.steps,
        sim_ns: if wc.noise { w.steps * 1000 } else { w.now },
        switches: w.switches,
        fired,
        probes,
        unsupported: w.unsupported.clone(),
        interesting,
        log: if want_log { w.log.clone() } else { vec![] },
        outcomes,
        ..Default::default()
    }
}

// ---------------------------------------------------------------- generating texts

const IDS: [&str; 26] = [
    "func", "args", "results", "a", "b", "c", "d", "cond", "label", "Mut", "pre", "post", "aspect", "global", "advice", "I", "x", "y", "z", "target", "default", "WasmFunction", "Args",
    "table", "index", "f",
];
const TYPES: [&str; 4] = ["I32", "I64", "F32", "F64"];

struct Style {
    tight: bool,
    comments: u64,
    crlf: bool,
    odd: u64,
}

/// What separates words, or is a comment, elsewhere, but not here.
const ODD: [&str; 24] = [
    ";; x\n", "; x\n", "// x\n", "/* x */", "-- x\n", "# x\n", "#! x\n", "(; x ;)", "(* x *)", "{- x -}", "<!-- x -->", "\u{a0}", "\u{feff}", "\u{c}", "\u{b}", "\0", "\u{85}", "\u{2028}",
    "\u{3000}", ",", "#|", "|#", "\\\n", "\u{1a}",
];

fn blank(r: &mut Rng, s: &Style, must: bool) -> String {
    let mut o = String::new();
    if s.odd > 0 && r.chance(s.odd) {
        o += *r.pick(&ODD);
        if r.chance(500) {
            return o;
        }
    }
    if s.tight && !must {
        return o;
    }
    if !must && r.chance(400) {
        return o;
    }
    loop {
        if r.chance(s.comments) {
            o += match r.below(10) {
                0 => "#||#",
                1 => "#| a comment |#",
                2 => "#| ) |#",
                3 => "#| ( |#",
                4 => "#| >>>GUEST>>> |#",
                5 => "#| <<<GUEST<<< ) |#",
                6 => "#| (global >>>GUEST>>> x <<<GUEST<<<) |#",
                7 => "#| # | #| |#",
                8 => "#| 日本\n語 🐇 |#",
                _ => "#|#|#",
            };
        } else {
            o += match r.below(6) {
                0 => "\n",
                1 => "\t",
                2 => "  ",
                3 if s.crlf => "\r\n",
                _ => " ",
            };
        }
        if r.chance(700) {
            return o;
        }
    }
}

fn guest_text(r: &mut Rng) -> String {
    match r.below(20) {
        0 => String::new(),
        1 => " ".into(),
        2 => "\n        ".into(),
        3 => "a #| b ".into(),
        4 => " |# c".into(),
        5 => "#| not a comment |#".into(),
        6 => "<<GUEST<<".into(),
        7 => "x <<<GUES".into(),
        8 => ">>>GUEST>>>".into(),
        9 => "let s = \")\"; // (((".into(),
        10 => "🐌🐇 [ 🔍 / 📝 ] é\u{0}\u{feff}".into(),
        11 => "\r\nwindows\r\n".into(),
        12 => "\u{a0} \u{2003}trimmed?\u{a0}".into(),
        13 => "<".into(),
        14 => "x <<".into(),
        15 => {
            let n = r.range(1, 2000) as usize;
            (0..n).map(|_| *r.pick(&['a', '<', '>', '#', '|', '(', ')', ' ', '\n', 'G', 'é', '🦂'])).collect()
        }
        16 => "(advice call pre (f FunctionIndex)".into(),
        17 => "\tindented\t".into(),
        _ => format!("\n            global_function_count_{} += {};\n        ", r.below(100), r.below(1000)),
    }
}

fn id(r: &mut Rng, used: &mut BTreeSet<String>, dup: u64) -> String {
    if !used.is_empty() && r.chance(dup) {
        let v: Vec<&String> = used.iter().collect();
        return (*r.pick(&v)).clone();
    }
    loop {
        let n = if r.chance(700) {
            (*r.pick(&IDS)).to_string()
        } else {
            let n = if r.chance(50) { 300 } else { r.range(1, 8) };
            (0..n).map(|_| *r.pick(&['a', 'b', 'q', 'Z', 'I', 'F', 'M', 'u', 't'])).collect()
        };
        if used.insert(n.clone()) {
            return n;
        }
    }
}

fn type_name(r: &mut Rng, bad: u64) -> String {
    if r.chance(bad) {
        return (*r.pick(&["FOO", "I8", "I3", "I322", "Int", "V128", "Mut", "Args", "F16", "I32x"])).into();
    }
    (*r.pick(&TYPES)).into()
}

/// One definition. `bad`: permille of each kind of mistake.
fn definition(r: &mut Rng, s: &Style, bad: u64) -> String {
    let mut used = BTreeSet::new();
    let dup = bad;
    let mut t: Vec<String> = vec![];
    let one = |r: &mut Rng, used: &mut BTreeSet<String>, kind: &str| -> Vec<String> {
        let k = if r.chance(bad) { *r.pick(&["Condition", "Label", "Target", "Default", "FunctionIndex", "FunctionTable", "FunctionTableIndex", "Cond", "condition"]) } else { kind };
        vec!["(".into(), id(r, used, dup), k.to_string(), ")".into()]
    };
    let pick = r.below(24);
    match pick {
        0..=2 => t.push("global".into()),
        3..=6 => {
            t.extend(["advice".into(), "apply".into(), "(".into(), id(r, &mut used, dup), "WasmFunction".into(), ")".into()]);
            let (a, b) = if r.chance(bad) {
                let v = ["Args", "DynArgs", "MutDynArgs", "Results", "DynResults", "MutDynResults", "I32", "Arg", "MutArgs"];
                (*r.pick(&v), *r.pick(&v))
            } else {
                *r.pick(&[("Args", "Results"), ("DynArgs", "DynResults"), ("MutDynArgs", "MutDynResults")])
            };
            t.extend(["(".into(), id(r, &mut used, dup), a.into(), ")".into(), "(".into(), id(r, &mut used, dup), b.into(), ")".into()]);
        }
        7..=12 => {
            t.extend(["advice".into(), "apply".into(), "(".into(), id(r, &mut used, dup), "WasmFunction".into(), ")".into()]);
            let m = r.chance(500);
            for _ in 0..2 {
                t.push("(".into());
                let m = if r.chance(bad) { !m } else { m };
                if m {
                    t.push("Mut".into());
                }
                let n = match r.below(8) {
                    0 => r.range(5, 12),
                    1 if r.chance(bad) => 0,
                    _ => r.range(1, 4),
                };
                for _ in 0..n {
                    t.extend(["(".into(), id(r, &mut used, dup), type_name(r, bad), ")".into()]);
                }
                t.push(")".into());
            }
        }
        13 | 14 => {
            t.extend(["advice".into(), "call".into(), (*r.pick(&["pre", "post"])).into()]);
            t.extend(one(r, &mut used, "FunctionIndex"));
        }
        15 => {
            t.extend(["advice".into(), "call_indirect".into(), "pre".into()]);
            t.extend(one(r, &mut used, "FunctionTable"));
            t.extend(one(r, &mut used, "FunctionTableIndex"));
        }
        16 => {
            t.extend(["advice".into(), "call_indirect".into(), "post".into()]);
            t.extend(one(r, &mut used, "FunctionTable"));
        }
        17 => t.extend(["advice".into(), "block".into(), (*r.pick(&["pre", "post"])).into()]),
        18 => t.extend(["advice".into(), "loop".into(), (*r.pick(&["pre", "post"])).into()]),
        19 => {
            t.extend(["advice".into(), "select".into()]);
            t.extend(one(r, &mut used, "Condition"));
        }
        20 | 21 => {
            t.extend(["advice".into(), (*r.pick(&["if_then", "if_then_else"])).into()]);
            t.extend(one(r, &mut used, "Condition"));
        }
        22 => {
            t.extend(["advice".into(), "br_if".into()]);
            t.extend(one(r, &mut used, "Condition"));
            t.extend(one(r, &mut used, "Label"));
        }
        _ => {
            t.extend(["advice".into(), "br_table".into()]);
            t.extend(one(r, &mut used, "Target"));
            t.extend(one(r, &mut used, "Default"));
        }
    }
    if r.chance(bad / 2) {
        let k = r.below(t.len() as u64) as usize;
        match r.below(3) {
            0 => {
                t.remove(k);
            }
            1 => t.insert(k, (*r.pick(&["(", ")", "pre", "x", "Mut", "1", "#|", "|#", "-"])).into()),
            _ => t.insert(k, t[k].clone()),
        }
    }
    written(r, s, &t)
}

fn written(r: &mut Rng, s: &Style, t: &[String]) -> String {
    let mut o = String::from("(");
    o += &blank(r, s, false);
    let mut prev = String::new();
    for x in t {
        // names need a separation from names; keywords do not
        let both = prev.ends_with(|c: char| c.is_ascii_alphanumeric()) && x.starts_with(|c: char| c.is_ascii_alphanumeric());
        let keyword = matches!(prev.as_str(), "advice" | "apply" | "call" | "block" | "loop" | "Mut" | "call_indirect");
        o += &blank(r, s, both && !(keyword && s.tight));
        o += x;
        prev.clone_from(x);
    }
    o += &blank(r, s, false);
    o += ">>>GUEST>>>";
    o += &guest_text(r);
    o += "<<<GUEST<<<";
    o += &blank(r, s, false);
    o.push(')');
    o
}

fn text(r: &mut Rng, max: u64, bad: u64) -> String {
    let odd = if r.chance(bad.min(300)) { 40 } else { 0 };
    let s = Style { tight: r.chance(200), comments: *r.pick(&[0, 0, 100, 400]), crlf: r.chance(300), odd };
    let n = match r.below(8) {
        0 => 0,
        1 | 2 => 1,
        _ => r.range(1, max),
    };
    let mut o = blank(r, &s, false);
    o.push('(');
    o += &blank(r, &s, false);
    o += "aspect";
    let mut last = String::new();
    for _ in 0..n {
        o += &blank(r, &s, false);
        let d = if !last.is_empty() && r.chance(100) { last.clone() } else { definition(r, &s, bad) };
        o += &d;
        last = d;
    }
    o += &blank(r, &s, false);
    o.push(')');
    o += &blank(r, &s, false);
    if r.chance(bad / 3) {
        o.insert_str(0, *r.pick(&["\u{feff}", "#!/usr/bin/wasp\n", "\0", ")", "(module) ", ";; analysis\n", "\u{feff}\u{feff}", "\u{a0}"]));
    }
    if r.chance(bad / 2) {
        o += *r.pick(&[")", "(", "x", "\u{feff}", "(aspect)", "#|", "\u{0}", "\u{c}", "|#"]);
    }
    o
}

/// A name close to `n`, but another one; or, with `same`, `n` itself.
fn near(r: &mut Rng, n: &str, same: bool) -> String {
    if same {
        return n.to_string();
    }
    let flip = |c: char| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
    let mut cs: Vec<char> = n.chars().collect();
    let k = r.below(cs.len() as u64) as usize;
    match r.below(5) {
        0 => cs[k] = flip(cs[k]),
        1 => cs = cs.into_iter().map(flip).collect(),
        2 => cs.push('a'),
        3 if cs.len() > 1 => {
            cs.pop();
        }
        _ => *cs.last_mut().unwrap() = if n.ends_with('q') { 'w' } else { 'q' },
    }
    cs.into_iter().collect()
}

/// An analysis that is right or wrong by a hair: names repeated or nearly so, kinds of access that
/// go together or do not, types that exist or nearly do.
fn hairline(r: &mut Rng) -> String {
    let s = Style { tight: r.chance(200), comments: *r.pick(&[0, 0, 100]), crlf: r.chance(300), odd: 0 };
    let mut used = BTreeSet::new();
    let name = |r: &mut Rng, used: &mut BTreeSet<String>| -> String {
        if r.chance(150) {
            let n = *r.pick(&[15u64, 16, 17, 31, 32, 33, 64, 255, 256, 257]);
            let c = *r.pick(&['a', 'Z', 'm']);
            let t: String = (0..n).map(|k| if k == n / 2 { 'k' } else { c }).collect();
            if used.insert(t.clone()) {
                return t;
            }
        }
        id(r, used, 0)
    };
    let same = r.chance(500);
    let mut t: Vec<String> = vec![];
    let mut p = |l: &[&str]| t.extend(l.iter().map(|x| (*x).to_string()));
    match r.below(9) {
        0 | 1 => {
            // generic application: names
            let mut n: Vec<String> = (0..3).map(|_| name(r, &mut used)).collect();
            let (a, b) = *r.pick(&[(0usize, 1usize), (0, 2), (1, 2)]);
            n[b] = near(r, &n[a], same);
            if r.chance(60) {
                n[0] = n[1].clone();
                n[2] = n[1].clone();
            }
            let (x, y) = *r.pick(&[("Args", "Results"), ("DynArgs", "DynResults"), ("MutDynArgs", "MutDynResults")]);
            p(&["advice", "apply", "(", &n[0], "WasmFunction", ")", "(", &n[1], x, ")", "(", &n[2], y, ")"]);
        }
        2 | 3 => {
            // generic application: kinds of access
            let v = ["Args", "DynArgs", "MutDynArgs", "Results", "DynResults", "MutDynResults"];
            let (x, y) = (*r.pick(&v), *r.pick(&v));
            let n: Vec<String> = (0..3).map(|_| name(r, &mut used)).collect();
            p(&["advice", "apply", "(", &n[0], "WasmFunction", ")", "(", &n[1], x, ")", "(", &n[2], y, ")"]);
        }
        4..=6 => {
            let f = name(r, &mut used);
            let (na, nr) = (r.range(1, 6) as usize, r.range(1, 6) as usize);
            let mut l: Vec<(String, String)> = (0..na + nr).map(|_| (name(r, &mut used), (*r.pick(&TYPES)).to_string())).collect();
            let m = r.chance(500);
            let mut m2 = m;
            let what = r.below(6);
            let mut f2 = f.clone();
            match what {
                0 => {
                    let k = r.below(l.len() as u64) as usize;
                    l[k].0 = near(r, &f, same);
                }
                1 | 2 if l.len() > 1 => {
                    let a = r.below(l.len() as u64) as usize;
                    let b = (a + 1 + r.below(l.len() as u64 - 1) as usize) % l.len();
                    l[b].0 = near(r, &l[a].0.clone(), same);
                }
                3 => {
                    let k = r.below(l.len() as u64) as usize;
                    l[k].1 = (*r.pick(&["I8", "I16", "I63", "F16", "F128", "V128", "I3", "I322", "Externref", "Args", "DynArgs", "Int", "F320", "I64x"])).into();
                }
                4 => m2 = !m,
                _ => f2 = near(r, &f, true),
            }
            p(&["advice", "apply", "(", &f2, "WasmFunction", ")", "("]);
            if m {
                p(&["Mut"]);
            }
            for (n, y) in &l[..na] {
                p(&["(", n, y, ")"]);
            }
            p(&[")", "("]);
            if m2 {
                p(&["Mut"]);
            }
            for (n, y) in &l[na..] {
                p(&["(", n, y, ")"]);
            }
            p(&[")"]);
        }
        _ => {
            let a = name(r, &mut used);
            let b = near(r, &a, same);
            match r.below(3) {
                0 => p(&["advice", "br_if", "(", &a, "Condition", ")", "(", &b, "Label", ")"]),
                1 => p(&["advice", "br_table", "(", &a, "Target", ")", "(", &b, "Default", ")"]),
                _ => p(&["advice", "call_indirect", "pre", "(", &a, "FunctionTable", ")", "(", &b, "FunctionTableIndex", ")"]),
            }
        }
    }
    let this = written(r, &s, &t);
    let n = r.below(4);
    let mut all: Vec<String> = (0..n).map(|_| definition(r, &s, 0)).collect();
    if r.chance(150) {
        // the same name in two different places is no repetition
        all.push(this.clone());
    }
    all.insert(r.below(all.len() as u64 + 1) as usize, this);
    let mut o = String::from("(");
    o += &blank(r, &s, false);
    o += "aspect";
    for d in &all {
        o += &blank(r, &s, false);
        o += d;
    }
    o += &blank(r, &s, false);
    o.push(')');
    o
}

/// A text much like `t`: a cache or a state keyed on too little would mix them up.
fn variant(r: &mut Rng, t: &str) -> String {
    let cs: Vec<char> = t.chars().collect();
    let pos: Vec<usize> = (0..cs.len()).filter(|i| cs[*i].is_ascii_alphanumeric()).collect();
    match r.below(6) {
        0 => format!("{t} "),
        1 => format!("\n{t}"),
        2 | 3 if !pos.is_empty() => {
            let mut c = cs.clone();
            let k = *r.pick(&pos);
            c[k] = if c[k] == 'a' { 'b' } else if c[k] == '3' { '6' } else { 'a' };
            c.into_iter().collect()
        }
        4 => {
            // another kind of number, at every place
            if r.chance(500) {
                t.replace("I32", "F32")
            } else {
                t.replace("pre", "post")
            }
        }
        _ => {
            let k = r.below(cs.len() as u64 + 1) as usize;
            cs[..k].iter().collect()
        }
    }
}

fn damage(r: &mut Rng, len: usize, old: usize) -> Damage {
    let b = *r.pick(&[1usize, 4, 8, 16, 32, 64, 512]);
    let blocks = len.div_ceil(b).max(1) as u64;
    let kind = *r.pick(&["cut", "overwrite", "stale", "stale", "zero", "lost", "lost", "dup", "insert", "swap", "flip", "flip", "byte", "byte", "tail", "twice"]);
    let mut d = Damage { kind: kind.into(), ..Damage::default() };
    match kind {
        "cut" => d.a = r.below(len as u64 + 1) as usize,
        "overwrite" => d.a = r.below(len.max(old) as u64 + 1) as usize,
        "flip" => {
            d.a = r.below(len as u64 + 1) as usize;
            d.b = r.below(8) as usize;
        }
        "byte" => {
            d.a = r.below(len as u64 + 1) as usize;
            d.b = *r.pick(&[b'(', b')', b' ', b'#', b'|', b'<', b'>', 0, b'a', b'3', b'6', b'4', b'I', b'F', b'\n', b'_', b'M', 0xff]) as usize;
        }
        "tail" | "twice" => {}
        _ => {
            d.a = r.below(blocks) as usize;
            d.b = b;
            d.c = r.below(blocks) as usize;
        }
    }
    d
}

fn big_text(r: &mut Rng) -> String {
    let s = Style { tight: true, comments: 0, crlf: false, odd: 0 };
    let mut o = String::from("(aspect");
    match r.below(6) {
        0 => {
            for _ in 0..r.range(300, 2500) {
                o += "(global >>>GUEST>>>x<<<GUEST<<<)";
            }
        }
        1 => o += &format!("(global >>>GUEST>>>{}<<<GUEST<<<)", "<<<GUEST<<".repeat(r.range(100, 3000) as usize)),
        2 => o += &" #| c |#".repeat(r.range(100, 4000) as usize),
        3 => {
            let n = r.range(200, 1500);
            let l = |c: char| (0..n).map(|i| format!("({}{} I32)", c, "abcdefghij".chars().cycle().skip(i as usize % 10).take(1 + i as usize / 10).collect::<String>())).collect::<String>();
            let _ = l;
            // distinct alphabetic names
            let name = |mut k: u64, p: char| {
                let mut t = String::from(p);
                for _ in 0..4 {
                    t.push((b'a' + (k % 26) as u8) as char);
                    k /= 26;
                }
                t
            };
            let a: String = (0..n).map(|k| format!("({} I32)", name(k, 'A'))).collect();
            let b: String = (0..n).map(|k| format!("({} F64)", name(k, 'B'))).collect();
            o += &format!("(advice apply(f WasmFunction)({a})({b})>>>GUEST>>><<<GUEST<<<)");
        }
        4 => o += &format!("(global >>>GUEST>>>{}<<<GUEST<<<)", guest_text(r).repeat(r.range(1, 400) as usize)),
        _ => {
            for _ in 0..r.range(50, 400) {
                o += &definition(r, &s, 0);
            }
        }
    }
    o.push(')');
    o
}

pub fn total(p: &str, tier: &str) -> u64 {
    let (q, t) = match p {
        "C07" => (34_000, 1_000_000),
        "C08" => (130_000, 4_000_000),
        "C09" => (34_000, 1_000_000),
        _ => (0, 0),
    };
    if tier == "thorough" {
        t
    } else {
        q
    }
}

pub fn cases(p: &str, _tier: &str, seed: u64, i: u64) -> (Case, Subs) {
    let pnum = p[1..].parse::<u64>().unwrap_or(0);
    let mut r = Rng::new(Rng::mix(Rng::mix(seed, pnum), i));
    let mut c = Case { prop: p.into(), seed: r.next() >> 11, ..Case::default() };
    let mut w = WaspCase { scenario: "disk".into(), ..WaspCase::default() };
    let plain = |text: usize| Step { text, damage: vec![] };
    match p {
        "C07" => {
            if i % 40 == 17 {
                c.kind = "large".into();
                w.texts = vec![big_text(&mut r), text(&mut r, 3, 0)];
                let n = w.texts[0].len();
                let mut st = vec![plain(0)];
                for _ in 0..6 {
                    st.push(Step { text: 0, damage: vec![damage(&mut r, n, 10)] });
                }
                w.threads = vec![st];
            } else {
                let bad = if r.chance(100) { 60 } else { 0 };
                let max = if r.chance(300) { 2 } else { 6 };
                w.texts = vec![if bad > 0 && r.chance(500) { hairline(&mut r) } else { text(&mut r, max, bad) }];
                let o = if r.chance(500) { variant(&mut r, &w.texts[0]) } else { text(&mut r, 6, 0) };
                w.texts.push(o);
                let n = w.texts[0].len();
                let old = w.texts[1].len();
                if i % 3 == 0 {
                    c.kind = "crash-at-every-byte".into();
                    w.cuts = Some((n.saturating_sub(600), n + 1));
                } else {
                    c.kind = "corrupted".into();
                    let mut st = vec![plain(0)];
                    for _ in 0..120 {
                        let k = if r.chance(700) { 1 } else { r.range(2, 4) };
                        st.push(Step { text: 0, damage: (0..k).map(|_| damage(&mut r, n, old)).collect() });
                    }
                    w.threads = vec![st];
                }
                if r.chance(150) {
                    let k = r.range(1, 3);
                    for _ in 0..k {
                        let e = *r.pick(&[Effect::Eintr(2), Effect::Short(1), Effect::Short(7), Effect::Errno(libc::EIO)]);
                        c.faults.push(FaultJ::new(0, 0, Site::Read, r.below(60) as u32, e));
                    }
                }
            }
        }
        "C08" => {
            c.kind = "analyses".into();
            w.scenario = "intact".into();
            let bad = *r.pick(&[0, 0, 30, 100, 200]);
            let n = r.range(6, 24) as usize;
            for _ in 0..n {
                let max = r.range(1, 9);
                let t = if r.chance(350) { hairline(&mut r) } else { text(&mut r, max, bad) };
                w.texts.push(t);
            }
            // at least one specialised advice of either kind
            w.texts.push("(aspect (advice apply (f WasmFunction) ((a I32)) ((b I64)) >>>GUEST>>><<<GUEST<<<)(advice apply (f WasmFunction) (Mut (a I32)) (Mut (b I64)) >>>GUEST>>><<<GUEST<<<))".into());
            let mut st: Vec<Step> = (0..w.texts.len()).map(plain).collect();
            for _ in 0..r.below(6) {
                let t = r.below(n as u64) as usize;
                let len = w.texts[t].len();
                st.push(if r.chance(500) { plain(t) } else { Step { text: t, damage: vec![damage(&mut r, len, len)] } });
            }
            if i % 97 == 5 {
                w.texts.push(big_text(&mut r));
                st.push(plain(w.texts.len() - 1));
            }
            w.threads = vec![st];
        }
        _ => {
            w.scenario = "concurrent".into();
            let bad = *r.pick(&[0, 50, 150, 400]);
            let max = r.range(1, 5);
            w.texts = vec![if r.chance(250) { hairline(&mut r) } else { text(&mut r, max, bad) }];
            let n = r.range(1, 4);
            for _ in 0..n {
                let t = match r.below(8) {
                    0 | 1 => text(&mut r, 5, bad),
                    2 => hairline(&mut r),
                    _ => {
                        let k = r.below(w.texts.len() as u64) as usize;
                        let b = w.texts[k].clone();
                        variant(&mut r, &b)
                    }
                };
                w.texts.push(t);
            }
            let nt = match r.below(4) {
                0 => 1,
                1 | 2 => 2,
                _ => r.range(3, 4),
            };
            c.kind = if nt == 1 { "history".into() } else { "concurrent".into() };
            for _ in 0..nt {
                let k = r.range(2, 7);
                w.threads.push((0..k).map(|_| plain(r.below(w.texts.len() as u64) as usize)).collect());
            }
            w.alloc_stride = *r.pick(&[1, 2, 5, 20]);
            w.noise = r.chance(500);
            c.env.preempt = *r.pick(&[20, 100, 300, 900]);
            c.env.same_rng = r.chance(300);
            c.env.clock_jumps = r.chance(500);
        }
    }
    c.wasp = Some(w);
    (c, Box::new(|_, _| vec![]))
}

pub fn nontrivial(p: &str, _c: &Case, r: &RunResult) -> bool {
    let has = |s: &str| r.interesting.iter().any(|x| x == s);
    match p {
        "C07" => has("damaged"),
        "C08" => has("accepted") || has("semantic"),
        _ => has("history"),
    }
}

pub fn rule(p: &str) -> &'static str {
    match p {
        "C07" => "a run takes one generated analysis on a simulated disk and compiles it (through the simulated file system) as it stands after each of up to 600 crash points, or after 120 random corruptions (torn in-place overwrites, lost, zeroed, stale, duplicated, swapped or misplaced blocks, flipped bits, changed bytes, old tails); every 40th run uses texts of up to some 100 kB; non-trivial: at least one damaged text was compiled; distinct: by hash of all results",
        "C08" => "a run compiles 7-30 generated analyses one after the other (every kind of advice, names, type lists, spacing, comments, guest texts, and with some probability repeated names, wrong types, mixed access kinds and broken syntax; some damaged on disk); non-trivial: one was accepted with entries or rejected for its meaning; distinct: by hash of all results",
        _ => "a run compiles a pool of 2-5 similar analyses (valid and invalid) 2-7 times on each of 1-4 threads, with scheduling points at allocations, locks and thread operations, random hash seeds, clock and environment; every result is compared with those of processes that compile only that text; non-trivial: more than one compilation; distinct: by hash of event log and results",
    }
}

// ---------------------------------------------------------------- shrinking

pub fn shrinks(c: &Case) -> Vec<Case> {
    let mut out: Vec<Case> = vec![];
    let w = c.wasp.as_ref().unwrap();
    let mut push = |f: &dyn Fn(&mut Case)| {
        let mut n = c.clone();
        n.tape = None;
        f(&mut n);
        if n != *c {
            out.push(n);
        }
    };
    fn m(n: &mut Case) -> &mut WaspCase {
        n.wasp.as_mut().unwrap()
    }
    if let Some((lo, hi)) = w.cuts {
        push(&|n| m(n).cuts = None);
        let mid = lo + (hi - lo) / 2;
        if hi - lo > 1 {
            push(&|n| m(n).cuts = Some((lo, mid)));
            push(&|n| m(n).cuts = Some((mid, hi)));
        }
    }
    if w.threads.len() > 1 {
        for k in 0..w.threads.len() {
            push(&|n| {
                m(n).threads.remove(k);
            });
        }
    }
    for (t, st) in w.threads.iter().enumerate() {
        let mut size = st.len() / 2;
        while size >= 1 {
            let mut at = 0;
            while at < st.len() {
                let end = (at + size).min(st.len());
                if end - at < st.len() {
                    push(&|n| {
                        m(n).threads[t].drain(at..end);
                    });
                }
                at = end;
            }
            size /= 2;
        }
        for (k, s) in st.iter().enumerate().take(12) {
            for d in 0..s.damage.len() {
                push(&|n| {
                    m(n).threads[t][k].damage.remove(d);
                });
            }
        }
    }
    push(&|n| n.faults.clear());
    push(&|n| m(n).noise = false);
    push(&|n| n.env = Env { preempt: n.env.preempt, ..Env::default() });
    push(&|n| n.env.preempt = 0);
    push(&|n| m(n).alloc_stride = 0);
    // a damaged text can as well be the text
    for (t, st) in w.threads.iter().enumerate().take(4) {
        for (k, s) in st.iter().enumerate().take(4) {
            if s.damage.is_empty() {
                continue;
            }
            let old = w.texts.get(s.text + 1).or(w.texts.first()).unwrap();
            if let Ok(x) = String::from_utf8(damaged(&w.texts[s.text], old, &s.damage)) {
                push(&|n| {
                    let i = m(n).texts.len();
                    m(n).texts.push(x.clone());
                    m(n).threads[t][k] = Step { text: i, damage: vec![] };
                });
            }
        }
    }
    let used: BTreeSet<usize> = steps_of(w).iter().flatten().map(|s| s.text).collect();
    for (k, t) in w.texts.iter().enumerate() {
        if t.is_empty() {
            continue;
        }
        if !used.contains(&k) {
            push(&|n| m(n).texts[k] = String::new());
            if !(used.iter().any(|u| u + 1 == k)) {
                continue;
            }
        }
        let ch: Vec<char> = t.chars().collect();
        let mut size = ch.len().div_ceil(2);
        loop {
            let mut at = 0;
            while at < ch.len() {
                let end = (at + size).min(ch.len());
                let x: String = ch[..at].iter().chain(&ch[end..]).collect();
                push(&|n| m(n).texts[k] = x.clone());
                at = end;
            }
            if size <= 1 || ch.len() / size > 400 {
                break;
            }
            size = size.div_ceil(2);
        }
    }
    out
}
