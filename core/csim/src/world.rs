//! The outside of a program: a scripted host and a scripted analysis, the same for the original
//! program (where the machine's tracer calls the analysis) and for the instrumented one (where the
//! code the instrumenter emitted calls it). What happens is a list of events; the second run is held
//! to the list of the first while it proceeds.

use crate::hooks::H;
use crate::ops::{self, Bi, Ld, St, Un};
use crate::prog::Tape;
use crate::wasm::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

// ---------------------------------------------------------------- scripts

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Call {
    /// call through an exported table instead of an export
    pub table: bool,
    pub func: u32,
    pub args: Vec<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Touch {
    Mem(u32, u8),
    Global(u32, u64),
    Table(u32, u32, u32),
    MemGrow(u32),
    TableGrow(u32, u32),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct HostAct {
    pub touch: Vec<Touch>,
    pub nested: Option<Call>,
    /// go on if the nested call traps
    pub catch: bool,
    pub trap: bool,
    pub results: Vec<u64>,
}

/// every notification of a hook
pub const EVERY: u32 = u32::MAX;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sub {
    pub h: H,
    pub nth: u32,
    pub bits: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Base,
    SetArg(u32, u64),
    SetRes(u32, u64),
    SetAll(u64),
    /// run the base function of the enclosing application once more
    Outer,
    Trap,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Script {
    pub calls: Vec<Call>,
    pub host: Vec<HostAct>,
    /// by request to grow the program's memory: refuse?
    pub refuse: Vec<bool>,
    pub imports: Vec<u64>,
    /// what the analysis does: values it returns instead, notifications at which it traps
    pub subs: Vec<Sub>,
    pub hook_traps: Vec<u32>,
    pub applies: Vec<Vec<Step>>,
}

pub struct Knobs {
    pub subs: u32,
    pub hook_traps: u32,
    pub applies: u32,
    pub host_faults: u32,
}

fn bits(t: &mut Tape) -> u64 {
    let ty = t.pick(&crate::prog::NUM);
    crate::prog::value(t, ty)
}

fn call(t: &mut Tape) -> Call {
    let table = t.chance(120);
    let func = t.below(1 << 16);
    let n = t.below(5);
    Call { table, func, args: (0..n).map(|_| bits(t)).collect() }
}

impl Script {
    pub fn draw(t: &mut Tape, k: &Knobs, on: &[H]) -> Script {
        let mut s = Script::default();
        for _ in 0..=t.below(5) {
            s.calls.push(call(t));
        }
        for _ in 0..t.below(6) {
            let mut a = HostAct::default();
            if t.chance(k.host_faults) {
                for _ in 0..t.below(3) {
                    a.touch.push(match t.below(5) {
                        0 => Touch::Mem(t.below(70_000), t.below(256) as u8),
                        1 => Touch::Global(t.below(8), bits(t)),
                        2 => Touch::Table(t.below(4), t.below(8), t.below(10)),
                        3 => Touch::MemGrow(t.below(3)),
                        _ => Touch::TableGrow(t.below(4), t.below(3)),
                    });
                }
                if t.chance(450) {
                    a.nested = Some(call(t));
                    a.catch = t.chance(500);
                }
                a.trap = t.chance(200);
            }
            for _ in 0..t.below(4) {
                a.results.push(bits(t));
            }
            s.host.push(a);
        }
        for _ in 0..t.below(4) {
            s.refuse.push(t.chance(400));
        }
        for _ in 0..t.below(4) {
            s.imports.push(bits(t));
        }
        if t.chance(k.subs) && !on.is_empty() {
            for _ in 0..=t.below(6) {
                s.subs.push(Sub { h: t.pick(on), nth: [0, 1, 2, 5, 20][t.weighted(&[6, 4, 3, 2, 1])], bits: bits(t) });
            }
        }
        if t.chance(k.hook_traps) {
            s.hook_traps.push(t.below(120));
        }
        if t.chance(k.applies) {
            for _ in 0..=t.below(8) {
                let mut v = vec![];
                for _ in 0..t.below(5) {
                    v.push(match t.weighted(&[6, 3, 3, 2, 2, 1]) {
                        0 => Step::Base,
                        1 => Step::SetArg(t.below(9), bits(t)),
                        2 => Step::SetRes(t.below(6), bits(t)),
                        3 => Step::SetAll(bits(t)),
                        4 => Step::Outer,
                        _ => Step::Trap,
                    });
                }
                s.applies.push(v);
            }
        }
        s
    }
}

// ---------------------------------------------------------------- events

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Started,
    Enter,
    Nested,
    Ret,
    Trapped(Trap),
    Host(u32),
    HostTrap,
    Hook(H),
    HookTrap,
    Apply,
    Applied,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ev(pub K, pub Vec<u64>);

impl std::fmt::Display for Ev {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)?;
        for x in &self.1 {
            write!(f, " {x:#x}")?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- worlds

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum HostId {
    Prog(u32),
    Hook(H),
    Apply,
    /// what the instrumented program exports to the analysis
    Base(u32),
    Unknown,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Side {
    /// the original; the analysis is called by the tracer
    Reference,
    /// what the instrumenter made of it
    Instrumented,
}

struct Frame {
    /// reference: the function itself
    inner: usize,
    args: Vec<V>,
    results: Vec<V>,
    init: bool,
    /// instrumented
    f_apply: u32,
    sigv: u32,
    sigtypv: u32,
    tys: Vec<Ty>,
    n_res: usize,
}

/// Functions that are said to depend on nothing but their arguments: called now and then, with the
/// same arguments, to see whether they do.
#[derive(Default)]
pub struct Watch {
    /// index, address, argument lists with what the first call gave
    pub funcs: Vec<(u32, usize, Vec<(Vec<V>, Option<Result<Vec<V>, Trap>>)>)>,
    pub bad: Option<(&'static str, String)>,
    pub calls: u64,
    pub unfinished: u64,
    probing: bool,
    turn: usize,
}

pub struct World<'a> {
    pub watch: Option<Watch>,
    /// what a real analysis was told, and whether it was about to happen (false) or had happened (true)
    pub notes: Option<Vec<(H, bool, Vec<V>)>>,
    /// traps of any kind count as the same
    pub loose: bool,
    /// turn what is not a number into zero, as the analysis says it does
    pub denan: bool,
    /// trap at accesses out of bounds or not aligned, as the analysis says it does
    pub safe_heap: bool,
    bases: Vec<String>,
    pub analysis: HashMap<String, usize>,
    pub script: &'a Script,
    pub side: Side,
    pub target: usize,
    pub log_hooks: bool,
    pub log: Vec<Ev>,
    pub expect: Option<&'a [Ev]>,
    pub pos: usize,
    pub diverged: Option<String>,
    pub max_events: usize,
    pub counts: BTreeMap<&'static str, u64>,
    pub hook_counts: BTreeMap<H, u32>,
    /// where the frame of the first application after entering the program was put
    pub root: Option<(u32, u32)>,
    orig: Rc<Module>,
    hosts: Vec<HostId>,
    visible: Vec<Extern>,
    entries: Vec<usize>,
    exports: HashMap<String, usize>,
    stack: HashMap<String, usize>,
    prog_mem: Option<usize>,
    frames: Vec<Frame>,
    host_n: usize,
    grow_n: usize,
    hook_n: u32,
    apply_n: usize,
}

fn fnv(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23)
}

fn load_name(op: Ld) -> &'static str {
    match op {
        Ld::I32Load => "i32",
        Ld::I64Load => "i64",
        Ld::F32Load => "f32",
        Ld::F64Load => "f64",
        Ld::I32Load8S => "i32_8S",
        Ld::I32Load8U => "i32_8U",
        Ld::I32Load16S => "i32_16S",
        Ld::I32Load16U => "i32_16U",
        Ld::I64Load8S => "i64_8S",
        Ld::I64Load8U => "i64_8U",
        Ld::I64Load16S => "i64_16S",
        Ld::I64Load16U => "i64_16U",
        Ld::I64Load32S => "i64_32S",
        Ld::I64Load32U => "i64_32U",
    }
}

fn store_name(op: St) -> &'static str {
    match op {
        St::I32Store => "i32",
        St::I64Store => "i64",
        St::F32Store => "f32",
        St::F64Store => "f64",
        St::I32Store8 => "i32_8",
        St::I32Store16 => "i32_16",
        St::I64Store8 => "i64_8",
        St::I64Store16 => "i64_16",
        St::I64Store32 => "i64_32",
    }
}

/// Codes of types as an analysis reads them.
fn type_code(t: Ty) -> u32 {
    match t {
        Ty::I32 => 0,
        Ty::F32 => 1,
        Ty::I64 => 2,
        Ty::F64 => 3,
        Ty::Func => 4,
        Ty::Extern => 5,
    }
}

fn code_type(c: u32) -> Option<Ty> {
    Some(match c {
        0 => Ty::I32,
        1 => Ty::F32,
        2 => Ty::I64,
        3 => Ty::F64,
        _ => return None,
    })
}

/// The parts of an instrumented program.
pub struct Parts {
    pub target: Rc<Module>,
    pub stack: Option<Rc<Module>>,
    /// a real analysis instead of the scripted one
    pub analysis: Option<Rc<Module>>,
}

impl<'a> World<'a> {
    /// Puts the program and its surroundings together. An error means the parts do not fit.
    pub fn new(m: &mut Machine, orig: &Rc<Module>, script: &'a Script, trace: Option<Rc<Trace>>, parts: Option<&Parts>) -> Result<World<'a>, String> {
        let mut w = World {
            watch: None,
            notes: None,
            loose: false,
            denan: false,
            safe_heap: false,
            bases: vec![],
            analysis: HashMap::new(),
            script,
            side: if parts.is_some() { Side::Instrumented } else { Side::Reference },
            target: 0,
            log_hooks: true,
            log: vec![],
            expect: None,
            pos: 0,
            diverged: None,
            max_events: 40_000,
            counts: BTreeMap::new(),
            hook_counts: BTreeMap::new(),
            root: None,
            orig: orig.clone(),
            hosts: vec![],
            visible: vec![],
            entries: vec![],
            exports: HashMap::new(),
            stack: HashMap::new(),
            prog_mem: None,
            frames: vec![],
            host_n: 0,
            grow_n: 0,
            hook_n: 0,
            apply_n: 0,
        };
        // what the host provides, by name
        let mut given: HashMap<(String, String), Extern> = HashMap::new();
        let mut n = 0usize;
        let mut next = |t: Ty| {
            let b = script.imports.get(n).copied().unwrap_or(n as u64 + 1);
            n += 1;
            V::from_bits(t, b)
        };
        for (k, (ns, name, what)) in orig.imports.iter().enumerate() {
            let key = (ns.clone(), name.clone());
            if given.contains_key(&key) {
                continue;
            }
            let x = match what {
                Ext_::Func(t) => {
                    let a = m.host_func(orig.types[*t as usize].clone(), w.hosts.len());
                    w.hosts.push(HostId::Prog(k as u32));
                    Extern::Func(a)
                }
                Ext_::Table(t, min, max) => {
                    m.tables.push(Table { ty: *t, v: vec![t.zero(); *min as usize], max: *max });
                    Extern::Table(m.tables.len() - 1)
                }
                Ext_::Mem(min, max) => {
                    m.mems.push(Mem { v: vec![0; *min as usize * PAGE], max: *max });
                    Extern::Mem(m.mems.len() - 1)
                }
                Ext_::Global(t, mu) => {
                    m.globals.push((next(*t), *mu));
                    Extern::Global(m.globals.len() - 1)
                }
            };
            if !matches!(x, Extern::Func(_)) {
                w.visible.push(x);
            }
            given.insert(key, x);
        }
        let (module, trace) = match parts {
            None => (orig.clone(), trace),
            Some(p) => {
                if let Some(s) = &p.stack {
                    if !s.imports.is_empty() {
                        return Err("the stack library has imports".into());
                    }
                    let i = m.alloc(s, &[], None)?;
                    for (name, k, idx) in &s.exports {
                        if *k == Kind::Func {
                            w.stack.insert(name.clone(), m.insts[i].funcs[*idx as usize]);
                        }
                    }
                }
                if let Some(a) = &p.analysis {
                    let mut given = vec![];
                    for (ns, name, what) in &a.imports {
                        let Ext_::Func(t) = what else { return Err(format!("the analysis imports {ns}.{name}, which is no function")) };
                        let from_stack = (ns == "wastrumentation_stack").then(|| w.stack.get(name)).flatten();
                        given.push(Extern::Func(match from_stack {
                            Some(f) => *f,
                            None => {
                                let f = m.host_func(a.types[*t as usize].clone(), w.hosts.len());
                                if ns == "instrumented_input" {
                                    w.hosts.push(HostId::Base(w.bases.len() as u32));
                                    w.bases.push(name.clone());
                                } else {
                                    w.hosts.push(HostId::Unknown);
                                }
                                f
                            }
                        }));
                    }
                    m.roomy = Some(m.insts.len());
                    let i = m.alloc(a, &given, None).map_err(|e| format!("the analysis: {e}"))?;
                    for (name, k, idx) in &a.exports {
                        if *k == Kind::Func {
                            w.analysis.insert(name.clone(), m.insts[i].funcs[*idx as usize]);
                        }
                    }
                }
                (p.target.clone(), None)
            }
        };
        let real = parts.is_some_and(|p| p.analysis.is_some());
        let mut imports = vec![];
        for (ns, name, what) in &module.imports {
            let x = match (parts.is_some(), ns.as_str()) {
                (true, "WASTRUMENTATION_ANALYSIS") if real => match w.analysis.get(name) {
                    Some(a) => Extern::Func(*a),
                    None => return Err(format!("import of {ns}.{name}, which the analysis does not provide")),
                },
                (true, "WASTRUMENTATION_ANALYSIS") => {
                    let Ext_::Func(t) = what else { return Err(format!("import {ns}.{name} is no function")) };
                    let id = if name == "generic_apply" { HostId::Apply } else { H::by_name(name).map_or(HostId::Unknown, HostId::Hook) };
                    if id == HostId::Unknown {
                        return Err(format!("import of {ns}.{name}, which no analysis provides"));
                    }
                    let a = m.host_func(module.types[*t as usize].clone(), w.hosts.len());
                    w.hosts.push(id);
                    Extern::Func(a)
                }
                (true, "wastrumentation_stack") => match w.stack.get(name) {
                    Some(a) => Extern::Func(*a),
                    None => return Err(format!("import of {ns}.{name}, which the stack library does not provide")),
                },
                _ => match given.get(&(ns.clone(), name.clone())) {
                    Some(x) => *x,
                    None => return Err(format!("import of {ns}.{name}, which the host does not provide")),
                },
            };
            imports.push(x);
        }
        w.target = m.alloc(&module, &imports, trace)?;
        if let Some(a) = m.insts[w.target].mems.first() {
            w.prog_mem = Some(*a);
        }
        for (name, k, idx) in &module.exports {
            if *k == Kind::Func {
                w.exports.insert(name.clone(), m.insts[w.target].funcs[*idx as usize]);
            }
        }
        for (k, (name, kind, _)) in orig.exports.iter().enumerate() {
            let Some(x) = m.export(w.target, name) else { return Err(format!("export {name} is gone")) };
            let fits = match (x, kind) {
                (Extern::Func(a), Kind::Func) => {
                    let want = orig.fty(orig.exports[k].2);
                    if *m.funcs[a].ty != *want {
                        return Err(format!("export {name} has another type"));
                    }
                    w.entries.push(a);
                    true
                }
                (Extern::Mem(_), Kind::Mem) | (Extern::Table(_), Kind::Table) | (Extern::Global(_), Kind::Global) => {
                    w.visible.push(x);
                    true
                }
                _ => false,
            };
            if !fits {
                return Err(format!("export {name} is of another kind"));
            }
        }
        Ok(w)
    }

    fn count(&mut self, what: &'static str) {
        *self.counts.entry(what).or_insert(0) += 1;
    }

    fn ev(&mut self, k: K, a: Vec<u64>) -> Result<(), Trap> {
        if self.diverged.is_some() {
            return Err(Trap::Events);
        }
        let e = Ev(k, a);
        match self.expect {
            None => {
                self.log.push(e);
                if self.log.len() > self.max_events {
                    return Err(Trap::Events);
                }
                Ok(())
            }
            Some(x) => {
                let same = |x: &Ev| *x == e || (self.loose && matches!((x.0, e.0), (K::Trapped(_), K::Trapped(_))) && x.1 == e.1);
                if x.get(self.pos).is_some_and(same) {
                    self.pos += 1;
                    Ok(())
                } else {
                    let was = x.get(self.pos).map_or("nothing more".to_string(), ToString::to_string);
                    self.diverge(format!("event {}: {e} where the original has {was}", self.pos))
                }
            }
        }
    }

    fn diverge<T>(&mut self, s: String) -> Result<T, Trap> {
        self.diverged.get_or_insert(s);
        Err(Trap::Events)
    }

    fn code(&self, m: &Machine, v: V) -> u64 {
        match v {
            // who a function is cannot be observed, short of calling it
            V::Func(Some(a)) => {
                let t = &m.funcs[a].ty;
                let mut h = 7;
                for x in &t.params {
                    h = fnv(h, *x as u64 + 1);
                }
                h = fnv(h, 99);
                for x in &t.results {
                    h = fnv(h, *x as u64 + 1);
                }
                h | (1 << 63)
            }
            v => v.bits(),
        }
    }

    fn codes(&self, m: &Machine, v: &[V]) -> Vec<u64> {
        let mut tags = 1u64;
        for x in v {
            tags = tags.wrapping_mul(8) + x.ty() as u64 + 1;
        }
        std::iter::once(tags).chain(v.iter().map(|x| self.code(m, *x))).collect()
    }

    /// Everything the host can look at.
    fn state(&self, m: &Machine) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325;
        for x in &self.visible {
            match x {
                Extern::Func(_) => (),
                Extern::Global(g) => h = fnv(h, self.code(m, m.globals[*g].0)),
                Extern::Table(t) => {
                    h = fnv(h, m.tables[*t].v.len() as u64);
                    for v in &m.tables[*t].v {
                        h = fnv(h, self.code(m, *v));
                    }
                }
                Extern::Mem(a) => {
                    let v = &m.mems[*a].v;
                    h = fnv(h, v.len() as u64);
                    for (i, c) in v.chunks_exact(8).enumerate() {
                        let x = u64::from_le_bytes(c.try_into().expect("eight"));
                        if x != 0 {
                            h = fnv(fnv(h, i as u64), x);
                        }
                    }
                }
            }
        }
        h
    }

    fn value(&self, t: Ty, b: u64) -> V {
        match t {
            Ty::Func => {
                let n = self.entries.len() as u64 + 1;
                let k = b % n;
                if k == 0 {
                    V::Func(None)
                } else {
                    V::Func(Some(self.entries[k as usize - 1]))
                }
            }
            Ty::Extern => V::Extern((b % 4).checked_sub(1).map(|x| x as u32)),
            t => V::from_bits(t, b),
        }
    }

    fn resolve(&self, m: &Machine, c: &Call) -> Option<usize> {
        if c.table {
            let all: Vec<usize> = self
                .visible
                .iter()
                .filter_map(|x| match x {
                    Extern::Table(t) => Some(*t),
                    _ => None,
                })
                .flat_map(|t| m.tables[t].v.iter())
                .filter_map(|v| match v {
                    V::Func(Some(a)) => Some(*a),
                    _ => None,
                })
                .collect();
            if !all.is_empty() {
                return Some(all[c.func as usize % all.len()]);
            }
        }
        if self.entries.is_empty() {
            return None;
        }
        Some(self.entries[c.func as usize % self.entries.len()])
    }

    fn args(&self, ty: &FTy, given: &[u64]) -> Vec<V> {
        ty.params.iter().enumerate().map(|(i, t)| self.value(*t, given.get(i).copied().unwrap_or(i as u64 + 1))).collect()
    }

    fn enter(&mut self, m: &mut Machine, c: &Call, k: K) -> Result<Vec<V>, Trap> {
        let Some(f) = self.resolve(m, c) else { return Ok(vec![]) };
        let ty = m.funcs[f].ty.clone();
        let args = self.args(&ty, &c.args);
        let mut e = vec![self.code(m, V::Func(Some(f)))];
        e.extend(self.codes(m, &args));
        self.ev(k, e)?;
        let (depth, frames) = (m.depth, self.frames.len());
        let r = m.call(self, f, &args);
        m.depth = depth;
        self.frames.truncate(frames);
        match &r {
            Ok(v) => {
                let mut e = self.codes(m, v);
                e.push(self.state(m));
                self.ev(K::Ret, e)?;
            }
            Err(t) if t.is_limit() => (),
            Err(t) => {
                self.count("call_trapped");
                let s = self.state(m);
                self.ev(K::Trapped(*t), vec![s])?;
            }
        }
        r
    }

    /// Sets up the watch over functions (by index) of the program.
    pub fn watch(&mut self, m: &mut Machine, funcs: &[u32], args: &[u64]) {
        let mut w = Watch::default();
        m.guarded = vec![false; m.funcs.len()];
        for f in funcs {
            let a = m.insts[self.target].funcs[*f as usize];
            m.guarded[a] = true;
            let ty = m.funcs[a].ty.clone();
            let lists = [0usize, 3, 7].map(|k| {
                let v: Vec<u64> = (0..ty.params.len()).map(|i| if k == 0 { i as u64 + 2 } else { args.get((i + k) % args.len().max(1)).copied().unwrap_or(k as u64) }).collect();
                (self.args(&ty, &v), None)
            });
            w.funcs.push((*f, a, lists.to_vec()));
        }
        self.watch = Some(w);
    }

    fn probe(&mut self, m: &mut Machine) {
        let Some(mut w) = self.watch.take() else { return };
        if w.probing || w.bad.is_some() || w.funcs.is_empty() || m.guard > 0 {
            self.watch = Some(w);
            return;
        }
        w.probing = true;
        let turn = w.turn;
        w.turn += 1;
        let n = w.funcs.len();
        for k in 0..n.min(5) {
            let (idx, addr, lists) = &mut w.funcs[(turn * 5 + k) % n];
            let at = turn % lists.len();
            let (args, first) = &mut lists[at];
            let before = m.all_state();
            let (steps, max, depth, limit, touches, frames) = (m.steps, m.max_steps, m.depth, m.max_depth, m.touches, self.frames.len());
            let (hosts, events) = (self.host_n, self.log.len());
            m.max_steps = steps + 20_000;
            m.max_depth = depth + 80;
            self.watch = Some(Watch { probing: true, ..Default::default() });
            let r = m.call(self, *addr, args);
            self.watch = None;
            m.steps = steps;
            m.max_steps = max;
            m.depth = depth;
            m.max_depth = limit;
            self.frames.truncate(frames);
            w.calls += 1;
            let say = |s: String| format!("function {idx}, called with {args:?} after {events} events: {s}");
            if self.host_n != hosts {
                w.bad = Some(("calls-host", say("calls the host".into())));
            } else if m.touches != touches {
                w.bad = Some(("touches-state", say(format!("accesses {}", m.touched))));
            } else if m.all_state() != before {
                w.bad = Some(("changes-state", say("changes state".into())));
            } else if matches!(r, Err(t) if t.is_limit()) {
                w.unfinished += 1;
            } else {
                match first {
                    None => *first = Some(r),
                    Some(x) if *x != r => w.bad = Some(("depends-on-state", say(format!("gives {r:?}, gave {x:?} before")))),
                    Some(_) => (),
                }
            }
            if w.bad.is_some() {
                break;
            }
        }
        w.probing = false;
        self.watch = Some(w);
    }

    /// Enters the program by the first call of the script again and again, as long as nothing traps. Where the
    /// frame of the entry was put, round by round.
    pub fn rounds(&mut self, m: &mut Machine, n: usize) -> Vec<(u32, u32)> {
        let mut v = vec![];
        for i in 0..m.insts.len() {
            if m.start(self, i).is_err() {
                return v;
            }
        }
        let Some(c) = self.script.calls.first() else { return v };
        for _ in 0..n {
            self.root = None;
            self.log.clear();
            if self.enter(m, c, K::Enter).is_err() || self.log.iter().any(|e| matches!(e.0, K::Trapped(_))) {
                break;
            }
            let Some(r) = self.root else { break };
            v.push(r);
        }
        v
    }

    /// Instantiates the program and goes through the calls of the script. False if a limit was hit.
    pub fn drive(&mut self, m: &mut Machine) -> bool {
        for i in 0..m.insts.len() {
            let r = m.start(self, i);
            if i != self.target {
                if r.is_err() {
                    self.diverged.get_or_insert(format!("the stack library does not start: {r:?}"));
                    return true;
                }
                continue;
            }
            let s = self.state(m);
            let e = match r {
                Ok(()) => self.ev(K::Started, vec![s]),
                Err(t) if t.is_limit() => return self.diverged.is_some(),
                Err(t) => {
                    let _ = self.ev(K::Trapped(t), vec![s]);
                    return true;
                }
            };
            if e.is_err() {
                return self.diverged.is_some();
            }
        }
        self.probe(m);
        for c in &self.script.calls {
            self.probe(m);
            if let Err(t) = self.enter(m, c, K::Enter) {
                if t.is_limit() {
                    return self.diverged.is_some();
                }
            }
        }
        self.probe(m);
        if let Some(x) = self.expect {
            if self.pos < x.len() && self.diverged.is_none() {
                self.diverged = Some(format!("event {}: nothing more where the original has {}", self.pos, x[self.pos]));
            }
        }
        true
    }

    fn touch(&mut self, m: &mut Machine, t: &Touch) {
        let pick = |k: u32, v: Vec<usize>| if v.is_empty() { None } else { Some(v[k as usize % v.len()]) };
        let globals: Vec<usize> = self.visible.iter().filter_map(|x| if let Extern::Global(g) = x { Some(*g) } else { None }).collect();
        let tables: Vec<usize> = self.visible.iter().filter_map(|x| if let Extern::Table(g) = x { Some(*g) } else { None }).collect();
        let mems: Vec<usize> = self.visible.iter().filter_map(|x| if let Extern::Mem(g) = x { Some(*g) } else { None }).collect();
        match t {
            Touch::Mem(p, b) => {
                if let Some(a) = pick(0, mems) {
                    if let Some(x) = m.mems[a].v.get_mut(*p as usize) {
                        *x = *b;
                        self.count("host_memory_write");
                    }
                }
            }
            Touch::Global(k, b) => {
                if let Some(g) = pick(*k, globals) {
                    if m.globals[g].1 {
                        m.globals[g].0 = self.value(m.globals[g].0.ty(), *b);
                        self.count("host_global_write");
                    }
                }
            }
            Touch::Table(k, i, f) => {
                if let Some(t) = pick(*k, tables) {
                    let v = self.value(m.tables[t].ty, (*f).into());
                    if let Some(x) = m.tables[t].v.get_mut(*i as usize) {
                        *x = v;
                        self.count("host_table_write");
                    }
                }
            }
            Touch::MemGrow(n) => {
                if let Some(a) = pick(0, mems) {
                    let new = m.mems[a].v.len() / PAGE + *n as usize;
                    if new <= m.mems[a].max.map_or(MAX_PAGES, |x| (x as usize).min(MAX_PAGES)) {
                        m.mems[a].v.resize(new * PAGE, 0);
                        self.count("host_memory_grow");
                    }
                }
            }
            Touch::TableGrow(k, n) => {
                if let Some(t) = pick(*k, tables) {
                    let new = m.tables[t].v.len() + *n as usize;
                    if new <= m.tables[t].max.map_or(MAX_TABLE, |x| x as usize) {
                        let z = m.tables[t].ty.zero();
                        m.tables[t].v.resize(new, z);
                        self.count("host_table_grow");
                    }
                }
            }
        }
    }

    fn prog_host(&mut self, m: &mut Machine, k: u32, args: &[V], ty: &FTy) -> Result<Vec<V>, Trap> {
        let mut e = self.codes(m, args);
        e.push(self.state(m));
        self.ev(K::Host(k), e)?;
        let n = self.host_n;
        self.host_n += 1;
        if self.watch.as_ref().is_some_and(|w| w.probing) {
            return Err(Trap::Host(9));
        }
        self.probe(m);
        let act = self.script.host.get(n).cloned().unwrap_or_default();
        for t in &act.touch {
            self.touch(m, t);
        }
        if let Some(c) = &act.nested {
            self.count("reentry");
            match self.enter(m, c, K::Nested) {
                Ok(_) => (),
                Err(t) if t.is_limit() => return Err(t),
                Err(_) if act.catch => self.count("trap_caught_by_host"),
                Err(t) => return Err(t),
            }
        }
        if act.trap {
            self.count("host_trap");
            self.ev(K::HostTrap, vec![])?;
            return Err(Trap::Host(1));
        }
        Ok(ty.results.iter().enumerate().map(|(i, t)| self.value(*t, act.results.get(i).copied().unwrap_or((n + i) as u64))).collect())
    }

    // ------------------------------------------------------------ what an analysis can do

    fn lib(&mut self, m: &mut Machine, from_stack: bool, name: &str, args: &[V]) -> Result<Option<V>, Trap> {
        let f = if from_stack { self.stack.get(name) } else { self.exports.get(name) };
        let Some(f) = f.copied() else {
            return self.diverge(format!("nothing exports {name}"));
        };
        let ty = m.funcs[f].ty.clone();
        if ty.params != args.iter().map(|v| v.ty()).collect::<Vec<_>>() {
            return self.diverge(format!("{name} takes {:?}", ty.params));
        }
        m.call(self, f, args).map(|r| r.first().copied())
    }

    fn base_load(&mut self, m: &mut Machine, op: Ld, p: u32, off: u32) -> Result<V, Trap> {
        match self.side {
            Side::Reference => m.mem_load(m.insts[self.target].mems[0], op, p, off),
            Side::Instrumented => {
                let n = format!("instrumented_base_load_{}", load_name(op));
                match self.lib(m, false, &n, &[V::I32(p), V::I32(off)])? {
                    Some(v) if v.ty() == op.ty() => Ok(v),
                    x => self.diverge(format!("{n} returns {x:?}")),
                }
            }
        }
    }

    fn base_store(&mut self, m: &mut Machine, op: St, p: u32, off: u32, v: V) -> Result<(), Trap> {
        match self.side {
            Side::Reference => {
                let a = m.insts[self.target].mems[0];
                m.mem_store(a, op, p, off, v)
            }
            Side::Instrumented => {
                let n = format!("instrumented_base_store_{}", store_name(op));
                self.lib(m, false, &n, &[V::I32(p), v, V::I32(off)]).map(|_| ())
            }
        }
    }

    fn base_grow(&mut self, m: &mut Machine, by: u32) -> Result<V, Trap> {
        match self.side {
            Side::Reference => {
                let a = m.insts[self.target].mems[0];
                Ok(V::I32(m.mem_grow(self, a, by)))
            }
            Side::Instrumented => match self.lib(m, false, "instrumented_memory_grow", &[V::I32(by), V::I32(0)])? {
                Some(V::I32(x)) => Ok(V::I32(x)),
                x => self.diverge(format!("instrumented_memory_grow returns {x:?}")),
            },
        }
    }

    fn notified(&mut self, m: &mut Machine, h: H, args: &[V]) -> Result<Option<V>, Trap> {
        let n = self.hook_counts.entry(h).or_insert(0);
        let nth = *n;
        *n += 1;
        let all = self.hook_n;
        self.hook_n += 1;
        if self.log_hooks {
            let e = self.codes(m, args);
            self.ev(K::Hook(h), e)?;
        } else if self.diverged.is_some() {
            return Err(Trap::Events);
        }
        if self.script.hook_traps.contains(&all) {
            self.count("analysis_trap");
            self.ev(K::HookTrap, vec![])?;
            return Err(Trap::Host(2));
        }
        // arguments are what the hook of this name takes, or the events would have differed; without
        // the log nothing has been compared yet
        if !self.log_hooks && args_of(h).is_some_and(|w| w != args.iter().map(|v| v.ty()).collect::<Vec<_>>()) {
            return self.diverge(format!("{h:?} was given {args:?}"));
        }
        if let Some(v) = &mut self.notes {
            v.push((h, false, args.to_vec()));
        }
        let cleaned;
        let args = if self.denan {
            cleaned = args.iter().map(|v| denan(*v)).collect::<Vec<_>>();
            &cleaned[..]
        } else {
            args
        };
        if self.safe_heap {
            self.careful(m, h, args)?;
        }
        use H::*;
        let bad = |op: V| format!("{h:?}: unknown operator {op:?}");
        let r = match h {
            IfThen | IfThenElse | BrIf | BrTable | CallIndirectPre | Select | MemorySize | ConstI32 | ConstI64 | ConstF32 | ConstF64 | LocalGetI32
            | LocalGetI64 | LocalGetF32 | LocalGetF64 | LocalSetI32 | LocalSetI64 | LocalSetF32 | LocalSetF64 | LocalTeeI32 | LocalTeeI64
            | LocalTeeF32 | LocalTeeF64 | GlobalGetI32 | GlobalGetI64 | GlobalGetF32 | GlobalGetF64 | GlobalSetI32 | GlobalSetI64 | GlobalSetF32
            | GlobalSetF64 => Some(args[0]),
            MemoryGrow => Some(self.base_grow(m, args[0].i32())?),
            LoadI32 | LoadI64 | LoadF32 | LoadF64 => match Ld::from_id(args[2].i32() as i32) {
                Some(op) => Some(self.base_load(m, op, args[0].i32(), args[1].i64() as u32)?),
                None => return self.diverge(bad(args[2])),
            },
            StoreI32 | StoreI64 | StoreF32 | StoreF64 => match St::from_id(args[3].i32() as i32) {
                Some(op) if op.ty() == args[1].ty() => {
                    self.base_store(m, op, args[0].i32(), args[2].i64() as u32, args[1])?;
                    None
                }
                _ => return self.diverge(bad(args[3])),
            },
            BlockPre | BlockPost | LoopPre | LoopPost | IfThenPost | IfThenElsePost | Br | Return | CallPre | CallPost | CallIndirectPost | Drop => None,
            h if (h as usize) < (BiI32I32 as usize) => match Un::from_id(args[1].i32() as i32) {
                Some(op) if op.types().0 == args[0].ty() => Some(ops::unary(op, args[0])?),
                _ => return self.diverge(bad(args[1])),
            },
            _ => match Bi::from_id(args[2].i32() as i32) {
                Some(op) if op.types().0 == args[0].ty() => Some(ops::binary(op, args[0], args[1])?),
                _ => return self.diverge(bad(args[2])),
            },
        };
        if let Some(v) = &mut self.notes {
            v.push((h, true, args.to_vec()));
        }
        let Some(mut v) = r else { return Ok(None) };
        if self.denan && !matches!(h, IfThen | IfThenElse | BrIf | BrTable | CallIndirectPre | Select | MemorySize) {
            v = denan(v);
        }
        if let Some(s) = self.script.subs.iter().find(|s| s.h == h && (s.nth == nth || s.nth == EVERY)) {
            v = V::from_bits(v.ty(), s.bits);
            self.count("substituted");
        }
        Ok(Some(v))
    }

    /// What `safe-heap` asserts before an access: by the size of the value, which it takes
    /// a narrow access to be about too.
    fn careful(&mut self, m: &mut Machine, h: H, args: &[V]) -> Result<(), Trap> {
        use H::*;
        let (off, w) = match h {
            LoadI32 | LoadF32 => (args[1].i64(), 4),
            LoadI64 | LoadF64 => (args[1].i64(), 8),
            StoreI32 | StoreF32 => (args[2].i64(), 4),
            StoreI64 | StoreF64 => (args[2].i64(), 8),
            _ => return Ok(()),
        };
        let p = args[0].i32();
        let size = m.mems[m.insts[self.target].mems[0]].v.len() as i64;
        let p = i64::from(p as i32);
        let last = p + off as i64 + w;
        if last == 0 || last > size || p & (w - 1) != 0 {
            self.count("asserted_by_the_analysis");
            return Err(Trap::Host(4));
        }
        Ok(())
    }

    // ------------------------------------------------------------ generic application

    fn slot_load(&mut self, m: &mut Machine, ptr: u32, t: Ty, slot: usize) -> Result<V, Trap> {
        let n = format!("wastrumentation_stack_load_{}", t.name());
        match self.lib(m, true, &n, &[V::I32(ptr), V::I32(slot as u32)])? {
            Some(v) if v.ty() == t => Ok(v),
            x => self.diverge(format!("{n} returns {x:?}")),
        }
    }

    fn slot_type(&mut self, m: &mut Machine, ptr: u32, slot: usize) -> Result<Ty, Trap> {
        match self.lib(m, true, "wastrumentation_stack_load_type", &[V::I32(ptr), V::I32(slot as u32)])? {
            Some(V::I32(c)) if code_type(c).is_some() => Ok(code_type(c).expect("type")),
            c => self.diverge(format!("type {slot} of a generic application is {c:?}")),
        }
    }

    fn slot_store(&mut self, m: &mut Machine, ptr: u32, v: V, slot: usize) -> Result<(), Trap> {
        let n = format!("wastrumentation_stack_store_{}", v.ty().name());
        self.lib(m, true, &n, &[V::I32(ptr), v, V::I32(slot as u32)]).map(|_| ())
    }

    fn frame_args(&mut self, m: &mut Machine, k: usize) -> Result<Vec<V>, Trap> {
        if self.side == Side::Reference {
            return Ok(self.frames[k].args.clone());
        }
        let f = &self.frames[k];
        let (sigv, n, tys) = (f.sigv, f.n_res, f.tys.clone());
        (n..tys.len()).map(|i| self.slot_load(m, sigv, tys[i], i)).collect()
    }

    fn frame_results(&mut self, m: &mut Machine, k: usize) -> Result<Vec<V>, Trap> {
        if self.side == Side::Reference {
            return Ok(self.frames[k].results.clone());
        }
        let f = &self.frames[k];
        let (sigv, n, tys) = (f.sigv, f.n_res, f.tys.clone());
        (0..n).map(|i| self.slot_load(m, sigv, tys[i], i)).collect()
    }

    fn frame_base(&mut self, m: &mut Machine, k: usize) -> Result<(), Trap> {
        if self.side == Side::Reference {
            let f = &self.frames[k];
            let (inner, args) = (f.inner, f.args.clone());
            let r = m.call(self, inner, &args)?;
            self.frames[k].results = r;
        } else {
            let f = &self.frames[k];
            let (a, s) = (f.f_apply, f.sigv);
            self.lib(m, false, "call_base", &[V::I32(a), V::I32(s)])?;
        }
        self.frames[k].init = true;
        Ok(())
    }

    fn frame_set(&mut self, m: &mut Machine, k: usize, slot: usize, b: u64) -> Result<(), Trap> {
        let f = &mut self.frames[k];
        let t = f.tys[slot];
        let v = V::from_bits(t, b);
        if self.side == Side::Reference {
            if slot < f.n_res {
                f.results[slot] = v;
            } else {
                let n = f.n_res;
                f.args[slot - n] = v;
            }
            Ok(())
        } else {
            let p = f.sigv;
            self.slot_store(m, p, v, slot)
        }
    }

    fn set_all(&mut self, m: &mut Machine, k: usize, b: u64) -> Result<(), Trap> {
        for i in 0..self.frames[k].n_res {
            self.frame_set(m, k, i, b.wrapping_add(i as u64 * 7))?;
        }
        self.frames[k].init = true;
        Ok(())
    }

    fn applying(&mut self, m: &mut Machine, fidx: u32, import: bool, frame: Frame) -> Result<(), Trap> {
        let k = self.frames.len();
        let mut e = vec![fidx.into(), import.into(), frame.n_res as u64, (frame.tys.len() - frame.n_res) as u64];
        e.extend(frame.tys.iter().map(|t| u64::from(type_code(*t))));
        self.frames.push(frame);
        if self.log_hooks {
            let a = self.frame_args(m, k)?;
            e.extend(self.codes(m, &a));
            self.ev(K::Apply, e)?;
        }
        if let Some(v) = &mut self.notes {
            v.push((H::GenericApply, false, vec![]));
        }
        if self.denan {
            let f = &mut self.frames[k];
            f.args = f.args.iter().map(|v| denan(*v)).collect();
        }
        let n = self.apply_n;
        self.apply_n += 1;
        let steps = self.script.applies.get(n).cloned().unwrap_or_else(|| vec![Step::Base]);
        if steps.iter().filter(|s| **s == Step::Base).count() != 1 {
            self.count("applied_other_than_once");
        }
        for s in &steps {
            let (n_res, n_all) = (self.frames[k].n_res, self.frames[k].tys.len());
            match s {
                Step::Base => self.frame_base(m, k)?,
                Step::SetArg(i, b) if n_all > n_res => self.frame_set(m, k, n_res + *i as usize % (n_all - n_res), *b)?,
                Step::SetRes(i, b) if n_res > 0 => self.frame_set(m, k, *i as usize % n_res, *b)?,
                Step::SetArg(..) | Step::SetRes(..) => (),
                Step::SetAll(b) => self.set_all(m, k, *b)?,
                Step::Outer => {
                    if k > 0 {
                        self.count("outer_base_again");
                        self.frame_base(m, k - 1)?;
                    }
                }
                Step::Trap => {
                    self.count("analysis_trap");
                    self.ev(K::HookTrap, vec![])?;
                    return Err(Trap::Host(3));
                }
            }
        }
        if !self.frames[k].init {
            self.set_all(m, k, 5)?;
        }
        if self.denan {
            let f = &mut self.frames[k];
            f.results = f.results.iter().map(|v| denan(*v)).collect();
        }
        if let Some(v) = &mut self.notes {
            v.push((H::GenericApply, true, vec![]));
        }
        if self.log_hooks {
            if self.side == Side::Instrumented {
                // the types are still there
                let (p, tys) = (self.frames[k].sigtypv, self.frames[k].tys.clone());
                for (i, t) in tys.into_iter().enumerate() {
                    let now = self.slot_type(m, p, i)?;
                    if now != t {
                        return self.diverge(format!("type {i} of a generic application was {t:?} and is {now:?} after it"));
                    }
                }
            }
            let mut e = self.frame_results(m, k)?;
            let a = self.frame_args(m, k)?;
            e.extend(a);
            let e = self.codes(m, &e);
            self.ev(K::Applied, e)?;
        }
        Ok(())
    }
}

fn denan(v: V) -> V {
    match v {
        V::F32(b) if f32::from_bits(b).is_nan() => V::F32(0),
        V::F64(b) if f64::from_bits(b).is_nan() => V::F64(0),
        v => v,
    }
}

/// What a hook takes, for the ones where it matters before anything is compared.
fn args_of(h: H) -> Option<Vec<Ty>> {
    use Ty::*;
    let tail = |mut v: Vec<Ty>| {
        v.extend([I64, I64]);
        Some(v)
    };
    let name = format!("{h:?}");
    let t = |s: &str| match s {
        "I32" => I32,
        "I64" => I64,
        "F32" => F32,
        _ => F64,
    };
    if let Some(s) = name.strip_prefix("Load") {
        return tail(vec![I32, I64, I32]).filter(|_| s.len() == 3);
    }
    if let Some(s) = name.strip_prefix("Store") {
        return tail(vec![I32, t(s), I64, I32]);
    }
    if let Some(s) = name.strip_prefix("Un") {
        return tail(vec![t(&s[..3]), I32]);
    }
    if let Some(s) = name.strip_prefix("Bi") {
        return tail(vec![t(&s[..3]), t(&s[..3]), I32]);
    }
    match h {
        H::MemoryGrow => tail(vec![I32, I64]),
        _ => None,
    }
}

impl Ext for World<'_> {
    fn host(&mut self, m: &mut Machine, id: usize, args: &[V]) -> Result<Vec<V>, Trap> {
        match self.hosts[id] {
            HostId::Prog(k) => {
                let Ext_::Func(t) = self.orig.imports[k as usize].2 else { unreachable!() };
                let ty = self.orig.types[t as usize].clone();
                self.prog_host(m, k, args, &ty)
            }
            HostId::Hook(h) => {
                let r: Vec<V> = self.notified(m, h, args)?.into_iter().collect();
                let f = m.funcs.iter().find(|f| matches!(f.def, Def::Host(i) if i == id)).expect("host function");
                if f.ty.results != r.iter().map(|v| v.ty()).collect::<Vec<_>>() {
                    let s = format!("{h:?} is imported with results {:?}", f.ty.results);
                    return self.diverge(s);
                }
                Ok(r)
            }
            HostId::Apply => {
                let a: Vec<u32> = match args {
                    [V::I32(a), V::I32(b), V::I32(c), V::I32(d), V::I32(e), V::I32(f), V::I32(g)] => vec![*a, *b, *c, *d, *e, *f, *g],
                    _ => return self.diverge(format!("generic_apply was given {args:?}")),
                };
                let (f_apply, fidx, argc, resc, sigv, sigtypv, import) = (a[0], a[1], a[2] as usize, a[3] as usize, a[4], a[5], a[6]);
                if argc + resc > 2000 {
                    return self.diverge(format!("generic_apply with {argc} arguments and {resc} results"));
                }
                let mut tys = vec![];
                for i in 0..argc + resc {
                    let t = self.slot_type(m, sigtypv, i)?;
                    tys.push(t);
                }
                if import > 1 {
                    return self.diverge(format!("generic_apply with kind {import}"));
                }
                let f = Frame { inner: 0, args: vec![], results: vec![], init: resc == 0, f_apply, sigv, sigtypv, tys, n_res: resc };
                let k = self.frames.len();
                self.root.get_or_insert((sigv, sigtypv));
                let r = self.applying(m, fidx, import == 1, f);
                self.frames.truncate(k);
                r.map(|()| vec![])
            }
            HostId::Base(k) => {
                let name = self.bases[k as usize].clone();
                let r: Vec<V> = self.lib(m, false, &name, args)?.into_iter().collect();
                let f = m.funcs.iter().find(|f| matches!(f.def, Def::Host(i) if i == id)).expect("host function");
                if f.ty.results != r.iter().map(|v| v.ty()).collect::<Vec<_>>() {
                    return self.diverge(format!("{name} is imported by the analysis with another type"));
                }
                Ok(r)
            }
            HostId::Unknown => self.diverge("an import nobody provides".into()),
        }
    }

    fn grow(&mut self, _m: &mut Machine, mem: usize, _by: u32) -> bool {
        if self.prog_mem != Some(mem) {
            return true;
        }
        let n = self.grow_n;
        self.grow_n += 1;
        let no = self.script.refuse.get(n).copied().unwrap_or(false);
        if no {
            self.count("growth_refused");
        }
        !no
    }

    fn hook(&mut self, m: &mut Machine, _inst: usize, h: H, args: &[V]) -> Result<Option<V>, Trap> {
        self.notified(m, h, args)
    }

    fn apply(&mut self, m: &mut Machine, fidx: u32, inner: usize, import: bool, args: &[V]) -> Result<Vec<V>, Trap> {
        let ty = m.funcs[inner].ty.clone();
        let mut tys = ty.results.clone();
        tys.extend(&ty.params);
        let f = Frame {
            inner,
            args: args.to_vec(),
            results: ty.results.iter().map(|t| t.zero()).collect(),
            init: ty.results.is_empty(),
            f_apply: 0,
            sigv: 0,
            sigtypv: 0,
            tys,
            n_res: ty.results.len(),
        };
        let k = self.frames.len();
        let r = self.applying(m, fidx, import, f);
        let done = self.frames.drain(k..).next();
        r.map(|()| done.expect("frame").results)
    }
}
