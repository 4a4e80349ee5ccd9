//! The argument stack: the generated library under histories of frames, against a list of frames.

use crate::case::*;
use crate::wasm::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Mutex;
use crate::backend::{self, Fail};
use wastrumentation::wasm_constructs::{Signature, SignatureSide, WasmType};

pub const TYPES: [Ty; 4] = [Ty::I32, Ty::I64, Ty::F32, Ty::F64];

fn wasm_type(t: u8) -> WasmType {
    match TYPES[t as usize % 4] {
        Ty::I32 => WasmType::I32,
        Ty::I64 => WasmType::I64,
        Ty::F32 => WasmType::F32,
        _ => WasmType::F64,
    }
}

fn type_code(t: Ty) -> u32 {
    match t {
        Ty::I32 => 0,
        Ty::F32 => 1,
        Ty::I64 => 2,
        _ => 3,
    }
}

pub fn signature(s: &(Vec<u8>, Vec<u8>)) -> Signature {
    Signature { return_types: s.0.iter().map(|t| wasm_type(*t)).collect(), argument_types: s.1.iter().map(|t| wasm_type(*t)).collect() }
}

/// Runs something on a simulated thread, so that hash seeds and the like come from the case.
pub fn simulated<T: Send + 'static>(seed: u64, f: impl FnOnce() -> T + Send + 'static) -> Result<T, String> {
    static SLOT: Mutex<Option<Box<dyn std::any::Any + Send>>> = Mutex::new(None);
    *SLOT.lock().expect("lock") = None;
    let w = simos::World::new(simos::Config { seed, ..Default::default() }, vec![], HashMap::new());
    let f: Box<dyn FnOnce() + Send> = Box::new(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        simos::harness(|| {
            *SLOT.lock().expect("lock") = Some(match r {
                Ok(x) => Box::new(Ok::<T, String>(x)),
                Err(e) => {
                    let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(ToString::to_string)).unwrap_or_default();
                    Box::new(Err::<T, String>(s))
                }
            });
        });
    });
    simos::run(w, vec![f]);
    let x = SLOT.lock().expect("lock").take();
    match x {
        Some(b) => *b.downcast::<Result<T, String>>().expect("type"),
        None => Err("the simulated thread did not finish".into()),
    }
}

struct Host {
    refuse: Vec<bool>,
    asked: usize,
    refused: u64,
}

impl Ext for Host {
    fn host(&mut self, _: &mut Machine, _: usize, _: &[V]) -> Result<Vec<V>, Trap> {
        unreachable!("the library has no imports")
    }
    fn grow(&mut self, _: &mut Machine, _: usize, _: u32) -> bool {
        let no = self.refuse.get(self.asked).copied().unwrap_or(false);
        self.asked += 1;
        self.refused += u64::from(no);
        !no
    }
    fn hook(&mut self, _: &mut Machine, _: usize, _: crate::hooks::H, _: &[V]) -> Result<Option<V>, Trap> {
        unreachable!()
    }
    fn apply(&mut self, _: &mut Machine, _: u32, _: usize, _: bool, _: &[V]) -> Result<Vec<V>, Trap> {
        unreachable!()
    }
}

#[derive(Clone)]
struct Frame {
    types: bool,
    sig: usize,
    ptr: u32,
    slots: Vec<Option<V>>,
}

struct Lib {
    m: Machine,
    h: Host,
    inst: usize,
    sigs: Vec<(Vec<Ty>, Vec<Ty>)>,
    names: Vec<Names>,
    live: Vec<Frame>,
    r: RunResult,
    n: usize,
}

#[derive(Clone)]
pub struct Names {
    pub allocate: String,
    pub free: String,
    pub allocate_types: String,
    pub free_types: String,
    /// results, then arguments
    pub load: Vec<String>,
    pub store: Vec<String>,
    pub store_rets: String,
}

enum Got {
    Value(Option<V>),
    Trapped,
}

impl Lib {
    fn bad(&mut self, class: &str, msg: String) {
        if self.r.violations.is_empty() {
            let n = self.n;
            self.r.violate("C14", class, format!("step {n}: {msg}"));
        }
    }

    fn call(&mut self, name: &str, args: &[V]) -> Option<Got> {
        let Some(Extern::Func(f)) = self.m.export(self.inst, name) else {
            self.bad("missing", format!("the library does not export {name}"));
            return None;
        };
        let ty = self.m.funcs[f].ty.clone();
        if ty.params != args.iter().map(|v| v.ty()).collect::<Vec<_>>() {
            self.bad("type", format!("{name} takes {:?}", ty.params));
            return None;
        }
        self.r.events += 1;
        let (d, s0) = (self.m.depth, self.m.steps);
        self.m.max_steps = s0 + 2_000_000;
        let x = self.m.call(&mut self.h, f, args);
        self.m.depth = d;
        match x {
            Ok(v) => Some(Got::Value(v.first().copied())),
            Err(t) if t.is_limit() => {
                self.bad("endless", format!("{name} does not end"));
                None
            }
            Err(_) => Some(Got::Trapped),
        }
    }

    fn pages(&self) -> usize {
        self.m.insts[self.inst].mems.first().map_or(0, |a| self.m.mems[*a].v.len() / PAGE)
    }

    /// A call that may fail only for want of memory.
    fn allocate(&mut self, name: &str, args: &[V]) -> Option<Option<u32>> {
        let before = self.h.refused;
        match self.call(name, args)? {
            Got::Value(Some(V::I32(p))) => {
                self.r.mix(p.into());
                if self.h.refused > before {
                    // memory was refused and the call did not trap: what it returned must not be live data, as
                    // for every frame; the values tell
                    self.r.count("went_on_after_refusal", 1);
                }
                Some(Some(p))
            }
            Got::Value(v) => {
                self.bad("type", format!("{name} returns {v:?}"));
                None
            }
            Got::Trapped => {
                if self.h.refused == before && self.pages() < MAX_PAGES {
                    self.bad("trap", format!("{name} traps though memory was to be had"));
                    return None;
                }
                self.r.count("allocation_trapped_for_want_of_memory", 1);
                Some(None)
            }
        }
    }

    fn slot_ty(&self, sig: usize, slot: usize) -> Ty {
        let s = &self.sigs[sig];
        if slot < s.0.len() {
            s.0[slot]
        } else {
            s.1[slot - s.0.len()]
        }
    }

    fn push_values(&mut self, sig: usize, args: &[u64]) -> Option<bool> {
        let tys = self.sigs[sig].1.clone();
        let a: Vec<V> = tys.iter().enumerate().map(|(i, t)| V::from_bits(*t, args.get(i).copied().unwrap_or(i as u64 * 3 + 1))).collect();
        let name = self.names[sig].allocate.clone();
        let Some(ptr) = self.allocate(&name, &a)? else { return Some(false) };
        let mut slots = vec![None; self.sigs[sig].0.len()];
        slots.extend(a.into_iter().map(Some));
        self.live.push(Frame { types: false, sig, ptr, slots });
        Some(true)
    }

    fn push_types(&mut self, sig: usize) -> Option<bool> {
        let name = self.names[sig].allocate_types.clone();
        let Some(ptr) = self.allocate(&name, &[])? else { return Some(false) };
        let slots = (0..self.names[sig].load.len()).map(|i| Some(V::I32(type_code(self.slot_ty(sig, i))))).collect();
        self.live.push(Frame { types: true, sig, ptr, slots });
        Some(true)
    }

    fn read(&mut self, k: usize, slot: usize, raw: bool) -> Option<()> {
        let f = self.live[k].clone();
        let Some(want) = f.slots[slot] else { return Some(()) };
        let (name, args) = if f.types {
            ("wastrumentation_stack_load_type".to_string(), vec![V::I32(f.ptr), V::I32(slot as u32)])
        } else if raw {
            (format!("wastrumentation_stack_load_{}", want.ty().name()), vec![V::I32(f.ptr), V::I32(slot as u32)])
        } else {
            (self.names[f.sig].load[slot].clone(), vec![V::I32(f.ptr)])
        };
        match self.call(&name, &args)? {
            Got::Value(Some(v)) if v == want => Some(()),
            Got::Value(v) => {
                let what = if f.types { "type code" } else { "value" };
                self.bad("mixed-up", format!("frame {k} of {} (signature {}): {what} {slot} was stored as {want:?}, {name} gives {v:?}", self.live.len(), f.sig));
                None
            }
            Got::Trapped => {
                self.bad("trap", format!("{name} traps on a live frame"));
                None
            }
        }
    }

    fn write(&mut self, k: usize, slot: usize, bits: u64, raw: bool) -> Option<()> {
        let f = self.live[k].clone();
        let v = V::from_bits(self.slot_ty(f.sig, slot), bits);
        let (name, args) = if raw {
            (format!("wastrumentation_stack_store_{}", v.ty().name()), vec![V::I32(f.ptr), v, V::I32(slot as u32)])
        } else {
            (self.names[f.sig].store[slot].clone(), vec![V::I32(f.ptr), v])
        };
        match self.call(&name, &args)? {
            Got::Value(None) => {
                self.live[k].slots[slot] = Some(v);
                Some(())
            }
            Got::Value(v) => {
                self.bad("type", format!("{name} returns {v:?}"));
                None
            }
            Got::Trapped => {
                self.bad("trap", format!("{name} traps on a live frame"));
                None
            }
        }
    }

    fn release(&mut self) -> Option<()> {
        let Some(f) = self.live.pop() else { return Some(()) };
        let name = if f.types { self.names[f.sig].free_types.clone() } else { self.names[f.sig].free.clone() };
        match self.call(&name, &[V::I32(f.ptr)])? {
            Got::Value(None) => Some(()),
            Got::Value(v) => {
                self.bad("type", format!("{name} returns {v:?}"));
                None
            }
            Got::Trapped => {
                self.bad("trap", format!("{name} traps"));
                None
            }
        }
    }

    fn verify(&mut self, all: bool) -> Option<()> {
        let n = self.live.len();
        for k in 0..n {
            if !all && n > 14 && !(k < 3 || k + 4 >= n || k == (self.n * 7) % n) {
                continue;
            }
            for s in 0..self.live[k].slots.len() {
                self.read(k, s, (k + s + self.n) % 2 == 0)?;
            }
        }
        Some(())
    }

    fn step(&mut self, op: &StackOp) -> Option<()> {
        let ns = self.sigs.len();
        if ns == 0 {
            return Some(());
        }
        let values: Vec<usize> = (0..self.live.len()).filter(|k| !self.live[*k].types && !self.live[*k].slots.is_empty()).collect();
        // rather a recent one
        let frame = |k: u32| if values.is_empty() { None } else { Some(values[values.len() - 1 - k as usize % values.len()]) };
        match op {
            StackOp::Values(s, a) => {
                self.push_values(*s as usize % ns, a)?;
            }
            StackOp::Types(s) => {
                self.push_types(*s as usize % ns)?;
            }
            StackOp::Nest(s, n, b) => {
                for i in 0..u64::from(*n) {
                    let a: Vec<u64> = (0..40).map(|k| b.wrapping_mul(i * 41 + k + 1)).collect();
                    let ok = if i % 3 == 2 { self.push_types(*s as usize % ns)? } else { self.push_values((*s as usize + i as usize) % ns, &a)? };
                    if !ok {
                        break;
                    }
                }
                self.r.count("deep_nesting", 1);
            }
            StackOp::Set(k, slot, b, raw) => {
                if let Some(f) = frame(*k) {
                    let n = self.live[f].slots.len();
                    self.write(f, *slot as usize % n, *b, *raw)?;
                }
            }
            StackOp::SetResults(k, v) => {
                if let Some(f) = frame(*k) {
                    let fr = self.live[f].clone();
                    let rets = self.sigs[fr.sig].0.clone();
                    let vals: Vec<V> = rets.iter().enumerate().map(|(i, t)| V::from_bits(*t, v.get(i).copied().unwrap_or(77 + i as u64))).collect();
                    let mut args = vec![V::I32(fr.ptr)];
                    args.extend(&vals);
                    let name = self.names[fr.sig].store_rets.clone();
                    match self.call(&name, &args)? {
                        Got::Value(None) => {
                            for (i, v) in vals.into_iter().enumerate() {
                                self.live[f].slots[i] = Some(v);
                            }
                        }
                        Got::Value(v) => self.bad("type", format!("{name} returns {v:?}")),
                        Got::Trapped => self.bad("trap", format!("{name} traps on a live frame")),
                    }
                }
            }
            StackOp::Get(k, slot, raw) => {
                if let Some(f) = frame(*k) {
                    let n = self.live[f].slots.len();
                    self.read(f, *slot as usize % n, *raw)?;
                }
            }
            StackOp::Release => self.release()?,
            StackOp::Abandon(k) => {
                let keep = if self.live.is_empty() { 0 } else { *k as usize % self.live.len() };
                if keep < self.live.len() {
                    self.r.count("abandoned_frames", (self.live.len() - keep) as u64);
                }
                self.live.truncate(keep);
            }
            StackOp::Churn(s, depth, rounds) => {
                let mut size = None;
                let base = self.live.len();
                for round in 0..*rounds {
                    let mut whole = true;
                    for d in 0..*depth {
                        let ok = if d % 2 == 1 { self.push_types((*s + d) as usize % ns)? } else { self.push_values((*s + d) as usize % ns, &[u64::from(round)])? };
                        if !ok {
                            whole = false;
                            break;
                        }
                    }
                    while self.live.len() > base {
                        self.release()?;
                    }
                    match size {
                        // a round that memory was refused to says nothing about the ones that follow
                        _ if !whole => (),
                        None => size = Some(self.pages()),
                        Some(p) if p != self.pages() => {
                            let now = self.pages();
                            self.bad("leak", format!("balanced use takes ever more memory: {p} pages after the first round, {now} after round {}", round + 1));
                            return None;
                        }
                        _ => (),
                    }
                }
                self.r.count("balanced_rounds", u64::from(*rounds));
            }
        }
        Some(())
    }
}

/// What the library has to export for these signatures.
pub fn names(list: &[Signature]) -> Vec<Names> {
    list.iter()
        .map(|s| {
            let (nr, na) = (s.return_types.len(), s.argument_types.len());
            let both = |f: &dyn Fn(SignatureSide, usize) -> String| {
                (0..nr).map(|i| f(SignatureSide::Return, i)).chain((0..na).map(|i| f(SignatureSide::Argument, i))).collect::<Vec<_>>()
            };
            Names {
                allocate: s.generate_allocate_values_buffer_name(),
                free: s.generate_free_values_buffer_name(),
                allocate_types: s.generate_allocate_types_buffer_name(),
                free_types: s.generate_free_types_buffer_name(),
                load: both(&|s_, i| s.generate_load_name(s_, i)),
                store: both(&|s_, i| s.generate_store_name(s_, i)),
                store_rets: s.generate_store_rets_name(),
            }
        })
        .collect()
}

/// The functions an instrumented program may import from the library, with their types.
pub fn required(list: &[Signature]) -> Vec<(String, Vec<Ty>, Vec<Ty>)> {
    let ty = |w: &WasmType| match w {
        WasmType::I32 => Ty::I32,
        WasmType::I64 => Ty::I64,
        WasmType::F32 => Ty::F32,
        _ => Ty::F64,
    };
    let mut v = vec![];
    for (s, n) in list.iter().zip(names(list)) {
        let (r, a): (Vec<Ty>, Vec<Ty>) = (s.return_types.iter().map(ty).collect(), s.argument_types.iter().map(ty).collect());
        v.push((n.allocate, a.clone(), vec![Ty::I32]));
        v.push((n.allocate_types, vec![], vec![Ty::I32]));
        v.push((n.free, vec![Ty::I32], vec![]));
        v.push((n.free_types, vec![Ty::I32], vec![]));
        for (t, (l, st)) in r.iter().chain(&a).zip(n.load.into_iter().zip(n.store)) {
            v.push((l, vec![Ty::I32], vec![*t]));
            v.push((st, vec![Ty::I32, *t], vec![]));
        }
        let mut p = vec![Ty::I32];
        p.extend(&r);
        v.push((n.store_rets, p, vec![]));
    }
    for t in TYPES {
        v.push((format!("wastrumentation_stack_load_{}", t.name()), vec![Ty::I32, Ty::I32], vec![t]));
        v.push((format!("wastrumentation_stack_store_{}", t.name()), vec![Ty::I32, t, Ty::I32], vec![]));
    }
    v.push(("wastrumentation_stack_load_type".into(), vec![Ty::I32, Ty::I32], vec![Ty::I32]));
    v
}

/// The history against the library of each back end of the case in turn.
pub fn run(c: &Case) -> RunResult {
    let mut all = RunResult::default();
    let sigs = c.signatures.clone();
    let made = simulated(c.seed, move || {
        let list: Vec<Signature> = sigs.iter().map(signature).collect();
        (names(&list), required(&list))
    });
    let (names, required) = match made {
        Ok(x) => x,
        Err(e) => {
            all.violate(&c.prop, "panic", format!("naming the functions of the library panics: {e}"));
            return all;
        }
    };
    let list: Vec<u8> = if c.backends.is_empty() { vec![backend::WAT] } else { c.backends.clone() };
    for b in list {
        let mut r = one(c, b, &names, &required);
        all.hash = (all.hash ^ r.hash).rotate_left(11);
        all.shape = (all.shape ^ r.shape).rotate_left(11);
        all.steps += r.steps;
        all.events += r.events;
        all.nontrivial |= r.nontrivial;
        for (k, n) in r.counts {
            all.count(&k, n);
        }
        for v in &mut r.violations {
            v.prop.clone_from(&c.prop);
            if !c.backends.is_empty() {
                v.msg = format!("the {} library: {}", backend::NAME[b as usize], v.msg);
            }
        }
        if !c.backends.is_empty() {
            all.log.push(format!("{}:", backend::NAME[b as usize]));
        }
        all.log.append(&mut r.log);
        all.violations.append(&mut r.violations);
        if r.harness_error.is_some() {
            all.harness_error = r.harness_error;
        }
        if !all.violations.is_empty() || all.harness_error.is_some() {
            break;
        }
    }
    all.outcome = if all.violations.is_empty() { "held".into() } else { "violated".into() };
    all
}

fn one(c: &Case, b: u8, names: &[Names], required: &[(String, Vec<Ty>, Vec<Ty>)]) -> RunResult {
    let mut r = RunResult::default();
    r.count(&format!("libraries_{}", backend::NAME[b as usize]), 1);
    let bytes = match backend::library(b, c.signatures.iter().map(signature).collect(), c.seed) {
        Ok(b) => b,
        Err(Fail::Bad(class, e)) => {
            r.violate("C14", class, e);
            return r;
        }
        Err(Fail::Unknown(e)) => {
            r.count("not_known_to_the_stand_in_compiler", 1);
            r.log.push(e);
            return r;
        }
        Err(Fail::Harness(e)) => {
            r.harness_error = Some(e);
            return r;
        }
    };
    if let Err(e) = validate(&bytes) {
        r.violate("C14", "invalid", format!("the library is not valid: {e}"));
        return r;
    }
    let module = match Module::decode(&bytes) {
        Ok(m) => Rc::new(m),
        Err(e) => {
            r.harness_error = Some(format!("library: {e}"));
            return r;
        }
    };
    if !module.imports.is_empty() {
        r.violate("C14", "imports", "the library has imports");
        return r;
    }
    let mut m = Machine::new(u64::MAX, 100);
    let inst = match m.alloc(&module, &[], None) {
        Ok(i) => i,
        Err(e) => {
            r.harness_error = Some(e);
            return r;
        }
    };
    let mut l = Lib {
        m,
        h: Host { refuse: c.stack_refuse.clone(), asked: 0, refused: 0 },
        inst,
        sigs: c.signatures.iter().map(|s| (s.0.iter().map(|t| TYPES[*t as usize % 4]).collect(), s.1.iter().map(|t| TYPES[*t as usize % 4]).collect())).collect(),
        names: names.to_vec(),
        live: vec![],
        r,
        n: 0,
    };
    if l.m.start(&mut l.h, inst).is_err() {
        l.bad("trap", "the library does not start".into());
    }
    let pages = l.pages();
    for (name, params, results) in required {
        match l.m.export(inst, name) {
            Some(Extern::Func(f)) if l.m.funcs[f].ty.params == *params && l.m.funcs[f].ty.results == *results => (),
            Some(Extern::Func(f)) => {
                let t = &l.m.funcs[f].ty;
                let t = format!("{:?} to {:?}", t.params, t.results);
                l.bad("type", format!("{name} is a function from {t}, not from {params:?} to {results:?}"));
            }
            _ => l.bad("missing", format!("there is no function {name}")),
        }
    }
    let mut deepest = 0;
    let mut shape = 0u64;
    for (i, op) in c.stack.iter().enumerate() {
        l.n = i;
        if !l.r.violations.is_empty() || l.step(op).is_none() || !l.r.violations.is_empty() || l.verify(false).is_none() {
            break;
        }
        deepest = deepest.max(l.live.len());
        let x = (l.live.len() as u64, l.pages() as u64, l.h.refused);
        shape = (shape ^ (x.0 << 8 | x.1 << 40 | x.2)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(9);
        l.r.mix(shape);
        l.r.log.push(format!("{op:?} -> {} frames, {} pages", l.live.len(), l.pages()));
    }
    if l.r.violations.is_empty() {
        l.verify(true);
        while !l.live.is_empty() && l.r.violations.is_empty() {
            if l.release().is_none() {
                break;
            }
        }
    }
    let mut r = l.r;
    r.steps = l.m.steps;
    r.shape = shape;
    r.count("growth_refused", l.h.refused);
    r.count("memory_grown", (l.m.insts[inst].mems.first().map_or(pages, |a| l.m.mems[*a].v.len() / PAGE) - pages) as u64);
    r.nontrivial = deepest >= 3 && r.events > 30;
    r.outcome = if r.violations.is_empty() { "held".into() } else { "violated".into() };
    r
}
