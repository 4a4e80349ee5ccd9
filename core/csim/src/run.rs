//! One program under one script: original against instrumented.

use crate::hooks::{self, H, N_HOOKS};
use crate::pipe::{self, Req, Res};
use crate::wasm::{self, *};
use crate::world::*;
use std::collections::BTreeMap;
use std::rc::Rc;

/// Which functions an analysis may be told about.
pub fn targets(m: &Module, only: &Option<Vec<u32>>) -> Vec<bool> {
    (0..m.funcs.len() as u32).map(|f| !m.fty(f).has_ref() && only.as_ref().is_none_or(|v| v.contains(&f))).collect()
}

#[derive(Default, Debug)]
pub struct Seen {
    pub counts: BTreeMap<String, u64>,
    pub events: u64,
    pub hash: u64,
    pub hooks: [bool; 32],
}

pub struct Reference {
    pub log: Vec<Ev>,
    pub steps: u64,
    pub deepest: u32,
    pub counts: BTreeMap<&'static str, u64>,
    pub hook_counts: BTreeMap<H, u32>,
    pub error: Option<String>,
    pub limit: bool,
}

pub const REF_STEPS: u64 = 30_000;
pub const REF_DEPTH: u32 = 60;

/// Runs the original, with the tracer in place of the instrumentation if `trace` says so.
pub fn reference(orig: &Rc<Module>, script: &Script, trace: Option<Trace>) -> Reference {
    let mut m = Machine::new(REF_STEPS, REF_DEPTH);
    let mut r = Reference { log: vec![], steps: 0, deepest: 0, counts: BTreeMap::new(), hook_counts: BTreeMap::new(), error: None, limit: false };
    match World::new(&mut m, orig, script, trace.map(Rc::new), None) {
        Err(e) => r.error = Some(e),
        Ok(mut w) => {
            r.limit = !w.drive(&mut m);
            r.log = std::mem::take(&mut w.log);
            r.counts = w.counts.clone();
            r.hook_counts = w.hook_counts.clone();
            r.steps = m.steps;
            r.deepest = m.deepest;
        }
    }
    r
}

pub enum Held {
    Same,
    Differs(String),
    /// the instrumented program was still running when the limit came
    Runaway(String),
}

/// Runs the instrumented program against the events of the original.
pub fn instrumented(orig: &Rc<Module>, script: &Script, parts: &Parts, r: &Reference, log_hooks: bool) -> Held {
    let mut m = Machine::new(r.steps * 300 + 200_000, r.deepest * 10 + 60);
    let mut w = match World::new(&mut m, orig, script, None, Some(parts)) {
        Err(e) => return Held::Differs(e),
        Ok(w) => w,
    };
    w.log_hooks = log_hooks;
    w.expect = Some(&r.log);
    let done = w.drive(&mut m);
    match (&w.diverged, done) {
        (Some(d), _) => Held::Differs(d.clone()),
        (None, false) => Held::Runaway(format!("after event {} of {}: {} steps, depth {}", w.pos, r.log.len(), m.steps, m.deepest)),
        _ => Held::Same,
    }
}

/// Takes the merged result apart.
pub fn parts(out: &[u8]) -> Result<(Parts, Vec<(String, Vec<u8>)>), String> {
    let Some(mods) = pipe::unpack(out) else { return Err("the result is not the complete output of the merge".into()) };
    let get = |ns: &str| mods.iter().filter(|m| m.0 == ns).map(|m| &m.1).collect::<Vec<_>>();
    let t = get("instrumented_input");
    let s = get("wastrumentation_stack");
    let a = get("WASTRUMENTATION_ANALYSIS");
    if t.len() != 1 || a.len() != 1 || s.len() > 1 || mods.len() != 2 + s.len() {
        return Err(format!("the merge was given {:?}", mods.iter().map(|m| &m.0).collect::<Vec<_>>()));
    }
    let load = |what: &str, b: &[u8]| -> Result<Rc<Module>, String> {
        wasm::validate(b).map_err(|e| format!("{what} is not valid: {e}"))?;
        Module::decode(b).map(Rc::new).map_err(|e| format!("{what}: {e}"))
    };
    let target = load("the instrumented program", t[0])?;
    let stack = match s.first() {
        Some(b) => Some(load("the stack library", b)?),
        None => None,
    };
    Ok((Parts { target, stack, analysis: None }, mods))
}

pub fn on(groups: &[usize], off: &[H]) -> [bool; N_HOOKS] {
    hooks::expected(groups, off)
}

/// Instruments with the real pipeline under the simulated system, undisturbed.
pub fn instrument(req: &Req, seed: u64) -> (Res, pipe::Ran) {
    let cfg = simos::Config { seed, preempt: 0, ..Default::default() };
    #[cfg(feature = "backends")]
    crate::backend::before();
    let mut ran = pipe::run(&[vec![req.clone()]], cfg, vec![], Default::default());
    let mut r = std::mem::replace(&mut ran.res[0][0], Res::None);
    #[cfg(feature = "backends")]
    if req.backend == crate::backend::RUST {
        r = crate::backend::after(r);
    }
    #[cfg(not(feature = "backends"))]
    let _ = &mut r;
    (r, ran)
}
