//! Runs one merge case inside the simulated machine and judges what was observed.

use crate::case::*;
use serde::{Deserialize, Serialize};
use simos::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::AssertUnwindSafe;
use std::sync::Mutex;
use wasm_merge::error::Error;
use wasm_merge::options::*;
use wasm_merge::{InputModule, MergeOptions};

pub const FLAGS: [&str; 23] = simos::progs::KNOWN_FLAGS;

fn options<'a>(primary: Option<InputModule<'a>>, input_modules: Vec<InputModule<'a>>, f: u32) -> MergeOptions<'a> {
    macro_rules! o {
        ($t:ident, $i:expr) => {
            if f & (1 << $i) != 0 {
                $t::Enable
            } else {
                $t::Disable
            }
        };
    }
    MergeOptions {
        primary,
        input_modules,
        no_validation: o!(NoValidate, 0),
        rename_export_conflicts: o!(RenameExportConflicts, 1),
        sign_ext: o!(SignExt, 2),
        threads: o!(Threads, 3),
        mutable_globals: o!(MutableGlobals, 4),
        nontrapping_float_to_int: o!(NontrappingFloatToInt, 5),
        simd: o!(Simd, 6),
        bulk_memory: o!(BulkMemory, 7),
        bulk_memory_opt: o!(BulkMemoryOpt, 8),
        call_indirect_overlong: o!(CallIndirectOverlong, 9),
        exception_handling: o!(ExceptionHandling, 10),
        tail_call: o!(TailCall, 11),
        reference_types: o!(ReferenceTypes, 12),
        multivalue: o!(Multivalue, 13),
        gc: o!(Gc, 14),
        memory64: o!(Memory64, 15),
        relaxed_simd: o!(RelaxedSimd, 16),
        extended_const: o!(ExtendedConst, 17),
        strings: o!(Strings, 18),
        multimemory: o!(Multimemory, 19),
        typed_continuations: o!(TypedContinuations, 20),
        shared_everything: o!(SharedEverything, 21),
        fp16: o!(Fp16, 22),
    }
}

// ---------------------------------------------------------------- outcome of one merge

#[derive(Clone, Debug)]
pub enum Res {
    Ok(Vec<u8>),
    Err(ErrInfo),
    Panic(String),
}

#[derive(Clone, Debug)]
pub struct ErrInfo {
    pub variant: &'static str,
    pub io: Option<(Option<i32>, String)>, // raw errno, display text
    pub io_debug: String,
    pub text: String,
}

fn err_info(e: &Error) -> ErrInfo {
    let io = |x: &std::io::Error| Some((x.raw_os_error(), x.to_string()));
    let io_debug = std::error::Error::source(e).map(|s| format!("{s:?}")).unwrap_or_else(|| format!("{e:?}"));
    let (variant, io) = match e {
        Error::TempInputFileCreationFailed(x) => ("input-creation", io(x)),
        Error::TempInputFileWriteFailed(x) => ("input-write", io(x)),
        Error::TempOutputFileCreationFailed(x) => ("output-creation", io(x)),
        Error::TempOutputFileWriteFailed(x) => ("output-write", io(x)),
        Error::MergeExecutionFailed(x) => ("launch", io(x)),
        Error::MergeExecutionFailedReason(_) => ("tool", None),
        Error::ReadFromOutputFileFailed(x) => ("output-read", io(x)),
        #[allow(unreachable_patterns)]
        _ => ("other", None),
    };
    let text = match e {
        Error::MergeExecutionFailedReason(s) => s.clone(),
        e => e.to_string(),
    };
    ErrInfo { variant, io, io_debug, text }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub caller: usize,
    pub unit: usize,
    pub res: Res,
    pub files_left: Vec<String>,
    pub fds_left: Vec<i32>,
    pub running: usize,
    pub zombies: usize,
    pub display: String,
    pub chain: Vec<String>,
}

static OUTCOMES: Mutex<Vec<Outcome>> = Mutex::new(Vec::new());

fn one_merge(caller: usize, unit: usize, m: &Merge) {
    set_unit(unit);
    let (mods, prim) = harness(|| {
        let mods: Vec<Vec<u8>> = m.mods.iter().map(Module::bytes).collect();
        let prim = m.primary.as_ref().map(Module::bytes);
        (mods, prim)
    });
    let opts = harness(|| {
        let primary = prim.as_ref().map(|b| InputModule { module: b, namespace: m.primary.as_ref().unwrap().ns.clone() });
        let inputs = mods.iter().zip(&m.mods).map(|(b, d)| InputModule { module: b, namespace: d.ns.clone() }).collect();
        options(primary, inputs, m.flags)
    });
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| opts.merge()));
    harness(|| {
        let mut chain = vec![];
        let (res, display) = match r {
            Ok(Ok(b)) => (Res::Ok(b), String::new()),
            Ok(Err(e)) => {
                let mut s = std::error::Error::source(&e);
                while let Some(x) = s {
                    chain.push(x.to_string());
                    s = x.source();
                }
                (Res::Err(err_info(&e)), e.to_string())
            }
            Err(p) => {
                let s = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "?".into());
                (Res::Panic(s), String::new())
            }
        };
        let w = world();
        // what is left behind at the moment of return
        let unlink_failed = w.fired.iter().any(|f| f.caller == caller && f.unit == unit && matches!(f.site, Site::Unlink | Site::OpenDir | Site::Stat) && matches!(f.effect, Effect::Errno(_)));
        let mut files_left = vec![];
        for (p, i) in &w.paths {
            let n = &w.inodes[*i];
            let mine = match &n.creator {
                Creator::Unit { caller: c, unit: u, .. } => (*c, *u) == (caller, unit),
                Creator::Proc(pid) => w.procs.get(pid).is_some_and(|p| (p.caller, p.unit) == (caller, unit)),
                _ => false,
            };
            if mine && !n.unlink_failed && !unlink_failed {
                files_left.push(format!("{} ({})", w.name_of(*i), String::from_utf8_lossy(p)));
            }
        }
        let fds_left = w.fds.iter().filter(|(_, e)| (e.caller, e.unit) == (caller, unit)).map(|(f, _)| *f).collect();
        let running = w.procs.values().filter(|p| (p.caller, p.unit) == (caller, unit) && p.state == PState::Running).count();
        let zombies = w.procs.values().filter(|p| (p.caller, p.unit) == (caller, unit) && matches!(p.state, PState::Zombie(_))).count();
        let s = match &res {
            Res::Ok(b) => format!("Ok({} bytes)", b.len()),
            Res::Err(e) => format!("Err({})", e.variant),
            Res::Panic(p) => format!("panic: {p}"),
        };
        w.ev(format!("merge {caller}.{unit} returns {s}"));
        OUTCOMES.lock().unwrap().push(Outcome { caller, unit, res, files_left, fds_left, running, zombies, display, chain });
    });
}

fn build_world(cfg: Config, case: &Case, callers: &[Vec<Merge>], faults: Vec<Fault>) -> World {
    let mut fates = HashMap::new();
    for (c, ms) in callers.iter().enumerate() {
        for (u, m) in ms.iter().enumerate() {
            fates.insert((c, u), m.fate.to_sim());
        }
    }
    let mut w = World::new(cfg, faults, fates);
    let tmp = norm(&w.cfg.cwd.clone(), &case.env.tmp());
    if !case.env.tmpdir_missing {
        w.mkdir_pre(&tmp);
        if case.env.tmpdir_readonly {
            let i = w.paths[&tmp];
            w.inodes[i].readonly = true;
        }
        for k in 0..case.env.foreign {
            let mut p = tmp.clone();
            let names = ["notes.txt", ".tmpAbCdEf", "wasm-merge", "input.wasm", "output.wasm", ".tmp000000", "merge.lock", "out"];
            p.extend_from_slice(format!("/{}", names[k % names.len()]).as_bytes());
            if !w.paths.contains_key(&p) {
                w.add_foreign(&p, format!("precious {k}").into_bytes());
            }
        }
    }
    w
}

fn go(w: World, callers: &[Vec<Merge>]) -> &'static mut World {
    let mut fs: Vec<Box<dyn FnOnce() + Send + 'static>> = vec![];
    for (c, ms) in callers.iter().enumerate() {
        let ms = ms.clone();
        fs.push(Box::new(move || {
            for (u, m) in ms.iter().enumerate() {
                one_merge(c, u, m);
            }
        }));
    }
    run(w, fs)
}

/// First half of a crash case: the process that gets killed. Returns what survives it.
pub fn run_before(case: &Case) -> String {
    let b = case.before.as_ref().unwrap();
    let w = build_world(case.before_config(b), case, &b.callers, vec![]);
    let w = go(w, &b.callers);
    let o = match &w.end {
        End::Crashed | End::Completed => Ok((w.snapshot(), w.end == End::Crashed, w.probes.iter().map(|(k, v)| (k.to_string(), *v)).collect(), w.hash)),
        e => Err(format!("{e:?}")),
    };
    serde_json::to_string::<Result<(Snapshot, bool, BTreeMap<String, u64>, u64), String>>(&o).unwrap()
}

#[derive(Serialize, Deserialize)]
pub struct BeforeOut(pub Result<(Snapshot, bool, BTreeMap<String, u64>, u64), String>);

// ---------------------------------------------------------------- judging

fn hard(f: &Fired) -> bool {
    let Effect::Errno(_) = f.effect else { return false };
    match f.site {
        Site::OpenCreate | Site::Write | Site::Spawn | Site::Pipe | Site::OpenDev | Site::Read => true,
        // a probe of something absent is not a failure of the merge
        Site::OpenExisting => f.nth != u32::MAX,
        _ => false,
    }
}
fn lenient(f: &Fired) -> bool {
    matches!(f.effect, Effect::Errno(_)) && !hard(f) && f.site != Site::Unlink
}

struct Judge<'a> {
    case: &'a Case,
    w: &'a World,
    out: Vec<Violation>,
}

impl Judge<'_> {
    fn v(&mut self, prop: &str, class: &str, msg: String, at: Option<(usize, usize)>) {
        self.out.push(Violation {
            prop: prop.into(),
            class: class.into(),
            msg,
            caller: at.map(|a| a.0),
            unit: at.map(|a| a.1),
        });
    }

    fn unit(&mut self, o: &Outcome, solo: bool) {
        let at = (o.caller, o.unit);
        let m = &self.case.callers[o.caller][o.unit];
        let w = self.w;
        let fired: Vec<&Fired> = w.fired.iter().filter(|f| (f.caller, f.unit) == at).collect();
        let hards: Vec<&&Fired> = fired.iter().filter(|f| hard(f)).collect();
        let lenients = fired.iter().any(|f| lenient(f));
        let transients = fired.iter().any(|f| !matches!(f.effect, Effect::Errno(_)));
        let quota = self.case.env.disk_quota.is_some() && w.probes.contains_key("disk_full");
        let empty = vec![];
        let err_bytes = w.proc_err.get(&at).unwrap_or(&empty);
        let procs: Vec<&Proc> = w.procs.values().filter(|p| (p.caller, p.unit) == at).collect();
        let bad_status = procs.iter().any(|p| match p.state {
            PState::Running => false,
            PState::Zombie(s) | PState::Reaped(s) => s != 0,
        });
        let tool_bad = bad_status || !err_bytes.is_empty();
        let tools: Vec<&ToolRun> = w.tools.iter().filter(|t| (t.caller, t.unit) == at).collect();
        let who = if solo { "the merge".to_string() } else { format!("merge {}.{}", o.caller, o.unit) };
        // a tool that succeeds with an empty output may be taken at its word or not
        let faultless = hards.is_empty() && !lenients && !quota && m.fate.benign() && m.fate.out_style != 6 && !m.unspeakable();
        let fault_list = || {
            fired.iter().map(|f| format!("{:?} {}", f.site, effect_str(f.effect))).collect::<Vec<_>>().join(", ")
        };

        match &o.res {
            Res::Ok(b) => {
                let good = tools.last().is_some_and(|t| t.status == Some(0) && t.finished && t.produced.as_ref() == Some(b)) && err_bytes.is_empty() && !bad_status;
                if !good {
                    let (class, why) = if tools.is_empty() {
                        ("ok-without-tool", "the tool was never run for it".to_string())
                    } else if bad_status {
                        ("ok-although-tool-failed", format!("the tool ended with status {:?}", tools.last().unwrap().status))
                    } else if !err_bytes.is_empty() {
                        ("ok-although-tool-complained", "the tool wrote to its error stream".to_string())
                    } else {
                        let t = tools.last().unwrap();
                        (
                            "wrong-bytes",
                            format!("the tool's output has {:?} bytes, the result {} and they differ", t.produced.as_ref().map(Vec::len), b.len()),
                        )
                    };
                    self.v("C01", class, format!("{who} returned Ok({} bytes) but {why}", b.len()), Some(at));
                    if tool_bad && hards.is_empty() {
                        self.v("C02", class, format!("{who} returned Ok although the tool failed ({why})"), Some(at));
                    }
                }
                if !hards.is_empty() {
                    self.v("C02", "ok-despite-fault", format!("{who} returned Ok although a call failed: {}", fault_list()), Some(at));
                }
            }
            Res::Err(e) => {
                self.message(o, e, &who);
                if faultless {
                    let msg = format!("{who} failed with `{}`; faults: [{}]", o.display, fault_list());
                    if transients {
                        self.v("C02", "transient-not-absorbed", msg.clone(), Some(at));
                        self.v("C06", "transient-not-absorbed", msg, Some(at));
                    } else {
                        self.v("C01", "fails-without-fault", msg, Some(at));
                    }
                } else if !lenients && !m.unspeakable() {
                    self.stage(o, e, &hards, tool_bad, bad_status, err_bytes, &who);
                }
            }
            Res::Panic(p) => {
                let msg = format!("{who} panicked: {p}; faults: [{}]", fault_list());
                self.v("C02", "panic", msg.clone(), Some(at));
                if faultless && !transients {
                    self.v("C01", "fails-without-fault", msg, Some(at));
                }
            }
        }

        // ---- C03
        let mut want: Vec<String> = (0..23).filter(|i| m.flags & (1 << i) != 0).map(|i| FLAGS[i].to_string()).collect();
        want.sort();
        let exp = m.expected_inputs();
        for t in &tools {
            let mut got = t.flags.clone();
            got.sort();
            if got != want {
                self.v("C03", "flags", format!("{who}: options {got:?} reached the tool, requested {want:?}"), Some(at));
            }
            if t.inputs.len() != exp.len() {
                self.v("C03", "inputs", format!("{who}: the tool got {} inputs for {} modules: {:?}", t.inputs.len(), exp.len(), show_argv(&t.argv)), Some(at));
            } else {
                for (k, ((path, ns, content), e)) in t.inputs.iter().zip(&exp).enumerate() {
                    if ns != e.ns.as_bytes() {
                        self.v("C03", "namespace", format!("{who}: module {k} reached the tool as {:?}, requested {:?}", String::from_utf8_lossy(ns), e.ns), Some(at));
                        break;
                    }
                    match content {
                        Some(c) => {
                            if *c != e.bytes() {
                                self.v("C03", "contents", format!("{who}: input {k} ({}) held {} bytes when the tool read it, not the {} bytes of its module", e.ns, c.len(), e.len), Some(at));
                                break;
                            }
                        }
                        None => {
                            // never opened: fine if the tool died first; wrong if it could not open it
                            if m.fate.benign() && t.finished {
                                self.v("C03", "contents", format!("{who}: input {k} could not be read by the tool ({})", String::from_utf8_lossy(path)), Some(at));
                                break;
                            }
                        }
                    }
                }
            }
            if t.output.is_none() {
                self.v("C03", "output", format!("{who}: no output path was given to the tool: {:?}", show_argv(&t.argv)), Some(at));
            }
            if m.fate.signal == 0 && t.status == Some(libc::SIGPIPE) && o.running == 0 {
                self.v("C06", "cut-off", format!("{who}: the tool died because its output streams were closed on it"), Some(at));
                continue;
            }
            if m.fate.benign() && !quota && t.status.is_some_and(|s| s != 0) && !t.finished && !procs.iter().any(|p| p.killed_by_parent) {
                self.v("C03", "rejected", format!("{who}: the tool could not work with what it was given: {}; {:?}", String::from_utf8_lossy(&t.stderr).trim(), show_argv(&t.argv)), Some(at));
            }
        }
        if tools.is_empty() && !procs.is_empty() && !self.case.env.missing.iter().any(|x| x == "wasm-merge") && hards.is_empty() {
            self.v("C03", "not-run", format!("{who}: a process was started but the tool never ran; error stream: {:?}", String::from_utf8_lossy(err_bytes)), Some(at));
        }
        for (c, u, s) in &w.aliens {
            if (*c, *u) == at {
                self.v("C03", "alien", format!("{who}: part of the request was executed as a command: `{s}`"), Some(at));
                break;
            }
        }

        // ---- C04
        if !o.files_left.is_empty() {
            self.v("C04", "files-left", format!("{who} left {} behind; faults: [{}]", o.files_left.join(", "), fault_list()), Some(at));
        }
        if !o.fds_left.is_empty() {
            self.v("C04", "descriptors-left", format!("{who} returned with {} of its descriptors still open", o.fds_left.len()), Some(at));
        }
        if o.running > 0 {
            self.v("C04", "tool-still-running", format!("{who} returned while its tool was still running"), Some(at));
            self.v("C06", "abandoned", format!("{who} returned while its tool was still running"), Some(at));
        }
        if o.zombies > 0 {
            self.v("C04", "not-reaped", format!("{who} returned without reaping its tool"), Some(at));
        }
        let tmp = norm(&w.cfg.cwd, &self.case.env.tmp());
        let mut reported = false;
        for c in w.creates.iter().filter(|c| (c.caller, c.unit) == at) {
            let own_dir = |p: &[u8]| {
                let d = parent(p);
                w.creates.iter().find(|x| x.path == d && (x.caller, x.unit) == at).is_some_and(|x| w.inodes[x.ino].mode & 0o077 == 0)
            };
            let inside = c.path.len() > tmp.len() && c.path.starts_with(&tmp) && (tmp == b"/" || c.path[tmp.len()] == b'/');
            let shown = String::from_utf8_lossy(&c.path).to_string();
            let n = &w.inodes[c.ino];
            if !inside && !reported {
                reported = true;
                self.v("C04", "outside-tmpdir", format!("{who} created {shown}, outside {}", String::from_utf8_lossy(&tmp)), Some(at));
            }
            if !n.exclusive && !own_dir(&c.path) && !reported {
                reported = true;
                self.v("C04", "not-exclusive", format!("{who} created {shown} without insisting that it be new"), Some(at));
            }
            if n.mode & 0o077 != 0 && n.kind == INodeKind::File && !own_dir(&c.path) && !reported {
                reported = true;
                self.v("C04", "not-private", format!("{who} created {shown} with mode {:o}", n.mode), Some(at));
            }
        }
        for (c, u, s) in &w.misdeeds {
            if (*c, *u) == at {
                if s.contains("signal") {
                    self.v("C06", "killed", format!("{who} {s}"), Some(at));
                } else {
                    self.v("C04", "misdeed", format!("{who} {s}"), Some(at));
                }
                break;
            }
        }
    }

    /// The text an error shows to a user names the stage its variant names, and carries the cause.
    fn message(&mut self, o: &Outcome, e: &ErrInfo, who: &str) {
        let at = (o.caller, o.unit);
        let cause = match &e.io {
            Some((_, t)) => t.clone(),
            None => e.text.clone(),
        };
        if !o.display.contains(cause.as_str()) && !o.chain.iter().any(|c| c.contains(cause.as_str())) {
            let shown: String = o.display.chars().take(160).collect();
            self.v("C02", "cause-not-shown", format!("{who}: the message of its error (`{shown}`) does not carry the cause `{}`", cause.chars().take(160).collect::<String>()), Some(at));
        }
        let d = o.display.replacen(cause.as_str(), "", 1).to_lowercase();
        let wrong = match e.variant {
            "input-creation" | "input-write" => d.contains("output") && !d.contains("input"),
            "output-creation" | "output-read" => d.contains("input") && !d.contains("output"),
            "launch" | "tool" => d.contains("input file") || d.contains("output file"),
            _ => false,
        };
        if wrong {
            self.v("C02", "stage-not-shown", format!("{who}: its error is of stage `{}` but its message names another: `{d}`", e.variant), Some(at));
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn stage(&mut self, o: &Outcome, e: &ErrInfo, hards: &[&&Fired], tool_bad: bool, bad_status: bool, err_bytes: &[u8], who: &str) {
        let at = (o.caller, o.unit);
        let mut allowed: Vec<(Vec<&str>, Option<i32>, String)> = vec![];
        for f in hards {
            let Effect::Errno(n) = f.effect else { continue };
            let role = self.case.roles.get(&format!("{}.{}.{}", o.caller, o.unit, f.nth));
            let st: Vec<&str> = match f.site {
                Site::OpenCreate => match role.map(String::as_str) {
                    Some("input") if hards.len() == 1 => vec!["input-creation"],
                    Some("output") if hards.len() == 1 => vec!["output-creation"],
                    _ => vec!["input-creation", "output-creation"],
                },
                Site::Write => vec!["input-write"],
                Site::Read => vec!["output-read"],
                Site::OpenExisting => vec!["output-read", "input-creation", "output-creation", "input-write"],
                Site::Spawn | Site::Pipe | Site::OpenDev => vec!["launch"],
                _ => vec![],
            };
            allowed.push((st, Some(n), format!("{:?}", f.site)));
        }
        if tool_bad {
            let mut st = vec!["tool"];
            if err_bytes.is_empty() && bad_status {
                st.push("launch");
            }
            allowed.push((st, None, "tool".into()));
        }
        if allowed.is_empty() {
            return;
        }
        let mut stage_ok = false;
        for (st, errno, _) in &allowed {
            if !st.contains(&e.variant) {
                continue;
            }
            stage_ok = true;
            match errno {
                Some(n) => {
                    if let Some((raw, text)) = &e.io {
                        if *raw == Some(*n) || text.contains(&format!("os error {n})")) || e.io_debug.contains(&format!("code: {n},")) {
                            return;
                        }
                    }
                }
                None => {
                    let t = String::from_utf8_lossy(err_bytes);
                    if t.is_empty() || e.text.contains(t.as_ref()) {
                        return;
                    }
                }
            }
        }
        let what = allowed.iter().map(|(_, n, s)| match n {
            Some(n) => format!("{s} failed with errno {n}"),
            None => format!("the tool failed, writing {} bytes on its error stream", err_bytes.len()),
        }).collect::<Vec<_>>().join(" / ");
        if stage_ok {
            let shown: String = o.display.chars().take(160).collect();
            self.v("C02", "cause-lost", format!("{who}: {what}, but the error does not carry it: `{shown}`"), Some(at));
        } else {
            self.v("C02", "wrong-stage", format!("{who}: {what}, but the error names stage `{}` (`{}`)", e.variant, o.display.chars().take(160).collect::<String>()), Some(at));
        }
    }
}

pub fn show_argv(a: &[Vec<u8>]) -> String {
    a.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect::<Vec<_>>().join(" ")
}

/// Runs the case in this process (which must be a fresh child) and judges it.
pub fn run_case(case: &Case, snap: Option<Snapshot>, want_log: bool) -> RunResult {
    let faults = case.faults.iter().map(FaultJ::to_sim).collect();
    let mut w = build_world(case.config(), case, &case.callers, faults);
    if let Some(s) = snap {
        w.restore(s);
    }
    let w = go(w, &case.callers);
    let outs = OUTCOMES.lock().unwrap().clone();
    let multi = case.callers.len() > 1 || case.callers.iter().any(|c| c.len() > 1);
    let mut j = Judge { case, w, out: vec![] };
    match &j.w.end {
        End::Completed => {}
        End::Deadlock(s) => {
            let s = s.clone();
            j.v("C06", "deadlock", format!("no progress is possible: {s}"), None);
        }
        End::StepLimit(s) => {
            let s = s.clone();
            j.v("C06", "no-progress", format!("not finished after {} steps: {s}", case.config().max_steps), None);
        }
        e => {
            let e = format!("unexpected end {e:?}");
            return RunResult { harness_error: Some(e), ..Default::default() };
        }
    }
    for o in &outs {
        j.unit(o, !multi);
    }
    if j.w.end == End::Completed {
        let expected: usize = case.callers.iter().map(Vec::len).sum();
        if outs.len() != expected {
            return RunResult { harness_error: Some(format!("{} outcomes of {expected}", outs.len())), ..Default::default() };
        }
    }
    for (p, ino, data) in &w.foreign {
        let shown = String::from_utf8_lossy(p).to_string();
        if w.paths.get(p) != Some(ino) {
            j.v("C04", "foreign-removed", format!("{shown}, which no merge created, is gone or replaced"), None);
        } else if w.inodes[*ino].data != *data {
            j.v("C04", "foreign-changed", format!("{shown}, which no merge created, was modified"), None);
        }
    }
    let violations = j.out;

    // ---- what this run covered
    let mut fired = BTreeMap::new();
    for f in &w.fired {
        let e = match f.effect {
            Effect::Errno(n) => format!("{:?}:errno{}", f.site, if f.nth == u32::MAX { format!("{n}:natural") } else { n.to_string() }),
            Effect::Short(_) => format!("{:?}:short", f.site),
            Effect::Eintr(_) => format!("{:?}:eintr", f.site),
            Effect::NameTaken(_) => format!("{:?}:name-taken", f.site),
            Effect::Delay(_) => format!("{:?}:delay", f.site),
        };
        *fired.entry(e).or_insert(0) += 1;
    }
    for ms in &case.callers {
        for m in ms {
            let f = &m.fate;
            if f.signal != 0 {
                *fired.entry(format!("tool:signal{}", f.signal)).or_insert(0) += 1;
            }
            if f.exit != 0 {
                *fired.entry(format!("tool:exit-{}", if f.err.len > 0 { "with-message" } else { "silent" })).or_insert(0) += 1;
            }
            if f.exit == 0 && f.signal == 0 && f.err.len > 0 {
                *fired.entry("tool:message-but-success".into()).or_insert(0) += 1;
            }
        }
    }
    let mut interesting = vec![];
    let outcomes: Vec<String> = outs
        .iter()
        .map(|o| {
            let s = match &o.res {
                Res::Ok(b) => format!("{}.{} ok {}", o.caller, o.unit, b.len()),
                Res::Err(e) => format!("{}.{} err {}", o.caller, o.unit, e.variant),
                Res::Panic(_) => format!("{}.{} panic", o.caller, o.unit),
            };
            s
        })
        .collect();
    // shape of a run: how each merge ended and which faults it met
    let mut shape: BTreeSet<String> = fired.keys().cloned().collect();
    for o in &outs {
        let t = w.tools.iter().filter(|t| (t.caller, t.unit) == (o.caller, o.unit)).count();
        shape.insert(format!(
            "{}.{}:{}:{}:{}",
            o.caller,
            o.unit,
            match &o.res {
                Res::Ok(_) => "ok",
                Res::Err(e) => e.variant,
                Res::Panic(_) => "panic",
            },
            t,
            w.created.get(&(o.caller, o.unit)).unwrap_or(&0)
        ));
    }
    let mut sh = 0xcbf2_9ce4_8422_2325;
    for s in &shape {
        sh = simos::progs::fnv(sh, s.as_bytes());
    }
    if !w.fired.is_empty() {
        interesting.push("fault".into());
    }
    if case.callers.iter().flatten().any(|m| !m.fate.benign()) {
        interesting.push("tool-failure".into());
    }
    if w.switches > 0 && case.callers.len() > 1 {
        interesting.push("interleaved".into());
    }
    for p in w.probes.keys() {
        interesting.push((*p).to_string());
    }
    let mut roles = BTreeMap::new();
    for c in &w.creates {
        if c.nth == u32::MAX {
            continue;
        }
        for t in w.tools.iter().filter(|t| (t.caller, t.unit) == (c.caller, c.unit)) {
            let key = format!("{}.{}.{}", c.caller, c.unit, c.nth);
            let is = |p: &[u8]| norm(&w.cfg.cwd, p) == c.path;
            if t.inputs.iter().any(|i| is(&i.0)) {
                roles.insert(key, "input".to_string());
            } else if t.output.as_ref().is_some_and(|p| is(p)) {
                roles.insert(key, "output".to_string());
            }
        }
    }
    let mut hash = w.hash;
    for o in &outs {
        if let Res::Ok(b) = &o.res {
            hash = simos::progs::fnv(hash, b);
        }
        hash = simos::progs::fnv(hash, o.display.as_bytes());
    }
    RunResult {
        violations,
        tape: w.tape_out.clone(),
        hash,
        sched: w.sched_hash,
        shape: sh,
        steps: w.steps,
        sim_ns: w.now,
        switches: w.switches,
        fired,
        probes: w.probes.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        sites: w.counts.iter().map(|((c, u, s), n)| (*c, *u, s.name(), *n)).collect(),
        roles,
        unsupported: w.unsupported.clone(),
        harness_error: None,
        interesting,
        log: if want_log { w.log.clone() } else { vec![] },
        outcomes,
    }
}
