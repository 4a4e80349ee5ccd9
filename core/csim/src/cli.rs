//! The command-line tools: `main` as it is, its arguments, files, standard streams and end under the simulated
//! system.

use crate::case::*;
use crate::check::{log_of, note, says, trace_of};
use crate::draw::{conf, damaged, program, text, SITES};
use crate::pipe;
use crate::prog::{Style, Tape};
use crate::run::{self, Held};
use crate::wasm::{self, Module, Trace};
use crate::world::{Knobs, Script};
use crate::{backend, stack};
use rust_to_wasm_compiler as compiler;
use simos::{Config, Effect, End, INodeKind, Site, World};
use std::collections::{BTreeSet, HashMap};
use std::ffi::{c_char, c_int, CString};
use std::path::Path;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicUsize, Ordering::SeqCst};

pub static RUNNING: AtomicBool = AtomicBool::new(false);

// ---------------------------------------------------------------- arguments

static ARGV: AtomicPtr<*mut c_char> = AtomicPtr::new(std::ptr::null_mut());
static ARGC: AtomicUsize = AtomicUsize::new(0);

extern "C" fn started(argc: c_int, argv: *mut *mut c_char, _: *mut *mut c_char) {
    ARGV.store(argv, SeqCst);
    ARGC.store(argc as usize, SeqCst);
}
#[used]
#[link_section = ".init_array"]
static STARTED: extern "C" fn(c_int, *mut *mut c_char, *mut *mut c_char) = started;

/// From now on these are the arguments of this process.
fn become_called(args: &[Vec<u8>]) -> Result<(), String> {
    let (argv, argc) = (ARGV.load(SeqCst), ARGC.load(SeqCst));
    if argv.is_null() || args.len() > argc {
        return Err(format!("no room for {} arguments", args.len()));
    }
    for i in 0..argc {
        let p = match args.get(i) {
            Some(a) => CString::new(a.clone()).map_err(|_| "NUL in an argument")?.into_raw(),
            None => std::ptr::null_mut(),
        };
        unsafe { *argv.add(i) = p };
    }
    let seen: Vec<Vec<u8>> = std::env::args_os().map(std::os::unix::ffi::OsStringExt::into_vec).collect();
    if seen != args {
        return Err(format!("{} arguments arrived of {}", seen.len(), args.len()));
    }
    Ok(())
}

fn bytes(s: &str) -> Vec<u8> {
    let mut v = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match (b[i], b.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok())) {
            (b'%', Some(x)) => {
                v.push(x);
                i += 3;
            }
            (x, _) => {
                v.push(x);
                i += 1;
            }
        }
    }
    v
}

// ---------------------------------------------------------------- drawing

/// What the hooks are called on the command line, in the order of `hooks::GROUPS`.
const NAMES: [&str; 28] = [
    "generic-apply", "call-pre", "call-post", "call-indirect-pre", "call-indirect-post", "if-then", "if-then-post", "if-then-else", "if-then-else-post",
    "branch", "branch-if", "branch-table", "select", "unary", "binary", "drop", "return", "const", "local", "global", "store", "load", "memory-size",
    "memory-grow", "block-pre", "block-post", "loop-pre", "loop-post",
];

fn name(t: &mut Tape, what: &str) -> String {
    let dir = t.pick(&["", "", "/work/", "/home/user/", "../home/user/", "./", "/tmp/"]);
    let n = match t.below(8) {
        0..=3 => what.to_string(),
        4 => format!("{what} of mine"),
        5 => format!("{what}-é\u{4e2d}"),
        6 => format!("{what}%ff%fe"),
        _ => format!("-{what}"),
    };
    format!("{dir}{n}")
}

fn option(t: &mut Tape, short: Option<char>, long: &str, value: &str) -> Vec<String> {
    let dash = value.starts_with('-') && value != "-";
    match (short, t.below(5)) {
        (Some(s), 0) if !dash => vec![format!("-{s}"), value.into()],
        (Some(s), 1) if !dash => vec![format!("-{s}{value}")],
        (Some(s), 2) => vec![format!("-{s}={value}")],
        (_, 3) if !dash => vec![format!("--{long}"), value.into()],
        _ => vec![format!("--{long}={value}")],
    }
}

fn list(t: &mut Tape, long: &str, values: &[String]) -> Vec<Vec<String>> {
    let mut out = vec![];
    let mut rest = values;
    while !rest.is_empty() {
        let n = match t.below(3) {
            0 => 1,
            1 => rest.len(),
            _ => 1 + t.below(rest.len() as u32) as usize,
        };
        if n == 1 && t.chance(500) {
            out.push(vec![format!("--{long}={}", rest[0])]);
        } else {
            let mut v = vec![format!("--{long}")];
            v.extend_from_slice(&rest[..n]);
            out.push(v);
        }
        rest = &rest[n..];
    }
    out
}

fn shuffle<T>(t: &mut Tape, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let k = t.below(i as u32 + 1) as usize;
        v.swap(i, k);
    }
}

pub fn draw(t: &mut Tape, c: &mut Case) {
    let mut style = Style::draw(t);
    let mut x = Cli { tool: u8::from(t.chance(250)), ..Default::default() };
    if x.tool == 1 {
        style.funcs += 3;
        style.pure_ = [550, 800, 950][t.below(3) as usize];
    }
    let (b, n) = program(t, style);
    c.module = hex(&b);
    let mut j = Job::default();
    let mut cause = 0;
    if t.chance(550) {
        cause = 1 + t.weighted(&[6, 8, 4, 3, 3, 2, 2, 2, 5, 3, 2, 1]);
    }
    x.input = if t.chance(200) { "-".into() } else { name(t, "input") };
    x.output = if t.chance(250) { "-".into() } else { name(t, "output") };
    if x.input == x.output && x.input != "-" {
        x.output.push('2');
    }
    if x.output != "-" && t.chance(350) {
        x.stale = Some([0, 3, 100_000][t.below(3) as usize]);
    }
    x.chunk = [0, 0, 0, 1000, 7][t.below(5) as usize];
    let mut parts: Vec<Vec<String>> = vec![option(t, Some('i'), "input-program-path", &x.input), option(t, Some('o'), "output-path", &x.output)];
    if x.tool == 0 {
        c.conf = conf(t, n, true);
        c.conf.off.clear();
        c.conf.primary = 0;
        if c.conf.targets.as_ref().is_some_and(Vec::is_empty) {
            c.conf.targets = None;
        }
        let mut values: Vec<String> = c.conf.groups.iter().map(|g| NAMES[*g].to_string()).collect();
        if values.is_empty() || (values.len() == NAMES.len() && t.chance(700)) {
            c.conf.groups = (0..NAMES.len()).collect();
            values.clear();
        }
        shuffle(t, &mut values);
        if !values.is_empty() && t.chance(150) {
            let again = values[t.below(values.len() as u32) as usize].clone();
            values.push(again);
        }
        parts.extend(list(t, "hooks", &values));
        let values: Vec<String> = c.conf.targets.iter().flatten().map(|v| if t.chance(30) { format!("0{v}") } else { v.to_string() }).collect();
        parts.extend(list(t, "targets", &values));
        x.manifest = format!("{}.toml", name(t, "analysis"));
        x.text = format!("[package] # {}", t.below(1000));
        parts.push(option(t, Some('r'), "rust-analysis-toml-path", &x.manifest));
        let on = crate::draw::chosen(&c.conf.groups, &[]);
        c.script = Script::draw(t, &Knobs { subs: 0, hook_traps: 100, applies: 0, host_faults: 300 }, &on);
        x.rustc = t.chance(3);
    } else if t.chance(500) {
        let m = [0, 1, 2, 3, 5, 9, 20, 100, 255, 257, 65_535, 65_537, 1 << 31, 4_294_967_295][t.below(14) as usize];
        x.min = Some(m);
        parts.push(option(t, Some('m'), "minimum-body", &m.to_string()));
    }
    shuffle(t, &mut parts);
    c.kind = ["plain", "system call", "damaged input", "wrong arguments", "merge tool", "analysis compiler", "library compiler", "no compiler", "pipeline", "full disk", "missing file", "no tool", "a directory"][cause].into();
    match cause {
        // a read that ends where a section does, and then fails: what was read is a module too
        1 if t.chance(150) => {
            let ends = boundaries(&b);
            let at = ends[t.below(ends.len() as u32) as usize];
            let errno = [libc::EIO, libc::ESTALE][t.below(2) as usize];
            for (nth, effect) in [(0, Effect::Short(at)), (1, Effect::Errno(errno))] {
                c.os_faults.push(OsFault::from_sim(&simos::Fault { caller: 0, unit: 0, site: Site::Read, nth, effect }));
            }
        }
        1 => {
            for _ in 0..=t.below(2) {
                let site = if x.output == "-" && t.chance(400) { Site::Write } else { t.pick(&SITES) };
                let mut all = simos::faults::effects(site);
                if site == Site::Write {
                    all.push(Effect::Errno(libc::EPIPE));
                }
                let effect = all[t.below(all.len() as u32) as usize];
                let most = [3, 10, 30][t.below(3) as usize];
                c.os_faults.push(OsFault::from_sim(&simos::Fault { caller: 0, unit: 0, site, nth: t.below(most), effect }));
            }
        }
        2 => j.input = Some(hex(&damaged(t, &b))),
        3 => {
            let (what, extra): (&str, Vec<&str>) = match (t.below(9), x.tool) {
                (0, _) => ("there is no such option", vec!["--no-such-option"]),
                (1, _) => ("nothing takes this", vec!["-Z9"]),
                (2, _) => ("the input is given twice", vec!["--input-program-path=other"]),
                (3, 0) => ("there is no such hook", vec!["--hooks", "call"]),
                (4, 0) => ("there is no such hook", vec!["--hooks=GenericApply"]),
                (5, 0) => ("no function has such a number", vec!["--targets=-1"]),
                (6, 0) => ("no function has such a number", vec!["--targets", "4294967296"]),
                (7, 0) => ("no function has such a number", vec!["--targets", "one"]),
                (8, 0) => ("hooks without a name", vec!["--hooks="]),
                (8, _) => ("no number", vec!["--minimum-body=x"]),
                _ => {
                    parts.retain(|p| !(p[0].starts_with("--input") || p[0].starts_with("-i")));
                    ("no input is given", vec![])
                }
            };
            x.wrong = Some(what.into());
            let at = t.below(parts.len() as u32 + 1) as usize;
            parts.insert(at, extra.into_iter().map(str::to_string).collect());
        }
        4 => {
            let mut f = Fate { delay: [0, 3_000_000_000][t.below(2) as usize], chunk: [0, 7][t.below(2) as usize], at: t.below(5), ..Default::default() };
            match t.below(3) {
                0 => f.exit = [1, 2, 127, 255][t.below(4) as usize],
                1 => f.signal = [9, 11, 6, 15][t.below(4) as usize],
                _ => f.stderr = format!("Fatal: {}", text(t)),
            }
            f.no_output = (f.exit != 0 || f.signal != 0) && t.chance(400);
            j.fate = Some(f);
        }
        5 => j.analysis_fails = Some(format!("error: {}", text(t))),
        6 => j.library_fails = Some(format!("error: {}", text(t))),
        7 => x.setup_fails = Some(format!("no cargo: {}", text(t))),
        8 => match t.below(3) {
            0 => j.parse_fails = Some("unreadable".into()),
            1 => j.infer_fails = Some(([0, 1, 10, 100][t.below(4) as usize], "untypeable".into())),
            _ => j.encode_fails = Some("unwritable".into()),
        },
        9 => x.room = Some([0, 1, 100, 2000, 20_000, 100_000][t.below(6) as usize]),
        10 => {
            x.wrong = Some("a file is not there".into());
            let p = t.pick(&["/nowhere/x", "/work/absent/x"]);
            let opt = if x.tool == 0 && t.chance(500) { "-r" } else { "-i" };
            let long = if opt == "-r" { "--rust" } else { "--input" };
            parts.retain(|p| !(p[0].starts_with(long) || p[0].starts_with(opt)));
            parts.push(vec![opt.into(), p.into()]);
        }
        11 => c.missing = true,
        12 => {
            x.wrong = Some("this is a directory".into());
            let opt = t.pick(&["-o", "-i"]);
            let long = if opt == "-o" { "--output" } else { "--input" };
            parts.retain(|p| !(p[0].starts_with(long) || p[0].starts_with(opt)));
            parts.push(vec![opt.into(), "/home/user".into()]);
        }
        _ => (),
    }
    // what has any number of values would take what follows for one
    parts.sort_by_key(|p| p.len() > 2);
    x.args = parts.concat();
    c.kind = format!("{}: {}", ["instrumenter", "static analysis"][x.tool as usize], c.kind);
    c.jobs = vec![vec![j]];
    c.cli = Some(x);
}

// ---------------------------------------------------------------- running

/// The compiler of the package at that path, as far as the simulated disk has it.
fn of_manifest(wasi: compiler::WasiSupport, path: &Path) -> Result<Vec<u8>, String> {
    use std::os::unix::ffi::OsStrExt;
    simos::harness(|| {
        let w = simos::world();
        let cwd = w.cfg.cwd.clone();
        let i = w.lookup(&cwd, path.as_os_str().as_bytes()).map_err(|e| format!("could not find manifest {}: {e}", path.display()))?;
        let said = String::from_utf8_lossy(&w.inodes[i].data).to_string();
        match said.strip_prefix("FAILS ") {
            Some(e) => Err(e.to_string()),
            None => Ok(analysis(&said, wasi == compiler::WasiSupport::Enabled)),
        }
    })
}

/// The module made of a package.
fn analysis(said: &str, wasi: bool) -> Vec<u8> {
    let mut v = pipe::marker();
    let name = if wasi { "wasi" } else { "made" };
    v.push(0);
    v.push(1 + name.len() as u8 + said.len() as u8);
    v.push(name.len() as u8);
    v.extend_from_slice(name.as_bytes());
    v.extend_from_slice(said.as_bytes());
    v
}

struct Ended {
    code: Option<i32>,
    end: End,
    out: Option<Vec<u8>>,
    err: String,
}

#[allow(clippy::too_many_lines)]
pub fn run(c: &Case) -> RunResult {
    let mut r = RunResult::default();
    let (Some(x), Some(j)) = (&c.cli, c.jobs.first().and_then(|v| v.first())) else {
        r.harness_error = Some("no command line".into());
        return r;
    };
    let input = unhex(j.input.as_ref().unwrap_or(&c.module));
    // the world
    let fates = j.fate.iter().map(|f| ((0, 0), f.to_sim())).collect::<HashMap<_, _>>();
    let cfg = Config {
        seed: c.seed,
        missing: if c.missing { vec![b"wasm-merge".to_vec()] } else { vec![] },
        tape: c.schedule.as_ref().map(|s| unhex(s)),
        io_chunk: x.chunk,
        stdin: Some(if x.input == "-" { input.clone() } else { b"something else".to_vec() }),
        ..Default::default()
    };
    pipe::prepare();
    let mut w = World::new(cfg, c.os_faults.iter().filter_map(OsFault::to_sim).collect(), fates);
    let said = match &j.analysis_fails {
        Some(e) => format!("FAILS {e}"),
        None => x.text.clone(),
    };
    let mut mine: Vec<(Vec<u8>, usize, Vec<u8>)> = vec![];
    let mut file = |w: &mut World, p: &str, data: &[u8]| {
        let p = simos::norm(b"/work", &bytes(p));
        w.mkdir_pre(&simos::parent(&p));
        let i = w.add_pre(&p, INodeKind::File, data.to_vec());
        mine.push((p, i, data.to_vec()));
    };
    if x.input != "-" {
        file(&mut w, &x.input, &input);
    }
    if x.tool == 0 {
        file(&mut w, &x.manifest, said.as_bytes());
    }
    file(&mut w, "other", b"other");
    let place = simos::norm(b"/work", &bytes(&x.output));
    if x.output != "-" {
        w.mkdir_pre(&simos::parent(&place));
        if let Some(n) = x.stale {
            w.add_pre(&place, INodeKind::File, vec![0xee; n]);
        }
    }
    if let Some(room) = x.room {
        w.cfg.disk_quota = w.used() + room;
    }
    // what is called
    let mut args: Vec<Vec<u8>> = vec![b"/usr/bin/tool".to_vec()];
    args.extend(x.args.iter().map(|a| bytes(a)));
    if let Err(e) = become_called(&args) {
        r.harness_error = Some(e);
        return r;
    }
    compiler::asked();
    compiler::of_manifest(Some(of_manifest));
    compiler::setup_fails(x.setup_fails.clone());
    match &j.library_fails {
        Some(e) => compiler::answer(Some(Err(e.clone()))),
        None => backend::before(),
    }
    let faults = wasabi_wasm::fault::Faults { parse: j.parse_fails.clone(), encode: j.encode_fails.clone(), type_check: j.infer_fails.clone() };
    let tool = x.tool;
    static CHECKED: AtomicUsize = AtomicUsize::new(0);
    let whole = Box::new(move || {
        wasabi_wasm::fault::set(faults);
        RUNNING.store(true, SeqCst);
        let done = std::panic::catch_unwind(|| if tool == 0 { wastrumentation_cli::whole() } else { static_analysis_cli::whole() });
        let code = match done {
            Ok(true) => 0,
            Ok(false) => 1,
            Err(_) => 101,
        };
        simos::harness(|| CHECKED.store(wasabi_wasm::fault::take().checked as usize, SeqCst));
        std::process::exit(code)
    });
    let w = simos::run(w, vec![whole]);
    RUNNING.store(false, SeqCst);
    let out = if x.output == "-" { Some(w.stdout) } else { w.paths.get(&place).copied() };
    let e = Ended {
        code: w.exit_code,
        end: w.end.clone(),
        out: out.map(|i| w.inodes[i].data.clone()),
        err: String::from_utf8_lossy(&w.stderr).to_string(),
    };
    r.mix(w.hash);
    r.sim_ns = w.now;
    r.steps = w.steps;
    r.schedule = w.tape_out.clone();
    r.unsupported = w.unsupported.iter().map(ToString::to_string).collect();
    for f in &w.fired {
        *r.fired.entry(format!("{:?} {:?}", f.site, f.effect)).or_insert(0) += 1;
        r.log.push(format!("{f:?}"));
    }
    for (k, n) in &w.probes {
        r.count(k, *n);
    }
    r.log.push(format!("ends with {:?} ({:?}); says {:?}", e.code, e.end, e.err));
    r.nontrivial = c.kind.split(": ").nth(1) != Some("plain") || c.conf.targets.is_some();
    r.shape = (c.kind.clone() + &format!("{:?}", e.code)).bytes().fold(7u64, |h, b| (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3));
    r.mix(e.out.as_ref().map_or(1, |o| o.len() as u64));

    // the files of others
    for (p, i, data) in &mine {
        if w.paths.get(p) != Some(i) || w.inodes[*i].data != *data {
            r.violate("C19", "touched", format!("{} is not what it was", String::from_utf8_lossy(p)));
        }
    }
    let stuck = w.fired.iter().any(|f| f.site == Site::Unlink);
    for k in &w.creates {
        if w.paths.get(&k.path) == Some(&k.ino) && k.path != place && !stuck {
            r.violate("C19", "left-behind", format!("{} is left behind", String::from_utf8_lossy(&k.path)));
        }
    }
    // what may go wrong, and what must
    let hard = w.fired.iter().any(|f| matches!(f.effect, Effect::Errno(_) | Effect::NameTaken(_)));
    let (mut may, mut must): (Vec<String>, Vec<String>) = (vec![], vec![]);
    if hard {
        may.push(format!("system calls fail: {:?}", w.fired));
    }
    must.extend(x.wrong.clone());
    let valid = wasm::validate(&input).is_ok();
    if !valid {
        may.push("the input is damaged".into());
    }
    if let Some((n, _)) = &j.infer_fails {
        if CHECKED.load(SeqCst) as u64 > *n {
            must.push("typing fails".into());
        }
    }
    if j.parse_fails.is_some() {
        must.push("parsing fails".into());
    }
    if x.tool == 0 {
        let (a, l, s) = (j.analysis_fails.is_some(), j.library_fails.is_some(), x.setup_fails.is_some());
        if a || s || j.encode_fails.is_some() {
            must.push("a stage fails".into());
        }
        if l {
            let some = valid && c.conf.groups.contains(&0) && Module::decode(&input).is_ok_and(|m| run::targets(&m, &c.conf.targets).iter().any(|b| *b));
            let v = if some { &mut must } else { &mut may };
            v.push("the library does not compile".into());
        }
        let failed = w.tools.iter().any(|t| t.status.is_some_and(|s| s != 0)) || (!w.tools.is_empty() && j.fate.as_ref().is_some_and(Fate::fails));
        if failed || c.missing {
            must.push("merging fails".into());
        }
    }
    match e.code {
        None => match &e.end {
            End::Completed => r.harness_error = Some("no exit status".into()),
            end => r.violate("C19", "endless", format!("the tool does not end: {end:?}")),
        },
        Some(0) => {
            r.count("runs_that_succeed", 1);
            r.outcome = "success".into();
            if must.is_empty() {
                let made = e.out.unwrap_or_default();
                let res = if x.tool == 0 { instrumented(c, x, &input, &made, &mut r) } else { analysed(x, &input, &made, c.seed) };
                if let Err(m) = res {
                    r.violate("C19", "wrong-output", format!("success is reported, and {m}"));
                }
            } else {
                r.violate("C19", "swallowed", format!("success is reported although {must:?}"));
            }
        }
        Some(n) => {
            r.count("runs_that_fail", 1);
            r.outcome = format!("status {n}");
            if may.is_empty() && must.is_empty() {
                r.violate("C19", "spurious", format!("status {n} without a reason; it says {:?}", e.err));
            } else if e.err.trim().is_empty() {
                r.violate("C19", "silent", format!("status {n} and not a word"));
            } else if may.is_empty() && must.len() == 1 {
                let reason = [&j.analysis_fails, &j.library_fails, &x.setup_fails].into_iter().find_map(Clone::clone);
                let reason = reason.or_else(|| j.fate.as_ref().filter(|f| !f.stderr.is_empty()).map(|f| f.stderr.clone()));
                if let Some(m) = reason {
                    if !says(&e.err, &m) {
                        r.violate("C19", "reason-lost", format!("what fails says {m:?}, the tool says {:?}", e.err));
                    } else {
                        r.count("reasons_passed_on", 1);
                    }
                }
            }
        }
    }
    r
}

/// The output of the instrumenter against what its arguments say.
fn instrumented(c: &Case, x: &Cli, input: &[u8], out: &[u8], r: &mut RunResult) -> Result<(), String> {
    let Some(mods) = pipe::unpack(out) else { return Err(format!("the output ({} bytes) is not the complete result", out.len())) };
    let want = analysis(&x.text, false);
    if !mods.iter().any(|m| m.1 == want) {
        return Err("the analysis in it is not the one at the given path".into());
    }
    if wasm::validate(input).is_err() {
        return Ok(());
    }
    let orig = Rc::new(Module::decode(input).map_err(|e| format!("input: {e}"))?);
    let out = if mods.iter().any(|m| m.0 == "wastrumentation_stack") {
        let lib = if x.rustc {
            match &compiler::asked().iter().find_map(|a| match a {
                compiler::Asked::Source { manifest, source, .. } => Some((manifest.clone(), source.clone())),
                compiler::Asked::Manifest { .. } => None,
            }) {
                Some((m, s)) => backend::rustc(m, s).map_err(|e| format!("{e:?}"))?,
                None => return Err("its library was never compiled".into()),
            }
        } else {
            let sigs = orig.types.iter().filter(|t| !t.has_ref()).map(|t| {
                let code = |v: &[wasm::Ty]| v.iter().map(|t| stack::TYPES.iter().position(|x| x == t).unwrap_or(0) as u8).collect::<Vec<_>>();
                stack::signature(&(code(&t.results), code(&t.params)))
            });
            backend::library(backend::WAT, sigs.collect(), c.seed).map_err(|e| format!("{e:?}"))?
        };
        pipe::replace(out, "wastrumentation_stack", &lib).ok_or("pack")?
    } else {
        out.to_vec()
    };
    let (parts, _) = run::parts(&out)?;
    let trace: Trace = trace_of(&orig, &c.conf);
    let y = run::reference(&orig, &c.script, Some(trace));
    if y.error.is_some() || y.limit {
        return Ok(());
    }
    note(r, &y);
    log_of(r, &y);
    match run::instrumented(&orig, &c.script, &parts, &y, true) {
        Held::Same => {
            r.count("outputs_that_behave", 1);
            Ok(())
        }
        Held::Differs(d) => Err(format!("the output is not what the arguments say: {d}")),
        Held::Runaway(d) => Err(format!("the output does not end: {d}")),
    }
}

/// The output of the static analysis against what the analysis finds.
fn analysed(x: &Cli, input: &[u8], out: &[u8], seed: u64) -> Result<(), String> {
    let bytes = input.to_vec();
    let set: BTreeSet<u32> = stack::simulated(seed, move || {
        wasabi_wasm::fault::set(Default::default());
        wasabi_wasm::Module::from_bytes(&bytes).map(|m| wastrumentation_static_analysis::immutable_functions(&m.0).into_iter().collect()).map_err(|e| e.to_string())
    })
    .and_then(|x| x)
    .map_err(|e| format!("the input cannot be analysed: {e}"))?;
    let sizes = sizes(input);
    let want: BTreeSet<u32> = set.into_iter().filter(|f| x.min.is_none_or(|m| sizes.get(*f as usize).copied().unwrap_or(0) >= u64::from(m))).collect();
    let list: Vec<u32> = serde_json::from_slice(out).map_err(|e| format!("the output is no list: {e}: {:?}", String::from_utf8_lossy(&out[..out.len().min(60)])))?;
    let got: BTreeSet<u32> = list.iter().copied().collect();
    if got.len() != list.len() || got != want {
        return Err(format!("the output is {list:?}, the functions are {want:?}"));
    }
    Ok(())
}

/// Where a module may be cut and still look whole: after its header, after each of its sections.
fn boundaries(input: &[u8]) -> Vec<usize> {
    let mut v = vec![8];
    for p in wasmparser::Parser::new(0).parse_all(input).flatten() {
        if let Some((_, r)) = p.as_section() {
            v.push(r.end);
        }
    }
    v.retain(|n| *n < input.len());
    if v.is_empty() {
        v.push(1);
    }
    v
}

/// The number of instructions of every function, the end included; imports have none.
fn sizes(input: &[u8]) -> Vec<u64> {
    let mut v = vec![];
    for p in wasmparser::Parser::new(0).parse_all(input).flatten() {
        match p {
            wasmparser::Payload::ImportSection(s) => v.extend(s.into_iter().flatten().filter(|i| matches!(i.ty, wasmparser::TypeRef::Func(_))).map(|_| 0)),
            wasmparser::Payload::CodeSectionEntry(b) => v.push(b.get_operators_reader().map_or(0, |o| o.into_iter().count() as u64)),
            _ => (),
        }
    }
    v
}
