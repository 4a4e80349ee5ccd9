//! A case: everything one simulated run depends on. A replay file is a case plus what it violates.

use crate::hooks::H;
use crate::world::Script;
use serde::{Deserialize, Serialize};
use simos::{Effect, Fault, Site, ToolFate};
use std::collections::BTreeMap;

fn is_default<T: Default + PartialEq>(t: &T) -> bool {
    *t == T::default()
}

pub fn hex(v: &[u8]) -> String {
    use std::fmt::Write;
    v.iter().fold(String::new(), |mut s, b| {
        let _ = write!(s, "{b:02x}");
        s
    })
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

/// What is asked of the instrumenter.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Conf {
    pub groups: Vec<usize>,
    #[serde(skip_serializing_if = "is_default")]
    pub off: Vec<H>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub targets: Option<Vec<u32>>,
    #[serde(skip_serializing_if = "is_default")]
    pub primary: u8,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct OsFault {
    pub caller: usize,
    pub unit: usize,
    pub site: String,
    pub nth: u32,
    /// -1: a short transfer of `n` bytes, -2: interrupted `n` times, -3: the name is taken `n` times, -4: takes `n` ns
    pub errno: i32,
    pub n: u64,
}

impl OsFault {
    pub fn from_sim(f: &Fault) -> OsFault {
        let (errno, n) = match f.effect {
            Effect::Short(n) => (-1, n as u64),
            Effect::Eintr(n) => (-2, n.into()),
            Effect::NameTaken(n) => (-3, n.into()),
            Effect::Delay(n) => (-4, n),
            Effect::Errno(e) => (e, 0),
        };
        OsFault { caller: f.caller, unit: f.unit, site: f.site.name(), nth: f.nth, errno, n }
    }
    pub fn to_sim(&self) -> Option<Fault> {
        let site = Site::ALL.into_iter().find(|s| s.name() == self.site)?;
        let effect = match self.errno {
            -1 => Effect::Short(self.n.max(1) as usize),
            -2 => Effect::Eintr(self.n as u32),
            -3 => Effect::NameTaken(self.n as u32),
            -4 => Effect::Delay(self.n),
            e => Effect::Errno(e),
        };
        Some(Fault { caller: self.caller, unit: self.unit, site, nth: self.nth, effect })
    }
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Fate {
    pub exit: i32,
    pub signal: i32,
    pub at: u32,
    pub stderr: String,
    pub no_output: bool,
    pub delay: u64,
    pub chunk: usize,
}

impl Fate {
    pub fn fails(&self) -> bool {
        self.exit != 0 || self.signal != 0 || !self.stderr.is_empty() || self.no_output
    }
    pub fn to_sim(&self) -> ToolFate {
        ToolFate {
            exit: self.exit,
            signal: self.signal,
            at: self.at,
            stderr: self.stderr.clone().into_bytes(),
            no_output: self.no_output,
            delay: self.delay,
            chunk: self.chunk,
            ..Default::default()
        }
    }
}

/// One instrumentation that may be made to fail.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Job {
    pub conf: Conf,
    /// instead of the module of the case (hex)
    #[serde(skip_serializing_if = "Option::is_none")]
    pub input: Option<String>,
    /// the compiler of the analysis says this
    #[serde(skip_serializing_if = "Option::is_none")]
    pub analysis_fails: Option<String>,
    /// the analysis is this text
    #[serde(skip_serializing_if = "Option::is_none")]
    pub analysis_text: Option<String>,
    /// the analysis is a module of this many bytes
    #[serde(skip_serializing_if = "is_default")]
    pub analysis_len: usize,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub library_fails: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub parse_fails: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub encode_fails: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub infer_fails: Option<(u64, String)>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub fate: Option<Fate>,
}

/// Steps of a history of the argument stack.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum StackOp {
    Values(u32, Vec<u64>),
    Types(u32),
    /// many frames at once
    Nest(u32, u32, u64),
    /// frame, slot, bits; through the function of that slot or the one of its type
    Set(u32, u32, u64, bool),
    SetResults(u32, Vec<u64>),
    Get(u32, u32, bool),
    Release,
    /// everything above so many frames is abandoned by a trap
    Abandon(u32),
    /// rounds of nested allocation and release
    Churn(u32, u32, u32),
}

/// Advice of an analysis written in wasp.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Advice {
    pub kind: u8,
    /// what its formals are called
    pub names: Vec<String>,
    /// the kind of access to arguments it asks for
    pub means: u8,
    pub acts: Vec<Act>,
}

/// What advice does.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    Count,
    Report(u8),
    /// when, and a value or a field
    Return(u8, i32, Option<u8>),
    /// arguments or results; by way of a function of the analysis
    Walk(u8, bool),
    Set(u8, u32, u64, bool),
    Call,
    /// the so-manieth time: arguments or results, how, how far outside
    Outside(u8, u8, u8, u8),
}

/// What happens to an analysis.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Drive {
    Notify(u8, Vec<u64>),
    Apply { sig: u32, f: u32, idx: u32, args: Vec<u64>, bases: Vec<Base> },
}

/// What happens when the analysis calls the function it was told about.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Base {
    pub results: Vec<u64>,
    #[serde(skip_serializing_if = "is_default")]
    pub inner: Vec<Drive>,
    /// traps in there are dealt with in there
    #[serde(skip_serializing_if = "is_default")]
    pub catch: bool,
    #[serde(skip_serializing_if = "is_default")]
    pub trap: bool,
}

/// A call of one of the command-line tools. Paths and arguments that are no text have their bytes as %xx.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Cli {
    /// 0 the instrumenter, 1 the static analysis
    pub tool: u8,
    pub args: Vec<String>,
    /// why these arguments cannot be obeyed
    #[serde(skip_serializing_if = "Option::is_none")]
    pub wrong: Option<String>,
    pub input: String,
    pub output: String,
    #[serde(skip_serializing_if = "is_default")]
    pub manifest: String,
    /// what the package of the analysis says
    #[serde(skip_serializing_if = "is_default")]
    pub text: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub min: Option<u32>,
    /// what is in the way of the output already
    #[serde(skip_serializing_if = "Option::is_none")]
    pub stale: Option<usize>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub setup_fails: Option<String>,
    /// the disk has room for so much more
    #[serde(skip_serializing_if = "Option::is_none")]
    pub room: Option<usize>,
    /// most a read or write transfers at once
    #[serde(skip_serializing_if = "is_default")]
    pub chunk: usize,
    /// the library of the result comes from rustc and not from the WebAssembly back end
    #[serde(skip_serializing_if = "is_default")]
    pub rustc: bool,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Case {
    pub prop: String,
    pub kind: String,
    pub seed: u64,
    /// the program (hex)
    pub module: String,
    pub script: Script,
    pub conf: Conf,
    /// further configurations the same program is instrumented with
    #[serde(skip_serializing_if = "is_default")]
    pub more: Vec<Conf>,
    /// callers (threads) and the jobs each goes through
    #[serde(skip_serializing_if = "is_default")]
    pub jobs: Vec<Vec<Job>>,
    /// the decisions of the scheduler (hex); drawn from the seed if not given
    #[serde(skip_serializing_if = "Option::is_none")]
    pub schedule: Option<String>,
    #[serde(skip_serializing_if = "is_default")]
    pub preempt: u64,
    #[serde(skip_serializing_if = "is_default")]
    pub alloc_stride: u32,
    #[serde(skip_serializing_if = "is_default")]
    pub os_faults: Vec<OsFault>,
    #[serde(skip_serializing_if = "is_default")]
    pub missing: bool,
    #[serde(skip_serializing_if = "is_default")]
    pub disk_quota: Option<usize>,
    /// signatures: results, arguments (0 i32, 1 i64, 2 f32, 3 f64)
    #[serde(skip_serializing_if = "is_default")]
    pub signatures: Vec<(Vec<u8>, Vec<u8>)>,
    #[serde(skip_serializing_if = "is_default")]
    pub stack: Vec<StackOp>,
    /// which requests of the stack library for memory are refused
    #[serde(skip_serializing_if = "is_default")]
    pub stack_refuse: Vec<bool>,
    /// the back ends whose library goes through the history (0 WebAssembly, 1 AssemblyScript, 2 Rust)
    #[serde(skip_serializing_if = "is_default")]
    pub backends: Vec<u8>,
    /// the back end the library of an instrumented program comes from
    #[serde(skip_serializing_if = "is_default")]
    pub lib: u8,
    /// an analysis in wasp, and what is done to it
    #[serde(skip_serializing_if = "is_default")]
    pub advices: Vec<Advice>,
    #[serde(skip_serializing_if = "is_default")]
    pub drive: Vec<Drive>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub cli: Option<Cli>,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Violation {
    pub prop: String,
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct RunResult {
    pub harness_error: Option<String>,
    pub violations: Vec<Violation>,
    pub hash: u64,
    /// behaviour reached: which kinds of events in which order of first appearance
    pub shape: u64,
    pub nontrivial: bool,
    pub outcome: String,
    pub counts: BTreeMap<String, u64>,
    pub fired: BTreeMap<String, u64>,
    pub hooks: BTreeMap<String, u64>,
    pub steps: u64,
    pub events: u64,
    pub sim_ns: u64,
    pub unsupported: Vec<String>,
    /// the decisions of the scheduler
    pub schedule: Vec<u8>,
    pub log: Vec<String>,
}

impl RunResult {
    pub fn violate(&mut self, prop: &str, class: &str, msg: impl Into<String>) {
        self.violations.push(Violation { prop: prop.into(), class: class.into(), msg: msg.into() });
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counts.entry(k.into()).or_insert(0) += n;
        }
    }
    pub fn mix(&mut self, x: u64) {
        self.hash = (self.hash ^ x).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23);
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub message: String,
    pub found_by: String,
    /// the program of the case, as text, for the reader
    pub program: Vec<String>,
    pub case: Case,
    pub trace: Vec<String>,
}
