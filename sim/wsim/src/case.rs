//! A case: everything one simulated run depends on. A replay file is a case plus what it violates.

use serde::{Deserialize, Serialize};
use simos::{Config, Crash, Effect, Fault, Rng, Site, ToolFate};
use std::collections::BTreeMap;

fn is_zero<T: Default + PartialEq>(t: &T) -> bool {
    *t == T::default()
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Module {
    pub ns: String,
    pub len: usize,
    #[serde(skip_serializing_if = "is_zero")]
    pub seed: u64,
    #[serde(skip_serializing_if = "is_zero")]
    pub style: u8,
}

impl Module {
    pub fn bytes(&self) -> Vec<u8> {
        let mut r = Rng::new(self.seed);
        let mut v: Vec<u8> = Vec::with_capacity(self.len);
        match self.style {
            0 => {
                while v.len() < self.len {
                    v.extend_from_slice(&r.next().to_le_bytes());
                }
            }
            1 => v.resize(self.len, 0),
            2 => {
                while v.len() < self.len {
                    v.extend_from_slice(format!("line {}\r\n", r.below(1000)).as_bytes());
                }
            }
            _ => {
                v.extend_from_slice(b"\0asm\x01\0\0\0");
                while v.len() < self.len {
                    v.push(r.below(256) as u8);
                }
            }
        }
        v.truncate(self.len);
        v
    }
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Text {
    pub kind: u8,
    pub len: usize,
}

impl Text {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v: Vec<u8> = vec![];
        let mut k = 0u64;
        while v.len() < self.len {
            match self.kind {
                0 => v.extend_from_slice(format!("Fatal: error: problem number {k}\n").as_bytes()),
                1 => v.extend_from_slice(format!("wärning № {k} — μerge ✗\n").as_bytes()),
                2 => v.extend_from_slice(&[0xff, 0xfe, b'x', 0xc3, b'\n', (k % 251) as u8]),
                3 => v.push(b'\n'),
                4 => v.extend_from_slice(b"\0\x07 "),
                5 => v.extend_from_slice(format!("warning: note {k}, ignored\n").as_bytes()),
                6 => v.push(b' '),
                7 => v.extend_from_slice(format!("{{}} {{0}} %s {k}: \"quoted\" \\n ").as_bytes()),
                8 => v.extend_from_slice(format!("[parse exception: attempted pop from empty stack {k} (at 0:{k})]").as_bytes()),
                9 => v.extend_from_slice(format!("[wasm-validator error in function {k}] unexpected false: call target\r\n").as_bytes()),
                10 => v.extend_from_slice(format!("\u{1b}[31merror\u{1b}[0m: {k}\t").as_bytes()),
                11 => v.extend_from_slice(format!("\n\n  Error {k}\n").as_bytes()),
                12 => v.extend_from_slice(format!("warning: unknown import {k}\nerror: {k}\n").as_bytes()),
                13 => v.extend_from_slice(b"\0asm\x01\0\0\0"),
                14 => v.extend_from_slice(format!("no error, success {k} done OK\n").as_bytes()),
                _ => v.extend_from_slice(format!("info: {k} note: debug: ").as_bytes()),
            }
            k += 1;
        }
        v.truncate(self.len);
        v
    }
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Fate {
    pub out_size: usize,
    #[serde(skip_serializing_if = "is_zero")]
    pub out_style: u8,
    #[serde(skip_serializing_if = "is_zero")]
    pub exit: i32,
    #[serde(skip_serializing_if = "is_zero")]
    pub signal: i32,
    #[serde(skip_serializing_if = "is_zero")]
    pub at: u32,
    #[serde(skip_serializing_if = "is_zero")]
    pub err: Text,
    #[serde(skip_serializing_if = "is_zero")]
    pub err_late: bool,
    #[serde(skip_serializing_if = "is_zero")]
    pub stdout: usize,
    #[serde(skip_serializing_if = "is_zero")]
    pub stdout_kind: Option<u8>,
    #[serde(skip_serializing_if = "is_zero")]
    pub chunk: usize,
    #[serde(skip_serializing_if = "is_zero")]
    pub delay: u64,
    #[serde(skip_serializing_if = "is_zero")]
    pub no_output: bool,
    #[serde(skip_serializing_if = "is_zero")]
    pub reorder: u8,
    #[serde(skip_serializing_if = "is_zero")]
    pub linger: u64,
}

impl Fate {
    pub fn benign(&self) -> bool {
        self.exit == 0 && self.signal == 0 && self.err.len == 0
    }
    pub fn to_sim(&self) -> ToolFate {
        ToolFate {
            out_size: self.out_size,
            out_style: self.out_style,
            exit: self.exit,
            signal: self.signal,
            at: self.at,
            stderr: self.err.bytes(),
            stderr_late: self.err_late,
            stdout: self.stdout,
            stdout_text: self.stdout_kind.map_or(vec![], |kind| Text { kind, len: self.stdout }.bytes()),
            chunk: self.chunk,
            delay: self.delay,
            no_output: self.no_output,
            reorder: self.reorder,
            linger: self.linger,
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Merge {
    #[serde(skip_serializing_if = "Option::is_none")]
    pub primary: Option<Module>,
    pub mods: Vec<Module>,
    #[serde(skip_serializing_if = "is_zero")]
    pub flags: u32,
    pub fate: Fate,
}

impl Merge {
    /// No program can be given these names, so failing is right.
    pub fn unspeakable(&self) -> bool {
        self.expected_inputs().iter().any(|x| x.ns.contains('\0'))
    }
    pub fn expected_inputs(&self) -> Vec<&Module> {
        self.primary.iter().chain(self.mods.iter()).collect()
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FaultJ {
    pub caller: usize,
    pub unit: usize,
    pub site: String,
    pub nth: u32,
    /// "errno:5", "short:3", "eintr:2", "taken:1", "delay:1000"
    pub effect: String,
}

impl FaultJ {
    pub fn new(caller: usize, unit: usize, site: Site, nth: u32, e: Effect) -> FaultJ {
        FaultJ { caller, unit, site: site.name(), nth, effect: effect_str(e) }
    }
    pub fn to_sim(&self) -> Fault {
        let (k, v) = self.effect.split_once(':').expect("effect");
        let n: u64 = v.parse().expect("effect value");
        let effect = match k {
            "errno" => Effect::Errno(n as i32),
            "short" => Effect::Short(n as usize),
            "eintr" => Effect::Eintr(n as u32),
            "taken" => Effect::NameTaken(n as u32),
            "delay" => Effect::Delay(n),
            _ => panic!("effect {k}"),
        };
        Fault { caller: self.caller, unit: self.unit, site: Site::parse(&self.site).expect("site"), nth: self.nth, effect }
    }
}

pub fn effect_str(e: Effect) -> String {
    match e {
        Effect::Errno(n) => format!("errno:{n}"),
        Effect::Short(n) => format!("short:{n}"),
        Effect::Eintr(n) => format!("eintr:{n}"),
        Effect::NameTaken(n) => format!("taken:{n}"),
        Effect::Delay(n) => format!("delay:{n}"),
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Env {
    pub preempt: u64,
    pub pipe_cap: usize,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub fd_limit: Option<usize>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub disk_quota: Option<usize>,
    /// None: TMPDIR unset. Some(bytes)
    #[serde(skip_serializing_if = "Option::is_none")]
    pub tmpdir: Option<Vec<u8>>,
    #[serde(skip_serializing_if = "is_zero")]
    pub tmpdir_missing: bool,
    #[serde(skip_serializing_if = "is_zero")]
    pub tmpdir_readonly: bool,
    #[serde(skip_serializing_if = "is_zero")]
    pub same_rng: bool,
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub missing: Vec<String>,
    #[serde(skip_serializing_if = "is_zero")]
    pub io_chunk: usize,
    #[serde(skip_serializing_if = "is_zero")]
    pub clock_jumps: bool,
    #[serde(skip_serializing_if = "is_zero")]
    pub foreign: usize,
    /// about every n-th allocation is a scheduling point (0: none)
    #[serde(skip_serializing_if = "is_zero")]
    pub alloc_stride: u32,
}

impl Default for Env {
    fn default() -> Self {
        Env {
            preempt: 0,
            pipe_cap: 65536,
            fd_limit: None,
            disk_quota: None,
            tmpdir: None,
            tmpdir_missing: false,
            tmpdir_readonly: false,
            same_rng: false,
            missing: vec![],
            io_chunk: 0,
            clock_jumps: false,
            foreign: 0,
            alloc_stride: 0,
        }
    }
}

impl Env {
    pub fn tmp(&self) -> Vec<u8> {
        self.tmpdir.clone().unwrap_or_else(|| b"/tmp".to_vec())
    }
    pub fn config(&self, seed: u64, tape: Option<Vec<u8>>) -> Config {
        Config {
            seed,
            tape,
            preempt: self.preempt,
            pipe_cap: self.pipe_cap.max(1),
            fd_limit: self.fd_limit.unwrap_or(1024),
            disk_quota: self.disk_quota.unwrap_or(usize::MAX),
            tmpdir: self.tmpdir.clone(),
            same_rng: self.same_rng,
            missing: self.missing.iter().map(|s| s.clone().into_bytes()).collect(),
            io_chunk: self.io_chunk,
            realtime_jumps: self.clock_jumps,
            alloc_stride: self.alloc_stride,
            ..Config::default()
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Before {
    pub callers: Vec<Vec<Merge>>,
    pub at_point: u64,
    pub kill_children: bool,
}

/// Analyses to compile: see wasp.rs.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct WaspCase {
    /// "disk", "intact", "concurrent" or "alone"
    pub scenario: String,
    pub texts: Vec<String>,
    /// per thread, what it compiles
    pub threads: Vec<Vec<crate::wasp::Step>>,
    /// text 0 cut after each of these numbers of bytes
    #[serde(skip_serializing_if = "Option::is_none")]
    pub cuts: Option<(usize, usize)>,
    /// about every n-th allocation is a scheduling point (0: none)
    #[serde(skip_serializing_if = "is_zero")]
    pub alloc_stride: u32,
    /// unknown environment variables are set, the clock starts anywhere
    #[serde(skip_serializing_if = "is_zero")]
    pub noise: bool,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Case {
    pub prop: String,
    pub kind: String,
    pub seed: u64,
    pub env: Env,
    /// per caller (thread), its merges one after the other
    pub callers: Vec<Vec<Merge>>,
    pub faults: Vec<FaultJ>,
    /// an earlier process that was killed
    #[serde(skip_serializing_if = "Option::is_none")]
    pub before: Option<Before>,
    /// recorded scheduling decisions; absent: drawn from the seed
    #[serde(skip_serializing_if = "Option::is_none")]
    pub tape: Option<Vec<u8>>,
    /// which file the n-th creation of a merge is for ("caller.unit.nth" -> "input"/"output"), as
    /// observed in a fault-free run of the same case
    #[serde(skip_serializing_if = "BTreeMap::is_empty")]
    pub roles: BTreeMap<String, String>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub wasp: Option<WaspCase>,
}

impl Case {
    pub fn config(&self) -> Config {
        self.env.config(self.seed, self.tape.clone())
    }
    pub fn before_config(&self, b: &Before) -> Config {
        let mut c = self.env.config(self.seed ^ 0x5151, None);
        c.same_rng = self.env.same_rng;
        c.crash = Some(Crash { at_point: b.at_point, kill_children: b.kill_children });
        c
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Violation {
    pub prop: String,
    pub class: String,
    pub msg: String,
    pub caller: Option<usize>,
    pub unit: Option<usize>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct RunResult {
    pub violations: Vec<Violation>,
    pub tape: Vec<u8>,
    pub hash: u64,
    pub sched: u64,
    pub shape: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub sites: Vec<(usize, usize, String, u32)>,
    pub roles: BTreeMap<String, String>,
    pub unsupported: Vec<String>,
    pub harness_error: Option<String>,
    pub interesting: Vec<String>,
    pub log: Vec<String>,
    pub outcomes: Vec<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub message: String,
    pub found_by: String,
    pub case: Case,
    pub trace: Vec<String>,
}
