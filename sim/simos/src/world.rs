//! The simulated kernel.

use std::cell::{Cell, UnsafeCell};
use std::collections::{BTreeMap, HashMap, VecDeque};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicI32, AtomicPtr, AtomicU32, Ordering};

pub type Bytes = Vec<u8>;

// ---------------------------------------------------------------- randomness

#[derive(Clone, Debug)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn mix(a: u64, b: u64) -> u64 {
        let mut r = Rng(a.wrapping_mul(0xD134_2543_DE82_EF95) ^ b.wrapping_add(0x2545_F491_4F6C_DD1D));
        r.next();
        r.next()
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, permille: u64) -> bool {
        self.below(1000) < permille
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

// ---------------------------------------------------------------- faults

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Site {
    OpenCreate,
    OpenExisting,
    OpenDev,
    OpenDir,
    Write,
    Read,
    PipeRead,
    PipeWrite,
    Poll,
    Wait,
    Spawn,
    Pipe,
    Unlink,
    Close,
    Stat,
    Seek,
    Mkdir,
    Rename,
    Sync,
}

impl Site {
    pub const ALL: [Site; 19] = [
        Site::OpenCreate, Site::OpenExisting, Site::OpenDev, Site::OpenDir, Site::Write, Site::Read, Site::PipeRead,
        Site::PipeWrite, Site::Poll, Site::Wait, Site::Spawn, Site::Pipe, Site::Unlink, Site::Close,
        Site::Stat, Site::Seek, Site::Mkdir, Site::Rename, Site::Sync,
    ];
    pub fn name(self) -> String {
        format!("{self:?}")
    }
    pub fn parse(s: &str) -> Option<Site> {
        Site::ALL.into_iter().find(|x| x.name() == s)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Effect {
    /// The call fails with this errno and does nothing.
    Errno(i32),
    /// A transfer is cut to at most this many bytes (legal short read or write).
    Short(usize),
    /// This and the following n-1 occurrences fail with EINTR.
    Eintr(u32),
    /// The name to be created is already taken by somebody else's file, n times in a row.
    NameTaken(u32),
    /// The call takes this long (nanoseconds).
    Delay(u64),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Fault {
    pub caller: usize,
    pub unit: usize,
    pub site: Site,
    pub nth: u32,
    pub effect: Effect,
}

/// A fault that actually happened.
#[derive(Clone, Debug)]
pub struct Fired {
    pub caller: usize,
    pub unit: usize,
    pub site: Site,
    pub nth: u32,
    pub effect: Effect,
    /// creation index (per unit) of the file involved, if any
    pub file: Option<usize>,
}

// ---------------------------------------------------------------- objects

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum INodeKind {
    File,
    Dir,
    Null,
    Random,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Creator {
    Pre,
    Foreign,
    Unit { caller: usize, unit: usize, index: usize },
    Proc(i32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct INode {
    pub kind: INodeKind,
    pub data: Bytes,
    pub mode: u32,
    pub creator: Creator,
    pub nlink: u32,
    pub exclusive: bool,
    pub readonly: bool,
    pub unlink_failed: bool,
    pub mtime: u64,
}

#[derive(Debug)]
pub struct PipeBuf {
    pub buf: VecDeque<u8>,
    pub cap: usize,
    pub readers: u32,
    pub writers: u32,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum OKind {
    File(usize),
    Dir(usize),
    PipeR(usize),
    PipeW(usize),
    PidFd(i32),
}

#[derive(Debug)]
pub struct Ofd {
    pub kind: OKind,
    pub pos: usize,
    pub flags: i32,
    pub nonblock: bool,
    pub refs: u32,
}

#[derive(Debug, Clone)]
pub struct FdEntry {
    pub ofd: usize,
    pub cloexec: bool,
    pub caller: usize,
    pub unit: usize,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PState {
    Running,
    Zombie(i32),
    Reaped(i32),
}

pub enum Step {
    Again(u64),
    /// wait until fd (of the process) can take more bytes
    BlockWrite(i32),
    Exit(i32),
    Signal(i32),
    Exec(Box<dyn Program>),
}

pub trait Program {
    fn step(&mut self, w: &mut World, pid: i32) -> Step;
    fn name(&self) -> &'static str;
    /// state to carry over when the process outlives its parent's death
    fn save(&self) -> Option<String> {
        None
    }
}

pub struct Proc {
    pub pid: i32,
    pub caller: usize,
    pub unit: usize,
    pub launch: usize,
    pub state: PState,
    pub fds: BTreeMap<i32, usize>,
    pub prog: Option<Box<dyn Program>>,
    pub argv: Vec<Bytes>,
    pub env: Vec<Bytes>,
    pub cwd: Bytes,
    pub ready_at: u64,
    pub block_write: Option<usize>,
    pub killed_by_parent: bool,
    pub orphan: bool,
    pub ended_at: u64,
}

/// What the simulated merge tool saw and did: the oracle's record.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct ToolRun {
    pub caller: usize,
    pub unit: usize,
    pub pid: i32,
    pub argv: Vec<Bytes>,
    pub flags: Vec<String>,
    pub inputs: Vec<(Bytes, Bytes, Option<Bytes>)>, // path, namespace, contents (None: not opened)
    pub output: Option<Bytes>,
    /// complete output of the tool as written to its output path, set once it wrote it all
    pub produced: Option<Bytes>,
    pub written: usize,
    pub stderr: Bytes,
    pub stdout_len: usize,
    pub status: Option<i32>,
    pub finished: bool,
}

/// Chosen behaviour of one run of the tool.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct ToolFate {
    pub out_size: usize,
    /// what the output looks like: 0 a receipt in binary, 1 ending in zeros, 2 ending in blank lines,
    /// 3 text only, 4 text with a byte-order mark and bytes that are no UTF-8, 5 mostly zeros, 6 empty
    pub out_style: u8,
    pub exit: i32,
    pub signal: i32,
    /// die / fail after this many tool steps (only with exit != 0 or signal != 0 and at > 0)
    pub at: u32,
    pub stderr: Bytes,
    pub stderr_late: bool,
    pub stdout: usize,
    pub stdout_text: Bytes,
    pub chunk: usize,
    pub delay: u64,
    pub no_output: bool,
    pub reorder: u8,
    /// write the output, then close standard streams early and linger
    pub linger: u64,
}

// ---------------------------------------------------------------- threads

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Cond {
    Ready,
    Poll(Vec<(i32, i16)>),
    PipeReadable(usize),
    PipeWritable(usize),
    Child(i32),
    AnyChild(usize),
    Futex(usize),
    Woken,
    Sleep,
    Join(usize),
    Frozen,
    Done,
}

pub struct Thr {
    pub cond: Cond,
    pub deadline: Option<u64>,
    pub root: usize,
    pub go: AtomicU32,
    pub points: u64,
    pub hog: u32,
    pub allocs: u64,
    pub rng: Rng,
    pub pthread: u64,
}

#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    pub tape: Option<Vec<u8>>,
    pub preempt: u64, // permille
    pub pipe_cap: usize,
    pub fd_limit: usize,
    pub disk_quota: usize,
    pub tmpdir: Option<Bytes>,
    pub cwd: Bytes,
    pub same_rng: bool,
    pub max_steps: u64,
    pub missing: Vec<Bytes>, // programs not installed
    pub io_chunk: usize,     // largest transfer of one read/write on a file (0: unlimited)
    pub realtime_jumps: bool,
    pub env: Vec<(Bytes, Bytes)>,
    pub crash: Option<Crash>,
    /// about every n-th allocation of simulated code is a scheduling point (0: none)
    pub alloc_stride: u32,
    /// environment variables nobody mentioned are set
    pub env_noise: bool,
    /// standard input and output are files, and this is to be read
    pub stdin: Option<Bytes>,
}

impl Default for Config {
    fn default() -> Self {
        Config {
            seed: 0,
            tape: None,
            preempt: 0,
            pipe_cap: 65536,
            fd_limit: 1024,
            disk_quota: usize::MAX,
            tmpdir: Some(b"/tmp".to_vec()),
            cwd: b"/work".to_vec(),
            same_rng: false,
            max_steps: 2_000_000,
            missing: vec![],
            io_chunk: 0,
            realtime_jumps: false,
            env: vec![],
            crash: None,
            alloc_stride: 0,
            env_noise: false,
            stdin: None,
        }
    }
}

/// The whole process dies at its n-th scheduling point.
#[derive(Clone, Debug, PartialEq)]
pub struct Crash {
    pub at_point: u64,
    pub kill_children: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Running,
    Completed,
    Crashed,
    Deadlock(String),
    StepLimit(String),
}

/// Added to the caller numbers of an earlier, dead process.
pub const PREVIOUS: usize = 1000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Orphan {
    pub name: String,
    pub state: Option<String>,
    pub argv: Vec<Bytes>,
    pub env: Vec<Bytes>,
    pub cwd: Bytes,
    pub caller: usize,
    pub unit: usize,
    pub fds: Vec<(i32, Option<usize>)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Snapshot {
    pub inodes: Vec<INode>,
    pub paths: Vec<(Bytes, usize)>,
    pub foreign: Vec<(Bytes, usize, Bytes)>,
    pub tools: Vec<ToolRun>,
    pub fates: Vec<(usize, usize, ToolFate)>,
    pub orphans: Vec<Orphan>,
    pub now: u64,
    pub next_pid: i32,
}

/// A file or directory that simulated code created.
#[derive(Clone, Debug)]
pub struct Create {
    pub caller: usize,
    pub unit: usize,
    pub nth: u32,
    pub path: Bytes,
    pub ino: usize,
}

pub struct World {
    pub cfg: Config,
    rng: Rng,
    tape_pos: usize,
    pub tape_out: Vec<u8>,
    pub faults: Vec<Fault>,
    pub fates: HashMap<(usize, usize), ToolFate>,
    pub counts: BTreeMap<(usize, usize, Site), u32>,
    pub fired: Vec<Fired>,
    pub now: u64,
    pub steps: u64,
    naps: u64,
    pub switches: u64,
    pub inodes: Vec<INode>,
    pub paths: BTreeMap<Bytes, usize>,
    pub ofds: Vec<Ofd>,
    pub pipes: Vec<PipeBuf>,
    pub fds: BTreeMap<i32, FdEntry>,
    next_fd: i32,
    pub procs: BTreeMap<i32, Proc>,
    next_pid: i32,
    pub threads: Vec<Box<Thr>>,
    pub units: Vec<usize>, // current unit per caller
    pub created: HashMap<(usize, usize), usize>,
    pub log: Vec<String>,
    pub hash: u64,
    pub sched_hash: u64,
    pub end: End,
    pub live: usize,
    pub points: u64,
    pub creates: Vec<Create>,
    pub tools: Vec<ToolRun>,
    pub aliens: Vec<(usize, usize, String)>, // commands other than the tool that a shell ran
    pub misdeeds: Vec<(usize, usize, String)>, // e.g. kill() on a child, creating files elsewhere
    pub unsupported: Vec<String>,
    pub probes: BTreeMap<&'static str, u64>,
    pub stdout_noise: usize,
    pub stdout: usize,  // the file standard output is, if it is one
    pub stderr: Bytes,
    pub exit_code: Option<i32>,
    pub other_io: BTreeMap<(usize, usize), u64>, // number of intercepted I/O calls per unit
    pub foreign: Vec<(Bytes, usize, Bytes)>,     // path, ino, contents of other users' files
    pub proc_err: BTreeMap<(usize, usize), Bytes>, // what processes of a unit wrote to fd 2
}

pub const FD_BASE: i32 = 100_000;
pub const OWN_PID: i32 = 4242;

pub fn norm(cwd: &[u8], p: &[u8]) -> Bytes {
    let mut full = Bytes::new();
    if !p.starts_with(b"/") {
        full.extend_from_slice(cwd);
        full.push(b'/');
    }
    full.extend_from_slice(p);
    let mut out: Vec<&[u8]> = vec![];
    for c in full.split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    let mut r = Bytes::new();
    for c in out {
        r.push(b'/');
        r.extend_from_slice(c);
    }
    if r.is_empty() {
        r.push(b'/');
    }
    r
}

pub fn parent(p: &[u8]) -> Bytes {
    match p.iter().rposition(|b| *b == b'/') {
        Some(0) | None => b"/".to_vec(),
        Some(i) => p[..i].to_vec(),
    }
}

impl World {
    pub fn new(cfg: Config, faults: Vec<Fault>, fates: HashMap<(usize, usize), ToolFate>) -> World {
        let mut w = World {
            rng: Rng::new(Rng::mix(cfg.seed, 0x5CED)),
            tape_pos: 0,
            tape_out: vec![],
            faults,
            fates,
            counts: BTreeMap::new(),
            fired: vec![],
            now: 0,
            steps: 0,
            naps: 0,
            switches: 0,
            inodes: vec![],
            paths: BTreeMap::new(),
            ofds: vec![],
            pipes: vec![],
            fds: BTreeMap::new(),
            next_fd: FD_BASE,
            procs: BTreeMap::new(),
            next_pid: OWN_PID + 1,
            threads: vec![],
            units: vec![],
            created: HashMap::new(),
            log: vec![],
            hash: 0xcbf2_9ce4_8422_2325,
            sched_hash: 0xcbf2_9ce4_8422_2325,
            end: End::Running,
            live: 0,
            points: 0,
            creates: vec![],
            tools: vec![],
            aliens: vec![],
            misdeeds: vec![],
            unsupported: vec![],
            probes: BTreeMap::new(),
            stdout_noise: 0,
            stdout: usize::MAX,
            stderr: vec![],
            exit_code: None,
            other_io: BTreeMap::new(),
            foreign: vec![],
            proc_err: BTreeMap::new(),
            cfg,
        };
        for d in ["/", "/dev", "/work", "/tmp", "/home", "/home/user"] {
            w.mkdir_pre(d.as_bytes());
        }
        let cwd = w.cfg.cwd.clone();
        w.mkdir_pre(&cwd);
        w.add_pre(b"/dev/null", INodeKind::Null, vec![]);
        w.add_pre(b"/dev/urandom", INodeKind::Random, vec![]);
        w.add_pre(b"/dev/random", INodeKind::Random, vec![]);
        if let Some(data) = w.cfg.stdin.take() {
            // files without names
            for (fd, data, flags) in [(0, data, libc::O_RDONLY), (1, vec![], libc::O_WRONLY)] {
                let ino = w.add_pre(b"standard stream", INodeKind::File, data);
                w.paths.remove(&b"standard stream"[..]);
                let ofd = w.new_ofd(OKind::File(ino), flags);
                w.ofds[ofd].refs = 1;
                w.fds.insert(fd, FdEntry { ofd, cloexec: false, caller: 0, unit: 0 });
                w.stdout = ino;
            }
        }
        STDIO.store(u32::from(w.stdout != usize::MAX), Ordering::SeqCst);
        w
    }

    pub fn mkdir_pre(&mut self, p: &[u8]) {
        let p = norm(b"/", p);
        if p != b"/" {
            let par = parent(&p);
            if !self.paths.contains_key(&par) {
                self.mkdir_pre(&par);
            }
        }
        if !self.paths.contains_key(&p) {
            self.add_pre(&p, INodeKind::Dir, vec![]);
        }
    }

    pub fn add_pre(&mut self, p: &[u8], kind: INodeKind, data: Bytes) -> usize {
        let ino = self.inodes.len();
        self.inodes.push(INode {
            kind,
            data,
            mode: 0o644,
            creator: Creator::Pre,
            nlink: 1,
            exclusive: true,
            readonly: false,
            unlink_failed: false,
            mtime: 0,
        });
        self.paths.insert(p.to_vec(), ino);
        ino
    }

    /// A file that belongs to somebody else and must survive untouched.
    pub fn add_foreign(&mut self, p: &[u8], data: Bytes) {
        let ino = self.add_pre(p, INodeKind::File, data.clone());
        self.inodes[ino].creator = Creator::Foreign;
        self.foreign.push((p.to_vec(), ino, data));
    }

    // ------------------------------------------------------------ log

    pub fn ev(&mut self, s: String) {
        for b in s.as_bytes() {
            self.hash = (self.hash ^ u64::from(*b)).wrapping_mul(0x0100_0000_01b3);
        }
        if self.log.len() < 4000 {
            let t = self.now / 1000;
            self.log.push(format!("{t:>8}us {s}"));
        }
    }

    /// A failure that follows from the state of the machine rather than from an injected fault.
    pub fn natural(&mut self, me: usize, site: Site, e: i32) {
        let (caller, unit) = self.root(me);
        self.ev(format!("t{me} {site:?} fails with errno {e}"));
        self.fired.push(Fired { caller, unit, site, nth: u32::MAX, effect: Effect::Errno(e), file: None });
    }

    pub fn probe(&mut self, p: &'static str) {
        *self.probes.entry(p).or_insert(0) += 1;
    }

    pub fn name_of(&self, ino: usize) -> String {
        match &self.inodes[ino].creator {
            Creator::Unit { caller, unit, index } => format!("tmp{caller}.{unit}#{index}"),
            Creator::Pre => "pre".into(),
            Creator::Foreign => "foreign".into(),
            Creator::Proc(_) => format!("toolfile{ino}"),
        }
    }

    // ------------------------------------------------------------ scheduling

    fn choose(&mut self, n: usize, me_first: bool, hog: bool) -> usize {
        if n <= 1 {
            return 0;
        }
        let k = if let Some(t) = &self.cfg.tape {
            let v = t.get(self.tape_pos).copied().unwrap_or(0);
            self.tape_pos += 1;
            if hog {
                1
            } else {
                v as usize % n
            }
        } else if hog {
            1
        } else if me_first {
            if self.rng.chance(self.cfg.preempt) {
                self.rng.below(n as u64) as usize
            } else {
                0
            }
        } else {
            self.rng.below(n as u64) as usize
        };
        self.tape_out.push(k as u8);
        k
    }

    pub fn poll_revents(&self, fd: i32, events: i16) -> i16 {
        let Some(e) = self.fds.get(&fd) else { return libc::POLLNVAL };
        match &self.ofds[e.ofd].kind {
            OKind::PipeR(p) => {
                let p = &self.pipes[*p];
                let mut r = 0;
                if !p.buf.is_empty() {
                    r |= libc::POLLIN;
                }
                if p.writers == 0 {
                    r |= libc::POLLHUP;
                }
                r & (events | libc::POLLHUP)
            }
            OKind::PipeW(p) => {
                let p = &self.pipes[*p];
                let mut r = 0;
                if p.readers == 0 {
                    r |= libc::POLLERR;
                } else if p.buf.len() < p.cap {
                    r |= libc::POLLOUT;
                }
                r & (events | libc::POLLERR)
            }
            OKind::PidFd(pid) => {
                if matches!(self.procs.get(pid).map(|p| &p.state), Some(PState::Running)) {
                    0
                } else {
                    libc::POLLIN & events
                }
            }
            _ => events & (libc::POLLIN | libc::POLLOUT),
        }
    }

    fn cond_ready(&self, t: usize) -> bool {
        let th = &self.threads[t];
        if let Some(d) = th.deadline {
            if d <= self.now {
                return true;
            }
        }
        match &th.cond {
            Cond::Ready | Cond::Woken => true,
            Cond::Poll(v) => v.iter().any(|(fd, ev)| self.poll_revents(*fd, *ev) != 0),
            Cond::PipeReadable(p) => !self.pipes[*p].buf.is_empty() || self.pipes[*p].writers == 0,
            Cond::PipeWritable(p) => self.pipes[*p].buf.len() < self.pipes[*p].cap || self.pipes[*p].readers == 0,
            Cond::Child(pid) => !matches!(self.procs.get(pid).map(|p| &p.state), Some(PState::Running)),
            Cond::AnyChild(c) => {
                let mut any = false;
                for p in self.procs.values() {
                    if p.caller == *c && matches!(p.state, PState::Zombie(_)) {
                        return true;
                    }
                    if p.caller == *c && matches!(p.state, PState::Running) {
                        any = true;
                    }
                }
                !any
            }
            Cond::Futex(_) | Cond::Sleep | Cond::Frozen | Cond::Done => false,
            Cond::Join(t2) => self.threads[*t2].cond == Cond::Done,
        }
    }

    fn proc_ready(&self, p: &Proc) -> bool {
        if p.state != PState::Running || p.ready_at > self.now {
            return false;
        }
        match p.block_write {
            None => true,
            Some(o) => match self.ofds[o].kind {
                OKind::PipeW(i) => self.pipes[i].buf.len() < self.pipes[i].cap || self.pipes[i].readers == 0,
                _ => true,
            },
        }
    }

    /// When something happens next without anybody's doing; if it is a thread that wakes, also when the next
    /// process goes on.
    fn next_timer(&self) -> Option<(u64, Option<u64>)> {
        let a = self
            .threads
            .iter()
            .filter(|t| !matches!(t.cond, Cond::Done | Cond::Frozen))
            .filter_map(|t| t.deadline)
            .filter(|d| *d > self.now)
            .min();
        let b = self
            .procs
            .values()
            .filter(|p| p.state == PState::Running && p.ready_at > self.now && p.block_write.is_none())
            .map(|p| p.ready_at)
            .min();
        match (a, b) {
            (Some(a), Some(b)) if a < b => Some((a, Some(b))),
            (_, Some(b)) => Some((b, None)),
            (a, None) => a.map(|a| (a, None)),
        }
    }

    fn describe_stuck(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.threads.iter().enumerate() {
            if t.cond != Cond::Done {
                let what = match &t.cond {
                    Cond::Futex(_) => "Futex".to_string(),
                    Cond::Poll(v) => format!("Poll({} fds)", v.len()),
                    c => format!("{c:?}"),
                };
                s += &format!("thread {i} waits on {what}; ");
            }
        }
        for p in self.procs.values() {
            if p.state == PState::Running {
                s += &format!(
                    "process {} {}; ",
                    p.prog.as_ref().map_or("?", |p| p.name()),
                    if p.block_write.is_some() { "blocked writing to a full pipe" } else { "running" }
                );
            }
        }
        s
    }

    pub fn finish(&mut self, end: End) -> ! {
        if self.end == End::Running {
            self.end = end;
        }
        DONE.store(1, Ordering::SeqCst);
        shim::raw_futex_wake(DONE.as_ptr() as usize, 1);
        loop {
            shim::raw_futex_wait(PARKED.as_ptr() as usize, 0);
        }
    }

    /// Hand the processor to whoever is chosen; returns when `me` runs again. With `leave` the
    /// calling thread has ended and this returns as soon as another was started.
    pub fn resched(&mut self, me: usize, leave: bool) {
        loop {
            self.steps += 1;
            self.now += 1000;
            if self.steps > self.cfg.max_steps {
                let s = self.describe_stuck();
                self.finish(End::StepLimit(s));
            }
            let me_ready = !leave && self.cond_ready(me);
            let mut threads: Vec<usize> = vec![];
            if me_ready {
                threads.push(me);
            }
            for t in 0..self.threads.len() {
                if t != me && self.cond_ready(t) {
                    threads.push(t);
                }
            }
            let procs: Vec<i32> = self.procs.values().filter(|p| self.proc_ready(p)).map(|p| p.pid).collect();
            let n = threads.len() + procs.len();
            if n == 0 {
                if let Some((t, later)) = self.next_timer() {
                    self.now = t;
                    // whoever looks again and again while a process takes its time is scheduled later and later
                    if let Some(later) = later {
                        self.naps += 1;
                        if self.naps > 300 {
                            self.now += (later - t) / 32;
                        }
                    }
                    continue;
                }
                let unfinished = self
                    .threads
                    .iter()
                    .any(|t| !matches!(t.cond, Cond::Done | Cond::Frozen));
                if !unfinished {
                    self.finish_soft();
                    return;
                }
                let s = self.describe_stuck();
                self.finish(End::Deadlock(s));
            }
            if threads.is_empty() && leave {
                // only processes left: run them to their end if no thread is waiting
                let unfinished = self
                    .threads
                    .iter()
                    .any(|t| !matches!(t.cond, Cond::Done | Cond::Frozen));
                if !unfinished {
                    self.probe("processes_outlive_threads");
                }
            }
            let hog = me_ready && self.threads[me].hog > 400;
            let k = self.choose(n, me_ready, hog);
            if k < threads.len() {
                let t = threads[k];
                self.sched_hash = (self.sched_hash ^ (t as u64 + 1)).wrapping_mul(0x0100_0000_01b3);
                if t == me {
                    self.threads[me].hog += 1;
                    return;
                }
                self.threads[me].hog = 0;
                self.switches += 1;
                self.threads[t].go.store(1, Ordering::SeqCst);
                let theirs = self.threads[t].go.as_ptr() as usize;
                let mine = self.threads[me].go.as_ptr();
                shim::raw_futex_wake(theirs, 1);
                if leave {
                    return;
                }
                wait_go(mine);
                return;
            }
            let pid = procs[k - threads.len()];
            self.sched_hash = (self.sched_hash ^ 0x100).wrapping_mul(0x0100_0000_01b3);
            self.threads[me].hog = 0;
            self.step_proc(pid);
        }
    }

    fn finish_soft(&mut self) {
        if self.end == End::Running {
            self.end = End::Completed;
        }
        DONE.store(1, Ordering::SeqCst);
        shim::raw_futex_wake(DONE.as_ptr() as usize, 1);
    }

    /// Scheduling point, before the effect of a call.
    pub fn point(&mut self, me: usize) {
        self.threads[me].points += 1;
        self.points += 1;
        if let Some(c) = self.cfg.crash.clone() {
            if self.points >= c.at_point {
                self.crash_now(&c);
                self.finish(End::Crashed);
            }
        }
        self.resched(me, false);
    }

    fn crash_now(&mut self, c: &Crash) {
        self.ev("the process is killed".into());
        self.probe("process_crash");
        let fds: Vec<i32> = self.fds.keys().copied().collect();
        for f in fds {
            self.close_fd(f);
        }
        let pids: Vec<i32> = self.procs.keys().copied().collect();
        for pid in pids {
            self.procs.get_mut(&pid).unwrap().orphan = true;
            if c.kill_children {
                self.end_proc(pid, 9);
            } else if matches!(self.procs[&pid].state, PState::Running) {
                self.probe("orphan_tool");
            }
            if let PState::Zombie(s) = self.procs[&pid].state {
                self.procs.get_mut(&pid).unwrap().state = PState::Reaped(s);
            }
        }
    }

    /// What survives the death of the process: the file system and the processes it had started.
    pub fn snapshot(&self) -> Snapshot {
        let mut orphans = vec![];
        for p in self.procs.values() {
            if p.state != PState::Running {
                continue;
            }
            let prog = p.prog.as_ref().unwrap();
            let fds = p
                .fds
                .iter()
                .map(|(fd, o)| {
                    let k = match self.ofds[*o].kind {
                        OKind::File(i) => Some(i),
                        _ => None,
                    };
                    (*fd, k)
                })
                .collect();
            orphans.push(Orphan {
                name: prog.name().to_string(),
                state: prog.save(),
                argv: p.argv.clone(),
                env: p.env.clone(),
                cwd: p.cwd.clone(),
                caller: p.caller + PREVIOUS,
                unit: p.unit,
                fds,
            });
        }
        let mut inodes = self.inodes.clone();
        for i in &mut inodes {
            if let Creator::Unit { caller, .. } = &mut i.creator {
                *caller += PREVIOUS;
            }
        }
        let mut tools = self.tools.clone();
        for t in &mut tools {
            t.caller += PREVIOUS;
        }
        Snapshot {
            inodes,
            paths: self.paths.iter().map(|(a, b)| (a.clone(), *b)).collect(),
            foreign: self.foreign.clone(),
            tools,
            fates: self.fates.iter().map(|((c, u), f)| (*c + PREVIOUS, *u, f.clone())).collect(),
            orphans,
            now: self.now,
            next_pid: self.next_pid,
        }
    }

    pub fn restore(&mut self, s: Snapshot) {
        self.inodes = s.inodes;
        self.paths = s.paths.into_iter().collect();
        self.foreign = s.foreign;
        self.tools = s.tools;
        for (c, u, f) in s.fates {
            self.fates.insert((c, u), f);
        }
        self.now = s.now;
        self.next_pid = s.next_pid;
        for o in s.orphans {
            let Some(prog) = crate::progs::load(&o.name, o.state.as_deref()) else { continue };
            let pid = self.next_pid;
            self.next_pid += 1;
            self.pipes.push(PipeBuf { buf: VecDeque::new(), cap: 1, readers: 0, writers: 0 });
            let dead = self.pipes.len() - 1;
            let mut fds = BTreeMap::new();
            for (fd, k) in o.fds {
                let ofd = match k {
                    Some(i) => self.new_ofd(OKind::File(i), libc::O_RDWR),
                    None => self.new_ofd(OKind::PipeW(dead), libc::O_WRONLY),
                };
                self.ofds[ofd].refs += 1;
                fds.insert(fd, ofd);
            }
            let ready_at = self.now;
            for t in &mut self.tools {
                if t.caller == o.caller && t.unit == o.unit && t.status.is_none() {
                    t.pid = pid;
                }
            }
            self.procs.insert(
                pid,
                Proc {
                    pid,
                    caller: o.caller,
                    unit: o.unit,
                    launch: 0,
                    state: PState::Running,
                    fds,
                    prog: Some(prog),
                    argv: o.argv,
                    env: o.env,
                    cwd: o.cwd,
                    ready_at,
                    block_write: None,
                    killed_by_parent: false,
                    orphan: true,
                    ended_at: 0,
                },
            );
        }
    }

    /// Block the calling thread until the condition holds or the deadline (absolute) passes.
    pub fn block(&mut self, me: usize, cond: Cond, deadline: Option<u64>) -> bool {
        self.threads[me].cond = cond;
        self.threads[me].deadline = deadline;
        self.resched(me, false);
        let timed_out = {
            let th = &self.threads[me];
            th.deadline.is_some_and(|d| d <= self.now) && {
                let save = th.deadline;
                let _ = save;
                !self.cond_ready_ignoring_deadline(me)
            }
        };
        self.threads[me].cond = Cond::Ready;
        self.threads[me].deadline = None;
        !timed_out
    }

    fn cond_ready_ignoring_deadline(&self, t: usize) -> bool {
        match &self.threads[t].cond {
            Cond::Futex(_) | Cond::Sleep => false,
            Cond::Poll(v) => v.iter().any(|(fd, ev)| self.poll_revents(*fd, *ev) != 0),
            _ => true,
        }
    }

    // ------------------------------------------------------------ fault lookup

    pub fn root(&self, me: usize) -> (usize, usize) {
        let r = self.threads[me].root;
        (r, self.units.get(r).copied().unwrap_or(0))
    }

    pub fn fault(&mut self, me: usize, site: Site, file: Option<usize>) -> Option<Effect> {
        let (caller, unit) = self.root(me);
        let c = self.counts.entry((caller, unit, site)).or_insert(0);
        let n = *c;
        *c += 1;
        let mut hit = None;
        for f in &self.faults {
            if f.caller == caller && f.unit == unit && f.site == site {
                let span = match f.effect {
                    Effect::Eintr(k) | Effect::NameTaken(k) => k,
                    _ => 1,
                };
                if n >= f.nth && n < f.nth + span {
                    hit = Some(*f);
                    break;
                }
            }
        }
        let f = hit?;
        let idx = file.and_then(|i| match self.inodes[i].creator {
            Creator::Unit { index, .. } => Some(index),
            _ => None,
        });
        self.fired.push(Fired { caller, unit, site, nth: n, effect: f.effect, file: idx });
        self.ev(format!("FAULT {site:?}[{n}] {:?} (caller {caller} merge {unit})", f.effect));
        if let Effect::Delay(d) = f.effect {
            self.block(me, Cond::Sleep, Some(self.now + d));
            return None;
        }
        Some(f.effect)
    }

    // ------------------------------------------------------------ descriptors

    pub fn new_fd(&mut self, me: usize, ofd: usize, cloexec: bool) -> Result<i32, i32> {
        if self.fds.len() >= self.cfg.fd_limit {
            self.probe("fd_limit_hit");
            return Err(libc::EMFILE);
        }
        let fd = (FD_BASE..).find(|f| !self.fds.contains_key(f)).unwrap();
        self.next_fd = self.next_fd.max(fd + 1);
        let (caller, unit) = self.root(me);
        self.ofds[ofd].refs += 1;
        self.fds.insert(fd, FdEntry { ofd, cloexec, caller, unit });
        Ok(fd)
    }

    pub fn new_ofd(&mut self, kind: OKind, flags: i32) -> usize {
        match kind {
            OKind::PipeR(p) => self.pipes[p].readers += 1,
            OKind::PipeW(p) => self.pipes[p].writers += 1,
            _ => {}
        }
        self.ofds.push(Ofd { kind, pos: 0, flags, nonblock: flags & libc::O_NONBLOCK != 0, refs: 0 });
        self.ofds.len() - 1
    }

    pub fn drop_ofd(&mut self, o: usize) {
        self.ofds[o].refs -= 1;
        if self.ofds[o].refs == 0 {
            match self.ofds[o].kind {
                OKind::PipeR(p) => self.pipes[p].readers -= 1,
                OKind::PipeW(p) => self.pipes[p].writers -= 1,
                _ => {}
            }
        }
    }

    pub fn close_fd(&mut self, fd: i32) -> bool {
        match self.fds.remove(&fd) {
            Some(e) => {
                self.drop_ofd(e.ofd);
                true
            }
            None => false,
        }
    }

    // ------------------------------------------------------------ files

    pub fn used(&self) -> usize {
        self.inodes.iter().map(|i| i.data.len()).sum()
    }

    pub fn lookup(&self, cwd: &[u8], p: &[u8]) -> Result<usize, i32> {
        if p.is_empty() {
            return Err(libc::ENOENT);
        }
        let full = norm(cwd, p);
        match self.paths.get(&full) {
            Some(i) => {
                if p.ends_with(b"/") && self.inodes[*i].kind != INodeKind::Dir {
                    return Err(libc::ENOTDIR);
                }
                Ok(*i)
            }
            None => {
                let mut d = parent(&full);
                loop {
                    match self.paths.get(&d) {
                        Some(i) if self.inodes[*i].kind != INodeKind::Dir => return Err(libc::ENOTDIR),
                        Some(_) => return Err(libc::ENOENT),
                        None => d = parent(&d),
                    }
                }
            }
        }
    }

    /// Directory that a new entry would be made in.
    pub fn check_new(&self, full: &[u8]) -> Result<(), i32> {
        let d = parent(full);
        let name = &full[full.iter().rposition(|b| *b == b'/').map_or(0, |i| i + 1)..];
        if name.len() > 255 {
            return Err(libc::ENAMETOOLONG);
        }
        match self.paths.get(&d) {
            None => Err(libc::ENOENT),
            Some(i) if self.inodes[*i].kind != INodeKind::Dir => Err(libc::ENOTDIR),
            Some(i) if self.inodes[*i].readonly => Err(libc::EACCES),
            Some(_) => Ok(()),
        }
    }

    pub fn create(&mut self, full: &[u8], mode: u32, creator: Creator, exclusive: bool) -> Result<usize, i32> {
        self.check_new(full)?;
        let ino = self.inodes.len();
        self.inodes.push(INode {
            kind: INodeKind::File,
            data: vec![],
            mode,
            creator,
            nlink: 1,
            exclusive,
            readonly: false,
            unlink_failed: false,
            mtime: self.now,
        });
        self.paths.insert(full.to_vec(), ino);
        Ok(ino)
    }

    pub fn file_write(&mut self, ino: usize, pos: usize, data: &[u8]) -> Result<usize, i32> {
        let used = self.used();
        let grow = (pos + data.len()).saturating_sub(self.inodes[ino].data.len());
        let room = self.cfg.disk_quota.saturating_sub(used);
        let mut n = data.len();
        if grow > room {
            let cut = grow - room;
            n = n.saturating_sub(cut);
            self.probe("disk_full");
            if n == 0 {
                return Err(libc::ENOSPC);
            }
        }
        let now = self.now;
        let f = &mut self.inodes[ino];
        if f.data.len() < pos + n {
            f.data.resize(pos + n, 0);
        }
        f.data[pos..pos + n].copy_from_slice(&data[..n]);
        f.mtime = now;
        Ok(n)
    }

    pub fn unlink(&mut self, full: &[u8]) -> Result<(), i32> {
        let ino = *self.paths.get(full).ok_or(libc::ENOENT)?;
        if self.inodes[ino].kind == INodeKind::Dir {
            return Err(libc::EISDIR);
        }
        self.paths.remove(full);
        self.inodes[ino].nlink -= 1;
        Ok(())
    }

    // ------------------------------------------------------------ processes

    pub fn spawn(
        &mut self,
        me: usize,
        argv: Vec<Bytes>,
        env: Vec<Bytes>,
        fds: BTreeMap<i32, usize>,
        cwd: Bytes,
        prog: Box<dyn Program>,
    ) -> i32 {
        let (caller, unit) = self.root(me);
        let pid = self.next_pid;
        self.next_pid += 1;
        for o in fds.values() {
            self.ofds[*o].refs += 1;
        }
        let launch = self.procs.values().filter(|p| p.caller == caller && p.unit == unit).count();
        let ready_at = self.now;
        self.procs.insert(
            pid,
            Proc {
                pid,
                caller,
                unit,
                launch,
                state: PState::Running,
                fds,
                prog: Some(prog),
                argv,
                env,
                cwd,
                ready_at,
                block_write: None,
                killed_by_parent: false,
                orphan: false,
                ended_at: 0,
            },
        );
        pid
    }

    pub fn end_proc(&mut self, pid: i32, status: i32) {
        let Some(p) = self.procs.get_mut(&pid) else { return };
        if p.state != PState::Running {
            return;
        }
        p.state = if p.orphan { PState::Reaped(status) } else { PState::Zombie(status) };
        p.prog = None;
        p.ended_at = self.now;
        let fds = std::mem::take(&mut p.fds);
        let (c, u) = (p.caller, p.unit);
        for o in fds.into_values() {
            self.drop_ofd(o);
        }
        for t in &mut self.tools {
            if t.pid == pid && t.status.is_none() {
                t.status = Some(status);
            }
        }
        self.ev(format!("process of {c}.{u} ends with status {status:#x}"));
    }

    fn step_proc(&mut self, pid: i32) {
        let p = self.procs.get_mut(&pid).unwrap();
        p.block_write = None;
        let mut prog = p.prog.take().unwrap();
        let s = prog.step(self, pid);
        if self.procs[&pid].state != PState::Running {
            return;
        }
        match s {
            Step::Again(d) => {
                let now = self.now;
                let p = self.procs.get_mut(&pid).unwrap();
                p.prog = Some(prog);
                p.ready_at = now + d;
            }
            Step::BlockWrite(fd) => {
                let p = self.procs.get_mut(&pid).unwrap();
                p.block_write = p.fds.get(&fd).copied();
                p.prog = Some(prog);
            }
            Step::Exit(c) => self.end_proc(pid, (c & 0xff) << 8),
            Step::Signal(s) => self.end_proc(pid, s),
            Step::Exec(next) => {
                let p = self.procs.get_mut(&pid).unwrap();
                p.prog = Some(next);
            }
        }
    }

    fn note_err(&mut self, key: (usize, usize), fd: i32, data: &[u8]) {
        if fd == 2 {
            self.proc_err.entry(key).or_default().extend_from_slice(data);
        }
    }

    /// Write by a simulated process. Ok(n), or Err(EAGAIN) when it must wait, Err(EPIPE).
    pub fn proc_write(&mut self, pid: i32, fd: i32, data: &[u8]) -> Result<usize, i32> {
        let Some(o) = self.procs[&pid].fds.get(&fd).copied() else { return Err(libc::EBADF) };
        let key = (self.procs[&pid].caller, self.procs[&pid].unit);
        match self.ofds[o].kind.clone() {
            OKind::PipeW(i) => {
                let p = &mut self.pipes[i];
                if p.readers == 0 {
                    return Err(libc::EPIPE);
                }
                let room = p.cap - p.buf.len();
                if room == 0 {
                    self.probe("pipe_full");
                    return Err(libc::EAGAIN);
                }
                let n = room.min(data.len());
                p.buf.extend(&data[..n]);
                self.note_err(key, fd, &data[..n]);
                Ok(n)
            }
            OKind::File(ino) if self.inodes[ino].kind == INodeKind::File => {
                let pos = self.ofds[o].pos;
                let n = self.file_write(ino, pos, data)?;
                self.ofds[o].pos += n;
                self.note_err(key, fd, &data[..n]);
                Ok(n)
            }
            OKind::File(_) => {
                self.note_err(key, fd, data);
                Ok(data.len())
            }
            _ => Err(libc::EBADF),
        }
    }
}

// ---------------------------------------------------------------- global access

pub static WORLD: AtomicPtr<World> = AtomicPtr::new(std::ptr::null_mut());
pub static DONE: AtomicU32 = AtomicU32::new(0);
pub(crate) static STDIO: AtomicU32 = AtomicU32::new(0);
static PARKED: AtomicU32 = AtomicU32::new(0);
pub static SIM_ERRNO_PROBE: AtomicI32 = AtomicI32::new(0);

use crate::shim;

pub struct Ctx {
    pub tid: Cell<i64>,
    pub depth: Cell<u32>,
    pub _pad: UnsafeCell<u8>,
}

thread_local! {
    pub static CTX: Ctx = const { Ctx { tid: Cell::new(-1), depth: Cell::new(0), _pad: UnsafeCell::new(0) } };
}

/// The simulated thread id, if the calling code is simulated code (not the kernel, not the harness).
#[inline]
pub fn sim_tid() -> Option<usize> {
    CTX.try_with(|c| if c.tid.get() >= 0 && c.depth.get() == 0 { Some(c.tid.get() as usize) } else { None })
        .unwrap_or(None)
}

pub struct Kernel;
impl Kernel {
    pub fn enter() -> Kernel {
        CTX.with(|c| c.depth.set(c.depth.get() + 1));
        Kernel
    }
}
impl Drop for Kernel {
    fn drop(&mut self) {
        CTX.with(|c| c.depth.set(c.depth.get() - 1));
    }
}

pub fn world() -> &'static mut World {
    unsafe { &mut *WORLD.load(Ordering::SeqCst) }
}

/// To be called by the global allocator: an allocation of simulated code may be a scheduling point.
#[inline]
pub fn alloc_point() {
    if ALLOC_POINTS.load(Ordering::Relaxed) == 0 {
        return;
    }
    let Some(t) = sim_tid() else { return };
    let _k = Kernel::enter();
    let w = world();
    if w.end != End::Running || std::thread::panicking() {
        return;
    }
    w.threads[t].allocs += 1;
    let x = Rng::mix(w.cfg.seed ^ (t as u64) << 40, w.threads[t].allocs);
    if x % u64::from(w.cfg.alloc_stride.max(1)) == 0 {
        w.point(t);
    }
}

static ALLOC_POINTS: AtomicU32 = AtomicU32::new(0);

/// Run harness code from inside a simulated thread without it being simulated.
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    let _k = Kernel::enter();
    f()
}

pub fn wait_go(go: *mut u32) {
    loop {
        let a = unsafe { AtomicU32::from_ptr(go) };
        if a.swap(0, Ordering::SeqCst) == 1 {
            return;
        }
        shim::raw_futex_wait(go as usize, 0);
    }
}

pub fn add_thread(w: &mut World, root: usize, rng_stream: u64) -> usize {
    let id = w.threads.len();
    w.threads.push(Box::new(Thr {
        cond: Cond::Ready,
        deadline: None,
        root,
        go: AtomicU32::new(0),
        points: 0,
        hog: 0,
        allocs: 0,
        rng: Rng::new(Rng::mix(w.cfg.seed, rng_stream)),
        pthread: 0,
    }));
    w.live += 1;
    id
}

pub fn enter_thread(id: usize) {
    CTX.with(|c| c.depth.set(1));
    CTX.with(|c| c.tid.set(id as i64));
    let go = world().threads[id].go.as_ptr();
    wait_go(go);
    CTX.with(|c| c.depth.set(0));
}

pub fn leave_thread(id: usize) {
    CTX.with(|c| c.depth.set(1));
    let w = world();
    w.threads[id].cond = Cond::Done;
    w.resched(id, true);
    CTX.with(|c| {
        c.tid.set(-1);
        c.depth.set(0)
    });
}

/// Run the callers to completion under the simulated kernel. Call in a process of its own: threads
/// that never finish (crashed callers, deadlocks) stay parked.
pub fn run(world_: World, callers: Vec<Box<dyn FnOnce() + Send + 'static>>) -> &'static mut World {
    let boxed = Box::leak(Box::new(world_));
    WORLD.store(boxed, Ordering::SeqCst);
    DONE.store(0, Ordering::SeqCst);
    let w = world();
    ALLOC_POINTS.store(w.cfg.alloc_stride, Ordering::Relaxed);
    w.units = vec![0; callers.len()];
    let same = w.cfg.same_rng;
    for i in 0..callers.len() {
        add_thread(w, i, if same { 1 } else { i as u64 + 1 });
    }
    let n = callers.len();
    for (i, f) in callers.into_iter().enumerate() {
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                enter_thread(i);
                f();
                leave_thread(i);
            })
            .expect("harness thread");
    }
    // pick the first runner
    let _k = Kernel::enter();
    let runnable: Vec<usize> = (0..n).filter(|t| w.cond_ready(*t)).collect();
    let k = w.choose(runnable.len(), false, false);
    let t = runnable[k];
    w.threads[t].go.store(1, Ordering::SeqCst);
    shim::raw_futex_wake(w.threads[t].go.as_ptr() as usize, 1);
    while DONE.load(Ordering::SeqCst) == 0 {
        shim::raw_futex_wait(DONE.as_ptr() as usize, 0);
    }
    world()
}

pub fn set_unit(u: usize) {
    if let Some(t) = sim_tid() {
        let _k = Kernel::enter();
        let w = world();
        let r = w.threads[t].root;
        w.units[r] = u;
    }
}
