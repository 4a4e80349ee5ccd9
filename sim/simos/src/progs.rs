//! Programs that simulated processes execute: a shell and the merge tool.

use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;

fn base(p: &[u8]) -> &[u8] {
    match p.iter().rposition(|b| *b == b'/') {
        Some(i) => &p[i + 1..],
        None => p,
    }
}

pub fn lookup(w: &World, file: &[u8]) -> Result<Box<dyn Program>, i32> {
    let b = base(file);
    if file.contains(&b'/') {
        let d = parent(file);
        if d != b"/bin" && d != b"/usr/bin" && d != b"/usr/local/bin" {
            return Err(libc::ENOENT);
        }
    }
    if w.cfg.missing.iter().any(|m| m == b) {
        return Err(libc::ENOENT);
    }
    match b {
        b"bash" | b"sh" | b"dash" => Ok(Box::new(Shell::default())),
        b"wasm-merge" => Ok(Box::new(MergeTool::default())),
        b"env" => Ok(Box::new(EnvProg)),
        _ => Err(libc::ENOENT),
    }
}

/// A program that outlived the process that started it.
pub fn load(name: &str, state: Option<&str>) -> Option<Box<dyn Program>> {
    match (name, state) {
        ("wasm-merge", Some(s)) => {
            let t: MergeTool = serde_json::from_str(s).ok()?;
            Some(Box::new(t))
        }
        ("wasm-merge", None) => Some(Box::new(MergeTool::default())),
        ("bash", _) => Some(Box::new(Shell::default())),
        _ => None,
    }
}

/// Writes byte strings to the process's descriptors, waiting for room where necessary.
#[derive(Default, Serialize, Deserialize)]
pub struct Out {
    q: VecDeque<(i32, Bytes, usize)>,
}

impl Out {
    fn push(&mut self, fd: i32, b: Bytes) {
        if !b.is_empty() {
            self.q.push_back((fd, b, 0));
        }
    }
    /// None: everything written.
    fn step(&mut self, w: &mut World, pid: i32) -> Option<Step> {
        let (fd, b, pos) = self.q.front_mut()?;
        match w.proc_write(pid, *fd, &b[*pos..]) {
            Ok(n) => {
                *pos += n;
                if *pos >= b.len() {
                    self.q.pop_front();
                }
                Some(Step::Again(0))
            }
            Err(libc::EAGAIN) => Some(Step::BlockWrite(*fd)),
            Err(libc::EPIPE) => Some(Step::Signal(libc::SIGPIPE)),
            Err(_) => {
                self.q.pop_front();
                Some(Step::Again(0))
            }
        }
    }
}

struct EnvProg;
impl Program for EnvProg {
    fn name(&self) -> &'static str {
        "env"
    }
    fn step(&mut self, w: &mut World, pid: i32) -> Step {
        let argv = w.procs[&pid].argv.clone();
        let rest: Vec<Bytes> = argv.into_iter().skip(1).skip_while(|a| a.contains(&b'=') || a.starts_with(b"-")).collect();
        if rest.is_empty() {
            return Step::Exit(0);
        }
        match lookup(w, &rest[0]) {
            Ok(p) => {
                w.procs.get_mut(&pid).unwrap().argv = rest;
                Step::Exec(p)
            }
            Err(_) => Step::Exit(127),
        }
    }
}

// ---------------------------------------------------------------- shell

#[derive(Clone, Debug)]
enum Redir {
    Dup(i32, i32),
    File(i32, Bytes, bool),
}

#[derive(Clone, Debug, Default)]
struct Cmd {
    argv: Vec<Bytes>,
    redirs: Vec<Redir>,
    sep: u8, // separator that follows: ; & | A(&&) O(||) or 0
}

#[derive(Default)]
pub struct Shell {
    started: bool,
    cmds: VecDeque<Cmd>,
    single: bool,
    running: Option<MergeTool>,
    saved: Option<std::collections::BTreeMap<i32, usize>>,
    out: Out,
    status: i32,
    skip: Option<u8>,
    exit_after: Option<i32>,
    script: String,
}

fn expand(name: &[u8], args: &[Bytes], env: &[Bytes]) -> Bytes {
    if let Ok(n) = String::from_utf8_lossy(name).parse::<usize>() {
        return args.get(n).cloned().unwrap_or_default();
    }
    match name {
        b"#" => args.len().saturating_sub(1).to_string().into_bytes(),
        b"$" => b"4243".to_vec(),
        b"?" => b"0".to_vec(),
        b"HOME" => b"/home/user".to_vec(),
        _ => env
            .iter()
            .find(|e| e.len() > name.len() && e.starts_with(name) && e[name.len()] == b'=')
            .map(|e| e[name.len() + 1..].to_vec())
            .unwrap_or_default(),
    }
}

#[derive(Debug)]
pub struct ParseError(pub String);

/// Splits a script into simple commands the way a POSIX shell would.
fn parse(s: &[u8], args: &[Bytes], env: &[Bytes], subst: &mut Vec<Bytes>) -> Result<Vec<Cmd>, ParseError> {
    let mut cmds = vec![];
    let mut cur = Cmd::default();
    let mut word: Option<Bytes> = None;
    let mut pending: Option<(i32, u8)> = None; // redirection waiting for its word
    let mut i = 0;
    macro_rules! end_word {
        () => {
            if let Some(wd) = word.take() {
                match pending.take() {
                    Some((fd, b'd')) => {
                        let t = String::from_utf8_lossy(&wd).parse::<i32>().unwrap_or(-1);
                        cur.redirs.push(Redir::Dup(fd, t));
                    }
                    Some((fd, k)) => cur.redirs.push(Redir::File(fd, wd, k == b'a')),
                    None => cur.argv.push(wd),
                }
            }
        };
    }
    macro_rules! end_cmd {
        ($sep:expr) => {{
            end_word!();
            if !cur.argv.is_empty() || !cur.redirs.is_empty() {
                cur.sep = $sep;
                cmds.push(std::mem::take(&mut cur));
            }
        }};
    }
    while i < s.len() {
        let c = s[i];
        match c {
            b' ' | b'\t' => end_word!(),
            b'\n' | b';' => end_cmd!(b';'),
            b'&' => {
                if s.get(i + 1) == Some(&b'&') {
                    i += 1;
                    end_cmd!(b'A');
                } else if s.get(i + 1) == Some(&b'>') {
                    i += 1;
                    end_word!();
                    pending = Some((1, b'w'));
                    cur.redirs.push(Redir::Dup(2, 1));
                } else {
                    end_cmd!(b'&');
                }
            }
            b'|' => {
                if s.get(i + 1) == Some(&b'|') {
                    i += 1;
                    end_cmd!(b'O');
                } else {
                    end_cmd!(b'|');
                }
            }
            b'(' | b')' => return Err(ParseError(format!("syntax error near unexpected token `{}'", c as char))),
            b'#' if word.is_none() => {
                while i < s.len() && s[i] != b'\n' {
                    i += 1;
                }
                continue;
            }
            b'<' | b'>' => {
                let mut fd = if c == b'<' { 0 } else { 1 };
                if let Some(wd) = &word {
                    if wd.len() == 1 && wd[0].is_ascii_digit() {
                        fd = i32::from(wd[0] - b'0');
                        word = None;
                    }
                }
                end_word!();
                match s.get(i + 1) {
                    Some(b'&') => {
                        i += 1;
                        pending = Some((fd, b'd'));
                    }
                    Some(b'>') => {
                        i += 1;
                        pending = Some((fd, b'a'));
                    }
                    _ => pending = Some((fd, if c == b'<' { b'r' } else { b'w' })),
                }
            }
            b'\\' => {
                i += 1;
                match s.get(i) {
                    Some(b'\n') => {}
                    Some(c) => word.get_or_insert_with(Vec::new).push(*c),
                    None => word.get_or_insert_with(Vec::new).push(b'\\'),
                }
            }
            b'\'' => {
                let w = word.get_or_insert_with(Vec::new);
                i += 1;
                while i < s.len() && s[i] != b'\'' {
                    w.push(s[i]);
                    i += 1;
                }
                if i >= s.len() {
                    return Err(ParseError("unexpected EOF while looking for matching `''".into()));
                }
            }
            b'"' => {
                word.get_or_insert_with(Vec::new);
                i += 1;
                loop {
                    match s.get(i) {
                        None => return Err(ParseError("unexpected EOF while looking for matching `\"'".into())),
                        Some(b'"') => break,
                        Some(b'\\') if matches!(s.get(i + 1), Some(b'"' | b'\\' | b'$' | b'`' | b'\n')) => {
                            i += 1;
                            if s[i] != b'\n' {
                                word.as_mut().unwrap().push(s[i]);
                            }
                        }
                        Some(b'$') => {
                            let (v, next) = dollar(s, i, args, env, subst)?;
                            if v == Dollar::All {
                                let n = args.len();
                                for (k, a) in args.iter().enumerate().skip(1) {
                                    word.get_or_insert_with(Vec::new).extend_from_slice(a);
                                    if k + 1 < n {
                                        let wd = word.take().unwrap();
                                        cur.argv.push(wd);
                                        word = Some(vec![]);
                                    }
                                }
                                if n <= 1 && word.as_ref().is_some_and(Vec::is_empty) && s.get(next) == Some(&b'"') {
                                    word = None;
                                }
                            } else if let Dollar::Text(v) = v {
                                word.get_or_insert_with(Vec::new).extend_from_slice(&v);
                            }
                            i = next;
                            continue;
                        }
                        Some(b'`') => {
                            i = backtick(s, i, subst)?;
                            continue;
                        }
                        Some(c) => word.get_or_insert_with(Vec::new).push(*c),
                    }
                    i += 1;
                }
            }
            b'`' => {
                i = backtick(s, i, subst)?;
                continue;
            }
            b'$' => {
                let (v, next) = dollar(s, i, args, env, subst)?;
                match v {
                    Dollar::All => {
                        for a in args.iter().skip(1) {
                            split_into(a, &mut word, &mut cur.argv);
                            end_word!();
                        }
                    }
                    Dollar::Text(v) => split_into(&v, &mut word, &mut cur.argv),
                    Dollar::Quoted(v) => word.get_or_insert_with(Vec::new).extend_from_slice(&v),
                }
                i = next;
                continue;
            }
            b'~' if word.is_none() && matches!(s.get(i + 1), None | Some(b' ' | b'/')) => {
                word = Some(b"/home/user".to_vec());
            }
            c => word.get_or_insert_with(Vec::new).push(c),
        }
        i += 1;
    }
    end_cmd!(0);
    Ok(cmds)
}

fn split_into(v: &[u8], word: &mut Option<Bytes>, argv: &mut Vec<Bytes>) {
    let mut parts = v.split(|b| b" \t\n".contains(b)).peekable();
    while let Some(p) = parts.next() {
        if !p.is_empty() {
            word.get_or_insert_with(Vec::new).extend_from_slice(p);
        }
        if parts.peek().is_some() {
            if let Some(w) = word.take() {
                argv.push(w);
            }
        }
    }
}

#[derive(PartialEq)]
enum Dollar {
    Text(Bytes),
    Quoted(Bytes),
    All,
}

fn dollar(s: &[u8], mut i: usize, args: &[Bytes], env: &[Bytes], subst: &mut Vec<Bytes>) -> Result<(Dollar, usize), ParseError> {
    i += 1;
    match s.get(i) {
        Some(b'@' | b'*') => Ok((Dollar::All, i + 1)),
        Some(b'{') => {
            let end = s[i..].iter().position(|b| *b == b'}').ok_or_else(|| ParseError("bad substitution".into()))? + i;
            let name = &s[i + 1..end];
            if name == b"@" {
                return Ok((Dollar::All, end + 1));
            }
            Ok((Dollar::Text(expand(name, args, env)), end + 1))
        }
        Some(b'(') => {
            let mut depth = 0;
            let mut j = i;
            while j < s.len() {
                match s[j] {
                    b'(' => depth += 1,
                    b')' => {
                        depth -= 1;
                        if depth == 0 {
                            subst.push(s[i + 1..j].to_vec());
                            return Ok((Dollar::Text(vec![]), j + 1));
                        }
                    }
                    _ => {}
                }
                j += 1;
            }
            Err(ParseError("unexpected EOF while looking for matching `)'".into()))
        }
        Some(b'\'') => {
            let mut v = vec![];
            let mut j = i + 1;
            loop {
                match s.get(j) {
                    None => return Err(ParseError("unexpected EOF while looking for matching `''".into())),
                    Some(b'\'') => return Ok((Dollar::Quoted(v), j + 1)),
                    Some(b'\\') => {
                        j += 1;
                        match s.get(j) {
                            Some(b'n') => v.push(b'\n'),
                            Some(b't') => v.push(b'\t'),
                            Some(b'r') => v.push(b'\r'),
                            Some(b'x') => {
                                let h = s[j + 1..].iter().take(2).take_while(|b| b.is_ascii_hexdigit()).count();
                                let t = String::from_utf8_lossy(&s[j + 1..j + 1 + h]).to_string();
                                v.push(u8::from_str_radix(&t, 16).unwrap_or(0));
                                j += h;
                            }
                            Some(c) => v.push(*c),
                            None => {}
                        }
                    }
                    Some(c) => v.push(*c),
                }
                j += 1;
            }
        }
        Some(c) if c.is_ascii_digit() || b"#$?!-".contains(c) => Ok((Dollar::Text(expand(&s[i..=i], args, env)), i + 1)),
        Some(c) if c.is_ascii_alphabetic() || *c == b'_' => {
            let n = s[i..].iter().take_while(|b| b.is_ascii_alphanumeric() || **b == b'_').count();
            Ok((Dollar::Text(expand(&s[i..i + n], args, env)), i + n))
        }
        _ => Ok((Dollar::Text(b"$".to_vec()), i)),
    }
}

fn backtick(s: &[u8], i: usize, subst: &mut Vec<Bytes>) -> Result<usize, ParseError> {
    let end = s[i + 1..]
        .iter()
        .position(|b| *b == b'`')
        .ok_or_else(|| ParseError("unexpected EOF while looking for matching ``'".into()))?;
    subst.push(s[i + 1..i + 1 + end].to_vec());
    Ok(i + end + 2)
}

impl Shell {
    fn alien(&self, w: &mut World, pid: i32, cmd: &[Bytes]) {
        let (c, u) = (w.procs[&pid].caller, w.procs[&pid].unit);
        let s = cmd.iter().map(|a| String::from_utf8_lossy(a).to_string()).collect::<Vec<_>>().join(" ");
        w.ev(format!("shell of {c}.{u} ran `{s}`"));
        w.aliens.push((c, u, s));
    }

    fn begin(&mut self, w: &mut World, pid: i32) -> Option<Step> {
        self.started = true;
        let argv = w.procs[&pid].argv.clone();
        let env = w.procs[&pid].env.clone();
        let mut i = 1;
        let mut script = None;
        while i < argv.len() && argv[i].starts_with(b"-") {
            let o = argv[i].clone();
            i += 1;
            if o == b"--" {
                break;
            }
            if !o.starts_with(b"--") && o.contains(&b'c') {
                script = argv.get(i).cloned();
                i += 1;
                break;
            }
            if o == b"-o" {
                i += 1;
            }
        }
        let Some(script) = script else {
            return Some(Step::Exit(0));
        };
        let mut args: Vec<Bytes> = argv[i.min(argv.len())..].to_vec();
        if args.is_empty() {
            args.push(argv[0].clone());
        }
        self.script = String::from_utf8_lossy(&script).to_string();
        let mut subst = vec![];
        match parse(&script, &args, &env, &mut subst) {
            Ok(c) => self.cmds = c.into(),
            Err(e) => {
                self.out.push(2, format!("bash: -c: line 1: {}\n", e.0).into_bytes());
                self.exit_after = Some(2);
                self.status = 2;
            }
        }
        for s in subst {
            self.alien(w, pid, &[s]);
        }
        self.single = self.cmds.len() == 1 && self.cmds[0].sep != b'&';
        None
    }
}

impl Program for Shell {
    fn name(&self) -> &'static str {
        "bash"
    }
    fn step(&mut self, w: &mut World, pid: i32) -> Step {
        if !self.started {
            if let Some(s) = self.begin(w, pid) {
                return s;
            }
            return Step::Again(0);
        }
        if let Some(s) = self.out.step(w, pid) {
            return s;
        }
        if let Some(mut t) = self.running.take() {
            match t.step(w, pid) {
                Step::Exit(c) => {
                    self.status = c;
                    mark_status(w, pid, c << 8);
                }
                Step::Signal(s) => {
                    self.status = 128 + s;
                    mark_status(w, pid, s);
                    if s != libc::SIGPIPE && s != libc::SIGINT {
                        self.out.push(2, format!("bash: line 1: {pid} killed by signal {s}\n").into_bytes());
                    }
                }
                other => {
                    self.running = Some(t);
                    return other;
                }
            }
            if let Some(tbl) = self.saved.take() {
                let cur = std::mem::replace(&mut w.procs.get_mut(&pid).unwrap().fds, tbl);
                for o in cur.into_values() {
                    w.drop_ofd(o);
                }
            }
            return Step::Again(0);
        }
        if let Some(c) = self.exit_after {
            return Step::Exit(c);
        }
        let Some(mut c) = self.cmds.pop_front() else {
            return Step::Exit(self.status);
        };
        let skip = match self.skip.take() {
            Some(b'A') => self.status != 0,
            Some(b'O') => self.status == 0,
            _ => false,
        };
        self.skip = Some(c.sep);
        if skip {
            return Step::Again(0);
        }
        // leading assignments and builtins
        while c.argv.first().is_some_and(|a| {
            a.iter().position(|b| *b == b'=').is_some_and(|p| p > 0 && a[..p].iter().all(|b| b.is_ascii_alphanumeric() || *b == b'_'))
        }) {
            c.argv.remove(0);
        }
        while c.argv.first().is_some_and(|a| a == b"exec" || a == b"command") {
            c.argv.remove(0);
        }
        if c.argv.is_empty() {
            self.status = 0;
            return Step::Again(0);
        }
        let name = c.argv[0].clone();
        match name.as_slice() {
            b"set" | b":" | b"true" | b"ulimit" | b"umask" | b"trap" => {
                self.status = 0;
                return Step::Again(0);
            }
            b"exit" => {
                let code = c.argv.get(1).map_or(self.status, |a| String::from_utf8_lossy(a).parse().unwrap_or(2));
                self.exit_after = Some(code);
                return Step::Again(0);
            }
            _ => {}
        }
        if base(&name) == b"wasm-merge" && lookup(w, &name).is_ok() {
            if !c.redirs.is_empty() || !self.single {
                let saved = w.procs[&pid].fds.clone();
                for o in saved.values() {
                    w.ofds[*o].refs += 1;
                }
                self.saved = Some(saved);
            }
            for r in &c.redirs {
                match r {
                    Redir::Dup(a, b) => {
                        if let Some(o) = w.procs[&pid].fds.get(b).copied() {
                            w.ofds[o].refs += 1;
                            if let Some(old) = w.procs.get_mut(&pid).unwrap().fds.insert(*a, o) {
                                w.drop_ofd(old);
                            }
                        }
                    }
                    Redir::File(fd, path, append) => {
                        let cwd = w.procs[&pid].cwd.clone();
                        let full = norm(&cwd, path);
                        let ino = match w.lookup(&cwd, path) {
                            Ok(i) => i,
                            Err(_) => match w.create(&full, 0o644, Creator::Proc(pid), false) {
                                Ok(i) => i,
                                Err(_) => continue,
                            },
                        };
                        if !append {
                            w.inodes[ino].data.clear();
                        }
                        let o = w.new_ofd(OKind::File(ino), libc::O_WRONLY);
                        w.ofds[o].refs += 1;
                        if let Some(old) = w.procs.get_mut(&pid).unwrap().fds.insert(*fd, o) {
                            w.drop_ofd(old);
                        }
                    }
                }
            }
            w.procs.get_mut(&pid).unwrap().argv = c.argv;
            if self.single {
                // a shell running a single simple command replaces itself by it
                return Step::Exec(Box::new(MergeTool::default()));
            }
            self.running = Some(MergeTool::default());
            return Step::Again(0);
        }
        if base(&name) != b"wasm-merge" {
            self.alien(w, pid, &c.argv);
        }
        if name == b"echo" || name == b"printf" {
            self.status = 0;
            return Step::Again(0);
        }
        self.status = 127;
        let mut m = b"bash: line 1: ".to_vec();
        m.extend_from_slice(&name);
        m.extend_from_slice(b": command not found\n");
        self.out.push(2, m);
        Step::Again(0)
    }
}

fn mark_status(w: &mut World, pid: i32, st: i32) {
    for t in &mut w.tools {
        if t.pid == pid && t.status.is_none() {
            t.status = Some(st);
        }
    }
}

// ---------------------------------------------------------------- the merge tool

pub const KNOWN_FLAGS: [&str; 23] = [
    "--no-validation",
    "--rename-export-conflicts",
    "--enable-sign-ext",
    "--enable-threads",
    "--enable-mutable-globals",
    "--enable-nontrapping-float-to-int",
    "--enable-simd",
    "--enable-bulk-memory",
    "--enable-bulk-memory-opt",
    "--enable-call-indirect-overlong",
    "--enable-exception-handling",
    "--enable-tail-call",
    "--enable-reference-types",
    "--enable-multivalue",
    "--enable-gc",
    "--enable-memory64",
    "--enable-relaxed-simd",
    "--enable-extended-const",
    "--enable-strings",
    "--enable-multimemory",
    "--enable-typed-continuations",
    "--enable-shared-everything",
    "--enable-fp16",
];

#[derive(Default, Serialize, Deserialize)]
pub struct MergeTool {
    phase: u32,
    steps: u32,
    run: usize,
    fate: ToolFate,
    next_input: usize,
    data: Bytes,
    out: Out,
    out_ino: Option<usize>,
    failing: Option<i32>,
    post: bool,
}

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x0100_0000_01b3);
    }
    (h ^ b.len() as u64).wrapping_mul(0x0100_0000_01b3)
}

/// A pluggable implementation of "merge": inputs (contents, namespace) to output bytes or an error
/// message. The default produces a receipt: a unique, incompressible record of the launch.
pub type MergeImpl = fn(&ToolRun, &ToolFate) -> Result<Bytes, String>;
pub static MERGE_IMPL: std::sync::Mutex<Option<MergeImpl>> = std::sync::Mutex::new(None);

fn receipt(run: &ToolRun, fate: &ToolFate, launch: usize) -> Bytes {
    let mut h = 0xcbf2_9ce4_8422_2325;
    for f in &run.flags {
        h = fnv(h, f.as_bytes());
    }
    for (_, ns, c) in &run.inputs {
        h = fnv(h, ns);
        h = fnv(h, c.as_deref().unwrap_or_default());
    }
    let mut v = b"\0asm\x01\0\0\0".to_vec();
    for x in [run.caller, run.unit, launch] {
        v.extend_from_slice(&(x as u32).to_le_bytes());
    }
    v.extend_from_slice(&h.to_le_bytes());
    let mut r = Rng::new(h ^ Rng::mix((run.caller * 1000 + run.unit) as u64, launch as u64));
    while v.len() < fate.out_size {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(fate.out_size.max(28));
    match fate.out_style {
        1 => {
            let n = v.len();
            v.resize(n + 1 + (h % 7) as usize, 0);
        }
        2 => {
            for _ in 0..=(h % 3) {
                v.extend_from_slice(if h % 2 == 0 { b"\r\n" } else { b" \n" });
            }
        }
        3 => {
            let mut t = format!("(module ;; {}.{} launch {launch} of {h:x}\n", run.caller, run.unit).into_bytes();
            t.extend(v.iter().skip(28).map(|b| b" abcdefghijklm(\n)"[*b as usize % 17]));
            t.extend_from_slice(b"\n)\n");
            v = t;
        }
        4 => {
            let mut t = vec![0xef, 0xbb, 0xbf];
            t.append(&mut v);
            t.extend_from_slice(&[b'\n', 0xff, 0xfe, 0x80]);
            v = t;
        }
        5 => {
            for b in v.iter_mut().skip(28) {
                *b = 0;
            }
        }
        6 => v.clear(),
        _ => {}
    }
    v
}

impl MergeTool {
    fn fail(&mut self, msg: String, code: i32) -> Step {
        self.failing = Some(code);
        self.out.push(2, msg.into_bytes());
        Step::Again(0)
    }

    fn streams(&mut self) {
        let mut so = self.fate.stdout_text.clone();
        let mut k = 0u32;
        while so.len() < self.fate.stdout {
            so.extend_from_slice(format!("progress line {k}\n").as_bytes());
            k += 1;
        }
        let se = self.fate.stderr.clone();
        match self.fate.reorder % 3 {
            0 => {
                self.out.push(1, so);
                self.out.push(2, se);
            }
            1 => {
                self.out.push(2, se);
                self.out.push(1, so);
            }
            _ => {
                let c = self.fate.chunk.max(1);
                let (mut a, mut b) = (0, 0);
                let mut n = 0;
                while a < so.len() || b < se.len() {
                    n += 1;
                    let c = if n > 500 { usize::MAX / 2 } else { c };
                    if b < se.len() {
                        let e = (b + c).min(se.len());
                        self.out.push(2, se[b..e].to_vec());
                        b = e;
                    }
                    if a < so.len() {
                        let e = (a + c).min(so.len());
                        self.out.push(1, so[a..e].to_vec());
                        a = e;
                    }
                }
            }
        }
    }
}

impl Program for MergeTool {
    fn name(&self) -> &'static str {
        "wasm-merge"
    }
    fn save(&self) -> Option<String> {
        serde_json::to_string(self).ok()
    }
    fn step(&mut self, w: &mut World, pid: i32) -> Step {
        self.steps += 1;
        if self.phase == 0 {
            let (caller, unit, launch) = {
                let p = &w.procs[&pid];
                (p.caller, p.unit, p.launch)
            };
            let argv = w.procs[&pid].argv.clone();
            self.fate = w.fates.get(&(caller, unit)).cloned().unwrap_or_default();
            let mut run = ToolRun { caller, unit, pid, argv: argv.clone(), ..Default::default() };
            let mut pos: Vec<Bytes> = vec![];
            let mut err = None;
            let mut i = 1;
            while i < argv.len() {
                let a = &argv[i];
                if a == b"-o" || a == b"--output" {
                    i += 1;
                    match argv.get(i) {
                        Some(p) if run.output.is_none() => run.output = Some(p.clone()),
                        Some(_) => err = Some("Expected only 1 argument to -o".to_string()),
                        None => err = Some("Couldn't find expected argument for '-o'".to_string()),
                    }
                } else if a.starts_with(b"-") && a.len() > 1 && (pos.len() % 2 == 0 || KNOWN_FLAGS.iter().any(|f| f.as_bytes() == a.as_slice())) {
                    // (the real tool has no way at all to take a namespace that begins with a dash;
                    // here one is recognised by its place, so that what reaches the tool can be judged)
                    let s = String::from_utf8_lossy(a).to_string();
                    if !KNOWN_FLAGS.contains(&s.as_str()) {
                        err = Some(format!("Unknown option '{s}'"));
                    }
                    run.flags.push(s);
                } else {
                    pos.push(a.clone());
                }
                i += 1;
            }
            if pos.len() % 2 != 0 {
                err = Some("Fatal: Please provide an import name for each input file.".to_string());
            }
            for c in pos.chunks(2) {
                run.inputs.push((c[0].clone(), c.get(1).cloned().unwrap_or_default(), None));
            }
            w.ev(format!("tool {caller}.{unit} launch {launch}: {} inputs, flags {:?}", run.inputs.len(), run.flags));
            self.run = w.tools.len();
            w.tools.push(run);
            self.phase = 1;
            w.probe("tool_started");
            if let Some(e) = err {
                w.tools[self.run].stderr = e.clone().into_bytes();
                return self.fail(format!("{e}\n"), 1);
            }
            return Step::Again(self.fate.delay);
        }
        if let Some(s) = self.out.step(w, pid) {
            // the tool may die while it is printing, too
            if self.failing.is_none() && self.fate.at > 0 && self.steps >= self.fate.at {
                if self.fate.signal != 0 {
                    w.probe("tool_killed");
                    return Step::Signal(self.fate.signal);
                }
                if self.fate.exit != 0 {
                    w.probe("tool_failed_midway");
                    return Step::Exit(self.fate.exit);
                }
            }
            return s;
        }
        if let Some(c) = self.failing {
            return Step::Exit(c);
        }
        if self.fate.at > 0 && self.steps >= self.fate.at {
            if self.fate.signal != 0 {
                w.probe("tool_killed");
                return Step::Signal(self.fate.signal);
            }
            if self.fate.exit != 0 {
                w.probe("tool_failed_midway");
                return Step::Exit(self.fate.exit);
            }
        }
        match self.phase {
            1 => {
                // read inputs, one per step
                let n = w.tools[self.run].inputs.len();
                if self.next_input < n {
                    let path = w.tools[self.run].inputs[self.next_input].0.clone();
                    let cwd = w.procs[&pid].cwd.clone();
                    match w.lookup(&cwd, &path) {
                        Ok(i) if w.inodes[i].kind == INodeKind::File => {
                            let d = w.inodes[i].data.clone();
                            let nm = w.name_of(i);
                            w.ev(format!("tool reads {nm} ({} bytes)", d.len()));
                            w.tools[self.run].inputs[self.next_input].2 = Some(d);
                        }
                        _ => {
                            let m = format!("Fatal: Failed opening '{}'\n", String::from_utf8_lossy(&path));
                            w.tools[self.run].stderr = m.clone().into_bytes();
                            return self.fail(m, 1);
                        }
                    }
                    self.next_input += 1;
                    return Step::Again(0);
                }
                let launch = w.procs[&pid].launch;
                let imp = *MERGE_IMPL.lock().unwrap();
                self.data = match imp {
                    Some(f) => match f(&w.tools[self.run], &self.fate) {
                        Ok(d) => d,
                        Err(e) => {
                            let m = format!("Fatal: {e}\n");
                            w.tools[self.run].stderr = m.clone().into_bytes();
                            return self.fail(m, 1);
                        }
                    },
                    None => receipt(&w.tools[self.run], &self.fate, launch),
                };
                if !self.fate.stderr_late {
                    self.streams();
                }
                w.tools[self.run].stderr = self.fate.stderr.clone();
                self.phase = 2;
                Step::Again(self.fate.delay)
            }
            2 => {
                if self.fate.no_output {
                    self.phase = 4;
                    return Step::Again(0);
                }
                let Some(path) = w.tools[self.run].output.clone() else {
                    // like the real tool: without -o it writes to standard output
                    let d = self.data.clone();
                    self.out.push(1, d);
                    self.phase = 4;
                    return Step::Again(0);
                };
                let cwd = w.procs[&pid].cwd.clone();
                let full = norm(&cwd, &path);
                let ino = match w.lookup(&cwd, &path) {
                    Ok(i) if w.inodes[i].kind == INodeKind::Dir => Err(libc::EISDIR),
                    Ok(i) => Ok(i),
                    Err(libc::ENOENT) => w.create(&full, 0o644, Creator::Proc(pid), false),
                    Err(e) => Err(e),
                };
                match ino {
                    Ok(i) => {
                        w.inodes[i].data.clear();
                        self.out_ino = Some(i);
                        self.phase = 3;
                        Step::Again(0)
                    }
                    Err(_) => {
                        let m = format!("Fatal: Failed opening '{}' for writing\n", String::from_utf8_lossy(&path));
                        w.tools[self.run].stderr = m.clone().into_bytes();
                        self.fail(m, 1)
                    }
                }
            }
            3 => {
                let ino = self.out_ino.unwrap();
                let pos = w.tools[self.run].written;
                let n = self.fate.chunk.max(1).max(self.data.len() / 8).min(self.data.len() - pos);
                let r = w.file_write(ino, pos, &self.data[pos..pos + n]);
                match r {
                    Ok(k) => {
                        w.tools[self.run].written = pos + k;
                        if pos + k >= self.data.len() {
                            let nm = w.name_of(ino);
                            w.ev(format!("tool wrote {nm} ({} bytes)", self.data.len()));
                            w.tools[self.run].produced = Some(self.data.clone());
                            self.phase = 4;
                        }
                        Step::Again(self.fate.delay / 8)
                    }
                    Err(_) => {
                        let m = "Fatal: Failed writing output\n".to_string();
                        w.tools[self.run].stderr = m.clone().into_bytes();
                        self.fail(m, 1)
                    }
                }
            }
            4 => {
                if self.fate.stderr_late && !self.post {
                    self.post = true;
                    self.streams();
                    return Step::Again(0);
                }
                self.phase = 5;
                if self.fate.linger > 0 {
                    // standard streams closed, process still at work
                    w.probe("tool_lingers");
                    let fds = std::mem::take(&mut w.procs.get_mut(&pid).unwrap().fds);
                    for o in fds.into_values() {
                        w.drop_ofd(o);
                    }
                    return Step::Again(self.fate.linger);
                }
                Step::Again(0)
            }
            _ => {
                w.tools[self.run].finished = true;
                if self.fate.signal != 0 {
                    w.probe("tool_killed");
                    return Step::Signal(self.fate.signal);
                }
                Step::Exit(self.fate.exit)
            }
        }
    }
}
