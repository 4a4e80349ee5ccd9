//! Case generation, the single-fault enumeration, shrinking, and what counts as non-trivial.

use crate::case::*;
use crate::wasp;
use simos::{Rng, Site};

pub fn total(prop: &str, tier: &str) -> u64 {
    let (q, t) = match prop {
        "C01" => (80_000, 1_400_000),
        "C02" => (44_000, 1_000_000),
        "C03" => (180_000, 3_000_000),
        "C04" => (44_000, 1_000_000),
        "C05" => (60_000, 1_000_000),
        "C06" => (70_000, 1_000_000),
        _ => return wasp::total(prop, tier),
    };
    if tier == "thorough" {
        t
    } else {
        q
    }
}

// ---------------------------------------------------------------- ingredients

pub use simos::faults::{effects, transients};

const NAMES: [&str; 8] = ["input", "analysis", "instr", "wastrumented_input", "env", "wasi_snapshot_preview1", "m", "wastrumentation_stack"];
const ODD: [&str; 52] = [
    "-n", "--help", "-", "--", "-n", "a\u{a0}b", "\u{2003}x", "x\u{200b}", "\u{feff}x", "e\u{301}", "%s", "%20", "@file", "\\n", "\r", "A", "İ", "a,b",
    "a b", "", " ", "two  spaces", " lead", "trail ", "a;b", "x;touch /tmp/pwned", "$(touch /tmp/pwned)", "`id`", "it's", "say \"hi\"", "back\\slash", "*", "?", "[a-z]",
    "~", "~user", "a\nb", "\t", "日本語", "😀", "a&b", "a|b", "a>b", "a<b", "#comment", "$HOME", "${PATH}", "{a,b}", "!x", "a=b", "x -o y", "(sub)",
];
const NAMES2: [&str; 6] = ["input", "input", "analysis", "x.wasm", "/tmp/x", "0"];

fn size(r: &mut Rng, big: bool) -> usize {
    match r.below(if big { 12 } else { 9 }) {
        0 => 0,
        1 => 1,
        2..=4 => r.range(2, 64) as usize,
        5 | 6 => r.range(65, 5000) as usize,
        7 if r.chance(400) => {
            // around a whole number of blocks
            let block = *r.pick(&[512usize, 1024, 2048, 4096, 8192, 10_000, 16_384, 32_768]);
            (block * r.range(1, (65_536 / block as u64).max(2)) as usize + r.below(3) as usize).saturating_sub(1)
        }
        7 => *r.pick(&[4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537]),
        8 => r.range(5000, 40_000) as usize,
        9 => r.range(40_000, 300_000) as usize,
        10 => *r.pick(&[131_072, 131_073, 262_144, 262_145]),
        _ => r.range(100, 2000) as usize,
    }
}

fn module(r: &mut Rng, odd: u64, big: bool) -> Module {
    let ns = if r.chance(odd) {
        if r.chance(60) {
            "n".repeat(r.range(300, 5000) as usize)
        } else {
            if r.chance(350) {
                // (which the tool would take for its own option, wherever it stands)
                Some(any_name(r)).filter(|n| n != "-o").unwrap_or_default()
            } else {
                (*r.pick(&ODD)).to_string()
            }
        }
    } else if r.chance(500) {
        (*r.pick(&NAMES)).to_string()
    } else {
        (*r.pick(&NAMES2)).to_string()
    };
    Module { ns, len: size(r, big), seed: r.next() >> 12, style: r.below(4) as u8 }
}

fn good_fate(r: &mut Rng, big: bool) -> Fate {
    Fate {
        out_size: if r.chance(if big { 12 } else { 1 }) { *r.pick(&[1_048_576, 1_048_577, 1_114_112, 2_097_152, 2_100_000, 5_000_000, 5_242_880]) } else { 28 + size(r, big) },
        out_style: if r.chance(10) { 6 } else if r.chance(350) { r.range(1, 5) as u8 } else { 0 },
        stdout: if r.chance(150) { size(r, big) } else { 0 },
        stdout_kind: if r.chance(600) { Some(r.below(16) as u8) } else { None },
        chunk: r.range(1, 4000) as usize,
        delay: match r.below(20) {
            0..=2 => r.below(10_000_000_000),
            3 => *r.pick(&[31_000_000_000, 61_000_000_000, 301_000_000_000, 3_601_000_000_000, 90_000_000_000_000]),
            _ => 0,
        },
        reorder: r.below(3) as u8,
        linger: if r.chance(60) { r.range(1, 100_000_000_000) } else { 0 },
        ..Fate::default()
    }
}

fn text(r: &mut Rng, big: bool) -> Text {
    let len = match r.below(6) {
        0 => 1,
        1 => r.range(2, 10) as usize,
        2 | 3 => r.range(10, 300) as usize,
        4 => r.range(300, 5000) as usize,
        _ => {
            if big {
                *r.pick(&[65_536, 65_537, 70_000, 200_000, 65_536, 65_537, 131_072, 1_048_577])
            } else {
                4096
            }
        }
    };
    Text { kind: r.below(16) as u8, len }
}

fn exit_code(r: &mut Rng) -> i32 {
    match r.below(4) {
        0 => 1,
        1 => *r.pick(&[1, 2, 3, 77, 100, 126, 127, 128, 134, 137, 139, 143, 255]),
        _ => r.range(1, 255) as i32,
    }
}

/// any signal that ends a process
fn signal(r: &mut Rng) -> i32 {
    match r.below(3) {
        0 => *r.pick(&[9, 11, 6, 15, 4, 8, 1, 2, 7, 13]),
        1 => *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 27, 29, 30, 31]),
        _ => r.range(34, 64) as i32,
    }
}

fn bad_fate(r: &mut Rng, big: bool) -> Fate {
    let mut f = good_fate(r, big);
    match r.below(7) {
        0 => {
            // reports a problem and fails, before or after writing some output
            f.exit = exit_code(r);
            f.err = text(r, big);
            f.at = 0;
            f.no_output = r.chance(500);
            f.err_late = r.chance(500);
        }
        1 => {
            f.exit = exit_code(r);
            f.at = r.below(30) as u32;
            f.no_output = r.chance(300);
        }
        2 | 3 => {
            f.signal = signal(r);
            f.at = r.below(30) as u32;
            if r.chance(250) {
                f.err = text(r, big);
                f.err_late = r.chance(500);
            }
        }
        4 => {
            // complains but claims success
            f.err = text(r, big);
            f.err_late = r.chance(500);
        }
        5 => {
            f.exit = exit_code(r);
            f.err = text(r, big);
            f.at = r.below(40) as u32;
        }
        _ => {
            // dies after it has written everything
            f.signal = signal(r);
            f.at = 0;
        }
    }
    f
}

fn merge(r: &mut Rng, fate: Fate, odd: u64, big: bool) -> Merge {
    let n = match r.below(10) {
        0 => 0,
        1..=3 => 1,
        4..=7 => 2,
        8 => 3,
        _ => r.range(4, 9) as usize,
    };
    let mut m = Merge {
        primary: if r.chance(400) { Some(module(r, odd, big)) } else { None },
        mods: (0..n).map(|_| module(r, odd, big)).collect(),
        flags: flags(r),
        fate,
    };
    if r.chance(150) {
        twins(r, &mut m);
    }
    m
}

/// Requests after the first are often the earlier one with a single thing changed: whatever a merge
/// remembered of the earlier one shows.
fn related(r: &mut Rng, ms: &mut [Merge]) {
    for k in 1..ms.len() {
        if !r.chance(500) {
            continue;
        }
        let p = ms[k - 1].clone();
        let m = &mut ms[k];
        m.primary = p.primary;
        m.mods = p.mods;
        m.flags = p.flags;
        let n = m.mods.len() as u64;
        match r.below(6) {
            0 => m.flags ^= 1 << r.below(23),
            1 if n > 0 => m.mods[r.below(n) as usize].ns.push('2'),
            2 if n > 0 => m.mods[r.below(n) as usize].seed ^= 1,
            3 if n > 0 => {
                let x = m.mods.remove(r.below(n) as usize);
                m.mods.push(x);
            }
            4 if n > 0 => {
                let x = m.mods.remove(0);
                m.primary = if m.primary.is_none() { Some(x) } else { None };
            }
            _ => {}
        }
    }
}

fn flags(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => 0,
        1 => 1 << r.below(23),
        2 => (1 << 23) - 1,
        3 => ((1 << 23) - 1) & !(1 << r.below(23)),
        4 => (1 << r.below(23)) | (1 << r.below(23)),
        _ => r.below(1 << 23) as u32,
    }
}

/// Many modules in one request: as many as there are in a small counter and one more.
fn many(r: &mut Rng, m: &mut Merge) {
    let n = *r.pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257]);
    m.mods = (0..n)
        .map(|k| {
            let mut x = module(r, 30, false);
            x.len = x.len.min(48);
            if x.ns.len() < 20 && r.chance(700) {
                x.ns.push_str(&k.to_string());
            }
            x
        })
        .collect();
}

/// Modules of one request that have contents, or contents and name, in common.
fn twins(r: &mut Rng, m: &mut Merge) {
    let n = m.mods.len() as u64;
    if n >= 2 {
        let (a, b) = (r.below(n) as usize, r.below(n) as usize);
        let x = m.mods[a].clone();
        let y = &mut m.mods[b];
        (y.len, y.seed, y.style) = (x.len, x.seed, x.style);
        if r.chance(300) {
            y.ns = x.ns;
        }
    }
    if n >= 1 && r.chance(300) {
        let x = m.mods[r.below(n) as usize].clone();
        if let Some(y) = &mut m.primary {
            (y.len, y.seed, y.style) = (x.len, x.seed, x.style);
            if r.chance(300) {
                y.ns = x.ns;
            }
        }
    }
}

/// Any name at all: letters of every width, and what is special to one program or another.
fn any_name(r: &mut Rng) -> String {
    let n = r.range(1, 12);
    (0..n)
        .map(|_| match r.below(6) {
            0 => char::from(r.range(1, 127) as u8),
            1 => char::from_u32(r.range(0x80, 0x7ff) as u32).unwrap_or('x'),
            2 => char::from_u32(r.range(0x800, 0xffff) as u32).unwrap_or('y'),
            3 => char::from_u32(r.range(0x1_0000, 0x10_ffff) as u32).unwrap_or('z'),
            4 => *r.pick(&[' ', '\t', '\n', '\r', '=', ':', ',', '/', '\\', '"', '\'', '%', '@', '-', '.']),
            _ => char::from(r.range(97, 122) as u8),
        })
        .collect()
}

fn tmpdir(r: &mut Rng, odd: bool) -> Option<Vec<u8>> {
    if !odd {
        return match r.below(4) {
            0 => None,
            1 => Some(b"/home/user/scratch".to_vec()),
            2 => Some(b"/tmp/".to_vec()),
            _ => Some(b"/tmp".to_vec()),
        };
    }
    let long = {
        let mut v = b"/tmp/".to_vec();
        v.extend(std::iter::repeat_n(b'd', 200));
        v
    };
    let v: Vec<Vec<u8>> = vec![
        b"/home/user/my tmp".to_vec(),
        b"/tmp/a  b".to_vec(),
        b"relative/dir".to_vec(),
        b"./rel dir".to_vec(),
        b"/tmp/$HOME".to_vec(),
        b"/tmp/`x`".to_vec(),
        b"/tmp/a;b".to_vec(),
        b"/tmp/it's".to_vec(),
        b"/tmp/\"q\"".to_vec(),
        "/tmp/日本".as_bytes().to_vec(),
        b"/tmp/\xff\xfe".to_vec(),
        b"/tmp/*".to_vec(),
        b"/tmp/-o".to_vec(),
        b"/tmp/a\nb".to_vec(),
        b"/tmp/ ".to_vec(),
        b"/tmp/back\\slash".to_vec(),
        b"/tmp/#x".to_vec(),
        b"/tmp/(x)".to_vec(),
        b"/tmp/a&b|c".to_vec(),
        b"/tmp/~".to_vec(),
        b"/tmp/../home/user".to_vec(),
        long,
    ];
    Some(r.pick(&v).clone())
}

fn env(r: &mut Rng) -> Env {
    Env {
        preempt: *r.pick(&[0, 50, 200, 500, 900]),
        pipe_cap: *r.pick(&[65_536, 65_536, 4096, 512, 64]),
        io_chunk: if r.chance(250) { r.range(1, 9000) as usize } else { 0 },
        clock_jumps: r.chance(200),
        tmpdir: tmpdir(r, false),
        foreign: r.below(6) as usize,
        ..Env::default()
    }
}

fn chunk_guard(c: &mut Case) {
    // keep runs bounded: tiny transfers only with small data
    let total: usize = c
        .callers
        .iter()
        .flatten()
        .map(|m| m.mods.iter().chain(m.primary.iter()).map(|x| x.len).sum::<usize>() + m.fate.out_size)
        .sum();
    if c.env.io_chunk > 0 {
        c.env.io_chunk = c.env.io_chunk.max(total / 300);
    }
    let talk: usize = c.callers.iter().flatten().map(|m| m.fate.stdout + m.fate.err.len).sum();
    c.env.pipe_cap = c.env.pipe_cap.max(talk / 1500).max(16);
}

fn random_faults(r: &mut Rng, c: &Case, n: u64, hard: bool) -> Vec<FaultJ> {
    let mut v = vec![];
    for _ in 0..n {
        let caller = r.below(c.callers.len() as u64) as usize;
        if c.callers[caller].is_empty() {
            continue;
        }
        let unit = r.below(c.callers[caller].len() as u64) as usize;
        let m = &c.callers[caller][unit];
        let inputs = (m.mods.len() + usize::from(m.primary.is_some())) as u64;
        let site = if hard {
            *r.pick(&[
                Site::OpenCreate, Site::OpenCreate, Site::Write, Site::Write, Site::Read, Site::Read, Site::Spawn, Site::Pipe, Site::OpenDev, Site::Unlink, Site::Close, Site::Stat,
                Site::OpenExisting, Site::PipeRead, Site::Poll, Site::Wait, Site::Seek,
            ])
        } else {
            *r.pick(&[Site::OpenCreate, Site::Write, Site::Write, Site::Read, Site::Read, Site::PipeRead, Site::Poll, Site::Wait, Site::OpenExisting, Site::OpenDev])
        };
        let nth = match site {
            Site::OpenCreate => r.below(inputs + 2),
            Site::Write => r.below(inputs + 4),
            Site::Unlink => r.below(inputs + 2),
            Site::Close => r.below(inputs + 8),
            Site::Read => r.below(5),
            Site::PipeRead | Site::Poll => r.below(6),
            _ => r.below(2),
        } as u32;
        let ef = if hard { effects(site) } else { transients(site) };
        if ef.is_empty() {
            continue;
        }
        v.push(FaultJ::new(caller, unit, site, nth, *r.pick(&ef)));
    }
    v
}

// ---------------------------------------------------------------- per property

pub type Subs = Box<dyn Fn(&Case, &RunResult) -> Vec<Case>>;

fn no_subs() -> Subs {
    Box::new(|_, _| vec![])
}

/// Every system call the base run made, times every way that call can go wrong, one at a time.
fn enumerate_single_faults(base: &Case, r: &RunResult) -> Vec<Case> {
    let mut out = vec![];
    for (caller, unit, site, n) in &r.sites {
        let s = Site::parse(site).unwrap();
        let many = matches!(s, Site::PipeRead | Site::Poll | Site::Read | Site::Write);
        let idx: Vec<u32> = if many && *n > 6 { vec![0, 1, 2, n / 2, n - 2, n - 1] } else { (0..*n).collect() };
        for k in idx {
            for e in effects(s) {
                let mut c = base.clone();
                c.kind = "single-fault".into();
                c.faults = vec![FaultJ::new(*caller, *unit, s, k, e)];
                c.roles = r.roles.clone();
                out.push(c);
            }
        }
    }
    out
}

/// The tool dying at each of its steps, in each way.
fn enumerate_tool_deaths(base: &Case) -> Vec<Case> {
    let mut out = vec![];
    for at in 0..24u32 {
        for (exit, signal) in [(0, 9), (0, 11), (1, 0), (127, 0)] {
            let mut c = base.clone();
            c.kind = "tool-death".into();
            for m in c.callers.iter_mut().flatten() {
                m.fate.at = at;
                m.fate.exit = exit;
                m.fate.signal = signal;
            }
            out.push(c);
        }
    }
    out
}

pub fn cases(prop: &str, tier: &str, seed: u64, i: u64) -> (Case, Subs) {
    let _ = tier;
    let pnum = prop[1..].parse::<u64>().unwrap_or(0);
    let mut r = Rng::new(Rng::mix(Rng::mix(seed, pnum), i));
    let mut c = Case { prop: prop.into(), seed: r.next() >> 11, env: env(&mut r), ..Case::default() };
    match prop {
        "C01" => {
            if i % 400 == 7 {
                c.kind = "base".into();
                let f = good_fate(&mut r, false);
                c.callers = vec![vec![merge(&mut r, f, 0, false)]];
                c.env.io_chunk = 0;
                return (c, Box::new(|b, _| enumerate_tool_deaths(b)));
            }
            let big = r.chance(250);
            let n = if r.chance(800) { 1 } else { r.range(2, 4) };
            let mode = r.below(10);
            c.kind = ["fault-free", "fault-free", "fault-free", "transient", "transient", "tool-fails", "tool-fails", "tool-fails", "everything", "everything"][mode as usize].into();
            let mut ms = vec![];
            for _ in 0..n {
                let f = if mode >= 5 && r.chance(700) { bad_fate(&mut r, big) } else { good_fate(&mut r, big) };
                ms.push(merge(&mut r, f, 100, big));
            }
            if i % 500 == 3 {
                // now and then something really large, in and out
                let m = &mut ms[0];
                m.fate.out_size = *r.pick(&[16_777_216, 16_777_217, 20_000_000, 33_600_000]);
                if let Some(x) = m.mods.first_mut() {
                    x.len = *r.pick(&[1_048_576, 1_048_577, 1_114_112, 3_145_728, 16_777_217, 4_200_000]);
                }
            }
            if i % 300 == 11 {
                many(&mut r, &mut ms[0]);
            }
            related(&mut r, &mut ms);
            c.callers = vec![ms];
            if mode == 3 || mode == 4 || mode >= 8 {
                let k = r.range(1, 5);
                c.faults = random_faults(&mut r, &c, k, mode >= 8);
            }
            if mode == 9 && r.chance(400) {
                c.env.disk_quota = Some(r.range(0, 60_000) as usize);
            }
            if mode == 8 && r.chance(300) {
                c.env.fd_limit = Some(r.range(1, 14) as usize);
            }
        }
        "C02" => {
            if i % 128 == 0 {
                c.kind = "base".into();
                let fail = r.chance(250);
                let f = if fail { bad_fate(&mut r, false) } else { good_fate(&mut r, false) };
                let mut m = merge(&mut r, f, 0, false);
                m.mods.truncate(3);
                c.callers = vec![vec![m]];
                c.env.io_chunk = 0;
                chunk_guard(&mut c);
                return (c, Box::new(enumerate_single_faults));
            }
            let big = r.chance(150);
            c.kind = "random-faults".into();
            let n = if r.chance(850) { 1 } else { 2 };
            let mut ms = vec![];
            for _ in 0..n {
                let f = if r.chance(450) { bad_fate(&mut r, big) } else { good_fate(&mut r, big) };
                ms.push(merge(&mut r, f, 50, big));
            }
            if i % 300 == 11 {
                many(&mut r, &mut ms[0]);
            }
            if i % 100 == 13 {
                // no argument of a program can hold this
                if let Some(x) = ms[0].mods.last_mut() {
                    x.ns = (*r.pick(&["\0", "a\0b", "x\0"])).into();
                }
            }
            c.callers = vec![ms];
            let k = r.below(4);
            let hard = r.chance(700);
            c.faults = random_faults(&mut r, &c, k, hard);
            match r.below(12) {
                0 => c.env.disk_quota = Some(r.range(0, 60_000) as usize),
                1 => c.env.fd_limit = Some(r.range(1, 14) as usize),
                2 => c.env.missing = vec!["wasm-merge".into()],
                3 => c.env.missing = vec!["wasm-merge".into(), "bash".into(), "sh".into()],
                4 => c.env.tmpdir_missing = true,
                5 => c.env.tmpdir_readonly = true,
                6 => c.env.tmpdir = tmpdir(&mut r, true),
                _ => {}
            }
            if c.env.tmpdir_missing {
                c.env.tmpdir = Some(b"/no/such/dir".to_vec());
            }
        }
        "C03" => {
            c.kind = "request".into();
            let big = r.chance(100);
            let n = if r.chance(850) { 1 } else { r.range(2, 3) };
            let mut ms = vec![];
            for k in 0..n {
                let f = good_fate(&mut r, false);
                let mut m = merge(&mut r, f, 450, big);
                if i < 23 && k == 0 {
                    m.flags = 1 << i;
                }
                if (23..46).contains(&i) && k == 0 {
                    m.flags = ((1 << 23) - 1) & !(1 << (i - 23));
                }
                ms.push(m);
            }
            if i % 400 == 7 {
                if let Some(x) = ms[0].mods.first_mut() {
                    x.len = *r.pick(&[1_048_576, 1_048_577, 1_114_112, 2_097_152, 3_145_728, 4_200_000]);
                }
            }
            if i % 300 == 11 {
                many(&mut r, &mut ms[0]);
            }
            related(&mut r, &mut ms);
            if i % 90 == 17 {
                // no argument of a program can hold this: to be refused, not rewritten
                if let Some(x) = ms[0].mods.last_mut() {
                    x.ns = (*r.pick(&["\0", "a\0b", "x\0", "\0y", "input\0"])).into();
                }
            }
            c.callers = vec![ms];
            let odd = r.chance(500);
            c.env.tmpdir = tmpdir(&mut r, odd);
            if r.chance(400) {
                let k = r.range(1, 4);
                c.faults = random_faults(&mut r, &c, k, false);
            }
        }
        "C04" => {
            if i % 128 == 0 {
                c.kind = "base".into();
                let fail = r.chance(300);
                let f = if fail { bad_fate(&mut r, false) } else { good_fate(&mut r, false) };
                let mut m = merge(&mut r, f, 0, false);
                m.mods.truncate(3);
                c.callers = vec![vec![m]];
                c.env.io_chunk = 0;
                chunk_guard(&mut c);
                return (c, Box::new(enumerate_single_faults));
            }
            c.kind = "random-faults".into();
            let nc = if r.chance(750) { 1 } else { 2 };
            let mut cs = vec![];
            for _ in 0..nc {
                let n = r.range(1, 3);
                let mut ms = vec![];
                for _ in 0..n {
                    let f = if r.chance(400) { bad_fate(&mut r, false) } else { good_fate(&mut r, false) };
                    ms.push(merge(&mut r, f, 50, false));
                }
                cs.push(ms);
            }
            if i % 300 == 11 {
                many(&mut r, &mut cs[0][0]);
            }
            c.callers = cs;
            let k = r.below(5);
            let hard = r.chance(700);
            c.faults = random_faults(&mut r, &c, k, hard);
            c.env.foreign = r.below(8) as usize;
            match r.below(12) {
                0 => c.env.disk_quota = Some(r.range(0, 60_000) as usize),
                1 => c.env.fd_limit = Some(r.range(1, 14) as usize),
                2 => c.env.missing = vec!["wasm-merge".into()],
                3 | 4 => c.env.tmpdir = tmpdir(&mut r, true),
                5 => c.env.tmpdir_readonly = true,
                _ => {}
            }
        }
        "C05" => {
            let shape = r.below(10);
            let nc = match shape {
                0..=6 => r.range(2, 4),
                _ => r.range(1, 2),
            };
            c.kind = if shape <= 6 { "concurrent".into() } else if shape == 7 { "repeated".into() } else { "after-crash".into() };
            c.env.preempt = *r.pick(&[100, 300, 600, 900]);
            c.env.same_rng = r.chance(500);
            if i % 200 == 9 || i % 200 == 10 {
                // a long history, or a crowd
                let crowd = i % 200 == 10;
                c.kind = if crowd { "crowd".into() } else { "long-history".into() };
                let nc = if crowd { r.range(8, 24) } else { 1 };
                let n = if crowd { r.range(1, 2) } else { *r.pick(&[17u64, 33, 65, 101, 130, 257, 260]) };
                c.env.io_chunk = 0;
                c.env.pipe_cap = 65_536;
                c.callers = (0..nc)
                    .map(|_| {
                        (0..n)
                            .map(|_| {
                                let f = if r.chance(100) { bad_fate(&mut r, false) } else { good_fate(&mut r, false) };
                                let mut m = merge(&mut r, f, 20, false);
                                m.mods.truncate(2);
                                for x in m.mods.iter_mut().chain(m.primary.iter_mut()) {
                                    x.len = x.len.min(200);
                                }
                                m.fate.out_size = m.fate.out_size.min(300);
                                m.fate.stdout = m.fate.stdout.min(300);
                                m.fate.err.len = m.fate.err.len.min(300);
                                m.fate.linger = 0;
                                m
                            })
                            .collect()
                    })
                    .collect();
                return (c, no_subs());
            }
            // few distinct requests, so that mixing them up is easy to do and to see
            let same_request = r.chance(400);
            let proto = {
                let f = good_fate(&mut r, false);
                merge(&mut r, f, 20, false)
            };
            let mut cs = vec![];
            for _ in 0..nc {
                let n = if shape == 7 { r.range(2, 6) } else { r.range(1, 3) };
                let mut ms = vec![];
                for _ in 0..n {
                    let f = if r.chance(250) { bad_fate(&mut r, false) } else { good_fate(&mut r, false) };
                    let mut m = if same_request || r.chance(300) { proto.clone() } else { merge(&mut r, f.clone(), 20, false) };
                    m.fate = f;
                    if r.chance(700) {
                        for x in m.mods.iter_mut().chain(m.primary.iter_mut()) {
                            x.seed = r.next() >> 12;
                        }
                    }
                    ms.push(m);
                }
                cs.push(ms);
            }
            c.callers = cs;
            if r.chance(400) {
                let k = r.range(1, 3);
                let hard = r.chance(500);
                c.faults = random_faults(&mut r, &c, k, hard);
            }
            if shape >= 8 {
                let n = r.range(1, 2);
                let mut b = vec![];
                for k in 0..n as usize {
                    let f = good_fate(&mut r, false);
                    let mut m = if r.chance(500) { c.callers[k.min(c.callers.len() - 1)][0].clone() } else { merge(&mut r, f.clone(), 0, false) };
                    m.fate = f;
                    m.fate.delay = if r.chance(600) { r.below(50_000_000) } else { 0 };
                    b.push(vec![m]);
                }
                c.before = Some(Before { callers: b, at_point: r.range(1, 60), kill_children: r.chance(400) });
            }
        }
        "C06" => {
            c.kind = "progress".into();
            let n = if r.chance(850) { 1 } else { 2 };
            let mut ms = vec![];
            for _ in 0..n {
                let mut f = if r.chance(300) { bad_fate(&mut r, true) } else { good_fate(&mut r, true) };
                match r.below(6) {
                    0 => f.delay = *r.pick(&[1_000_000_000, 31_000_000_000, 61_000_000_000, 301_000_000_000, 3_601_000_000_000]),
                    1 => {
                        f.stdout = *r.pick(&[65_537, 131_072, 300_000]);
                        f.err = if r.chance(600) { Text { kind: 5, len: *r.pick(&[65_537, 131_072, 300_000]) } } else { Text::default() };
                    }
                    2 => {
                        f.err = Text { kind: r.below(16) as u8, len: *r.pick(&[65_536, 65_537, 150_000]) };
                        f.exit = r.below(2) as i32;
                    }
                    3 => {
                        f.stdout = r.range(1, 3000) as usize;
                        f.err = Text { kind: 0, len: r.range(1, 3000) as usize };
                    }
                    4 => f.linger = *r.pick(&[1_000_000, 1_000_000_000, 120_000_000_000, 3_600_000_000_000]),
                    _ => {}
                }
                ms.push(merge(&mut r, f, 0, false));
            }
            c.callers = vec![ms];
            if i % 200 == 5 {
                // more than anybody would want to hold
                let f = &mut c.callers[0][0].fate;
                f.stdout = if r.chance(600) { *r.pick(&[1_048_577, 4_194_305, 9_000_000]) } else { 0 };
                if f.stdout == 0 || r.chance(400) {
                    f.err = Text { kind: 5, len: *r.pick(&[1_048_577, 4_194_305]) };
                }
                f.chunk = f.chunk.max(2000);
            }
            c.env.pipe_cap = *r.pick(&[65_536, 4096, 512, 64, 16]);
            if r.chance(600) {
                let k = r.range(1, 8);
                c.faults = random_faults(&mut r, &c, k, false);
            }
        }
        _ => return wasp::cases(prop, tier, seed, i),
    }
    chunk_guard(&mut c);
    (c, no_subs())
}

pub fn nontrivial(prop: &str, case: &Case, r: &RunResult) -> bool {
    let has = |s: &str| r.interesting.iter().any(|x| x == s);
    match prop {
        "C01" => has("tool_started"),
        "C02" => has("fault") || has("tool-failure"),
        "C03" => has("tool_started") && case.callers.iter().flatten().any(|m| m.flags != 0 || m.mods.len() + usize::from(m.primary.is_some()) > 0),
        "C04" => has("fault") || has("tool-failure") || has("name_taken") || has("tool_started"),
        "C05" => has("interleaved") || has("process_crash") || case.callers.iter().any(|c| c.len() > 1),
        "C06" => has("tool_started") && (has("fault") || has("pipe_full") || has("tool_lingers") || case.callers.iter().flatten().any(|m| m.fate.delay > 0 || m.fate.stdout > 0 || m.fate.err.len > 0)),
        _ => wasp::nontrivial(prop, case, r),
    }
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "cases: requests x tool fates (finishes, dies or fails silently at a chosen step) x transient/hard OS faults x schedules, drawn from the seed, plus the tool dying at each of its first 24 steps in four ways for sampled requests; non-trivial: the tool was started; distinct: by hash of the whole event log and results",
        "C02" => "cases: for sampled requests every system call the merge made x every error or transient that call can return, one at a time, plus random combinations of faults, full disks, descriptor limits, missing programs and directories, and failing tools; non-trivial: at least one fault fired or the tool failed; distinct: by hash of the event log and results",
        "C03" => "cases: every single option and its complement, then random option sets x module lists x odd namespaces and temporary directories x transient faults; non-trivial: the tool was started with modules or options; distinct: by hash of the event log",
        "C04" => "cases: single-fault enumeration over every system call plus random multi-fault runs with foreign files, taken names, full disks and limits; non-trivial: a fault fired, the tool failed or the tool was started; distinct: by hash of the event log",
        "C05" => "cases: 2-4 threads of 1-3 merges, sequences of merges, and merges after a process was killed at a chosen scheduling point (tool left running or killed with it), under a seeded scheduler; non-trivial: threads were interleaved, a merge preceded another, or a crash happened; distinct: by hash of the event log",
        "C06" => "cases: slow, lingering and talkative tools x pipe capacities x transient faults x schedules; non-trivial: the tool was started and delayed, wrote to a stream, filled a pipe, or a transient fired; distinct: by hash of the event log",
        _ => wasp::rule(prop),
    }
}

// ---------------------------------------------------------------- shrinking

pub fn shrinks(c: &Case) -> Vec<Case> {
    if c.wasp.is_some() {
        return wasp::shrinks(c);
    }
    let mut v: Vec<Case> = vec![];
    let mut push = |f: &dyn Fn(&mut Case)| {
        let mut n = c.clone();
        n.tape = None;
        f(&mut n);
        if n != *c {
            v.push(n);
        }
    };
    if c.before.is_some() {
        push(&|n| n.before = None);
        push(&|n| n.before.as_mut().unwrap().kill_children = true);
        for k in 0..c.before.as_ref().unwrap().callers.len() {
            push(&|n| {
                n.before.as_mut().unwrap().callers.remove(k);
                if n.before.as_ref().unwrap().callers.is_empty() {
                    n.before = None;
                }
            });
        }
        for d in [8u64, 1] {
            push(&|n| {
                let b = n.before.as_mut().unwrap();
                b.at_point = b.at_point.saturating_sub(d).max(1);
            });
        }
    }
    if c.callers.len() > 1 {
        for k in 0..c.callers.len() {
            push(&|n| {
                n.callers.remove(k);
                n.roles.clear();
                n.faults.retain(|f| f.caller != k);
                for f in &mut n.faults {
                    if f.caller > k {
                        f.caller -= 1;
                    }
                }
            });
        }
    }
    for (a, ms) in c.callers.iter().enumerate() {
        if ms.len() > 8 {
            for from in [0, ms.len() / 2] {
                let gone = from..from + ms.len() / 2;
                push(&|n| {
                    n.callers[a].drain(gone.clone());
                    n.roles.clear();
                    n.faults.retain(|f| f.caller != a);
                });
            }
        }
        for (u, m) in ms.iter().enumerate().filter(|(_, m)| m.mods.len() > 8) {
            for from in [0, m.mods.len() / 2] {
                let gone = from..from + m.mods.len() / 2;
                push(&|n| {
                    n.callers[a][u].mods.drain(gone.clone());
                    n.roles.clear();
                });
            }
        }
        if ms.len() > 1 {
            for k in 0..ms.len() {
                push(&|n| {
                    n.callers[a].remove(k);
                    n.roles.clear();
                    n.faults.retain(|f| !(f.caller == a && f.unit == k));
                    for f in &mut n.faults {
                        if f.caller == a && f.unit > k {
                            f.unit -= 1;
                        }
                    }
                });
            }
        }
    }
    for k in 0..c.faults.len() {
        push(&|n| {
            n.faults.remove(k);
        });
    }
    for k in 0..c.faults.len() {
        let (kind, val) = c.faults[k].effect.split_once(':').unwrap();
        if matches!(kind, "eintr" | "taken") && val != "1" {
            let kind = kind.to_string();
            push(&|n| n.faults[k].effect = format!("{kind}:1"));
        }
    }
    // environment
    let d = Env::default();
    push(&|n| {
        let t = n.env.tmpdir.clone();
        let p = n.env.preempt;
        n.env = Env { tmpdir: t, preempt: p, ..Env::default() };
    });
    push(&|n| n.env.tmpdir = Some(b"/tmp".to_vec()));
    push(&|n| n.env.preempt = 0);
    push(&|n| n.env.pipe_cap = d.pipe_cap);
    push(&|n| n.env.fd_limit = None);
    push(&|n| n.env.disk_quota = None);
    push(&|n| n.env.same_rng = false);
    push(&|n| n.env.io_chunk = 0);
    push(&|n| n.env.clock_jumps = false);
    push(&|n| n.env.foreign = 0);
    push(&|n| n.env.missing = vec![]);
    for (a, ms) in c.callers.iter().enumerate() {
        for (u, m) in ms.iter().enumerate() {
            if m.primary.is_some() {
                push(&|n| {
                    n.callers[a][u].primary = None;
                    n.roles.clear();
                });
            }
            for k in 0..m.mods.len() {
                push(&|n| {
                    n.callers[a][u].mods.remove(k);
                    n.roles.clear();
                });
            }
            push(&|n| n.callers[a][u].flags = 0);
            for b in 0..23 {
                if m.flags & (1 << b) != 0 && m.flags != 1 << b {
                    push(&|n| n.callers[a][u].flags = 1 << b);
                }
            }
            let simple = Fate { out_size: 28, ..Fate::default() };
            push(&|n| n.callers[a][u].fate = simple.clone());
            push(&|n| {
                let f = &mut n.callers[a][u].fate;
                *f = Fate { out_style: f.out_style, exit: f.exit, signal: f.signal, at: f.at, err: f.err.clone(), out_size: f.out_size, no_output: f.no_output, ..Fate::default() };
            });
            push(&|n| n.callers[a][u].fate.out_size = 28);
            push(&|n| n.callers[a][u].fate.out_size /= 2);
            push(&|n| n.callers[a][u].fate.out_style = 0);
            push(&|n| n.callers[a][u].fate.stdout = 0);
            push(&|n| n.callers[a][u].fate.stdout /= 2);
            push(&|n| n.callers[a][u].fate.err = Text::default());
            push(&|n| n.callers[a][u].fate.err.len /= 2);
            push(&|n| n.callers[a][u].fate.err.kind = 0);
            push(&|n| n.callers[a][u].fate.delay = 0);
            push(&|n| n.callers[a][u].fate.linger = 0);
            push(&|n| n.callers[a][u].fate.at /= 2);
            push(&|n| n.callers[a][u].fate.chunk = 0);
            push(&|n| n.callers[a][u].fate.reorder = 0);
            let nm = m.mods.len() + usize::from(m.primary.is_some());
            for k in 0..nm {
                let get = |n: &mut Case| -> *mut Module {
                    let m = &mut n.callers[a][u];
                    match (&mut m.primary, k) {
                        (Some(p), 0) => p as *mut Module,
                        (Some(_), k) => &mut m.mods[k - 1] as *mut Module,
                        (None, k) => &mut m.mods[k] as *mut Module,
                    }
                };
                push(&|n| unsafe { (*get(n)).len = 0 });
                push(&|n| unsafe { (*get(n)).len /= 2 });
                push(&|n| unsafe { (*get(n)).len = (*get(n)).len.saturating_sub(1) });
                push(&|n| unsafe { (*get(n)).style = 0 });
                push(&|n| unsafe { (*get(n)).ns = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j"][k % 10].into() });
                push(&|n| unsafe {
                    let s = (*get(n)).ns.clone();
                    (*get(n)).ns = s.chars().take(s.chars().count() / 2).collect();
                });
            }
        }
    }
    v
}
