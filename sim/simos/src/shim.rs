//! libc entry points, taken over for simulated threads.

use crate::progs;
use crate::world::*;
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, pid_t, size_t, ssize_t};
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, Ordering};

// ---------------------------------------------------------------- the real thing

#[inline(always)]
pub fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}

fn errno_set(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

fn cret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        errno_set(-r as i32);
        -1
    } else {
        r
    }
}

fn fail(e: i32) -> c_int {
    errno_set(e);
    -1
}

pub fn raw_futex_wait(addr: usize, val: u32) {
    raw(libc::SYS_futex, addr, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, val as usize, 0, 0, 0);
}
pub fn raw_futex_wake(addr: usize, n: u32) {
    raw(libc::SYS_futex, addr, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, n as usize, 0, 0, 0);
}

macro_rules! real {
    ($name:literal, fn($($t:ty),*) -> $r:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Ordering::Relaxed);
        if p == 0 {
            p = unsafe { libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr().cast()) } as usize;
            P.store(p, Ordering::Relaxed);
        }
        assert!(p != 0, concat!("no real ", $name));
        unsafe { std::mem::transmute::<usize, unsafe extern "C" fn($($t),*) -> $r>(p) }
    }};
}

fn bytes(p: *const c_char) -> Bytes {
    if p.is_null() {
        return vec![];
    }
    unsafe { CStr::from_ptr(p) }.to_bytes().to_vec()
}

fn strv(p: *const *const c_char) -> Vec<Bytes> {
    let mut v = vec![];
    if p.is_null() {
        return v;
    }
    let mut i = 0;
    unsafe {
        while !(*p.add(i)).is_null() {
            v.push(bytes(*p.add(i)));
            i += 1;
        }
    }
    v
}

fn is_sim_fd(fd: c_int) -> bool {
    fd >= FD_BASE || ((0..=1).contains(&fd) && STDIO.load(Ordering::Relaxed) != 0)
}

fn io_seen(w: &mut World, me: usize) {
    let k = w.root(me);
    *w.other_io.entry(k).or_insert(0) += 1;
}

// ---------------------------------------------------------------- open / close

fn sim_open(me: usize, path: Bytes, flags: c_int, mode: u32) -> c_int {
    let _k = Kernel::enter();
    let w = world();
    io_seen(w, me);
    w.point(me);
    let cwd = w.cfg.cwd.clone();
    let full = norm(&cwd, &path);
    let creating = flags & libc::O_CREAT != 0;
    let there = w.paths.get(&full).map(|i| w.inodes[*i].kind.clone());
    let site = if (flags & libc::O_DIRECTORY != 0 && flags & libc::O_TMPFILE != libc::O_TMPFILE) || there == Some(INodeKind::Dir) {
        Site::OpenDir
    } else if creating && (flags & libc::O_EXCL != 0 || there.is_none()) {
        Site::OpenCreate
    } else if full.starts_with(b"/dev/") {
        Site::OpenDev
    } else {
        Site::OpenExisting
    };
    match w.fault(me, site, w.paths.get(&full).copied()) {
        Some(Effect::Errno(e)) => return fail(e),
        Some(Effect::Eintr(_)) => return fail(libc::EINTR),
        Some(Effect::NameTaken(_)) => {
            let own_dir = w.creates.iter().any(|c| c.path == parent(&full));
            if !own_dir && !w.paths.contains_key(&full) && w.check_new(&full).is_ok() {
                let data = format!("somebody else's file {}", w.foreign.len()).into_bytes();
                w.add_foreign(&full, data);
                w.probe("name_taken");
            }
        }
        _ => {}
    }
    if flags & libc::O_TMPFILE == libc::O_TMPFILE {
        return fail(libc::EOPNOTSUPP);
    }
    let (caller, unit) = w.root(me);
    let existing = w.lookup(&cwd, &path);
    let ino = match existing {
        Ok(i) => {
            if creating && flags & libc::O_EXCL != 0 {
                w.ev(format!("open {} -> EEXIST", w.name_of(i)));
                return fail(libc::EEXIST);
            }
            if w.inodes[i].kind == INodeKind::Dir && flags & libc::O_ACCMODE != libc::O_RDONLY {
                return fail(libc::EISDIR);
            }
            if flags & libc::O_DIRECTORY != 0 && w.inodes[i].kind != INodeKind::Dir {
                return fail(libc::ENOTDIR);
            }
            if creating && w.inodes[i].creator == Creator::Foreign {
                w.probe("foreign_file_opened");
            }
            i
        }
        Err(libc::ENOENT) if creating => {
            if path.is_empty() {
                return fail(libc::ENOENT);
            }
            let index = *w.created.get(&(caller, unit)).unwrap_or(&0);
            match w.create(&full, mode & 0o7777, Creator::Unit { caller, unit, index }, flags & libc::O_EXCL != 0) {
                Ok(i) => {
                    w.created.insert((caller, unit), index + 1);
                    let nth = w.counts.get(&(caller, unit, Site::OpenCreate)).map_or(0, |c| c - 1);
                    w.creates.push(Create { caller, unit, nth, path: full.clone(), ino: i });
                    i
                }
                Err(e) => {
                    w.natural(me, site, e);
                    return fail(e);
                }
            }
        }
        Err(e) => {
            w.natural(me, site, e);
            return fail(e);
        }
    };
    let kind = if w.inodes[ino].kind == INodeKind::Dir { OKind::Dir(ino) } else { OKind::File(ino) };
    let ofd = w.new_ofd(kind, flags);
    match w.new_fd(me, ofd, flags & libc::O_CLOEXEC != 0) {
        Ok(fd) => {
            if flags & libc::O_TRUNC != 0 && flags & libc::O_ACCMODE != libc::O_RDONLY {
                w.inodes[ino].data.clear();
            }
            let n = w.name_of(ino);
            w.ev(format!("t{me} open {n}{} -> {fd}", if creating { " (create)" } else { "" }));
            fd
        }
        Err(e) => {
            if creating && existing.is_err() {
                let _ = w.unlink(&full);
            }
            w.natural(me, site, e);
            fail(e)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match sim_tid() {
        Some(t) => sim_open(t, bytes(path), flags, mode),
        None => cret(raw(libc::SYS_openat, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: mode_t) -> c_int {
    open64(path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}

fn at_path(w: &World, dirfd: c_int, path: Bytes) -> Result<Bytes, i32> {
    if path.starts_with(b"/") || dirfd == libc::AT_FDCWD {
        return Ok(path);
    }
    let e = w.fds.get(&dirfd).ok_or(libc::EBADF)?;
    match w.ofds[e.ofd].kind {
        OKind::Dir(i) => {
            let d = w.paths.iter().find(|(_, x)| **x == i).map(|(p, _)| p.clone()).ok_or(libc::ENOENT)?;
            let mut r = d;
            r.push(b'/');
            r.extend_from_slice(&path);
            Ok(r)
        }
        _ => Err(libc::ENOTDIR),
    }
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match sim_tid() {
        Some(t) => {
            let p = {
                let _k = Kernel::enter();
                at_path(world(), dirfd, bytes(path))
            };
            match p {
                Ok(p) => sim_open(t, p, flags, mode),
                Err(e) => fail(e),
            }
        }
        None => cret(raw(libc::SYS_openat, dirfd as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat64(dirfd, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    match sim_tid() {
        Some(t) if is_sim_fd(fd) => {
            let _k = Kernel::enter();
            let w = world();
            w.point(t);
            let dir = w.fds.get(&fd).is_some_and(|e| matches!(w.ofds[e.ofd].kind, OKind::Dir(_)));
            let eff = if dir { None } else { w.fault(t, Site::Close, None) };
            w.ev(format!("t{t} close {fd}"));
            if !w.close_fd(fd) {
                w.misdeed(t, format!("close of a descriptor that is not open ({fd})"));
                return fail(libc::EBADF);
            }
            match eff {
                Some(Effect::Errno(e)) => fail(e),
                Some(Effect::Eintr(_)) => fail(libc::EINTR),
                _ => 0,
            }
        }
        Some(_) if fd >= 0 && fd <= 2 => 0,
        _ => cret(raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int,
    }
}

impl World {
    pub fn misdeed(&mut self, me: usize, s: String) {
        let (c, u) = self.root(me);
        self.misdeeds.push((c, u, s));
    }
    fn unsup(&mut self, s: &str) {
        if !self.unsupported.iter().any(|x| x == s) {
            self.unsupported.push(s.to_string());
        }
    }
}

// ---------------------------------------------------------------- read / write

fn sim_read(me: usize, fd: c_int, out: &mut [u8], at: Option<usize>) -> isize {
    let _k = Kernel::enter();
    let w = world();
    io_seen(w, me);
    w.point(me);
    let Some(e) = w.fds.get(&fd).cloned() else { return fail(libc::EBADF) as isize };
    let kind = w.ofds[e.ofd].kind.clone();
    let (site, file) = match kind {
        OKind::File(i) if w.inodes[i].kind == INodeKind::File => (Site::Read, Some(i)),
        OKind::PipeR(_) => (Site::PipeRead, None),
        _ => (Site::OpenDev, None),
    };
    let mut max = out.len();
    if site != Site::OpenDev {
        match w.fault(me, site, file) {
            Some(Effect::Errno(e)) => return fail(e) as isize,
            Some(Effect::Eintr(_)) => return fail(libc::EINTR) as isize,
            Some(Effect::Short(n)) => max = max.min(n.max(1)),
            _ => {}
        }
    }
    match kind {
        OKind::File(i) => match w.inodes[i].kind {
            INodeKind::Null => 0,
            INodeKind::Random => {
                for b in out.iter_mut() {
                    *b = w.threads[me].rng.next() as u8;
                }
                out.len() as isize
            }
            _ => {
                if w.ofds[e.ofd].flags & libc::O_ACCMODE == libc::O_WRONLY {
                    return fail(libc::EBADF) as isize;
                }
                if w.cfg.io_chunk > 0 {
                    max = max.min(w.cfg.io_chunk);
                }
                let pos = at.unwrap_or(w.ofds[e.ofd].pos);
                let data = &w.inodes[i].data;
                let n = max.min(data.len().saturating_sub(pos));
                out[..n].copy_from_slice(&data[pos.min(data.len())..pos.min(data.len()) + n]);
                if at.is_none() {
                    w.ofds[e.ofd].pos += n;
                }
                let nm = w.name_of(i);
                w.ev(format!("t{me} read {nm} @{pos} -> {n}"));
                n as isize
            }
        },
        OKind::PipeR(p) => {
            loop {
                if !w.pipes[p].buf.is_empty() || w.pipes[p].writers == 0 {
                    break;
                }
                if w.ofds[e.ofd].nonblock {
                    return fail(libc::EAGAIN) as isize;
                }
                w.block(me, Cond::PipeReadable(p), None);
            }
            let n = max.min(w.pipes[p].buf.len());
            for (k, b) in w.pipes[p].buf.drain(..n).enumerate() {
                out[k] = b;
            }
            w.ev(format!("t{me} pipe read -> {n}"));
            n as isize
        }
        OKind::Dir(_) => fail(libc::EISDIR) as isize,
        _ => fail(libc::EBADF) as isize,
    }
}

fn sim_write(me: usize, fd: c_int, data: &[u8], at: Option<usize>) -> isize {
    let _k = Kernel::enter();
    let w = world();
    io_seen(w, me);
    w.point(me);
    let Some(e) = w.fds.get(&fd).cloned() else { return fail(libc::EBADF) as isize };
    let kind = w.ofds[e.ofd].kind.clone();
    let (site, file) = match kind {
        OKind::File(i) if w.inodes[i].kind == INodeKind::File => (Site::Write, Some(i)),
        OKind::PipeW(_) => (Site::PipeWrite, None),
        _ => (Site::OpenDev, None),
    };
    let mut max = data.len();
    if site != Site::OpenDev {
        match w.fault(me, site, file) {
            Some(Effect::Errno(e)) => return fail(e) as isize,
            Some(Effect::Eintr(_)) => return fail(libc::EINTR) as isize,
            Some(Effect::Short(n)) => max = max.min(n.max(1)),
            _ => {}
        }
    }
    match kind {
        OKind::File(i) if w.inodes[i].kind == INodeKind::File => {
            if w.ofds[e.ofd].flags & libc::O_ACCMODE == libc::O_RDONLY {
                return fail(libc::EBADF) as isize;
            }
            if w.cfg.io_chunk > 0 {
                max = max.min(w.cfg.io_chunk);
            }
            let append = w.ofds[e.ofd].flags & libc::O_APPEND != 0;
            let pos = at.unwrap_or(if append { w.inodes[i].data.len() } else { w.ofds[e.ofd].pos });
            match w.file_write(i, pos, &data[..max]) {
                Ok(n) => {
                    if at.is_none() {
                        w.ofds[e.ofd].pos = pos + n;
                    }
                    let nm = w.name_of(i);
                    w.ev(format!("t{me} write {nm} @{pos} {} -> {n}", data.len()));
                    n as isize
                }
                Err(er) => {
                    let (caller, unit) = w.root(me);
                    w.fired.push(Fired { caller, unit, site: Site::Write, nth: u32::MAX, effect: Effect::Errno(er), file: match w.inodes[i].creator { Creator::Unit { index, .. } => Some(index), _ => None } });
                    w.ev(format!("t{me} write -> disk full"));
                    fail(er) as isize
                }
            }
        }
        OKind::File(_) => data.len() as isize,
        OKind::PipeW(p) => {
            let mut done = 0;
            loop {
                if w.pipes[p].readers == 0 {
                    return if done > 0 { done as isize } else { fail(libc::EPIPE) as isize };
                }
                let room = w.pipes[p].cap - w.pipes[p].buf.len();
                let n = room.min(max - done);
                w.pipes[p].buf.extend(&data[done..done + n]);
                done += n;
                if done == max {
                    return done as isize;
                }
                if w.ofds[e.ofd].nonblock {
                    return if done > 0 { done as isize } else { fail(libc::EAGAIN) as isize };
                }
                w.block(me, Cond::PipeWritable(p), None);
            }
        }
        _ => fail(libc::EBADF) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    match sim_tid() {
        Some(t) if is_sim_fd(fd) => sim_read(t, fd, std::slice::from_raw_parts_mut(buf.cast(), n), None),
        Some(_) if fd == 0 => 0,
        _ => cret(raw(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    match sim_tid() {
        Some(t) if is_sim_fd(fd) => sim_write(t, fd, std::slice::from_raw_parts(buf.cast(), n), None),
        Some(_) if fd == 1 || fd == 2 => {
            let _k = Kernel::enter();
            let w = world();
            w.stdout_noise += n;
            if fd == 2 && w.stderr.len() < 1 << 16 {
                w.stderr.extend_from_slice(std::slice::from_raw_parts(buf.cast(), n));
            }
            n as ssize_t
        }
        _ => cret(raw(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    match sim_tid() {
        Some(t) if is_sim_fd(fd) => sim_read(t, fd, std::slice::from_raw_parts_mut(buf.cast(), n), Some(off as usize)),
        _ => cret(raw(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    match sim_tid() {
        Some(t) if is_sim_fd(fd) => sim_write(t, fd, std::slice::from_raw_parts(buf.cast(), n), Some(off as usize)),
        _ => cret(raw(libc::SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if sim_tid().is_some() && is_sim_fd(fd) {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    cret(raw(libc::SYS_readv, fd as usize, iov as usize, n as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if sim_tid().is_some() && (is_sim_fd(fd) || (0..=2).contains(&fd)) {
        let mut all: Vec<u8> = vec![];
        for i in 0..n as usize {
            let v = &*iov.add(i);
            all.extend_from_slice(std::slice::from_raw_parts(v.iov_base.cast::<u8>(), v.iov_len));
        }
        return write(fd, all.as_ptr().cast(), all.len());
    }
    cret(raw(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    match sim_tid() {
        Some(t) if is_sim_fd(fd) => {
            let _k = Kernel::enter();
            let w = world();
            io_seen(w, t);
            if let Some(Effect::Errno(e)) = w.fault(t, Site::Seek, None) {
                return fail(e).into();
            }
            let Some(e) = w.fds.get(&fd) else { return fail(libc::EBADF).into() };
            let o = e.ofd;
            let OKind::File(i) = w.ofds[o].kind else { return fail(libc::ESPIPE).into() };
            let base = match whence {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => w.ofds[o].pos as i64,
                libc::SEEK_END => w.inodes[i].data.len() as i64,
                _ => return fail(libc::EINVAL).into(),
            };
            if base + off < 0 {
                return fail(libc::EINVAL).into();
            }
            w.ofds[o].pos = (base + off) as usize;
            base + off
        }
        _ => cret(raw(libc::SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0)) as off64_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    match sim_tid() {
        Some(t) if is_sim_fd(fd) => {
            let _k = Kernel::enter();
            let w = world();
            io_seen(w, t);
            w.point(t);
            let Some(e) = w.fds.get(&fd) else { return fail(libc::EBADF) };
            if let OKind::File(i) = w.ofds[e.ofd].kind {
                w.inodes[i].data.resize(len as usize, 0);
                return 0;
            }
            fail(libc::EINVAL)
        }
        _ => cret(raw(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}

fn sync_like(fd: c_int, nr: c_long) -> c_int {
    match sim_tid() {
        Some(t) if is_sim_fd(fd) => {
            let _k = Kernel::enter();
            let w = world();
            io_seen(w, t);
            w.point(t);
            match w.fault(t, Site::Sync, None) {
                Some(Effect::Errno(e)) => fail(e),
                Some(Effect::Eintr(_)) => fail(libc::EINTR),
                _ => 0,
            }
        }
        _ => cret(raw(nr, fd as usize, 0, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync_like(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync_like(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if sim_tid().is_some() && is_sim_fd(fd) {
        return 0;
    }
    cret(raw(libc::SYS_flock, fd as usize, op as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, e: size_t, f: c_uint) -> ssize_t {
    if sim_tid().is_some() && (is_sim_fd(a) || is_sim_fd(c)) {
        return fail(libc::ENOSYS) as ssize_t;
    }
    cret(raw(libc::SYS_copy_file_range, a as usize, b as usize, c as usize, d as usize, e, f as usize))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, c: *mut off64_t, d: size_t) -> ssize_t {
    if sim_tid().is_some() && (is_sim_fd(a) || is_sim_fd(b)) {
        return fail(libc::ENOSYS) as ssize_t;
    }
    cret(raw(libc::SYS_sendfile, a as usize, b as usize, c as usize, d, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, e: size_t, f: c_uint) -> ssize_t {
    if sim_tid().is_some() && (is_sim_fd(a) || is_sim_fd(c)) {
        return fail(libc::EINVAL) as ssize_t;
    }
    cret(raw(libc::SYS_splice, a as usize, b as usize, c as usize, d as usize, e, f as usize))
}

// ---------------------------------------------------------------- fcntl, ioctl, dup, pipe, poll

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    match sim_tid() {
        Some(t) if is_sim_fd(fd) => {
            let _k = Kernel::enter();
            let w = world();
            let Some(e) = w.fds.get(&fd).cloned() else { return fail(libc::EBADF) };
            match cmd {
                libc::F_GETFD => if e.cloexec { libc::FD_CLOEXEC } else { 0 },
                libc::F_SETFD => {
                    w.fds.get_mut(&fd).unwrap().cloexec = arg as c_int & libc::FD_CLOEXEC != 0;
                    0
                }
                libc::F_GETFL => w.ofds[e.ofd].flags & !libc::O_CLOEXEC | if w.ofds[e.ofd].nonblock { libc::O_NONBLOCK } else { 0 },
                libc::F_SETFL => {
                    w.ofds[e.ofd].nonblock = arg as c_int & libc::O_NONBLOCK != 0;
                    0
                }
                libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
                    io_seen(w, t);
                    w.point(t);
                    match w.new_fd(t, e.ofd, cmd == libc::F_DUPFD_CLOEXEC) {
                        Ok(f) => f,
                        Err(e) => fail(e),
                    }
                }
                libc::F_SETPIPE_SZ | libc::F_GETPIPE_SZ => w.cfg.pipe_cap as c_int,
                libc::F_SETLK | libc::F_SETLKW | libc::F_OFD_SETLK | libc::F_OFD_SETLKW => 0,
                _ => {
                    w.unsup("fcntl");
                    fail(libc::EINVAL)
                }
            }
        }
        _ => cret(raw(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    match sim_tid() {
        Some(_) if is_sim_fd(fd) => {
            let _k = Kernel::enter();
            let w = world();
            let Some(e) = w.fds.get(&fd).cloned() else { return fail(libc::EBADF) };
            match req {
                libc::FIONBIO => {
                    w.ofds[e.ofd].nonblock = *(arg as *const c_int) != 0;
                    0
                }
                libc::FIOCLEX => {
                    w.fds.get_mut(&fd).unwrap().cloexec = true;
                    0
                }
                libc::FIONREAD => {
                    let n = match w.ofds[e.ofd].kind {
                        OKind::PipeR(p) => w.pipes[p].buf.len(),
                        OKind::File(i) => w.inodes[i].data.len().saturating_sub(w.ofds[e.ofd].pos),
                        _ => 0,
                    };
                    *(arg as *mut c_int) = n as c_int;
                    0
                }
                _ => fail(libc::ENOTTY),
            }
        }
        _ => cret(raw(libc::SYS_ioctl, fd as usize, req as usize, arg, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    match sim_tid() {
        Some(_) => {
            fail(libc::ENOTTY);
            0
        }
        None => (real!("isatty", fn(c_int) -> c_int))(fd),
    }
}
/// The simulated process ends here and now.
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if sim_tid().is_some() && STDIO.load(Ordering::Relaxed) != 0 {
        let _k = Kernel::enter();
        let w = world();
        w.ev(format!("exit {code}"));
        w.exit_code = Some(code);
        w.finish(End::Completed);
    }
    (real!("exit", fn(c_int) -> ()))(code);
    std::process::abort()
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if sim_tid().is_some() && is_sim_fd(fd) {
        return fcntl(fd, libc::F_DUPFD, 0);
    }
    cret(raw(libc::SYS_dup, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    match sim_tid() {
        Some(t) => {
            let _k = Kernel::enter();
            let w = world();
            io_seen(w, t);
            w.point(t);
            if let Some(Effect::Errno(e)) = w.fault(t, Site::Pipe, None) {
                return fail(e);
            }
            let cap = w.cfg.pipe_cap;
            w.pipes.push(PipeBuf { buf: Default::default(), cap, readers: 0, writers: 0 });
            let p = w.pipes.len() - 1;
            let r = w.new_ofd(OKind::PipeR(p), flags);
            let a = match w.new_fd(t, r, flags & libc::O_CLOEXEC != 0) {
                Ok(a) => a,
                Err(e) => {
                    w.natural(t, Site::Pipe, e);
                    return fail(e);
                }
            };
            let wr = w.new_ofd(OKind::PipeW(p), flags);
            let b = match w.new_fd(t, wr, flags & libc::O_CLOEXEC != 0) {
                Ok(b) => b,
                Err(e) => {
                    w.close_fd(a);
                    w.natural(t, Site::Pipe, e);
                    return fail(e);
                }
            };
            w.ev(format!("t{t} pipe -> {a},{b}"));
            *fds = a;
            *fds.add(1) = b;
            0
        }
        None => cret(raw(libc::SYS_pipe2, fds as usize, flags as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pipe(fds: *mut c_int) -> c_int {
    pipe2(fds, 0)
}

unsafe fn sim_poll(t: usize, p: *mut libc::pollfd, n: usize, timeout_ns: Option<u64>) -> c_int {
    let _k = Kernel::enter();
    let w = world();
    w.point(t);
    match w.fault(t, Site::Poll, None) {
        Some(Effect::Errno(e)) => return fail(e),
        Some(Effect::Eintr(_)) => return fail(libc::EINTR),
        _ => {}
    }
    let list: Vec<(i32, i16)> = (0..n).map(|i| ((*p.add(i)).fd, (*p.add(i)).events)).filter(|x| is_sim_fd(x.0)).collect();
    let deadline = timeout_ns.map(|x| w.now + x);
    let ready = list.iter().any(|(f, e)| w.poll_revents(*f, *e) != 0);
    if !ready && timeout_ns != Some(0) && !list.is_empty() {
        w.block(t, Cond::Poll(list), deadline);
    }
    let mut count = 0;
    for i in 0..n {
        let e = &mut *p.add(i);
        e.revents = if !is_sim_fd(e.fd) { 0 } else { w.poll_revents(e.fd, e.events) };
        if e.revents != 0 {
            count += 1;
        }
    }
    w.ev(format!("t{t} poll -> {count}"));
    count
}

#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    match sim_tid() {
        Some(t) => sim_poll(t, p, n as usize, if timeout < 0 { None } else { Some(timeout as u64 * 1_000_000) }),
        None => cret(raw(libc::SYS_poll, p as usize, n as usize, timeout as usize, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ppoll(p: *mut libc::pollfd, n: libc::nfds_t, ts: *const libc::timespec, mask: *const c_void) -> c_int {
    match sim_tid() {
        Some(t) => sim_poll(t, p, n as usize, if ts.is_null() { None } else { Some(ns(ts)) }),
        None => cret(raw(libc::SYS_ppoll, p as usize, n as usize, ts as usize, mask as usize, 8, 0)) as c_int,
    }
}

unsafe fn ns(ts: *const libc::timespec) -> u64 {
    ((*ts).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64)
}

// ---------------------------------------------------------------- stat & friends

fn sim_stat(t: usize, ino: Result<usize, i32>) -> Result<(usize, u32, u64), i32> {
    let w = world();
    if let Some(Effect::Errno(e)) = w.fault(t, Site::Stat, ino.ok()) {
        return Err(e);
    }
    let i = ino?;
    let n = &w.inodes[i];
    let ty = match n.kind {
        INodeKind::Dir => libc::S_IFDIR,
        INodeKind::File => libc::S_IFREG,
        _ => libc::S_IFCHR,
    };
    Ok((i, ty | n.mode, n.data.len() as u64))
}

fn fd_ino(fd: c_int) -> Result<usize, i32> {
    let w = world();
    let e = w.fds.get(&fd).ok_or(libc::EBADF)?;
    match w.ofds[e.ofd].kind {
        OKind::File(i) | OKind::Dir(i) => Ok(i),
        _ => Err(-1),
    }
}

unsafe fn fill_stat(b: *mut libc::stat64, r: Result<(usize, u32, u64), i32>) -> c_int {
    match r {
        Ok((i, mode, size)) => {
            std::ptr::write_bytes(b, 0, 1);
            (*b).st_mode = mode;
            (*b).st_size = size as i64;
            (*b).st_ino = i as u64 + 1;
            (*b).st_dev = 77;
            (*b).st_nlink = u64::from(world().inodes[i].nlink);
            (*b).st_blksize = 4096;
            0
        }
        Err(-1) => {
            std::ptr::write_bytes(b, 0, 1);
            (*b).st_mode = libc::S_IFIFO | 0o600;
            0
        }
        Err(e) => fail(e),
    }
}

fn path_ino(dirfd: c_int, p: Bytes) -> Result<usize, i32> {
    let w = world();
    let p = at_path(w, dirfd, p)?;
    let cwd = w.cfg.cwd.clone();
    w.lookup(&cwd, &p)
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut libc::stat64) -> c_int {
    match sim_tid() {
        Some(t) if is_sim_fd(fd) => {
            let _k = Kernel::enter();
            fill_stat(b, sim_stat(t, fd_ino(fd)))
        }
        _ => cret(raw(libc::SYS_fstat, fd as usize, b as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, b: *mut libc::stat64) -> c_int {
    fstat64(fd, b)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    match sim_tid() {
        Some(t) => {
            let _k = Kernel::enter();
            io_seen(world(), t);
            world().point(t);
            fill_stat(b, sim_stat(t, path_ino(libc::AT_FDCWD, bytes(p))))
        }
        _ => cret(raw(libc::SYS_stat, p as usize, b as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, b: *mut libc::stat64) -> c_int {
    stat64(p, b)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    stat64(p, b)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, b: *mut libc::stat64) -> c_int {
    stat64(p, b)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, b: *mut libc::stat64, f: c_int) -> c_int {
    match sim_tid() {
        Some(t) => {
            let _k = Kernel::enter();
            io_seen(world(), t);
            fill_stat(b, sim_stat(t, path_ino(d, bytes(p))))
        }
        _ => cret(raw(libc::SYS_newfstatat, d as usize, p as usize, b as usize, f as usize, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, f: c_int, m: c_uint, b: *mut libc::statx) -> c_int {
    match sim_tid() {
        Some(t) => {
            let _k = Kernel::enter();
            let r = if p.is_null() || *p == 0 {
                if !is_sim_fd(d) {
                    if p.is_null() {
                        return fail(libc::EFAULT);
                    }
                    Err(-1)
                } else {
                    fd_ino(d)
                }
            } else {
                io_seen(world(), t);
                world().point(t);
                path_ino(d, bytes(p))
            };
            let r = if r == Err(-1) { Err(-1) } else { sim_stat(t, r) };
            match r {
                Ok((i, mode, size)) => {
                    std::ptr::write_bytes(b, 0, 1);
                    (*b).stx_mask = 0x7ff;
                    (*b).stx_mode = mode as u16;
                    (*b).stx_size = size;
                    (*b).stx_ino = i as u64 + 1;
                    (*b).stx_nlink = world().inodes[i].nlink;
                    (*b).stx_blksize = 4096;
                    0
                }
                Err(-1) => {
                    std::ptr::write_bytes(b, 0, 1);
                    (*b).stx_mask = 0x7ff;
                    (*b).stx_mode = (libc::S_IFIFO | 0o600) as u16;
                    0
                }
                Err(e) => fail(e),
            }
        }
        None => cret(raw(libc::SYS_statx, d as usize, p as usize, f as usize, m as usize, b as usize, 0)) as c_int,
    }
}

fn sim_access(t: usize, d: c_int, p: Bytes) -> c_int {
    let _k = Kernel::enter();
    io_seen(world(), t);
    world().point(t);
    match path_ino(d, p) {
        Ok(_) => 0,
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    match sim_tid() {
        Some(t) => sim_access(t, libc::AT_FDCWD, bytes(p)),
        None => cret(raw(libc::SYS_access, p as usize, m as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, f: c_int) -> c_int {
    match sim_tid() {
        Some(t) => sim_access(t, d, bytes(p)),
        None => cret(raw(libc::SYS_faccessat, d as usize, p as usize, m as usize, f as usize, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    match sim_tid() {
        Some(t) => {
            let _k = Kernel::enter();
            let w = world();
            io_seen(w, t);
            let cwd = w.cfg.cwd.clone();
            match w.lookup(&cwd, &bytes(p)) {
                Ok(_) => {
                    let full = norm(&cwd, &bytes(p));
                    let dst = if out.is_null() { libc::malloc(full.len() + 1).cast::<c_char>() } else { out };
                    std::ptr::copy_nonoverlapping(full.as_ptr().cast(), dst, full.len());
                    *dst.add(full.len()) = 0;
                    dst
                }
                Err(e) => {
                    fail(e);
                    std::ptr::null_mut()
                }
            }
        }
        None => (real!("realpath", fn(*const c_char, *mut c_char) -> *mut c_char))(p, out),
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    match sim_tid() {
        Some(_) => fail(libc::EINVAL) as ssize_t,
        None => cret(raw(libc::SYS_readlink, p as usize, b as usize, n, 0, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    match sim_tid() {
        Some(_) => {
            let _k = Kernel::enter();
            let c = world().cfg.cwd.clone();
            if c.len() + 1 > n {
                fail(libc::ERANGE);
                return std::ptr::null_mut();
            }
            std::ptr::copy_nonoverlapping(c.as_ptr().cast(), b, c.len());
            *b.add(c.len()) = 0;
            b
        }
        None => (real!("getcwd", fn(*mut c_char, size_t) -> *mut c_char))(b, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    match sim_tid() {
        Some(t) => {
            let _k = Kernel::enter();
            let w = world();
            w.misdeed(t, "changed the working directory of the whole process".into());
            let cwd = w.cfg.cwd.clone();
            match w.lookup(&cwd, &bytes(p)) {
                Ok(_) => {
                    w.cfg.cwd = norm(&cwd, &bytes(p));
                    0
                }
                Err(e) => fail(e),
            }
        }
        None => cret(raw(libc::SYS_chdir, p as usize, 0, 0, 0, 0, 0)) as c_int,
    }
}

// ---------------------------------------------------------------- names

fn sim_unlink(t: usize, d: c_int, p: Bytes, dir: bool) -> c_int {
    let _k = Kernel::enter();
    let w = world();
    io_seen(w, t);
    w.point(t);
    let p = match at_path(w, d, p) {
        Ok(p) => p,
        Err(e) => return fail(e),
    };
    let full = norm(&w.cfg.cwd.clone(), &p);
    let Some(ino) = w.paths.get(&full).copied() else { return fail(libc::ENOENT) };
    if let Some(Effect::Errno(e)) = w.fault(t, Site::Unlink, Some(ino)) {
        w.inodes[ino].unlink_failed = true;
        return fail(e);
    }
    let nm = w.name_of(ino);
    w.ev(format!("t{t} unlink {nm}"));
    if dir {
        if w.inodes[ino].kind != INodeKind::Dir {
            return fail(libc::ENOTDIR);
        }
        if w.paths.keys().any(|k| k.len() > full.len() && k.starts_with(&full) && k[full.len()] == b'/') {
            return fail(libc::ENOTEMPTY);
        }
        w.paths.remove(&full);
        w.inodes[ino].nlink = 0;
        return 0;
    }
    match &w.inodes[ino].creator {
        Creator::Foreign | Creator::Pre => {
            let s = format!("removed a file it did not create ({})", String::from_utf8_lossy(&full));
            w.misdeed(t, s);
        }
        Creator::Unit { caller, unit, .. } => {
            let (c, u) = w.root(t);
            let (caller, unit) = (*caller, *unit);
            if (caller, unit) != (c, u) {
                w.misdeed(t, format!("merge {c}.{u} removed a temporary file of merge {caller}.{unit}"));
            }
        }
        Creator::Proc(_) => {}
    }
    match w.unlink(&full) {
        Ok(()) => 0,
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    match sim_tid() {
        Some(t) => sim_unlink(t, libc::AT_FDCWD, bytes(p), false),
        None => cret(raw(libc::SYS_unlink, p as usize, 0, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    match sim_tid() {
        Some(t) => sim_unlink(t, d, bytes(p), f & libc::AT_REMOVEDIR != 0),
        None => cret(raw(libc::SYS_unlinkat, d as usize, p as usize, f as usize, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    match sim_tid() {
        Some(t) => sim_unlink(t, libc::AT_FDCWD, bytes(p), true),
        None => cret(raw(libc::SYS_rmdir, p as usize, 0, 0, 0, 0, 0)) as c_int,
    }
}
fn sim_mkdir(t: usize, d: c_int, p: Bytes, mode: u32) -> c_int {
    let _k = Kernel::enter();
    let w = world();
    io_seen(w, t);
    w.point(t);
    let p = match at_path(w, d, p) {
        Ok(p) => p,
        Err(e) => return fail(e),
    };
    let full = norm(&w.cfg.cwd.clone(), &p);
    match w.fault(t, Site::Mkdir, None) {
        Some(Effect::Errno(e)) => return fail(e),
        Some(Effect::Eintr(_)) => return fail(libc::EINTR),
        _ => {}
    }
    if w.paths.contains_key(&full) {
        return fail(libc::EEXIST);
    }
    let (caller, unit) = w.root(t);
    let index = *w.created.get(&(caller, unit)).unwrap_or(&0);
    match w.create(&full, mode & 0o7777, Creator::Unit { caller, unit, index }, true) {
        Ok(i) => {
            w.inodes[i].kind = INodeKind::Dir;
            w.created.insert((caller, unit), index + 1);
            w.creates.push(Create { caller, unit, nth: u32::MAX, path: full.clone(), ino: i });
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    match sim_tid() {
        Some(t) => sim_mkdir(t, libc::AT_FDCWD, bytes(p), mode),
        None => cret(raw(libc::SYS_mkdir, p as usize, mode as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, p: *const c_char, mode: mode_t) -> c_int {
    match sim_tid() {
        Some(t) => sim_mkdir(t, d, bytes(p), mode),
        None => cret(raw(libc::SYS_mkdirat, d as usize, p as usize, mode as usize, 0, 0, 0)) as c_int,
    }
}
fn sim_rename(t: usize, a: Bytes, b: Bytes, noreplace: bool) -> c_int {
    let _k = Kernel::enter();
    let w = world();
    io_seen(w, t);
    w.point(t);
    let cwd = w.cfg.cwd.clone();
    let (a, b) = (norm(&cwd, &a), norm(&cwd, &b));
    match w.fault(t, Site::Rename, None) {
        Some(Effect::Errno(e)) => return fail(e),
        _ => {}
    }
    let Some(i) = w.paths.get(&a).copied() else { return fail(libc::ENOENT) };
    if let Err(e) = w.check_new(&b) {
        return fail(e);
    }
    if let Some(j) = w.paths.get(&b).copied() {
        if noreplace {
            return fail(libc::EEXIST);
        }
        if w.inodes[j].creator == Creator::Foreign {
            w.misdeed(t, "replaced a file it did not create".into());
        }
        w.inodes[j].nlink -= 1;
    }
    w.paths.remove(&a);
    w.paths.insert(b, i);
    0
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match sim_tid() {
        Some(t) => sim_rename(t, bytes(a), bytes(b), false),
        None => cret(raw(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(ad: c_int, a: *const c_char, bd: c_int, b: *const c_char, f: c_uint) -> c_int {
    match sim_tid() {
        Some(t) => {
            let (x, y) = {
                let _k = Kernel::enter();
                (at_path(world(), ad, bytes(a)), at_path(world(), bd, bytes(b)))
            };
            match (x, y) {
                (Ok(x), Ok(y)) => sim_rename(t, x, y, f & 1 != 0),
                _ => fail(libc::EBADF),
            }
        }
        None => cret(raw(libc::SYS_renameat2, ad as usize, a as usize, bd as usize, b as usize, f as usize, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat(ad: c_int, a: *const c_char, bd: c_int, b: *const c_char) -> c_int {
    renameat2(ad, a, bd, b, 0)
}
fn set_mode(ino: Result<usize, i32>, m: mode_t) -> c_int {
    match ino {
        Ok(i) => {
            world().inodes[i].mode = m & 0o7777;
            0
        }
        Err(e) => fail(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    match sim_tid() {
        Some(t) => {
            let _k = Kernel::enter();
            io_seen(world(), t);
            set_mode(path_ino(libc::AT_FDCWD, bytes(p)), m)
        }
        None => cret(raw(libc::SYS_chmod, p as usize, m as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    match sim_tid() {
        Some(_) if is_sim_fd(fd) => {
            let _k = Kernel::enter();
            set_mode(fd_ino(fd), m)
        }
        _ => cret(raw(libc::SYS_fchmod, fd as usize, m as usize, 0, 0, 0, 0)) as c_int,
    }
}

// ---------------------------------------------------------------- directories

struct SimDir {
    fd: c_int,
    names: Vec<(Bytes, u8)>,
    pos: usize,
    ent: libc::dirent64,
}
const DIR_MAGIC: u64 = 0x5349_4d44_4952_0001;
#[repr(C)]
struct DirBox {
    magic: u64,
    d: SimDir,
}

fn list_dir(w: &World, ino: usize) -> Vec<(Bytes, u8)> {
    let Some(d) = w.paths.iter().find(|(_, x)| **x == ino).map(|(p, _)| p.clone()) else { return vec![] };
    let mut v = vec![(b".".to_vec(), libc::DT_DIR), (b"..".to_vec(), libc::DT_DIR)];
    for (p, i) in &w.paths {
        if p.len() > 1 && parent(p) == d {
            let n = p[p.iter().rposition(|b| *b == b'/').unwrap() + 1..].to_vec();
            v.push((n, if w.inodes[*i].kind == INodeKind::Dir { libc::DT_DIR } else { libc::DT_REG }));
        }
    }
    v
}

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    match sim_tid() {
        Some(_) => {
            let fd = open64(p, libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC, 0);
            if fd < 0 {
                return std::ptr::null_mut();
            }
            fdopendir(fd)
        }
        None => (real!("opendir", fn(*const c_char) -> *mut c_void))(p),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    if sim_tid().is_some() && is_sim_fd(fd) {
        let _k = Kernel::enter();
        let names = match fd_ino(fd) {
            Ok(i) => list_dir(world(), i),
            Err(_) => {
                fail(libc::ENOTDIR);
                return std::ptr::null_mut();
            }
        };
        return Box::into_raw(Box::new(DirBox { magic: DIR_MAGIC, d: SimDir { fd, names, pos: 0, ent: std::mem::zeroed() } })).cast();
    }
    (real!("fdopendir", fn(c_int) -> *mut c_void))(fd)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    if sim_tid().is_some() && *(d as *const u64) == DIR_MAGIC {
        let d = &mut (*(d as *mut DirBox)).d;
        if d.pos >= d.names.len() {
            return std::ptr::null_mut();
        }
        let (n, ty) = d.names[d.pos].clone();
        d.pos += 1;
        d.ent = std::mem::zeroed();
        d.ent.d_ino = d.pos as u64;
        d.ent.d_type = ty;
        d.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
        for (k, b) in n.iter().take(255).enumerate() {
            d.ent.d_name[k] = *b as c_char;
        }
        return &mut d.ent;
    }
    (real!("readdir64", fn(*mut c_void) -> *mut libc::dirent64))(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    if sim_tid().is_some() && *(d as *const u64) == DIR_MAGIC {
        let b = Box::from_raw(d as *mut DirBox);
        return close(b.d.fd);
    }
    (real!("closedir", fn(*mut c_void) -> c_int))(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    if sim_tid().is_some() && *(d as *const u64) == DIR_MAGIC {
        return (*(d as *mut DirBox)).d.fd;
    }
    (real!("dirfd", fn(*mut c_void) -> c_int))(d)
}

// ---------------------------------------------------------------- processes

#[derive(Clone, Debug)]
enum Action {
    Dup2(c_int, c_int),
    Close(c_int),
    Open(c_int, Bytes, c_int, u32),
    Chdir(Bytes),
}
const FA_MAGIC: u64 = 0x5349_4d46_4143_5401;
#[repr(C)]
struct Fa {
    magic: u64,
    list: *mut Vec<Action>,
}

unsafe fn fa(p: *const c_void) -> Option<&'static mut Vec<Action>> {
    let f = p as *const Fa;
    if sim_tid().is_some() && !p.is_null() && (*f).magic == FA_MAGIC {
        Some(&mut *(*f).list)
    } else {
        None
    }
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_init(p: *mut c_void) -> c_int {
    if sim_tid().is_some() {
        let f = p as *mut Fa;
        (*f).magic = FA_MAGIC;
        (*f).list = Box::into_raw(Box::default());
        return 0;
    }
    (real!("posix_spawn_file_actions_init", fn(*mut c_void) -> c_int))(p)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(p: *mut c_void) -> c_int {
    if fa(p).is_some() {
        let f = p as *mut Fa;
        drop(Box::from_raw((*f).list));
        (*f).magic = 0;
        return 0;
    }
    (real!("posix_spawn_file_actions_destroy", fn(*mut c_void) -> c_int))(p)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(p: *mut c_void, a: c_int, b: c_int) -> c_int {
    if let Some(l) = fa(p) {
        l.push(Action::Dup2(a, b));
        return 0;
    }
    (real!("posix_spawn_file_actions_adddup2", fn(*mut c_void, c_int, c_int) -> c_int))(p, a, b)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addclose(p: *mut c_void, a: c_int) -> c_int {
    if let Some(l) = fa(p) {
        l.push(Action::Close(a));
        return 0;
    }
    (real!("posix_spawn_file_actions_addclose", fn(*mut c_void, c_int) -> c_int))(p, a)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addopen(p: *mut c_void, a: c_int, path: *const c_char, fl: c_int, m: mode_t) -> c_int {
    if let Some(l) = fa(p) {
        l.push(Action::Open(a, bytes(path), fl, m));
        return 0;
    }
    (real!("posix_spawn_file_actions_addopen", fn(*mut c_void, c_int, *const c_char, c_int, mode_t) -> c_int))(p, a, path, fl, m)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(p: *mut c_void, path: *const c_char) -> c_int {
    if let Some(l) = fa(p) {
        l.push(Action::Chdir(bytes(path)));
        return 0;
    }
    (real!("posix_spawn_file_actions_addchdir_np", fn(*mut c_void, *const c_char) -> c_int))(p, path)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir(p: *mut c_void, path: *const c_char) -> c_int {
    posix_spawn_file_actions_addchdir_np(p, path)
}

unsafe fn sim_spawn(t: usize, pid: *mut pid_t, file: Bytes, acts: *const c_void, argv: *const *const c_char, envp: *const *const c_char, search: bool) -> c_int {
    let acts: Vec<Action> = fa(acts).map(|v| v.clone()).unwrap_or_default();
    let _k = Kernel::enter();
    let w = world();
    io_seen(w, t);
    w.point(t);
    if let Some(Effect::Errno(e)) = w.fault(t, Site::Spawn, None) {
        return e;
    }
    let argv = strv(argv);
    let env = strv(envp);
    let _ = search;
    let prog = match progs::lookup(w, &file) {
        Ok(p) => p,
        Err(e) => {
            w.natural(t, Site::Spawn, e);
            return e;
        }
    };
    // the child's descriptor table: what is not close-on-exec, then the file actions
    let mut table: BTreeMap<i32, usize> = BTreeMap::new();
    let null = w.paths[&b"/dev/null".to_vec()];
    let nul = w.new_ofd(OKind::File(null), libc::O_RDWR);
    for i in 0..3 {
        table.insert(i, nul); // the harness's own standard streams
    }
    for (fd, e) in &w.fds {
        if !e.cloexec {
            table.insert(*fd, e.ofd);
        }
    }
    let mut cwd = w.cfg.cwd.clone();
    for a in acts {
        match a {
            Action::Dup2(a, b) => {
                let o = match w.fds.get(&a).map(|e| e.ofd).or_else(|| table.get(&a).copied()) {
                    Some(o) => o,
                    None => return libc::EBADF,
                };
                table.insert(b, o);
            }
            Action::Close(a) => {
                table.remove(&a);
            }
            Action::Open(fd, path, fl, mode) => {
                let full = norm(&cwd, &path);
                let ino = match w.lookup(&cwd, &path) {
                    Ok(i) => i,
                    Err(libc::ENOENT) if fl & libc::O_CREAT != 0 => match w.create(&full, mode, Creator::Proc(0), false) {
                        Ok(i) => i,
                        Err(e) => return e,
                    },
                    Err(e) => return e,
                };
                if fl & libc::O_TRUNC != 0 {
                    w.inodes[ino].data.clear();
                }
                let o = w.new_ofd(OKind::File(ino), fl);
                table.insert(fd, o);
            }
            Action::Chdir(p) => cwd = norm(&cwd, &p),
        }
    }
    let p = w.spawn(t, argv, env, table, cwd, prog);
    w.ev(format!("t{t} spawn {}", String::from_utf8_lossy(&file)));
    *pid = p;
    0
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(pid: *mut pid_t, file: *const c_char, fa_: *const c_void, attr: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    match sim_tid() {
        Some(t) => sim_spawn(t, pid, bytes(file), fa_, argv, envp, true),
        None => (real!("posix_spawnp", fn(*mut pid_t, *const c_char, *const c_void, *const c_void, *const *const c_char, *const *const c_char) -> c_int))(pid, file, fa_, attr, argv, envp),
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn(pid: *mut pid_t, file: *const c_char, fa_: *const c_void, attr: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    match sim_tid() {
        Some(t) => sim_spawn(t, pid, bytes(file), fa_, argv, envp, false),
        None => (real!("posix_spawn", fn(*mut pid_t, *const c_char, *const c_void, *const c_void, *const *const c_char, *const *const c_char) -> c_int))(pid, file, fa_, attr, argv, envp),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> pid_t {
    match sim_tid() {
        Some(_) => {
            let _k = Kernel::enter();
            world().unsup("fork");
            fail(libc::ENOSYS)
        }
        None => (real!("fork", fn() -> pid_t))(),
    }
}

fn try_reap(w: &mut World, root: usize, pid: pid_t, keep: bool) -> Result<Option<(pid_t, i32)>, i32> {
    if pid > 0 {
        let p = w.procs.get_mut(&pid).ok_or(libc::ECHILD)?;
        match p.state {
            PState::Running => Ok(None),
            PState::Zombie(s) => {
                if !keep {
                    p.state = PState::Reaped(s);
                }
                Ok(Some((pid, s)))
            }
            PState::Reaped(_) => Err(libc::ECHILD),
        }
    } else {
        // any child of the process, whoever of its threads started it
        let _ = root;
        let mut some = false;
        for p in w.procs.values_mut() {
            if p.orphan {
                continue;
            }
            match p.state {
                PState::Zombie(s) => {
                    if !keep {
                        p.state = PState::Reaped(s);
                    }
                    return Ok(Some((p.pid, s)));
                }
                PState::Running => some = true,
                PState::Reaped(_) => {}
            }
        }
        if some {
            Ok(None)
        } else {
            Err(libc::ECHILD)
        }
    }
}

fn sim_wait(t: usize, pid: pid_t, opts: c_int, keep: bool) -> Result<Option<(pid_t, i32)>, i32> {
    let w = world();
    w.point(t);
    // a wait that does not block is not interrupted
    if opts & libc::WNOHANG == 0 {
        match w.fault(t, Site::Wait, None) {
            Some(Effect::Errno(e)) => return Err(e),
            Some(Effect::Eintr(_)) => return Err(libc::EINTR),
            _ => {}
        }
    }
    let root = w.root(t).0;
    loop {
        match try_reap(w, root, pid, keep)? {
            Some(r) => {
                w.ev(format!("t{t} wait -> {:#x}", r.1));
                return Ok(Some(r));
            }
            None if opts & libc::WNOHANG != 0 => return Ok(None),
            None => {
                let c = if pid > 0 { Cond::Child(pid) } else { Cond::AnyChild(root) };
                w.block(t, c, None);
            }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: pid_t, st: *mut c_int, opts: c_int) -> pid_t {
    match sim_tid() {
        Some(t) => {
            let _k = Kernel::enter();
            match sim_wait(t, pid, opts, false) {
                Ok(Some((p, s))) => {
                    if !st.is_null() {
                        *st = s;
                    }
                    p
                }
                Ok(None) => 0,
                Err(e) => fail(e),
            }
        }
        None => cret(raw(libc::SYS_wait4, pid as usize, st as usize, opts as usize, 0, 0, 0)) as pid_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn wait4(pid: pid_t, st: *mut c_int, opts: c_int, ru: *mut c_void) -> pid_t {
    if sim_tid().is_some() {
        return waitpid(pid, st, opts);
    }
    cret(raw(libc::SYS_wait4, pid as usize, st as usize, opts as usize, ru as usize, 0, 0)) as pid_t
}
#[no_mangle]
pub unsafe extern "C" fn waitid(ty: libc::idtype_t, id: libc::id_t, info: *mut libc::siginfo_t, opts: c_int) -> c_int {
    match sim_tid() {
        Some(t) => {
            let _k = Kernel::enter();
            let pid = match ty {
                libc::P_PID => id as pid_t,
                libc::P_ALL => -1,
                _ => {
                    let w = world();
                    match w.fds.get(&(id as i32)).map(|e| w.ofds[e.ofd].kind.clone()) {
                        Some(OKind::PidFd(p)) => p,
                        _ => return fail(libc::EBADF),
                    }
                }
            };
            match sim_wait(t, pid, opts, opts & libc::WNOWAIT != 0) {
                Ok(Some((p, s))) => {
                    if !info.is_null() {
                        std::ptr::write_bytes(info, 0, 1);
                        (*info).si_signo = libc::SIGCHLD;
                        let base = info.cast::<c_int>();
                        (*info).si_code = if s & 0x7f == 0 { libc::CLD_EXITED } else { libc::CLD_KILLED };
                        *base.add(4) = p;
                        *base.add(6) = if s & 0x7f == 0 { s >> 8 } else { s & 0x7f };
                    }
                    0
                }
                Ok(None) => {
                    if !info.is_null() {
                        std::ptr::write_bytes(info, 0, 1);
                    }
                    0
                }
                Err(e) => fail(e),
            }
        }
        None => cret(raw(libc::SYS_waitid, ty as usize, id as usize, info as usize, opts as usize, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn kill(pid: pid_t, sig: c_int) -> c_int {
    match sim_tid() {
        Some(t) => {
            let _k = Kernel::enter();
            let w = world();
            w.point(t);
            match w.procs.get_mut(&pid.abs()) {
                Some(p) if !matches!(p.state, PState::Reaped(_)) => {
                    if sig != 0 && p.state == PState::Running {
                        p.killed_by_parent = true;
                        w.misdeed(t, format!("sent signal {sig} to the tool while it was running"));
                        w.end_proc(pid.abs(), sig);
                    }
                    0
                }
                _ => {
                    if sig != 0 {
                        w.misdeed(t, format!("sent signal {sig} to a process that is not its child"));
                    }
                    fail(libc::ESRCH)
                }
            }
        }
        None => cret(raw(libc::SYS_kill, pid as usize, sig as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn killpg(pid: pid_t, sig: c_int) -> c_int {
    kill(-pid, sig)
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    match sim_tid() {
        Some(_) => OWN_PID,
        None => raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as pid_t,
    }
}

// ---------------------------------------------------------------- environment, time, randomness

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    if sim_tid().is_some() {
        let _k = Kernel::enter();
        let w = world();
        let n = bytes(name);
        let v = if n == b"TMPDIR" {
            w.cfg.tmpdir.clone()
        } else {
            w.cfg.env.iter().find(|(k, _)| *k == n).map(|(_, v)| v.clone())
        };
        if let Some(mut v) = v {
            v.push(0);
            return Box::leak(v.into_boxed_slice()).as_mut_ptr().cast();
        }
        if n == b"TMPDIR" || n == b"RUST_BACKTRACE" || n == b"RUST_LIB_BACKTRACE" {
            return std::ptr::null_mut();
        }
        if n == b"PATH" {
            return c"/usr/bin:/bin".as_ptr().cast_mut();
        }
        if w.cfg.env_noise && n != b"RUST_MIN_STACK" {
            return c"1".as_ptr().cast_mut();
        }
        return std::ptr::null_mut();
    }
    (real!("getenv", fn(*const c_char) -> *mut c_char))(name)
}

const BOOT: u64 = 1_000_000_000_000; // monotonic origin
const EPOCH: u64 = 1_760_000_000_000_000_000;

fn sim_clock(t: usize, id: libc::clockid_t) -> u64 {
    let w = world();
    w.now += 37;
    match id {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => {
            let mut v = EPOCH + w.now;
            if w.cfg.realtime_jumps {
                let k = w.threads[t].rng.below(4);
                v = v.wrapping_sub(k * 3_600_000_000_000);
                w.probe("clock_jump");
            }
            v
        }
        _ => BOOT + w.now,
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    match sim_tid() {
        Some(t) => {
            let _k = Kernel::enter();
            let v = sim_clock(t, id);
            (*ts).tv_sec = (v / 1_000_000_000) as i64;
            (*ts).tv_nsec = (v % 1_000_000_000) as i64;
            0
        }
        None => cret(raw(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    match sim_tid() {
        Some(t) => {
            let _k = Kernel::enter();
            let v = sim_clock(t, libc::CLOCK_REALTIME);
            (*tv).tv_sec = (v / 1_000_000_000) as i64;
            (*tv).tv_usec = ((v % 1_000_000_000) / 1000) as i64;
            0
        }
        None => cret(raw(libc::SYS_gettimeofday, tv as usize, tz as usize, 0, 0, 0, 0)) as c_int,
    }
}
fn sim_sleep(t: usize, d: u64) {
    let _k = Kernel::enter();
    let w = world();
    w.point(t);
    w.ev(format!("t{t} sleep {d}ns"));
    let dl = w.now + d;
    w.block(t, Cond::Sleep, Some(dl));
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    match sim_tid() {
        Some(t) => {
            sim_sleep(t, ns(a));
            0
        }
        None => cret(raw(libc::SYS_nanosleep, a as usize, b as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, fl: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    match sim_tid() {
        Some(t) => {
            let mut d = ns(a);
            if fl & libc::TIMER_ABSTIME != 0 {
                d = d.saturating_sub(BOOT + world().now);
            }
            sim_sleep(t, d);
            0
        }
        None => -raw(libc::SYS_clock_nanosleep, id as usize, fl as usize, a as usize, b as usize, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    match sim_tid() {
        Some(t) => {
            sim_sleep(t, u64::from(us) * 1000);
            0
        }
        None => {
            let ts = libc::timespec { tv_sec: i64::from(us / 1_000_000), tv_nsec: i64::from(us % 1_000_000) * 1000 };
            nanosleep(&ts, std::ptr::null_mut())
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    match sim_tid() {
        Some(t) => {
            let _k = Kernel::enter();
            let w = world();
            w.threads[t].hog += 50;
            w.point(t);
            0
        }
        None => cret(raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    match sim_tid() {
        Some(t) => {
            let _k = Kernel::enter();
            let w = world();
            for i in 0..n {
                *b.cast::<u8>().add(i) = w.threads[t].rng.next() as u8;
            }
            n as ssize_t
        }
        None => cret(raw(libc::SYS_getrandom, b as usize, n, fl as usize, 0, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: pid_t, n: size_t, set: *mut c_void) -> c_int {
    match sim_tid() {
        Some(_) => {
            std::ptr::write_bytes(set.cast::<u8>(), 0, n);
            *set.cast::<u8>() = 0x0f; // four processors
            0
        }
        None => {
            let r = cret(raw(libc::SYS_sched_getaffinity, pid as usize, n, set as usize, 0, 0, 0));
            if r >= 0 {
                std::ptr::write_bytes(set.cast::<u8>().add(r as usize), 0, n - r as usize);
                0
            } else {
                -1
            }
        }
    }
}

// ---------------------------------------------------------------- futex, threads

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let Some(t) = sim_tid() else { return cret(raw(n, a, b, c, d, e, f)) as c_long };
    match n {
        libc::SYS_futex => {
            let _k = Kernel::enter();
            let w = world();
            let op = b as c_int & 0x7f;
            match op {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    w.point(t);
                    let cur = std::sync::atomic::AtomicU32::from_ptr(a as *mut u32).load(Ordering::SeqCst);
                    if cur != c as u32 {
                        return fail(libc::EAGAIN) as c_long;
                    }
                    let deadline = if d == 0 {
                        None
                    } else {
                        let v = ns(d as *const libc::timespec);
                        Some(if op == libc::FUTEX_WAIT {
                            w.now + v
                        } else if b as c_int & libc::FUTEX_CLOCK_REALTIME != 0 {
                            v.saturating_sub(EPOCH).max(w.now)
                        } else {
                            v.saturating_sub(BOOT).max(w.now)
                        })
                    };
                    if w.block(t, Cond::Futex(a), deadline) {
                        0
                    } else {
                        fail(libc::ETIMEDOUT) as c_long
                    }
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                    let mut k = 0;
                    let mut waiting: Vec<usize> = (0..w.threads.len()).filter(|i| w.threads[*i].cond == Cond::Futex(a)).collect();
                    let start = if waiting.len() > 1 { w.threads[t].rng.below(waiting.len() as u64) as usize } else { 0 };
                    waiting.rotate_left(start);
                    for i in waiting {
                        if k < c as c_int as i64 {
                            w.threads[i].cond = Cond::Woken;
                            k += 1;
                        }
                    }
                    let r = raw(n, a, b, c, d, e, f);
                    w.point(t);
                    (k + r.max(0) as i64) as c_long
                }
                _ => {
                    w.unsup("futex op");
                    cret(raw(n, a, b, c, d, e, f)) as c_long
                }
            }
        }
        libc::SYS_getrandom => getrandom(a as *mut c_void, b, c as c_uint) as c_long,
        libc::SYS_statx => statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long,
        libc::SYS_gettid => 90_000 + t as c_long,
        libc::SYS_pidfd_open => {
            let _k = Kernel::enter();
            let w = world();
            let o = w.new_ofd(OKind::PidFd(a as i32), 0);
            match w.new_fd(t, o, true) {
                Ok(f) => f as c_long,
                Err(e) => fail(e) as c_long,
            }
        }
        libc::SYS_pidfd_send_signal => {
            let pid = {
                let _k = Kernel::enter();
                let w = world();
                match w.fds.get(&(a as i32)).map(|e| w.ofds[e.ofd].kind.clone()) {
                    Some(OKind::PidFd(p)) => p,
                    _ => return fail(libc::EBADF) as c_long,
                }
            };
            kill(pid, b as c_int) as c_long
        }
        libc::SYS_copy_file_range | libc::SYS_clone3 | libc::SYS_memfd_create | libc::SYS_close_range => fail(libc::ENOSYS) as c_long,
        _ => {
            {
                let _k = Kernel::enter();
                world().unsup(&format!("syscall {n}"));
            }
            fail(libc::ENOSYS) as c_long
        }
    }
}

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    id: usize,
}

extern "C" fn child_start(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    enter_thread(s.id);
    let r = (s.f)(s.arg);
    leave_thread(s.id);
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut libc::pthread_t, attr: *const c_void, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    let real = real!("pthread_create", fn(*mut libc::pthread_t, *const c_void, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int);
    match sim_tid() {
        Some(t) => {
            let _k = Kernel::enter();
            let w = world();
            w.point(t);
            let root = w.threads[t].root;
            let n = w.threads.len() as u64;
            let id = add_thread(w, root, if w.cfg.same_rng { 1 } else { 1000 + n });
            let s = Box::into_raw(Box::new(Start { f, arg, id }));
            let r = real(out, attr, child_start, s.cast());
            if r == 0 {
                w.threads[id].pthread = *out as u64;
                w.probe("inner_thread");
            } else {
                w.threads[id].cond = Cond::Done;
            }
            r
        }
        None => real(out, attr, f, arg),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    if let Some(t) = sim_tid() {
        let _k = Kernel::enter();
        let w = world();
        w.point(t);
        let target = w.threads.iter().rposition(|x| x.pthread == th as u64);
        if let Some(id) = target {
            if w.threads[id].cond != Cond::Done {
                w.block(t, Cond::Join(id), None);
            }
            w.threads[id].pthread = 0;
        }
        return (real!("pthread_join", fn(libc::pthread_t, *mut *mut c_void) -> c_int))(th, ret);
    }
    (real!("pthread_join", fn(libc::pthread_t, *mut *mut c_void) -> c_int))(th, ret)
}
