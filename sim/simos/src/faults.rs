//! What can go wrong at which system call.

use crate::world::{Effect, Site};

pub fn effects(s: Site) -> Vec<Effect> {
    use Effect::*;
    let e = |v: &[i32]| v.iter().map(|x| Errno(*x)).collect::<Vec<_>>();
    let mut v = match s {
        Site::OpenCreate => e(&[
            libc::EACCES, libc::ENOSPC, libc::EMFILE, libc::ENFILE, libc::EROFS, libc::ENOENT, libc::EIO, libc::EDQUOT, libc::ENOMEM, libc::EPERM, libc::ENOTDIR,
        ]),
        Site::OpenExisting => e(&[libc::ENOENT, libc::EACCES, libc::EIO, libc::EMFILE]),
        Site::OpenDir => e(&[libc::EACCES, libc::EMFILE]),
        Site::OpenDev => e(&[libc::EMFILE, libc::ENOENT, libc::EACCES]),
        Site::Write => e(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG]),
        Site::Read => e(&[libc::EIO, libc::ESTALE]),
        Site::Spawn => e(&[libc::ENOENT, libc::EACCES, libc::EAGAIN, libc::ENOMEM]),
        Site::Pipe => e(&[libc::EMFILE, libc::ENFILE]),
        Site::Unlink => e(&[libc::EPERM, libc::EROFS, libc::EBUSY]),
        Site::Close | Site::Seek | Site::Stat | Site::Rename | Site::Sync => e(&[libc::EIO]),
        Site::Mkdir => e(&[libc::EACCES, libc::ENOSPC]),
        Site::PipeRead | Site::PipeWrite | Site::Poll | Site::Wait => vec![],
    };
    v.extend(transients(s));
    v
}

pub fn transients(s: Site) -> Vec<Effect> {
    use Effect::*;
    match s {
        Site::OpenCreate => vec![Eintr(1), Eintr(3), NameTaken(1), NameTaken(4), Delay(5_000_000_000)],
        Site::OpenExisting | Site::OpenDev => vec![Eintr(1), Eintr(2)],
        Site::Write | Site::Read => vec![Short(1), Short(13), Eintr(1), Eintr(5), Delay(60_000_000_000)],
        Site::PipeRead => vec![Short(1), Short(5), Eintr(1), Eintr(3)],
        Site::Poll | Site::Wait => vec![Eintr(1), Eintr(4)],
        Site::Spawn => vec![Delay(3_000_000_000)],
        _ => vec![],
    }
}
