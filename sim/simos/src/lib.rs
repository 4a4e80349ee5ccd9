//! A deterministic operating system in one process.
//!
//! `world` is the simulated kernel: file system, pipes, processes, clock, randomness, futexes and
//! the scheduler that decides who runs. `shim` defines the libc entry points that the Rust standard
//! library and its dependants call; linked into the harness executable they take precedence over
//! libc's own, and forward to the real libc whenever the calling thread is not a simulated one.
//! `progs` are the programs simulated processes can execute (a POSIX-like shell, the merge tool).
#![allow(clippy::missing_safety_doc, unknown_lints, invalid_runtime_symbol_definitions)]

pub mod faults;
pub mod progs;
pub mod shim;
pub mod world;

pub use world::*;
