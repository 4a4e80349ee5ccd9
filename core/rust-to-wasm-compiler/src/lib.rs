//! Stands in for the crate of this name, which runs cargo: it records what it is asked to compile, and answers
//! with what was prepared for it. The simulator gives what was recorded to the real rustc, outside the simulation.

use std::path::{Path, PathBuf};
use std::sync::Mutex;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum WasiSupport {
    Enabled,
    Disabled,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Profile {
    Release,
    Dev,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Asked {
    Source { wasi: WasiSupport, manifest: String, source: String, profile: Profile },
    Manifest { wasi: WasiSupport, path: PathBuf, profile: Profile },
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct CompilerSetupError(pub String);

impl std::fmt::Display for CompilerSetupError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for CompilerSetupError {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct CompileError(pub String);

impl std::fmt::Display for CompileError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for CompileError {}

static ASKED: Mutex<Vec<Asked>> = Mutex::new(Vec::new());
static ANSWER: Mutex<Option<Result<Vec<u8>, String>>> = Mutex::new(None);
static SETUP: Mutex<Option<String>> = Mutex::new(None);

/// What the compiler says to the next requests; without, an empty module.
pub fn answer(x: Option<Result<Vec<u8>, String>>) {
    *ANSWER.lock().expect("answer") = x;
}

/// Makes setting up the compiler fail.
pub fn setup_fails(x: Option<String>) {
    *SETUP.lock().expect("setup") = x;
}

type OfManifest = fn(WasiSupport, &Path) -> Result<Vec<u8>, String>;
static MANIFEST: Mutex<Option<OfManifest>> = Mutex::new(None);

/// What the compiler makes of a package.
pub fn of_manifest(f: Option<OfManifest>) {
    *MANIFEST.lock().expect("manifest") = f;
}

/// What was asked since the last time.
pub fn asked() -> Vec<Asked> {
    std::mem::take(&mut *ASKED.lock().expect("asked"))
}

#[derive(Debug)]
pub struct RustToWasmCompiler {}

impl RustToWasmCompiler {
    pub fn new() -> Result<Self, CompilerSetupError> {
        match SETUP.lock().expect("setup").clone() {
            Some(e) => Err(CompilerSetupError(e)),
            None => Ok(RustToWasmCompiler {}),
        }
    }

    fn note(a: Asked) -> Result<Vec<u8>, CompileError> {
        ASKED.lock().expect("asked").push(a);
        match ANSWER.lock().expect("answer").clone() {
            Some(Ok(b)) => Ok(b),
            Some(Err(e)) => Err(CompileError(e)),
            None => Ok(b"\0asm\x01\0\0\0".to_vec()),
        }
    }

    pub fn compile_source(&self, wasi: WasiSupport, manifest: &str, source: &str, profile: Profile) -> Result<Vec<u8>, CompileError> {
        Self::note(Asked::Source { wasi, manifest: manifest.into(), source: source.into(), profile })
    }

    pub fn compile(&self, wasi: WasiSupport, manifest: &Path, profile: Profile) -> Result<Vec<u8>, CompileError> {
        let r = Self::note(Asked::Manifest { wasi, path: manifest.into(), profile });
        let f = *MANIFEST.lock().expect("manifest");
        match f {
            Some(f) => f(wasi, manifest).map_err(CompileError),
            None => r,
        }
    }
}
