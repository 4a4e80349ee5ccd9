//! The back ends: what each generates for a list of signatures, made into a module.

use crate::stack::simulated;
use wastrumentation::compiler::{Compiles, DefaultCompilerOptions, LibGeneratable};
use wastrumentation::wasm_constructs::Signature;
use wastrumentation_lang_webassembly::compile::compiler::Compiler as WatCompiler;
use wastrumentation_lang_webassembly::compile::options::CompilerOptions as WatOptions;
use wastrumentation_lang_webassembly::compile::WebAssembly;

pub const WAT: u8 = 0;
pub const AS: u8 = 1;
pub const RUST: u8 = 2;
pub const NAME: [&str; 3] = ["webassembly", "assemblyscript", "rust"];

#[cfg(feature = "backends")]
const PLACE: &[u8] = b"\0asm\x01\0\0\0\0\x17\x16what the compiler gave";

#[derive(Debug)]
pub enum Fail {
    /// the back end is at fault
    Bad(&'static str, String),
    /// the stand-in compiler does not know enough to tell
    Unknown(String),
    Harness(String),
}

/// The library of one back end for these signatures.
pub fn library(b: u8, sigs: Vec<Signature>, seed: u64) -> Result<Vec<u8>, Fail> {
    match b {
        WAT => wat(sigs, seed),
        #[cfg(feature = "backends")]
        AS => others::assemblyscript(sigs, seed),
        #[cfg(feature = "backends")]
        RUST => others::rust(sigs, seed),
        _ => Err(Fail::Unknown("not built in".into())),
    }
}

fn wat(sigs: Vec<Signature>, seed: u64) -> Result<Vec<u8>, Fail> {
    let r = simulated(seed, move || {
        let lib = <WebAssembly as LibGeneratable>::generate_lib(&sigs);
        let comp = <WatCompiler as Compiles<WebAssembly>>::setup_compiler().map_err(|()| "compiler".to_string());
        comp.and_then(|k| k.compile(&WatOptions::default_for(lib.content)).map_err(|e| e.reason))
    });
    match r {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(e)) => Err(Fail::Bad("does-not-compile", format!("the library does not compile: {e}"))),
        Err(e) => Err(Fail::Bad("panic", format!("generating the library panics: {e}"))),
    }
}

#[cfg(feature = "backends")]
pub use others::{after, as_outcome, before, rustc};

#[cfg(feature = "backends")]
mod others {
    use super::*;
    use rust_to_wasm_compiler as stand_in;
    use crate::pipe::{self, Res};
    use std::io::Write;
    use std::process::{Command, Stdio};
    use wastrumentation_lang_assemblyscript::compile::compiler::Compiler as AsCompiler;
    use wastrumentation_lang_assemblyscript::compile::options::CompilerOptions as AsOptions;
    use wastrumentation_lang_assemblyscript::compile::AssemblyScript;
    use wastrumentation_lang_rust::compile::compiler::Compiler as RustCompiler;
    use wastrumentation_lang_rust::compile::options::{CompilerOptions as RustOptions, RustSource};
    use wastrumentation_lang_rust::compile::Rust;

    pub fn assemblyscript(sigs: Vec<Signature>, seed: u64) -> Result<Vec<u8>, Fail> {
        let r = simulated(seed, move || {
            let lib = <AssemblyScript as LibGeneratable>::generate_lib(&sigs);
            let source = lib.content.clone();
            let comp = <AsCompiler as Compiles<AssemblyScript>>::setup_compiler().map_err(|e| e.to_string());
            let out = comp.and_then(|k| Compiles::<AssemblyScript>::compile(&k, &<AsOptions as DefaultCompilerOptions<AssemblyScript>>::default_for(lib.content)).map_err(|e| e.reason));
            (source, out)
        });
        match r {
            Ok((source, out)) => as_outcome(&source, out, "the library"),
            Err(e) => Err(Fail::Bad("panic", format!("generating the library panics: {e}"))),
        }
    }

    /// What the stand-in says of a program, judged.
    pub fn as_outcome(source: &str, out: Result<Vec<u8>, String>, what: &str) -> Result<Vec<u8>, Fail> {
        match out {
            Ok(b) => Ok(b),
            Err(e) if e.contains("UNSUPPORTED ") => Err(Fail::Unknown(e)),
            Err(e) if e.contains("SYNTAX ") => match typescript(source) {
                // AssemblyScript is written as TypeScript is
                Some(d) if !d.is_empty() => Err(Fail::Bad("does-not-compile", format!("{what} cannot be read: {d} ({e})"))),
                _ => Err(Fail::Unknown(e)),
            },
            Err(e) => Err(Fail::Bad("does-not-compile", format!("{what} does not compile: {e}"))),
        }
    }

    /// The complaints of the parser of TypeScript; none if it cannot be asked.
    fn typescript(source: &str) -> Option<String> {
        let js = r#"
const ts = require('/opt/veriftools/node/node_modules/typescript');
let s = '';
process.stdin.on('data', d => s += d).on('end', () => {
  const f = ts.createSourceFile('a.ts', s, ts.ScriptTarget.Latest, true);
  const d = f.parseDiagnostics.slice(0, 3).map(x => {
    const p = f.getLineAndCharacterOfPosition(x.start);
    return `line ${p.line + 1}: ${ts.flattenDiagnosticMessageText(x.messageText, ' ')}`;
  });
  process.stdout.write('OK' + d.join('; '));
});"#;
        let mut c = Command::new("node").args(["-e", js]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
        c.stdin.take()?.write_all(source.as_bytes()).ok()?;
        let o = c.wait_with_output().ok()?;
        String::from_utf8_lossy(&o.stdout).strip_prefix("OK").map(str::to_string)
    }

    pub fn rust(sigs: Vec<Signature>, seed: u64) -> Result<Vec<u8>, Fail> {
        before();
        let r = simulated(seed, move || {
            let lib = <Rust as LibGeneratable>::generate_lib(&sigs);
            let source = lib.content.clone();
            let comp = <RustCompiler as Compiles<Rust>>::setup_compiler().map_err(|e| e.to_string());
            let out = comp.and_then(|k| k.compile(&<RustOptions as DefaultCompilerOptions<Rust>>::default_for(lib.content)).map_err(|e| e.reason));
            (source, out)
        });
        let (source, out) = match r {
            Ok(x) => x,
            Err(e) => return Err(Fail::Bad("panic", format!("generating the library panics: {e}"))),
        };
        let asked = stand_in::asked();
        let RustSource::SourceCode(wasi, manifest, code) = source else { return Err(Fail::Harness("the library is not source".into())) };
        let (manifest, code) = (manifest.0, code.0);
        // the compiler is handed what was generated, and what it makes is handed on
        match (&asked[..], out) {
            ([stand_in::Asked::Source { wasi: w, manifest: m, source: s, .. }], Ok(b)) if *w == wasi && *m == manifest && *s == code && b == super::PLACE => (),
            (a, o) => return Err(Fail::Bad("glue", format!("the compiler was asked {} times, and the outcome was {:?}", a.len(), o.map(|b| b.len())))),
        }
        rustc(&manifest, &code)
    }

    /// The real compiler, outside the simulation.
    pub fn rustc(manifest: &str, code: &str) -> Result<Vec<u8>, Fail> {
        let edition = manifest
            .lines()
            .find_map(|l| l.trim().strip_prefix("package.edition").or_else(|| l.trim().strip_prefix("edition")))
            .map_or("2015", |l| l.trim_matches(|c: char| !c.is_ascii_digit()))
            .to_string();
        let rt = crate::verif().join("core/target/wasm-rt");
        let scratch = std::env::var_os("WSIM_SCRATCH").map_or_else(std::env::temp_dir, Into::into);
        let out = scratch.join(format!("lib-{}.wasm", std::process::id()));
        let run = || -> std::io::Result<std::process::Output> {
            let mut c = Command::new("rustc")
                .args(["+nightly", "--edition", &edition, "--crate-type", "cdylib", "--crate-name", "library"])
                .args(["--target", "wasm32-unknown-unknown", "-Copt-level=3", "-Cpanic=abort", "--cap-lints", "allow", "-L"])
                .arg(&rt)
                .arg("--extern")
                .arg(format!("wee_alloc={}", rt.join("libwee_alloc.rlib").display()))
                .arg("-o")
                .arg(&out)
                .arg("-")
                .env("TMPDIR", &scratch)
                .env_remove("RUSTFLAGS")
                .stdin(Stdio::piped())
                .stdout(Stdio::null())
                .stderr(Stdio::piped())
                .spawn()?;
            c.stdin.take().expect("stdin").write_all(code.as_bytes())?;
            c.wait_with_output()
        };
        let o = run().map_err(|e| Fail::Harness(format!("rustc: {e}")))?;
        let bytes = std::fs::read(&out);
        let _ = std::fs::remove_file(&out);
        let said = String::from_utf8_lossy(&o.stderr).to_string();
        match (o.status.code(), bytes) {
            (Some(0), Ok(b)) => Ok(b),
            (Some(0 | 1), _) if said.contains("error") && !said.contains("can't find crate") && !said.contains("linking with") && !said.contains("No space") => {
                let first = said.lines().find(|l| l.starts_with("error")).unwrap_or("").to_string();
                Err(Fail::Bad("does-not-compile", format!("the library does not compile: {first}")))
            }
            (s, _) => Err(Fail::Harness(format!("rustc ends with {s:?}: {}", said.chars().take(400).collect::<String>()))),
        }
    }

    /// The compiler for Rust is ready to be asked.
    pub fn before() {
        stand_in::asked();
        stand_in::answer(Some(Ok(super::PLACE.to_vec())));
    }

    /// What the real compiler makes of the request takes the place of the answer it was given meanwhile.
    pub fn after(r: Res) -> Res {
        let Res::Ok(out) = r else { return r };
        let asked = stand_in::asked();
        match &asked[..] {
            [] => Res::Ok(out),
            [stand_in::Asked::Source { manifest, source, .. }] => match rustc(manifest, source) {
                Ok(b) => Res::Ok(pipe::replace(&out, "wastrumentation_stack", &b).unwrap_or(out)),
                Err(Fail::Bad(_, text)) => Res::Err { stage: "compile instrumentation", text },
                Err(Fail::Unknown(e) | Fail::Harness(e)) => panic!("{e}"),
            },
            _ => Res::Err { stage: "compile instrumentation", text: format!("the compiler is asked {} times", asked.len()) },
        }
    }
}
