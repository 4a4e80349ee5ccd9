//! Runs the real pipeline (analysis compiler, instrumenter, library generator and compiler, merge) on
//! simulated threads; only the process `wasm-merge` is a stand-in, which packs what it was given.

use crate::hooks::{self, H};
use simos::{Config, End, Fault, Fired, ToolFate, ToolRun, World};
use std::collections::{BTreeMap, HashMap};
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use wastrumentation::analysis::ProcessedAnalysis;
use wastrumentation::compiler::{CompilationError, CompilationResult, Compiles, DefaultCompilerOptions, LibGeneratable, Library, SourceCodeBound};
use wastrumentation::error::{Error, InstrumentationError};
use wastrumentation::{Configuration, PrimaryTarget, Wastrumenter};
#[cfg(feature = "backends")]
use wastrumentation_lang_assemblyscript::compile::{compiler::Compiler as AsCompiler, AssemblyScript};
#[cfg(feature = "backends")]
use wastrumentation_lang_rust::compile::{compiler::Compiler as RustCompiler, Rust};
use wastrumentation_lang_webassembly::compile::compiler::Compiler as WatCompiler;
use wastrumentation_lang_webassembly::compile::options::{CompilerOptions as WatOptions, WebAssemblySource};
use wastrumentation_lang_webassembly::compile::WebAssembly;

// ---------------------------------------------------------------- languages that can fail

/// An analysis language of the harness: the source says what the compiler does.
#[derive(Debug, Clone)]
pub struct Ana;
#[derive(Debug, Clone)]
pub struct AnaOptions(Result<Vec<u8>, String>);
#[derive(Debug)]
pub struct AnaCompiler;

impl SourceCodeBound for Ana {
    type DefaultCompilerOptions = AnaOptions;
    type SourceCode = Result<Vec<u8>, String>;
}
impl DefaultCompilerOptions<Ana> for AnaOptions {
    fn default_for(s: Result<Vec<u8>, String>) -> Self {
        AnaOptions(s)
    }
}
impl Compiles<Ana> for AnaCompiler {
    type CompilerOptions = AnaOptions;
    type CompilerSetupError = ();
    fn setup_compiler() -> Result<Self, ()> {
        Ok(AnaCompiler)
    }
    fn compile(&self, o: &AnaOptions) -> CompilationResult<Ana> {
        o.0.clone().map_err(|reason| CompilationError { reason, language: PhantomData })
    }
}

/// The WebAssembly back end with a compiler that can fail.
#[derive(Debug, Clone)]
pub struct Lib;
pub struct LibOptions(WatOptions);
#[derive(Debug)]
pub struct LibCompiler {
    fail: Option<String>,
}

impl SourceCodeBound for Lib {
    type DefaultCompilerOptions = LibOptions;
    type SourceCode = WebAssemblySource;
}
impl DefaultCompilerOptions<Lib> for LibOptions {
    fn default_for(s: WebAssemblySource) -> Self {
        LibOptions(WatOptions::default_for(s))
    }
}
impl LibGeneratable for Lib {
    fn generate_lib(signatures: &[wastrumentation::wasm_constructs::Signature]) -> Library<Lib> {
        Library { content: <WebAssembly as LibGeneratable>::generate_lib(signatures).content, language: PhantomData }
    }
}
impl Compiles<Lib> for LibCompiler {
    type CompilerOptions = LibOptions;
    type CompilerSetupError = ();
    fn setup_compiler() -> Result<Self, ()> {
        Ok(LibCompiler { fail: None })
    }
    fn compile(&self, o: &LibOptions) -> CompilationResult<Lib> {
        if let Some(reason) = &self.fail {
            return Err(CompilationError { reason: reason.clone(), language: PhantomData });
        }
        let c = <WatCompiler as Compiles<WebAssembly>>::setup_compiler().expect("compiler");
        c.compile(&o.0).map_err(|e| CompilationError { reason: e.reason, language: PhantomData })
    }
}

// ---------------------------------------------------------------- requests

#[derive(Clone, Debug, Default)]
pub struct Req {
    pub input: Vec<u8>,
    pub groups: Vec<usize>,
    pub off: Vec<H>,
    pub targets: Option<Vec<u32>>,
    /// 0 none, 1 instrumentation, 2 target, 3 analysis
    pub primary: u8,
    pub analysis: Result3,
    pub fail_lib: Option<String>,
    /// the back end the instrumentation library comes from
    pub backend: u8,
    pub faults: wasabi_wasm::fault::Faults,
}

/// What stands for the analysis: a module, WebAssembly text for the real back end, or a compiler error.
#[derive(Clone, Debug)]
pub enum Result3 {
    Module(Vec<u8>),
    Wat(String),
    Fails(String),
}

impl Default for Result3 {
    fn default() -> Self {
        Result3::Module(marker())
    }
}

/// A tiny module that stands for the analysis in what the merge is given.
pub fn marker() -> Vec<u8> {
    // with a memory, exported as the input's is
    b"\0asm\x01\0\0\0\x05\x03\x01\0\x01\x07\x05\x01\x01m\x02\0\0\x09\x08analysis".to_vec()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(Vec<u8>),
    Err { stage: &'static str, text: String },
    Panic(String),
    /// the caller did not get that far
    None,
}

pub struct Ran {
    pub res: Vec<Vec<Res>>,
    /// instructions whose types were inferred
    pub checked: Vec<Vec<u64>>,
    pub end: End,
    pub fired: Vec<Fired>,
    pub hash: u64,
    pub clock: u64,
    pub steps: u64,
    pub probes: BTreeMap<String, u64>,
    pub unsupported: Vec<String>,
    pub tools: Vec<(usize, usize, Vec<String>, Vec<(Vec<u8>, Option<Vec<u8>>)>, Option<i32>)>,
    pub schedule: Vec<u8>,
}

fn stage<A, B>(e: &Error<A, B>) -> &'static str {
    match e {
        Error::CompilationErrorAnalysis(_) => "compile analysis",
        Error::CompilationErrorInstrumentation(_) => "compile instrumentation",
        Error::MergeError(_) => "merge",
        Error::InstrumentationError(InstrumentationError::ParseModuleError(_)) => "parse",
        Error::InstrumentationError(InstrumentationError::LowToHighError { .. }) => "infer",
        Error::InstrumentationError(InstrumentationError::EncodeError(_)) => "encode",
        Error::InstrumentationError(_) => "instrument",
    }
}

fn text<A, B>(e: &Error<A, B>) -> String {
    match e {
        Error::CompilationErrorAnalysis(e) => e.reason.clone(),
        Error::CompilationErrorInstrumentation(e) => e.reason.clone(),
        Error::MergeError(e) => e.to_string(),
        Error::InstrumentationError(e) => e.to_string(),
    }
}

fn one(r: &Req) -> (Res, u64) {
    wasabi_wasm::fault::set(r.faults.clone());
    let conf = Configuration {
        target_indices: r.targets.clone(),
        primary_selection: match r.primary {
            1 => Some(PrimaryTarget::Instrumentation),
            2 => Some(PrimaryTarget::Target),
            3 => Some(PrimaryTarget::Analysis),
            _ => None,
        },
    };
    let interface = hooks::interface(&r.groups, &r.off);
    fn done<A, B>(x: Result<Vec<u8>, Error<A, B>>) -> Res {
        match x {
            Ok(v) => Res::Ok(v),
            Err(e) => Res::Err { stage: stage(&e), text: text(&e) },
        }
    }
    let lib = |fail: Option<String>| Box::new(LibCompiler { fail });
    let x = catch_unwind(AssertUnwindSafe(|| match (&r.analysis, &r.fail_lib) {
        (Result3::Fails(e), f) => {
            let w: Wastrumenter<Lib, LibCompiler, Ana, AnaCompiler> = Wastrumenter::new(lib(f.clone()), Box::new(AnaCompiler));
            done(w.wastrument(&r.input, ProcessedAnalysis { analysis_library: Err(e.clone()), analysis_interface: interface }, &conf))
        }
        #[cfg(feature = "backends")]
        (Result3::Module(v), None) if r.backend == crate::backend::AS => {
            let w = Wastrumenter::<AssemblyScript, AsCompiler, WebAssembly, WatCompiler>::new(Box::new(AsCompiler::setup_compiler().expect("compiler")), Box::new(WatCompiler));
            done(w.wastrument(&r.input, ProcessedAnalysis { analysis_library: WebAssemblySource::Module(v.clone()), analysis_interface: interface }, &conf))
        }
        #[cfg(feature = "backends")]
        (Result3::Module(v), None) if r.backend == crate::backend::RUST => {
            let c = <RustCompiler as Compiles<Rust>>::setup_compiler().expect("compiler");
            let w = Wastrumenter::<Rust, RustCompiler, WebAssembly, WatCompiler>::new(Box::new(c), Box::new(WatCompiler));
            done(w.wastrument(&r.input, ProcessedAnalysis { analysis_library: WebAssemblySource::Module(v.clone()), analysis_interface: interface }, &conf))
        }
        (a, None) => {
            let source = match a {
                Result3::Module(v) => WebAssemblySource::Module(v.clone()),
                Result3::Wat(s) => WebAssemblySource::Wat(s.clone()),
                Result3::Fails(_) => unreachable!(),
            };
            let w: Wastrumenter<WebAssembly, WatCompiler, WebAssembly, WatCompiler> = Wastrumenter::new(Box::new(WatCompiler), Box::new(WatCompiler));
            done(w.wastrument(&r.input, ProcessedAnalysis { analysis_library: source, analysis_interface: interface }, &conf))
        }
        (a, f) => {
            let v = match a {
                Result3::Module(v) => v.clone(),
                _ => marker(),
            };
            let w: Wastrumenter<Lib, LibCompiler, Ana, AnaCompiler> = Wastrumenter::new(lib(f.clone()), Box::new(AnaCompiler));
            done(w.wastrument(&r.input, ProcessedAnalysis { analysis_library: Ok(v), analysis_interface: interface }, &conf))
        }
    }));
    let checked = wasabi_wasm::fault::take().checked;
    let r = match x {
        Ok(x) => x,
        Err(e) => Res::Panic(
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(ToString::to_string)).unwrap_or_else(|| "panic".into()),
        ),
    };
    (r, checked)
}

static OUT: Mutex<Vec<Vec<(Res, u64)>>> = Mutex::new(vec![]);

// ---------------------------------------------------------------- the packing stand-in for wasm-merge

/// What a strict tool has against merging these modules under these options.
fn objection(run: &ToolRun) -> Option<String> {
    use wasmparser::{Operator as O, Parser, Payload, Validator, WasmFeatures as W};
    let has = |f: &str| run.flags.iter().any(|x| x == f);
    let mut memories = 0;
    let mut bulk = false;
    let mut exports = std::collections::BTreeSet::new();
    for (_, ns, content) in &run.inputs {
        let (ns, content) = (String::from_utf8_lossy(ns), content.as_ref()?);
        if !has("-n") && !has("--no-validation") {
            let f = W::WASM1 | W::SIGN_EXTENSION;
            let f = [
                ("--enable-bulk-memory", W::BULK_MEMORY),
                ("--enable-reference-types", W::REFERENCE_TYPES),
                ("--enable-multivalue", W::MULTI_VALUE),
                ("--enable-nontrapping-float-to-int", W::SATURATING_FLOAT_TO_INT),
                ("--enable-multimemory", W::MULTI_MEMORY),
            ]
            .iter()
            .filter(|x| has(x.0))
            .fold(f, |f, x| f | x.1);
            if let Err(e) = Validator::new_with_features(f).validate_all(content) {
                return Some(format!("[wasm-validator error in module {ns}] {e}"));
            }
        }
        for p in Parser::new(0).parse_all(content) {
            match p {
                Ok(Payload::ImportSection(s)) => memories += s.into_iter().flatten().filter(|i| matches!(i.ty, wasmparser::TypeRef::Memory(_))).count(),
                Ok(Payload::MemorySection(s)) => memories += s.count() as usize,
                Ok(Payload::ExportSection(s)) => {
                    for e in s.into_iter().flatten() {
                        if !exports.insert(e.name.to_string()) && !has("--rename-export-conflicts") && !has("-rec") {
                            return Some(format!("Fatal: Export name conflict: {} (consider --rename-export-conflicts or --skip-export-conflicts)", e.name));
                        }
                    }
                }
                Ok(Payload::CodeSectionEntry(b)) => {
                    for o in b.get_operators_reader().into_iter().flat_map(IntoIterator::into_iter).flatten() {
                        bulk |= matches!(
                            o,
                            O::MemoryCopy { .. } | O::MemoryFill { .. } | O::MemoryInit { .. } | O::DataDrop { .. } | O::TableCopy { .. } | O::TableInit { .. } | O::ElemDrop { .. }
                        );
                    }
                }
                _ => {}
            }
        }
    }
    if memories > 1 && !has("--enable-multimemory") {
        return Some("Fatal: multiple memories need --enable-multimemory".into());
    }
    if bulk && !has("--enable-bulk-memory") {
        return Some("Fatal: bulk memory operations need --enable-bulk-memory".into());
    }
    None
}

fn pack(run: &ToolRun, _: &ToolFate) -> Result<Vec<u8>, String> {
    if let Some(e) = objection(run) {
        return Err(e);
    }
    let mut v = b"PACKED\0\0".to_vec();
    for (_, ns, content) in &run.inputs {
        let Some(c) = content else { return Err("input not opened".into()) };
        for x in [ns, c] {
            v.extend_from_slice(&(x.len() as u32).to_le_bytes());
            v.extend_from_slice(x);
        }
    }
    v.extend_from_slice(b"END.");
    Ok(v)
}

/// The pack with another module under one of its namespaces.
pub fn replace(v: &[u8], ns: &str, with: &[u8]) -> Option<Vec<u8>> {
    let mut out = b"PACKED\0\0".to_vec();
    for (n, c) in unpack(v)? {
        let c = if n == ns { with } else { &c };
        for x in [n.as_bytes(), c] {
            out.extend_from_slice(&(x.len() as u32).to_le_bytes());
            out.extend_from_slice(x);
        }
    }
    out.extend_from_slice(b"END.");
    Some(out)
}

/// Namespace and content of every module the merge was given, in order; None if this is no complete pack.
pub fn unpack(v: &[u8]) -> Option<Vec<(String, Vec<u8>)>> {
    let mut r = v.strip_prefix(b"PACKED\0\0")?.strip_suffix(b"END.")?;
    let mut out = vec![];
    let take = |r: &mut &[u8]| -> Option<Vec<u8>> {
        let n = u32::from_le_bytes(r.get(..4)?.try_into().ok()?) as usize;
        let x = r.get(4..4 + n)?.to_vec();
        *r = &r[4 + n..];
        Some(x)
    };
    while !r.is_empty() {
        let ns = take(&mut r)?;
        let c = take(&mut r)?;
        out.push((String::from_utf8(ns).ok()?, c));
    }
    Some(out)
}

/// The merge tool of the simulated system is the one that packs.
pub fn prepare() {
    *simos::progs::MERGE_IMPL.lock().expect("lock") = Some(pack);
}

/// One simulated process: every caller is a thread that goes through its requests.
pub fn run(reqs: &[Vec<Req>], cfg: Config, faults: Vec<Fault>, fates: HashMap<(usize, usize), ToolFate>) -> Ran {
    prepare();
    *OUT.lock().expect("lock") = reqs.iter().map(|r| vec![(Res::None, 0); r.len()]).collect();
    let mut w = World::new(cfg, faults, fates);
    let cwd = w.cfg.cwd.clone();
    if let Some(t) = w.cfg.tmpdir.clone() {
        let t = simos::norm(&cwd, &t);
        w.mkdir_pre(&t);
    }
    let mut fs: Vec<Box<dyn FnOnce() + Send + 'static>> = vec![];
    for (c, rs) in reqs.iter().enumerate() {
        let rs = simos::harness(|| rs.clone());
        fs.push(Box::new(move || {
            for (u, r) in rs.iter().enumerate() {
                simos::set_unit(u);
                let x = one(r);
                simos::harness(|| OUT.lock().expect("lock")[c][u] = x);
            }
        }));
    }
    let w = simos::run(w, fs);
    let tools = w
        .tools
        .iter()
        .map(|t| (t.caller, t.unit, t.flags.clone(), t.inputs.iter().map(|(_, n, c)| (n.clone(), c.clone())).collect(), t.status))
        .collect();
    let out = std::mem::take(&mut *OUT.lock().expect("lock"));
    Ran {
        checked: out.iter().map(|v| v.iter().map(|x| x.1).collect()).collect(),
        res: out.into_iter().map(|v| v.into_iter().map(|x| x.0).collect()).collect(),
        end: w.end.clone(),
        fired: w.fired.clone(),
        hash: w.hash,
        clock: w.now,
        steps: w.steps,
        probes: w.probes.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        unsupported: w.unsupported.iter().map(ToString::to_string).collect(),
        tools,
        schedule: w.tape_out.clone(),
    }
}
