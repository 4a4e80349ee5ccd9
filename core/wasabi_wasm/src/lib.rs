//! Stand-in for the `wasabi_wasm` crate the repository depends on.
//!
//! The real crate is only published as a git revision and cannot be fetched here. This crate
//! offers the part of its interface that the repository uses, written from the WebAssembly
//! specification: a mutable representation of a module, a decoder, an encoder that renumbers
//! imports first, and the type inference of single instructions. Everything the repository
//! itself does with that representation is the real code.
//!
//! `fault` lets a harness make the decoder, the encoder or the type checker fail on demand.

mod decode;
mod encode;
mod instr;
pub mod fault;
mod more;
pub mod types;

pub use instr::*;

use std::collections::HashMap;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::sync::Mutex;

// ---------------------------------------------------------------------------------- indices

pub struct Idx<T>(u32, PhantomData<fn() -> T>);

impl<T> Idx<T> {
    pub fn to_u32(self) -> u32 {
        self.0
    }
    pub fn to_usize(self) -> usize {
        self.0 as usize
    }
}
impl<T> Clone for Idx<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Idx<T> {}
impl<T> PartialEq for Idx<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T> Eq for Idx<T> {}
impl<T> PartialOrd for Idx<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<T> Ord for Idx<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl<T> Hash for Idx<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<T> fmt::Debug for Idx<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let name = std::any::type_name::<T>();
        write!(f, "{} {}", name.rsplit("::").next().unwrap_or(name), self.0)
    }
}
impl<T> From<u32> for Idx<T> {
    fn from(v: u32) -> Self {
        Idx(v, PhantomData)
    }
}
impl<T> From<usize> for Idx<T> {
    fn from(v: usize) -> Self {
        Idx(v as u32, PhantomData)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Label(u32);
impl Label {
    pub fn to_u32(self) -> u32 {
        self.0
    }
    pub fn to_usize(self) -> usize {
        self.0 as usize
    }
}
impl From<u32> for Label {
    fn from(v: u32) -> Self {
        Label(v)
    }
}
impl From<usize> for Label {
    fn from(v: usize) -> Self {
        Label(v as u32)
    }
}
impl fmt::Debug for Label {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Label {}", self.0)
    }
}

// ------------------------------------------------------------------------------------ types

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum RefType {
    FuncRef,
    ExternRef,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum ValType {
    I32,
    I64,
    F32,
    F64,
    Ref(RefType),
}

impl ValType {
    pub fn zero(self) -> Val {
        match self {
            ValType::I32 => Val::I32(0),
            ValType::I64 => Val::I64(0),
            ValType::F32 => Val::F32(F32(0)),
            ValType::F64 => Val::F64(F64(0)),
            ValType::Ref(_) => panic!("no zero constant for a reference type"),
        }
    }
}

impl fmt::Display for ValType {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            ValType::I32 => "i32",
            ValType::I64 => "i64",
            ValType::F32 => "f32",
            ValType::F64 => "f64",
            ValType::Ref(RefType::FuncRef) => "funcref",
            ValType::Ref(RefType::ExternRef) => "externref",
        })
    }
}

struct FunctionTypeInner {
    inputs: Box<[ValType]>,
    results: Box<[ValType]>,
}

/// Interned, hence `Copy`; compared, ordered and hashed by content.
#[derive(Clone, Copy)]
pub struct FunctionType(&'static FunctionTypeInner);

type Interned = HashMap<(Vec<ValType>, Vec<ValType>), FunctionType, FixedState>;
static INTERNED: Mutex<Option<Interned>> = Mutex::new(None);

/// Interning must not depend on (or consume) the process's random hash seeds.
#[derive(Clone, Default)]
struct FixedState;
impl std::hash::BuildHasher for FixedState {
    type Hasher = std::collections::hash_map::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        std::collections::hash_map::DefaultHasher::new()
    }
}

impl FunctionType {
    pub fn new(inputs: &[ValType], results: &[ValType]) -> Self {
        let mut guard = INTERNED.lock().unwrap_or_else(|e| e.into_inner());
        *guard
            .get_or_insert_with(|| HashMap::with_hasher(FixedState))
            .entry((inputs.to_vec(), results.to_vec()))
            .or_insert_with(|| {
                FunctionType(Box::leak(Box::new(FunctionTypeInner {
                    inputs: inputs.into(),
                    results: results.into(),
                })))
            })
    }
    pub fn empty() -> Self {
        Self::new(&[], &[])
    }
    pub fn inputs(&self) -> &'static [ValType] {
        &self.0.inputs
    }
    pub fn results(&self) -> &'static [ValType] {
        &self.0.results
    }
}
impl PartialEq for FunctionType {
    fn eq(&self, o: &Self) -> bool {
        self.inputs() == o.inputs() && self.results() == o.results()
    }
}
impl Eq for FunctionType {}
impl PartialOrd for FunctionType {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for FunctionType {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.inputs(), self.results()).cmp(&(o.inputs(), o.results()))
    }
}
impl Hash for FunctionType {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.inputs().hash(h);
        self.results().hash(h);
    }
}
impl fmt::Debug for FunctionType {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?} -> {:?}", self.inputs(), self.results())
    }
}
impl fmt::Display for FunctionType {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Mutability {
    Const,
    Mut,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct GlobalType(pub ValType, pub Mutability);

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Limits {
    pub initial_size: u32,
    pub max_size: Option<u32>,
}

// --------------------------------------------------------------------------------- entities

pub type Expr = Vec<Instr>;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum ImportOrPresent<T> {
    Import(String, String),
    Present(T),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Local {
    pub type_: ValType,
    pub name: Option<String>,
}

impl Local {
    pub fn new(type_: ValType) -> Self {
        Local { type_, name: None }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct Code {
    pub locals: Vec<Local>,
    pub body: Expr,
}

impl Code {
    pub fn new() -> Self {
        Code::default()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Function {
    pub type_: FunctionType,
    pub code: ImportOrPresent<Code>,
    pub export: Vec<String>,
    pub name: Option<String>,
}

impl Function {
    pub fn new(type_: FunctionType, code: Code, export: Vec<String>) -> Self {
        Function {
            type_,
            code: ImportOrPresent::Present(code),
            export,
            name: None,
        }
    }
    pub fn new_imported(
        type_: FunctionType,
        import_module: String,
        import_name: String,
        export: Vec<String>,
    ) -> Self {
        Function {
            type_,
            code: ImportOrPresent::Import(import_module, import_name),
            export,
            name: None,
        }
    }
    pub fn code(&self) -> Option<&Code> {
        match &self.code {
            ImportOrPresent::Present(c) => Some(c),
            ImportOrPresent::Import(..) => None,
        }
    }
    pub fn code_mut(&mut self) -> Option<&mut Code> {
        match &mut self.code {
            ImportOrPresent::Present(c) => Some(c),
            ImportOrPresent::Import(..) => None,
        }
    }
    pub fn import(&self) -> Option<(&str, &str)> {
        match &self.code {
            ImportOrPresent::Import(m, n) => Some((m, n)),
            ImportOrPresent::Present(_) => None,
        }
    }
    pub fn param_count(&self) -> usize {
        self.type_.inputs().len()
    }
    /// The locals declared in the body, with the indices instructions refer to them by.
    pub fn locals(&self) -> impl Iterator<Item = (Idx<Local>, &Local)> {
        let n = self.param_count();
        self.code()
            .into_iter()
            .flat_map(|c| c.locals.iter())
            .enumerate()
            .map(move |(i, l)| ((n + i).into(), l))
    }
    pub fn instructions(&self) -> &[Instr] {
        self.code().map_or(&[], |c| &c.body)
    }
    pub fn add_fresh_local(&mut self, type_: ValType) -> Idx<Local> {
        let n = self.param_count();
        let code = self.code_mut().expect("cannot add local to an imported function");
        code.locals.push(Local::new(type_));
        (n + code.locals.len() - 1).into()
    }
    pub fn add_fresh_locals(&mut self, types: &[ValType]) -> Vec<Idx<Local>> {
        types.iter().map(|t| self.add_fresh_local(*t)).collect()
    }
    pub fn param_or_local_type(&self, idx: Idx<Local>) -> Option<ValType> {
        let i = idx.to_usize();
        let n = self.param_count();
        if i < n {
            self.type_.inputs().get(i).copied()
        } else {
            self.code()?.locals.get(i - n).map(|l| l.type_)
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Global {
    pub type_: GlobalType,
    pub init: ImportOrPresent<Expr>,
    pub export: Vec<String>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Table {
    pub limits: Limits,
    pub import: Option<(String, String)>,
    pub ref_type: RefType,
    pub export: Vec<String>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Memory {
    pub limits: Limits,
    pub import: Option<(String, String)>,
    pub export: Vec<String>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum ElementMode {
    Passive,
    Active { table: Idx<Table>, offset: Expr },
    Declarative,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Element {
    pub typ: RefType,
    pub init: Vec<Expr>,
    pub mode: ElementMode,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum DataMode {
    Passive,
    Active { memory: Idx<Memory>, offset: Expr },
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Data {
    pub init: Vec<u8>,
    pub mode: DataMode,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct Module {
    pub name: Option<String>,
    pub functions: Vec<Function>,
    pub globals: Vec<Global>,
    pub tables: Vec<Table>,
    pub memories: Vec<Memory>,
    pub start: Option<Idx<Function>>,
    pub elements: Vec<Element>,
    pub datas: Vec<Data>,
    pub custom_sections: Vec<(String, Vec<u8>)>,
}

#[derive(Debug, Clone, Default)]
pub struct Offsets {}

#[derive(Debug, Clone, Default)]
pub struct UnsupportedExtensions {}

impl Module {
    pub fn new() -> Self {
        Module::default()
    }
    pub fn from_bytes(bytes: &[u8]) -> Result<(Self, Offsets, UnsupportedExtensions), ParseError> {
        fault::at_parse(bytes)?;
        decode::decode(bytes).map(|m| (m, Offsets {}, UnsupportedExtensions {}))
    }
    pub fn to_bytes(&self) -> Result<Vec<u8>, EncodeError> {
        fault::at_encode()?;
        encode::encode(self)
    }
    pub fn functions(&self) -> impl Iterator<Item = (Idx<Function>, &Function)> {
        self.functions.iter().enumerate().map(|(i, f)| (i.into(), f))
    }
    pub fn function(&self, idx: Idx<Function>) -> &Function {
        &self.functions[idx.to_usize()]
    }
    pub fn function_mut(&mut self, idx: Idx<Function>) -> &mut Function {
        &mut self.functions[idx.to_usize()]
    }
    pub fn globals(&self) -> impl Iterator<Item = (Idx<Global>, &Global)> {
        self.globals.iter().enumerate().map(|(i, g)| (i.into(), g))
    }
    pub fn global(&self, idx: Idx<Global>) -> &Global {
        &self.globals[idx.to_usize()]
    }
    pub fn global_mut(&mut self, idx: Idx<Global>) -> &mut Global {
        &mut self.globals[idx.to_usize()]
    }
    pub fn table(&self, idx: Idx<Table>) -> &Table {
        &self.tables[idx.to_usize()]
    }
    pub fn memory(&self, idx: Idx<Memory>) -> &Memory {
        &self.memories[idx.to_usize()]
    }
    pub fn add_function(
        &mut self,
        type_: FunctionType,
        locals: Vec<ValType>,
        body: Vec<Instr>,
    ) -> Idx<Function> {
        self.functions.push(Function::new(
            type_,
            Code {
                locals: locals.into_iter().map(Local::new).collect(),
                body,
            },
            vec![],
        ));
        (self.functions.len() - 1).into()
    }
    pub fn add_function_import(
        &mut self,
        type_: FunctionType,
        module: String,
        name: String,
    ) -> Idx<Function> {
        self.functions
            .push(Function::new_imported(type_, module, name, vec![]));
        (self.functions.len() - 1).into()
    }
    pub fn add_global(
        &mut self,
        type_: ValType,
        mutability: Mutability,
        init: Vec<Instr>,
    ) -> Idx<Global> {
        self.globals.push(Global {
            type_: GlobalType(type_, mutability),
            init: ImportOrPresent::Present(init),
            export: vec![],
        });
        (self.globals.len() - 1).into()
    }
}

// ----------------------------------------------------------------------------------- errors

#[derive(Debug, Clone)]
pub struct ParseError {
    pub message: String,
}
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "error parsing WebAssembly binary: {}", self.message)
    }
}
impl std::error::Error for ParseError {}

#[derive(Debug, Clone)]
pub struct EncodeError {
    pub message: String,
}
impl fmt::Display for EncodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "error encoding WebAssembly binary: {}", self.message)
    }
}
impl std::error::Error for EncodeError {}
