//! A small, deterministic WebAssembly machine: several linked instances, host functions, refusable
//! memory growth, step and depth limits, and an optional tracer that implements the meaning of the
//! analysis hooks directly on the original program (the reference the instrumented one is held to).

use crate::hooks::{H, N_HOOKS};
use crate::ops::{self, Bi, Ld, Num, St, Un};
use std::rc::Rc;
use wasmparser as wp;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub enum Ty {
    I32,
    I64,
    F32,
    F64,
    Func,
    Extern,
}

impl Ty {
    pub fn is_ref(self) -> bool {
        matches!(self, Ty::Func | Ty::Extern)
    }
    pub fn name(self) -> &'static str {
        match self {
            Ty::I32 => "i32",
            Ty::I64 => "i64",
            Ty::F32 => "f32",
            Ty::F64 => "f64",
            Ty::Func => "funcref",
            Ty::Extern => "externref",
        }
    }
    pub fn zero(self) -> V {
        match self {
            Ty::I32 => V::I32(0),
            Ty::I64 => V::I64(0),
            Ty::F32 => V::F32(0),
            Ty::F64 => V::F64(0),
            Ty::Func => V::Func(None),
            Ty::Extern => V::Extern(None),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum V {
    I32(u32),
    I64(u64),
    F32(u32),
    F64(u64),
    Func(Option<usize>),
    Extern(Option<u32>),
}

impl V {
    pub fn ty(self) -> Ty {
        match self {
            V::I32(_) => Ty::I32,
            V::I64(_) => Ty::I64,
            V::F32(_) => Ty::F32,
            V::F64(_) => Ty::F64,
            V::Func(_) => Ty::Func,
            V::Extern(_) => Ty::Extern,
        }
    }
    pub fn i32(self) -> u32 {
        match self {
            V::I32(x) => x,
            v => panic!("i32 expected, {v:?} found"),
        }
    }
    pub fn i64(self) -> u64 {
        match self {
            V::I64(x) => x,
            v => panic!("i64 expected, {v:?} found"),
        }
    }
    pub fn f32(self) -> u32 {
        match self {
            V::F32(x) => x,
            v => panic!("f32 expected, {v:?} found"),
        }
    }
    pub fn f64(self) -> u64 {
        match self {
            V::F64(x) => x,
            v => panic!("f64 expected, {v:?} found"),
        }
    }
    /// The bits of a number, as a shadow stack slot holds them.
    pub fn bits(self) -> u64 {
        match self {
            V::I32(x) | V::F32(x) => x.into(),
            V::I64(x) | V::F64(x) => x,
            V::Func(x) => x.map_or(0, |x| x as u64 + 1),
            V::Extern(x) => x.map_or(0, |x| u64::from(x) + 1),
        }
    }
    pub fn from_bits(t: Ty, b: u64) -> V {
        match t {
            Ty::I32 => V::I32(b as u32),
            Ty::I64 => V::I64(b),
            Ty::F32 => V::F32(b as u32),
            Ty::F64 => V::F64(b),
            Ty::Func => V::Func(None),
            Ty::Extern => V::Extern(None),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Trap {
    Unreachable,
    MemoryOob,
    TableOob,
    NullElement,
    BadSignature,
    DivByZero,
    IntOverflow,
    BadConversion,
    /// raised by the simulated host or analysis
    Host(u32),
    /// limits of the harness, not behaviour of the program
    Steps,
    Depth,
    Events,
}

impl Trap {
    pub fn is_limit(self) -> bool {
        matches!(self, Trap::Steps | Trap::Depth | Trap::Events)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct FTy {
    pub params: Vec<Ty>,
    pub results: Vec<Ty>,
}

impl FTy {
    pub fn has_ref(&self) -> bool {
        self.params.iter().chain(&self.results).any(|t| t.is_ref())
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Unreachable,
    Nop,
    /// params, results, index of the end
    Block(u32, u32, usize),
    Loop(u32, u32, usize),
    /// ..., index of the else if there is one, index of the end
    If(u32, u32, Option<usize>, usize),
    Else(usize),
    End,
    Br(u32),
    BrIf(u32),
    BrTable(Box<[u32]>, u32),
    Return,
    Call(u32),
    CallIndirect(u32, u32),
    RefNull(Ty),
    RefIsNull,
    RefFunc(u32),
    Drop,
    Select,
    LocalGet(u32),
    LocalSet(u32),
    LocalTee(u32),
    GlobalGet(u32),
    GlobalSet(u32),
    TableGet(u32),
    TableSet(u32),
    TableSize(u32),
    TableGrow(u32),
    TableFill(u32),
    TableCopy(u32, u32),
    TableInit(u32, u32),
    ElemDrop(u32),
    Load(Ld, u32),
    Store(St, u32),
    MemorySize,
    MemoryGrow,
    MemoryFill,
    MemoryCopy,
    MemoryInit(u32),
    DataDrop(u32),
    Const(V),
    Un(Un),
    Bi(Bi),
}

#[derive(Debug)]
pub struct Code {
    pub locals: Vec<Ty>,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug)]
pub enum Init {
    Const(V),
    Global(u32),
    Func(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ext_ {
    Func(u32),
    Table(Ty, u32, Option<u32>),
    Mem(u32, Option<u32>),
    Global(Ty, bool),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Func,
    Table,
    Mem,
    Global,
}

#[derive(Debug)]
pub enum Mode {
    Active(u32, Init),
    Passive,
    Declared,
}

#[derive(Debug, Default)]
pub struct Module {
    pub types: Vec<FTy>,
    pub imports: Vec<(String, String, Ext_)>,
    /// type of every function, imported ones first
    pub funcs: Vec<u32>,
    pub n_fimp: usize,
    pub tables: Vec<(Ty, u32, Option<u32>)>,
    pub mems: Vec<(u32, Option<u32>)>,
    pub globals: Vec<(Ty, bool)>,
    pub global_inits: Vec<Init>,
    pub exports: Vec<(String, Kind, u32)>,
    pub elems: Vec<(Ty, Mode, Vec<Init>)>,
    pub datas: Vec<(Mode, Vec<u8>)>,
    pub start: Option<u32>,
    pub codes: Vec<Rc<Code>>,
}

fn ty(t: wp::ValType) -> Result<Ty, String> {
    Ok(match t {
        wp::ValType::I32 => Ty::I32,
        wp::ValType::I64 => Ty::I64,
        wp::ValType::F32 => Ty::F32,
        wp::ValType::F64 => Ty::F64,
        wp::ValType::V128 => return Err("v128".into()),
        wp::ValType::Ref(r) => rty(r)?,
    })
}

fn rty(r: wp::RefType) -> Result<Ty, String> {
    if r.is_func_ref() {
        Ok(Ty::Func)
    } else if r.is_extern_ref() {
        Ok(Ty::Extern)
    } else {
        Err(format!("reference type {r}"))
    }
}

fn init(e: &wp::ConstExpr) -> Result<Init, String> {
    let mut r = e.get_operators_reader();
    let s = |e: wp::BinaryReaderError| e.to_string();
    let i = match r.read().map_err(s)? {
        wp::Operator::I32Const { value } => Init::Const(V::I32(value as u32)),
        wp::Operator::I64Const { value } => Init::Const(V::I64(value as u64)),
        wp::Operator::F32Const { value } => Init::Const(V::F32(value.bits())),
        wp::Operator::F64Const { value } => Init::Const(V::F64(value.bits())),
        wp::Operator::RefNull { hty } => Init::Const(match hty {
            wp::HeapType::EXTERN => V::Extern(None),
            _ => V::Func(None),
        }),
        wp::Operator::RefFunc { function_index } => Init::Func(function_index),
        wp::Operator::GlobalGet { global_index } => Init::Global(global_index),
        o => return Err(format!("constant expression {o:?}")),
    };
    Ok(i)
}

pub fn validate(bytes: &[u8]) -> Result<(), String> {
    let f = wp::WasmFeatures::WASM2 - wp::WasmFeatures::SIMD;
    wp::Validator::new_with_features(f).validate_all(bytes).map(|_| ()).map_err(|e| e.to_string())
}

impl Module {
    pub fn decode(bytes: &[u8]) -> Result<Module, String> {
        let s = |e: wp::BinaryReaderError| e.to_string();
        let mut m = Module::default();
        for p in wp::Parser::new(0).parse_all(bytes) {
            match p.map_err(s)? {
                wp::Payload::TypeSection(r) => {
                    for t in r.into_iter_err_on_gc_types() {
                        let t = t.map_err(s)?;
                        m.types.push(FTy {
                            params: t.params().iter().map(|t| ty(*t)).collect::<Result<_, _>>()?,
                            results: t.results().iter().map(|t| ty(*t)).collect::<Result<_, _>>()?,
                        });
                    }
                }
                wp::Payload::ImportSection(r) => {
                    for i in r {
                        let i = i.map_err(s)?;
                        let e = match i.ty {
                            wp::TypeRef::Func(t) => {
                                m.funcs.push(t);
                                m.n_fimp += 1;
                                Ext_::Func(t)
                            }
                            wp::TypeRef::Table(t) => {
                                let x = (rty(t.element_type)?, t.initial as u32, t.maximum.map(|x| x as u32));
                                m.tables.push(x);
                                Ext_::Table(x.0, x.1, x.2)
                            }
                            wp::TypeRef::Memory(t) => {
                                let x = (t.initial as u32, t.maximum.map(|x| x as u32));
                                m.mems.push(x);
                                Ext_::Mem(x.0, x.1)
                            }
                            wp::TypeRef::Global(t) => {
                                let x = (ty(t.content_type)?, t.mutable);
                                m.globals.push(x);
                                Ext_::Global(x.0, x.1)
                            }
                            t => return Err(format!("import {t:?}")),
                        };
                        m.imports.push((i.module.into(), i.name.into(), e));
                    }
                }
                wp::Payload::FunctionSection(r) => {
                    for f in r {
                        m.funcs.push(f.map_err(s)?);
                    }
                }
                wp::Payload::TableSection(r) => {
                    for t in r {
                        let t = t.map_err(s)?.ty;
                        m.tables.push((rty(t.element_type)?, t.initial as u32, t.maximum.map(|x| x as u32)));
                    }
                }
                wp::Payload::MemorySection(r) => {
                    for t in r {
                        let t = t.map_err(s)?;
                        m.mems.push((t.initial as u32, t.maximum.map(|x| x as u32)));
                    }
                }
                wp::Payload::GlobalSection(r) => {
                    for g in r {
                        let g = g.map_err(s)?;
                        m.globals.push((ty(g.ty.content_type)?, g.ty.mutable));
                        m.global_inits.push(init(&g.init_expr)?);
                    }
                }
                wp::Payload::ExportSection(r) => {
                    for e in r {
                        let e = e.map_err(s)?;
                        let k = match e.kind {
                            wp::ExternalKind::Func => Kind::Func,
                            wp::ExternalKind::Table => Kind::Table,
                            wp::ExternalKind::Memory => Kind::Mem,
                            wp::ExternalKind::Global => Kind::Global,
                            k => return Err(format!("export {k:?}")),
                        };
                        m.exports.push((e.name.into(), k, e.index));
                    }
                }
                wp::Payload::StartSection { func, .. } => m.start = Some(func),
                wp::Payload::ElementSection(r) => {
                    for e in r {
                        let e = e.map_err(s)?;
                        let mode = match &e.kind {
                            wp::ElementKind::Active { table_index, offset_expr } => Mode::Active(table_index.unwrap_or(0), init(offset_expr)?),
                            wp::ElementKind::Passive => Mode::Passive,
                            wp::ElementKind::Declared => Mode::Declared,
                        };
                        let (t, items) = match e.items {
                            wp::ElementItems::Functions(r) => {
                                (Ty::Func, r.into_iter().map(|f| f.map(Init::Func)).collect::<Result<Vec<_>, _>>().map_err(s)?)
                            }
                            wp::ElementItems::Expressions(t, r) => {
                                let mut v = vec![];
                                for e in r {
                                    v.push(init(&e.map_err(s)?)?);
                                }
                                (rty(t)?, v)
                            }
                        };
                        m.elems.push((t, mode, items));
                    }
                }
                wp::Payload::DataSection(r) => {
                    for d in r {
                        let d = d.map_err(s)?;
                        let mode = match d.kind {
                            wp::DataKind::Active { memory_index, offset_expr } => Mode::Active(memory_index, init(&offset_expr)?),
                            wp::DataKind::Passive => Mode::Passive,
                        };
                        m.datas.push((mode, d.data.to_vec()));
                    }
                }
                wp::Payload::CodeSectionEntry(b) => {
                    let c = decode_code(&m, &b)?;
                    m.codes.push(Rc::new(c));
                }
                _ => (),
            }
        }
        Ok(m)
    }

    pub fn fty(&self, f: u32) -> &FTy {
        &self.types[self.funcs[f as usize] as usize]
    }
    pub fn code(&self, f: u32) -> Option<&Rc<Code>> {
        (f as usize).checked_sub(self.n_fimp).map(|i| &self.codes[i])
    }
}

fn decode_code(m: &Module, b: &wp::FunctionBody) -> Result<Code, String> {
    let s = |e: wp::BinaryReaderError| e.to_string();
    let mut locals = vec![];
    for l in b.get_locals_reader().map_err(s)? {
        let (n, t) = l.map_err(s)?;
        if locals.len() + n as usize > 50_000 {
            return Err("too many locals".into());
        }
        locals.extend(std::iter::repeat(ty(t)?).take(n as usize));
    }
    let mut ops: Vec<Op> = vec![];
    let mut open: Vec<usize> = vec![];
    let bt = |t: wp::BlockType| -> (u32, u32) {
        match t {
            wp::BlockType::Empty => (0, 0),
            wp::BlockType::Type(_) => (0, 1),
            wp::BlockType::FuncType(i) => {
                let t = &m.types[i as usize];
                (t.params.len() as u32, t.results.len() as u32)
            }
        }
    };
    for o in b.get_operators_reader().map_err(s)? {
        use wp::Operator as O;
        let o = o.map_err(s)?;
        let at = ops.len();
        let op = match &o {
            O::Unreachable => Op::Unreachable,
            O::Nop => Op::Nop,
            O::Block { blockty } => {
                open.push(at);
                let (p, r) = bt(*blockty);
                Op::Block(p, r, 0)
            }
            O::Loop { blockty } => {
                open.push(at);
                let (p, r) = bt(*blockty);
                Op::Loop(p, r, 0)
            }
            O::If { blockty } => {
                open.push(at);
                let (p, r) = bt(*blockty);
                Op::If(p, r, None, 0)
            }
            O::Else => {
                if let Op::If(_, _, e, _) = &mut ops[*open.last().ok_or("else")?] {
                    *e = Some(at);
                }
                Op::Else(0)
            }
            O::End => {
                if let Some(b) = open.pop() {
                    let mut els = None;
                    match &mut ops[b] {
                        Op::Block(_, _, e) | Op::Loop(_, _, e) => *e = at,
                        Op::If(_, _, l, e) => {
                            *e = at;
                            els = *l;
                        }
                        _ => (),
                    }
                    if let Some(l) = els {
                        ops[l] = Op::Else(at);
                    }
                }
                Op::End
            }
            O::Br { relative_depth } => Op::Br(*relative_depth),
            O::BrIf { relative_depth } => Op::BrIf(*relative_depth),
            O::BrTable { targets } => {
                let v = targets.targets().collect::<Result<Vec<_>, _>>().map_err(s)?;
                Op::BrTable(v.into_boxed_slice(), targets.default())
            }
            O::Return => Op::Return,
            O::Call { function_index } => Op::Call(*function_index),
            O::CallIndirect { type_index, table_index } => Op::CallIndirect(*type_index, *table_index),
            O::RefNull { hty } => Op::RefNull(match *hty {
                wp::HeapType::EXTERN => Ty::Extern,
                _ => Ty::Func,
            }),
            O::RefIsNull => Op::RefIsNull,
            O::RefFunc { function_index } => Op::RefFunc(*function_index),
            O::Drop => Op::Drop,
            O::Select | O::TypedSelect { .. } => Op::Select,
            O::LocalGet { local_index } => Op::LocalGet(*local_index),
            O::LocalSet { local_index } => Op::LocalSet(*local_index),
            O::LocalTee { local_index } => Op::LocalTee(*local_index),
            O::GlobalGet { global_index } => Op::GlobalGet(*global_index),
            O::GlobalSet { global_index } => Op::GlobalSet(*global_index),
            O::TableGet { table } => Op::TableGet(*table),
            O::TableSet { table } => Op::TableSet(*table),
            O::TableSize { table } => Op::TableSize(*table),
            O::TableGrow { table } => Op::TableGrow(*table),
            O::TableFill { table } => Op::TableFill(*table),
            O::TableCopy { dst_table, src_table } => Op::TableCopy(*dst_table, *src_table),
            O::TableInit { elem_index, table } => Op::TableInit(*elem_index, *table),
            O::ElemDrop { elem_index } => Op::ElemDrop(*elem_index),
            O::MemorySize { .. } => Op::MemorySize,
            O::MemoryGrow { .. } => Op::MemoryGrow,
            O::MemoryFill { .. } => Op::MemoryFill,
            O::MemoryCopy { .. } => Op::MemoryCopy,
            O::MemoryInit { data_index, .. } => Op::MemoryInit(*data_index),
            O::DataDrop { data_index } => Op::DataDrop(*data_index),
            O::I32Const { value } => Op::Const(V::I32(*value as u32)),
            O::I64Const { value } => Op::Const(V::I64(*value as u64)),
            O::F32Const { value } => Op::Const(V::F32(value.bits())),
            O::F64Const { value } => Op::Const(V::F64(value.bits())),
            o => match ops::decode_op(o) {
                Some(Num::Un(x)) => Op::Un(x),
                Some(Num::Bi(x)) => Op::Bi(x),
                Some(Num::Ld(x, n)) => Op::Load(x, n),
                Some(Num::St(x, n)) => Op::Store(x, n),
                None => return Err(format!("operator {o:?}")),
            },
        };
        ops.push(op);
    }
    Ok(Code { locals, ops })
}

// ---------------------------------------------------------------- store

/// Which hooks of which functions the tracer reports.
#[derive(Debug)]
pub struct Trace {
    pub on: [bool; N_HOOKS],
    pub targets: Vec<bool>,
}

#[derive(Clone, Debug)]
pub enum Def {
    Wasm { inst: usize, fidx: u32 },
    Host(usize),
    /// a call of `inner` goes through the analysis' generic application first
    Applied { inst: usize, fidx: u32, inner: usize, import: bool },
}

pub struct Func {
    pub ty: Rc<FTy>,
    pub def: Def,
}

pub struct Table {
    pub ty: Ty,
    pub v: Vec<V>,
    pub max: Option<u32>,
}

pub struct Mem {
    pub v: Vec<u8>,
    pub max: Option<u32>,
}

pub struct Instance {
    pub module: Rc<Module>,
    pub funcs: Vec<usize>,
    pub tables: Vec<usize>,
    pub mems: Vec<usize>,
    pub globals: Vec<usize>,
    pub elems: Vec<Option<Vec<V>>>,
    pub datas: Vec<bool>,
    pub trace: Option<Rc<Trace>>,
}

#[derive(Clone, Copy, Debug)]
pub enum Extern {
    Func(usize),
    Table(usize),
    Mem(usize),
    Global(usize),
}

/// The outside of the machine.
pub trait Ext {
    fn host(&mut self, m: &mut Machine, id: usize, args: &[V]) -> Result<Vec<V>, Trap>;
    /// May this memory grow by so many pages (it would stay within its maximum)?
    fn grow(&mut self, m: &mut Machine, mem: usize, by: u32) -> bool;
    /// A hook of the tracer; the value it returns replaces the operand or result.
    fn hook(&mut self, m: &mut Machine, inst: usize, h: H, args: &[V]) -> Result<Option<V>, Trap>;
    /// A call that goes through the analysis; `inner` is the function itself.
    fn apply(&mut self, m: &mut Machine, fidx: u32, inner: usize, import: bool, args: &[V]) -> Result<Vec<V>, Trap>;
}

pub const PAGE: usize = 65536;
pub const MAX_PAGES: usize = 20;
pub const ROOMY_PAGES: usize = 1100;
pub const MAX_TABLE: usize = 4096;

pub struct Machine {
    pub funcs: Vec<Func>,
    pub tables: Vec<Table>,
    pub mems: Vec<Mem>,
    pub globals: Vec<(V, bool)>,
    pub insts: Vec<Instance>,
    pub steps: u64,
    pub max_steps: u64,
    pub depth: u32,
    pub max_depth: u32,
    pub deepest: u32,
    /// how often code looked at or changed memory, tables, mutable globals or segments
    pub touches: u64,
    pub touched: &'static str,
    /// functions (by address) that are not supposed to do so, nor to call the host
    pub guarded: Vec<bool>,
    pub guard: u32,
    pub leak: Option<String>,
    /// an instance whose memory may be larger
    pub roomy: Option<usize>,
}

struct Label {
    /// where a branch to it continues
    to: usize,
    /// values a branch carries
    arity: usize,
    height: usize,
    is_loop: bool,
    /// index of the instruction that opened it; usize::MAX for the function itself
    begin: usize,
    /// results of the construct
    results: usize,
}

/// Does this instruction depend on or change anything but operands and locals?
fn state_access(op: &Op, m: &Module) -> Option<&'static str> {
    Some(match op {
        Op::Load(..) | Op::Store(..) => "memory",
        Op::MemorySize | Op::MemoryGrow | Op::MemoryFill | Op::MemoryCopy | Op::MemoryInit(_) => "memory",
        Op::DataDrop(_) | Op::ElemDrop(_) => "a segment",
        Op::GlobalSet(_) => "a global",
        Op::GlobalGet(g) if m.globals[*g as usize].1 => "a global",
        Op::TableGet(_) | Op::TableSet(_) | Op::TableSize(_) | Op::TableGrow(_) | Op::TableFill(_) | Op::TableCopy(..) | Op::TableInit(..) => "a table",
        Op::CallIndirect(..) => "a table",
        _ => return None,
    })
}

impl Machine {
    pub fn new(max_steps: u64, max_depth: u32) -> Machine {
        Machine { funcs: vec![], tables: vec![], mems: vec![], globals: vec![], insts: vec![], steps: 0, max_steps, depth: 0, max_depth, deepest: 0, touches: 0, touched: "", guarded: vec![], guard: 0, leak: None, roomy: None }
    }

    pub fn host_func(&mut self, ty: FTy, id: usize) -> usize {
        self.funcs.push(Func { ty: Rc::new(ty), def: Def::Host(id) });
        self.funcs.len() - 1
    }

    /// Allocates an instance; its segments and start function are not run yet.
    pub fn alloc(&mut self, module: &Rc<Module>, imports: &[Extern], trace: Option<Rc<Trace>>) -> Result<usize, String> {
        let inst = self.insts.len();
        let mut i = Instance {
            module: module.clone(),
            funcs: vec![],
            tables: vec![],
            mems: vec![],
            globals: vec![],
            elems: vec![],
            datas: vec![false; module.datas.len()],
            trace: trace.clone(),
        };
        for (e, (ns, name, want)) in imports.iter().zip(&module.imports) {
            let bad = || Err(format!("import {ns}.{name}: does not fit"));
            match (e, want) {
                (Extern::Func(f), Ext_::Func(t)) => {
                    if *self.funcs[*f].ty != module.types[*t as usize] {
                        return bad();
                    }
                    i.funcs.push(*f);
                }
                (Extern::Table(t), Ext_::Table(ty, min, _)) => {
                    if self.tables[*t].ty != *ty || self.tables[*t].v.len() < *min as usize {
                        return bad();
                    }
                    i.tables.push(*t);
                }
                (Extern::Mem(t), Ext_::Mem(min, _)) => {
                    if self.mems[*t].v.len() < *min as usize * PAGE {
                        return bad();
                    }
                    i.mems.push(*t);
                }
                (Extern::Global(g), Ext_::Global(t, m)) => {
                    if self.globals[*g].0.ty() != *t || self.globals[*g].1 != *m {
                        return bad();
                    }
                    i.globals.push(*g);
                }
                _ => return bad(),
            }
        }
        if imports.len() != module.imports.len() {
            return Err("imports missing".into());
        }
        for fidx in module.n_fimp..module.funcs.len() {
            self.funcs.push(Func { ty: Rc::new(module.fty(fidx as u32).clone()), def: Def::Wasm { inst, fidx: fidx as u32 } });
            i.funcs.push(self.funcs.len() - 1);
        }
        if let Some(t) = &trace {
            if t.on[H::GenericApply as usize] {
                for fidx in 0..module.funcs.len() {
                    if t.targets[fidx] {
                        let inner = i.funcs[fidx];
                        let ty = self.funcs[inner].ty.clone();
                        self.funcs.push(Func { ty, def: Def::Applied { inst, fidx: fidx as u32, inner, import: fidx < module.n_fimp } });
                        i.funcs[fidx] = self.funcs.len() - 1;
                    }
                }
            }
        }
        for (t, n, max) in &module.tables[i.tables.len()..] {
            if *n as usize > MAX_TABLE {
                return Err("table too large".into());
            }
            self.tables.push(Table { ty: *t, v: vec![t.zero(); *n as usize], max: *max });
            i.tables.push(self.tables.len() - 1);
        }
        for (n, max) in &module.mems[i.mems.len()..] {
            if *n as usize > if self.roomy == Some(inst) { ROOMY_PAGES } else { MAX_PAGES } {
                return Err("memory too large".into());
            }
            self.mems.push(Mem { v: vec![0; *n as usize * PAGE], max: *max });
            i.mems.push(self.mems.len() - 1);
        }
        for (g, e) in module.globals[i.globals.len()..].iter().zip(&module.global_inits) {
            let v = self.eval(&i, e);
            self.globals.push((v, g.1));
            i.globals.push(self.globals.len() - 1);
        }
        for (_, _, items) in &module.elems {
            let v = items.iter().map(|e| self.eval(&i, e)).collect();
            i.elems.push(Some(v));
        }
        self.insts.push(i);
        Ok(inst)
    }

    fn eval(&self, i: &Instance, e: &Init) -> V {
        match e {
            Init::Const(v) => *v,
            Init::Global(g) => self.globals[i.globals[*g as usize]].0,
            Init::Func(f) => V::Func(Some(i.funcs[*f as usize])),
        }
    }

    /// Element and data segments, then the start function.
    pub fn start(&mut self, x: &mut dyn Ext, inst: usize) -> Result<(), Trap> {
        let m = self.insts[inst].module.clone();
        for (k, (_, mode, _)) in m.elems.iter().enumerate() {
            match mode {
                Mode::Active(t, off) => {
                    let d = self.eval(&self.insts[inst], off).i32();
                    let n = self.insts[inst].elems[k].as_ref().map_or(0, Vec::len) as u32;
                    self.table_init(inst, k as u32, *t, d, 0, n)?;
                    self.insts[inst].elems[k] = None;
                }
                Mode::Declared => self.insts[inst].elems[k] = None,
                Mode::Passive => (),
            }
        }
        for (k, (mode, bytes)) in m.datas.iter().enumerate() {
            if let Mode::Active(_, off) = mode {
                let d = self.eval(&self.insts[inst], off).i32();
                self.memory_init(inst, k as u32, d, 0, bytes.len() as u32)?;
                self.insts[inst].datas[k] = true;
            }
        }
        if let Some(f) = m.start {
            let a = self.insts[inst].funcs[f as usize];
            self.call(x, a, &[])?;
        }
        Ok(())
    }

    pub fn export(&self, inst: usize, name: &str) -> Option<Extern> {
        let i = &self.insts[inst];
        i.module.exports.iter().find(|e| e.0 == name).map(|(_, k, n)| match k {
            Kind::Func => Extern::Func(i.funcs[*n as usize]),
            Kind::Table => Extern::Table(i.tables[*n as usize]),
            Kind::Mem => Extern::Mem(i.mems[*n as usize]),
            Kind::Global => Extern::Global(i.globals[*n as usize]),
        })
    }

    pub fn call(&mut self, x: &mut dyn Ext, f: usize, args: &[V]) -> Result<Vec<V>, Trap> {
        if self.depth >= self.max_depth {
            return Err(Trap::Depth);
        }
        self.depth += 1;
        self.deepest = self.deepest.max(self.depth);
        let def = self.funcs[f].def.clone();
        let guarded = self.guarded.get(f).copied().unwrap_or(false);
        self.guard += u32::from(guarded);
        let r = match def {
            Def::Host(id) => {
                if self.guard > 0 && self.leak.is_none() {
                    self.leak = Some("calls the host".into());
                }
                x.host(self, id, args)
            }
            Def::Applied { fidx, inner, import, .. } => x.apply(self, fidx, inner, import, args),
            Def::Wasm { inst, fidx } => {
                let code = self.insts[inst].module.code(fidx).expect("code").clone();
                let n_res = self.funcs[f].ty.results.len();
                self.exec(x, inst, fidx, &code, args, n_res)
            }
        };
        self.depth -= 1;
        self.guard -= u32::from(guarded);
        if let Ok(r) = &r {
            debug_assert_eq!(r.iter().map(|v| v.ty()).collect::<Vec<_>>(), self.funcs[f].ty.results);
        }
        r
    }

    /// Everything that can be told apart later.
    pub fn all_state(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        let mut add = |x: u64| h = (h ^ x).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23);
        for m in &self.mems {
            add(m.v.len() as u64);
            for (i, c) in m.v.chunks_exact(8).enumerate() {
                let x = u64::from_le_bytes(c.try_into().expect("eight"));
                if x != 0 {
                    add(i as u64);
                    add(x);
                }
            }
        }
        for t in &self.tables {
            add(t.v.len() as u64);
            t.v.iter().for_each(|v| add(v.bits()));
        }
        self.globals.iter().for_each(|g| add(g.0.bits()));
        for i in &self.insts {
            i.elems.iter().for_each(|e| add(u64::from(e.is_some())));
            i.datas.iter().for_each(|d| add(u64::from(*d)));
        }
        h
    }

    fn memory_init(&mut self, inst: usize, seg: u32, d: u32, s: u32, n: u32) -> Result<(), Trap> {
        let m = self.insts[inst].module.clone();
        let src: &[u8] = if self.insts[inst].datas[seg as usize] { &[] } else { &m.datas[seg as usize].1 };
        let mem = &mut self.mems[self.insts[inst].mems[0]].v;
        let (d, s, n) = (d as usize, s as usize, n as usize);
        if s + n > src.len() || d + n > mem.len() {
            return Err(Trap::MemoryOob);
        }
        mem[d..d + n].copy_from_slice(&src[s..s + n]);
        Ok(())
    }

    fn table_init(&mut self, inst: usize, seg: u32, t: u32, d: u32, s: u32, n: u32) -> Result<(), Trap> {
        let i = &self.insts[inst];
        let src = i.elems[seg as usize].clone().unwrap_or_default();
        let tab = &mut self.tables[i.tables[t as usize]].v;
        let (d, s, n) = (d as usize, s as usize, n as usize);
        if s + n > src.len() || d + n > tab.len() {
            return Err(Trap::TableOob);
        }
        tab[d..d + n].copy_from_slice(&src[s..s + n]);
        Ok(())
    }

    pub fn mem_load(&self, mem: usize, op: Ld, ptr: u32, off: u32) -> Result<V, Trap> {
        let a = ptr as usize + off as usize;
        let m = &self.mems[mem].v;
        if a + op.width() > m.len() {
            return Err(Trap::MemoryOob);
        }
        Ok(ops::load(op, &m[a..a + op.width()]))
    }

    pub fn mem_store(&mut self, mem: usize, op: St, ptr: u32, off: u32, v: V) -> Result<(), Trap> {
        let a = ptr as usize + off as usize;
        let m = &mut self.mems[mem].v;
        if a + op.width() > m.len() {
            return Err(Trap::MemoryOob);
        }
        m[a..a + op.width()].copy_from_slice(&ops::store(op, v)[..op.width()]);
        Ok(())
    }

    pub fn mem_grow(&mut self, x: &mut dyn Ext, mem: usize, by: u32) -> u32 {
        let old = self.mems[mem].v.len() / PAGE;
        let new = old as u64 + u64::from(by);
        let cap = self.mems[mem].max.map_or(65536, u64::from).min(if self.roomy.is_some_and(|i| self.insts.get(i).is_some_and(|i| i.mems.first() == Some(&mem))) { ROOMY_PAGES } else { MAX_PAGES } as u64);
        if new > cap || !x.grow(self, mem, by) {
            return u32::MAX;
        }
        self.mems[mem].v.resize(new as usize * PAGE, 0);
        old as u32
    }

    #[allow(clippy::too_many_lines)]
    fn exec(&mut self, x: &mut dyn Ext, inst: usize, fidx: u32, code: &Rc<Code>, args: &[V], n_res: usize) -> Result<Vec<V>, Trap> {
        let trace = self.insts[inst].trace.clone().filter(|t| t.targets[fidx as usize]);
        let on = |h: H| trace.as_ref().is_some_and(|t| t.on[h as usize]);
        let mut locals: Vec<V> = args.to_vec();
        locals.extend(code.locals.iter().map(|t| t.zero()));
        let mut st: Vec<V> = vec![];
        let ops = &code.ops;
        let last = ops.len() - 1;
        let mut labels = vec![Label { to: last + 1, arity: n_res, height: 0, is_loop: false, begin: usize::MAX, results: n_res }];
        let mut pc = 0usize;

        macro_rules! pop {
            () => {
                st.pop().expect("operand")
            };
        }
        // calls a hook; every hook gets the function and the instruction as its last arguments
        macro_rules! hook {
            ($h:expr, $at:expr, $($a:expr),*) => {
                x.hook(self, inst, $h, &[$($a,)* V::I64(u64::from(fidx)), V::I64($at as u64)])?
            };
        }
        macro_rules! branch {
            ($l:expr) => {{
                let n = labels.len() - 1 - $l as usize;
                let (to, arity, height, is_loop) = (labels[n].to, labels[n].arity, labels[n].height, labels[n].is_loop);
                let from = st.len() - arity;
                st.drain(height..from);
                if is_loop {
                    labels.truncate(n + 1);
                    // the body starts over
                    loop_pre!(n);
                } else {
                    labels.truncate(n);
                }
                pc = to;
                continue;
            }};
        }
        macro_rules! loop_pre {
            ($n:expr) => {
                if on(H::LoopPre) {
                    let b = labels[$n].begin;
                    if let Op::Loop(p, r, _) = ops[b] {
                        hook!(H::LoopPre, b, V::I32(p), V::I32(r));
                    }
                }
            };
        }

        while pc <= last {
            self.steps += 1;
            if self.steps > self.max_steps {
                return Err(Trap::Steps);
            }
            let i = pc;
            pc += 1;
            if let Some(what) = state_access(&ops[i], &self.insts[inst].module) {
                self.touches += 1;
                self.touched = what;
                if self.guard > 0 && self.leak.is_none() {
                    self.leak = Some(format!("accesses {what} (function {fidx}, instruction {i})"));
                }
            }
            match &ops[i] {
                Op::Unreachable => return Err(Trap::Unreachable),
                Op::Nop => (),
                Op::Block(p, r, end) => {
                    labels.push(Label { to: end + 1, arity: *r as usize, height: st.len() - *p as usize, is_loop: false, begin: i, results: *r as usize });
                    if on(H::BlockPre) {
                        hook!(H::BlockPre, i, V::I32(*p), V::I32(*r));
                    }
                }
                Op::Loop(p, r, _) => {
                    labels.push(Label { to: i + 1, arity: *p as usize, height: st.len() - *p as usize, is_loop: true, begin: i, results: *r as usize });
                    let n = labels.len() - 1;
                    loop_pre!(n);
                }
                Op::If(p, r, els, end) => {
                    let mut c = pop!();
                    let h = if els.is_some() { H::IfThenElse } else { H::IfThen };
                    if on(h) {
                        c = hook!(h, i, c, V::I32(*p), V::I32(*r)).expect("condition");
                    }
                    labels.push(Label { to: end + 1, arity: *r as usize, height: st.len() - *p as usize, is_loop: false, begin: i, results: *r as usize });
                    if c.i32() == 0 {
                        pc = match els {
                            Some(e) => e + 1,
                            None => *end,
                        };
                    }
                }
                Op::Else(end) => {
                    // the end of a then-branch
                    pc = *end;
                }
                Op::End => {
                    let l = labels.pop().expect("label");
                    debug_assert_eq!(st.len(), l.height + l.results);
                    if l.begin != usize::MAX && trace.is_some() {
                        let h = match &ops[l.begin] {
                            Op::Block(..) => H::BlockPost,
                            Op::Loop(..) => H::LoopPost,
                            Op::If(_, _, Some(_), _) => H::IfThenElsePost,
                            _ => H::IfThenPost,
                        };
                        if on(h) {
                            hook!(h, l.begin,);
                        }
                    }
                }
                Op::Br(l) => {
                    if on(H::Br) {
                        hook!(H::Br, i, V::I64(u64::from(*l)));
                    }
                    branch!(*l);
                }
                Op::BrIf(l) => {
                    let mut c = pop!();
                    if on(H::BrIf) {
                        c = hook!(H::BrIf, i, c, V::I32(*l)).expect("condition");
                    }
                    if c.i32() != 0 {
                        branch!(*l);
                    }
                }
                Op::BrTable(t, d) => {
                    let mut c = pop!();
                    if on(H::BrTable) {
                        let eff = t.get(c.i32() as usize).copied().unwrap_or(*d);
                        c = hook!(H::BrTable, i, c, V::I32(eff), V::I32(*d)).expect("index");
                    }
                    let l = t.get(c.i32() as usize).copied().unwrap_or(*d);
                    branch!(l);
                }
                Op::Return => {
                    if on(H::Return) {
                        hook!(H::Return, i,);
                    }
                    return Ok(st.split_off(st.len() - n_res));
                }
                Op::Call(f) => {
                    if on(H::CallPre) {
                        hook!(H::CallPre, i, V::I32(*f));
                    }
                    let a = self.insts[inst].funcs[*f as usize];
                    let n = self.funcs[a].ty.params.len();
                    let args = st.split_off(st.len() - n);
                    let r = self.call(x, a, &args)?;
                    st.extend(r);
                    if on(H::CallPost) {
                        hook!(H::CallPost, i, V::I32(*f));
                    }
                }
                Op::CallIndirect(t, tab) => {
                    let mut c = pop!();
                    if on(H::CallIndirectPre) {
                        c = hook!(H::CallIndirectPre, i, c, V::I32(*tab)).expect("index");
                    }
                    let table = &self.tables[self.insts[inst].tables[*tab as usize]].v;
                    let a = match table.get(c.i32() as usize) {
                        None => return Err(Trap::TableOob),
                        Some(V::Func(Some(a))) => *a,
                        Some(_) => return Err(Trap::NullElement),
                    };
                    let want = &self.insts[inst].module.types[*t as usize];
                    if *self.funcs[a].ty != *want {
                        return Err(Trap::BadSignature);
                    }
                    let n = want.params.len();
                    let args = st.split_off(st.len() - n);
                    let r = self.call(x, a, &args)?;
                    st.extend(r);
                    if on(H::CallIndirectPost) {
                        hook!(H::CallIndirectPost, i, V::I32(*tab));
                    }
                }
                Op::RefNull(t) => st.push(t.zero()),
                Op::RefIsNull => {
                    let v = pop!();
                    st.push(V::I32(u32::from(matches!(v, V::Func(None) | V::Extern(None)))));
                }
                Op::RefFunc(f) => {
                    let a = self.insts[inst].funcs[*f as usize];
                    st.push(V::Func(Some(a)));
                }
                Op::Drop => {
                    if on(H::Drop) {
                        hook!(H::Drop, i,);
                    }
                    pop!();
                }
                Op::Select => {
                    let mut c = pop!();
                    if on(H::Select) {
                        c = hook!(H::Select, i, c).expect("condition");
                    }
                    let b = pop!();
                    let a = pop!();
                    st.push(if c.i32() != 0 { a } else { b });
                }
                Op::LocalGet(n) => {
                    let mut v = locals[*n as usize];
                    if let Some(h) = H::local_get(v.ty()).filter(|h| on(*h)) {
                        v = hook!(h, i, v, V::I64(u64::from(*n))).expect("value");
                    }
                    st.push(v);
                }
                Op::LocalSet(n) => {
                    let mut v = pop!();
                    if let Some(h) = H::local_set(v.ty()).filter(|h| on(*h)) {
                        v = hook!(h, i, v, V::I64(u64::from(*n))).expect("value");
                    }
                    locals[*n as usize] = v;
                }
                Op::LocalTee(n) => {
                    let mut v = pop!();
                    if let Some(h) = H::local_tee(v.ty()).filter(|h| on(*h)) {
                        v = hook!(h, i, v, V::I64(u64::from(*n))).expect("value");
                    }
                    locals[*n as usize] = v;
                    st.push(v);
                }
                Op::GlobalGet(n) => {
                    let mut v = self.globals[self.insts[inst].globals[*n as usize]].0;
                    if let Some(h) = H::global_get(v.ty()).filter(|h| on(*h)) {
                        v = hook!(h, i, v, V::I64(u64::from(*n))).expect("value");
                    }
                    st.push(v);
                }
                Op::GlobalSet(n) => {
                    let mut v = pop!();
                    if let Some(h) = H::global_set(v.ty()).filter(|h| on(*h)) {
                        v = hook!(h, i, v, V::I64(u64::from(*n))).expect("value");
                    }
                    let g = self.insts[inst].globals[*n as usize];
                    self.globals[g].0 = v;
                }
                Op::TableGet(t) => {
                    let k = pop!().i32();
                    let t = &self.tables[self.insts[inst].tables[*t as usize]].v;
                    st.push(*t.get(k as usize).ok_or(Trap::TableOob)?);
                }
                Op::TableSet(t) => {
                    let v = pop!();
                    let k = pop!().i32();
                    let t = self.insts[inst].tables[*t as usize];
                    *self.tables[t].v.get_mut(k as usize).ok_or(Trap::TableOob)? = v;
                }
                Op::TableSize(t) => {
                    let t = self.insts[inst].tables[*t as usize];
                    st.push(V::I32(self.tables[t].v.len() as u32));
                }
                Op::TableGrow(t) => {
                    let n = pop!().i32();
                    let v = pop!();
                    let t = &mut self.tables[self.insts[inst].tables[*t as usize]];
                    let old = t.v.len();
                    let new = old as u64 + u64::from(n);
                    if new > t.max.map_or(u64::MAX, u64::from).min(MAX_TABLE as u64) {
                        st.push(V::I32(u32::MAX));
                    } else {
                        t.v.resize(new as usize, v);
                        st.push(V::I32(old as u32));
                    }
                }
                Op::TableFill(t) => {
                    let n = pop!().i32() as usize;
                    let v = pop!();
                    let d = pop!().i32() as usize;
                    let t = &mut self.tables[self.insts[inst].tables[*t as usize]].v;
                    if d + n > t.len() {
                        return Err(Trap::TableOob);
                    }
                    t[d..d + n].fill(v);
                }
                Op::TableCopy(dt, stb) => {
                    let n = pop!().i32() as usize;
                    let s = pop!().i32() as usize;
                    let d = pop!().i32() as usize;
                    let (dt, stb) = (self.insts[inst].tables[*dt as usize], self.insts[inst].tables[*stb as usize]);
                    if s + n > self.tables[stb].v.len() || d + n > self.tables[dt].v.len() {
                        return Err(Trap::TableOob);
                    }
                    let part = self.tables[stb].v[s..s + n].to_vec();
                    self.tables[dt].v[d..d + n].copy_from_slice(&part);
                }
                Op::TableInit(seg, t) => {
                    let n = pop!().i32();
                    let s = pop!().i32();
                    let d = pop!().i32();
                    self.table_init(inst, *seg, *t, d, s, n)?;
                }
                Op::ElemDrop(seg) => self.insts[inst].elems[*seg as usize] = None,
                Op::Load(op, off) => {
                    let p = pop!();
                    let h = H::load(op.ty());
                    let v = if on(h) {
                        hook!(h, i, p, V::I64(u64::from(*off)), V::I32(op.id() as u32)).expect("value")
                    } else {
                        self.mem_load(self.insts[inst].mems[0], *op, p.i32(), *off)?
                    };
                    st.push(v);
                }
                Op::Store(op, off) => {
                    let v = pop!();
                    let p = pop!();
                    let h = H::store(op.ty());
                    if on(h) {
                        hook!(h, i, p, v, V::I64(u64::from(*off)), V::I32(op.id() as u32));
                    } else {
                        self.mem_store(self.insts[inst].mems[0], *op, p.i32(), *off, v)?;
                    }
                }
                Op::MemorySize => {
                    let mut v = V::I32((self.mems[self.insts[inst].mems[0]].v.len() / PAGE) as u32);
                    if on(H::MemorySize) {
                        v = hook!(H::MemorySize, i, v, V::I64(0)).expect("size");
                    }
                    st.push(v);
                }
                Op::MemoryGrow => {
                    let n = pop!();
                    let v = if on(H::MemoryGrow) {
                        hook!(H::MemoryGrow, i, n, V::I64(0)).expect("result")
                    } else {
                        let m = self.insts[inst].mems[0];
                        V::I32(self.mem_grow(x, m, n.i32()))
                    };
                    st.push(v);
                }
                Op::MemoryFill => {
                    let n = pop!().i32() as usize;
                    let v = pop!().i32() as u8;
                    let d = pop!().i32() as usize;
                    let m = &mut self.mems[self.insts[inst].mems[0]].v;
                    if d + n > m.len() {
                        return Err(Trap::MemoryOob);
                    }
                    m[d..d + n].fill(v);
                }
                Op::MemoryCopy => {
                    let n = pop!().i32() as usize;
                    let s = pop!().i32() as usize;
                    let d = pop!().i32() as usize;
                    let m = &mut self.mems[self.insts[inst].mems[0]].v;
                    if d + n > m.len() || s + n > m.len() {
                        return Err(Trap::MemoryOob);
                    }
                    m.copy_within(s..s + n, d);
                }
                Op::MemoryInit(seg) => {
                    let n = pop!().i32();
                    let s = pop!().i32();
                    let d = pop!().i32();
                    self.memory_init(inst, *seg, d, s, n)?;
                }
                Op::DataDrop(seg) => self.insts[inst].datas[*seg as usize] = true,
                Op::Const(v) => {
                    let mut v = *v;
                    let h = H::constant(v.ty());
                    if on(h) {
                        v = hook!(h, i, v).expect("value");
                    }
                    st.push(v);
                }
                Op::Un(op) => {
                    let v = pop!();
                    let (a, r) = op.types();
                    let v = match H::unary(a, r).filter(|h| on(*h)) {
                        Some(h) => hook!(h, i, v, V::I32(op.id() as u32)).expect("value"),
                        None => ops::unary(*op, v)?,
                    };
                    st.push(v);
                }
                Op::Bi(op) => {
                    let b = pop!();
                    let a = pop!();
                    let (t, r) = op.types();
                    let v = match H::binary(t, r).filter(|h| on(*h)) {
                        Some(h) => hook!(h, i, a, b, V::I32(op.id() as u32)).expect("value"),
                        None => ops::binary(*op, a, b)?,
                    };
                    st.push(v);
                }
            }
        }
        Ok(st.split_off(st.len() - n_res))
    }
}
