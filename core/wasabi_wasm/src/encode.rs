//! Encoding of a module: functions, tables, memories and globals are renumbered so that the
//! imported ones come first, keeping their relative order.

use crate::*;
use std::borrow::Cow;
use wasm_encoder as we;

type Res<T> = Result<T, EncodeError>;

fn err<T>(m: impl std::fmt::Display) -> Res<T> {
    Err(EncodeError { message: m.to_string() })
}

struct State {
    types: Vec<FunctionType>,
    functions: Vec<u32>,
    tables: Vec<u32>,
    memories: Vec<u32>,
    globals: Vec<u32>,
    elements: usize,
    datas: usize,
}

fn renumber(is_import: impl Iterator<Item = bool> + Clone) -> Vec<u32> {
    let imports = is_import.clone().filter(|i| *i).count() as u32;
    let (mut i, mut d) = (0, imports);
    is_import
        .map(|imp| {
            let slot = if imp { &mut i } else { &mut d };
            *slot += 1;
            *slot - 1
        })
        .collect()
}

fn ref_type(t: RefType) -> we::RefType {
    match t {
        RefType::FuncRef => we::RefType::FUNCREF,
        RefType::ExternRef => we::RefType::EXTERNREF,
    }
}

fn val_type(t: ValType) -> we::ValType {
    match t {
        ValType::I32 => we::ValType::I32,
        ValType::I64 => we::ValType::I64,
        ValType::F32 => we::ValType::F32,
        ValType::F64 => we::ValType::F64,
        ValType::Ref(r) => we::ValType::Ref(ref_type(r)),
    }
}

impl State {
    fn ty(&mut self, t: FunctionType) -> u32 {
        match self.types.iter().position(|x| *x == t) {
            Some(i) => i as u32,
            None => {
                self.types.push(t);
                self.types.len() as u32 - 1
            }
        }
    }
    fn block_type(&mut self, t: FunctionType) -> we::BlockType {
        match (t.inputs(), t.results()) {
            ([], []) => we::BlockType::Empty,
            ([], [r]) => we::BlockType::Result(val_type(*r)),
            _ => we::BlockType::FunctionType(self.ty(t)),
        }
    }
    fn map(list: &[u32], i: u32, what: &str) -> Res<u32> {
        match list.get(i as usize) {
            Some(x) => Ok(*x),
            None => err(format_args!("{what} {i} does not exist")),
        }
    }
    fn function(&self, i: Idx<Function>) -> Res<u32> {
        Self::map(&self.functions, i.to_u32(), "function")
    }
    fn table(&self, i: Idx<Table>) -> Res<u32> {
        Self::map(&self.tables, i.to_u32(), "table")
    }
    fn memory(&self, i: Idx<Memory>) -> Res<u32> {
        Self::map(&self.memories, i.to_u32(), "memory")
    }
    fn global(&self, i: Idx<Global>) -> Res<u32> {
        Self::map(&self.globals, i.to_u32(), "global")
    }
    fn element(&self, i: Idx<Element>) -> Res<u32> {
        if i.to_usize() < self.elements { Ok(i.to_u32()) } else { err("element does not exist") }
    }
    fn data(&self, i: Idx<Data>) -> Res<u32> {
        if i.to_usize() < self.datas { Ok(i.to_u32()) } else { err("data segment does not exist") }
    }
    fn memarg(m: Memarg) -> we::MemArg {
        we::MemArg { offset: m.offset.into(), align: m.alignment_exp.into(), memory_index: 0 }
    }

    fn const_expr(&mut self, body: &[Instr]) -> Res<we::ConstExpr> {
        let [init @ .., Instr::End] = body else {
            return err("constant expression does not end");
        };
        let mut out = vec![];
        for i in init {
            we::Encode::encode(&self.instr(i)?, &mut out);
        }
        Ok(we::ConstExpr::raw(out))
    }

    fn instr(&mut self, i: &Instr) -> Res<we::Instruction<'static>> {
        use we::Instruction as W;
        Ok(match i {
            Instr::Unreachable => W::Unreachable,
            Instr::Nop => W::Nop,
            Instr::Block(t) => W::Block(self.block_type(*t)),
            Instr::Loop(t) => W::Loop(self.block_type(*t)),
            Instr::If(t) => W::If(self.block_type(*t)),
            Instr::Else => W::Else,
            Instr::End => W::End,
            Instr::Br(l) => W::Br(l.to_u32()),
            Instr::BrIf(l) => W::BrIf(l.to_u32()),
            Instr::BrTable { table, default } => W::BrTable(
                Cow::Owned(table.iter().map(|l| l.to_u32()).collect()),
                default.to_u32(),
            ),
            Instr::Return => W::Return,
            Instr::Call(f) => W::Call(self.function(*f)?),
            Instr::CallIndirect(t, table) => {
                W::CallIndirect { type_index: self.ty(*t), table_index: self.table(*table)? }
            }
            Instr::RefNull(RefType::FuncRef) => W::RefNull(we::HeapType::FUNC),
            Instr::RefNull(RefType::ExternRef) => W::RefNull(we::HeapType::EXTERN),
            Instr::RefIsNull => W::RefIsNull,
            Instr::RefFunc(f) => W::RefFunc(self.function(*f)?),
            Instr::Drop => W::Drop,
            Instr::Select => W::Select,
            Instr::TypedSelect(t) => W::TypedSelect(val_type(*t)),
            Instr::Local(LocalOp::Get, l) => W::LocalGet(l.to_u32()),
            Instr::Local(LocalOp::Set, l) => W::LocalSet(l.to_u32()),
            Instr::Local(LocalOp::Tee, l) => W::LocalTee(l.to_u32()),
            Instr::Global(GlobalOp::Get, g) => W::GlobalGet(self.global(*g)?),
            Instr::Global(GlobalOp::Set, g) => W::GlobalSet(self.global(*g)?),
            Instr::TableGet(t) => W::TableGet(self.table(*t)?),
            Instr::TableSet(t) => W::TableSet(self.table(*t)?),
            Instr::TableSize(t) => W::TableSize(self.table(*t)?),
            Instr::TableGrow(t) => W::TableGrow(self.table(*t)?),
            Instr::TableFill(t) => W::TableFill(self.table(*t)?),
            Instr::TableCopy(d, s) => W::TableCopy { dst_table: self.table(*d)?, src_table: self.table(*s)? },
            Instr::TableInit(t, e) => W::TableInit { elem_index: self.element(*e)?, table: self.table(*t)? },
            Instr::ElemDrop(e) => W::ElemDrop(self.element(*e)?),
            Instr::MemorySize(m) => W::MemorySize(self.memory(*m)?),
            Instr::MemoryGrow(m) => W::MemoryGrow(self.memory(*m)?),
            Instr::MemoryFill => W::MemoryFill(0),
            Instr::MemoryCopy => W::MemoryCopy { src_mem: 0, dst_mem: 0 },
            Instr::MemoryInit(d) => W::MemoryInit { mem: 0, data_index: self.data(*d)? },
            Instr::DataDrop(d) => W::DataDrop(self.data(*d)?),
            Instr::Const(Val::I32(v)) => W::I32Const(*v),
            Instr::Const(Val::I64(v)) => W::I64Const(*v),
            Instr::Const(Val::F32(v)) => W::F32Const(we::Ieee32::new(v.0)),
            Instr::Const(Val::F64(v)) => W::F64Const(we::Ieee64::new(v.0)),
            Instr::Load(op, m) => {
                let m = Self::memarg(*m);
                match op {
                    LoadOp::I32Load => W::I32Load(m),
                    LoadOp::I64Load => W::I64Load(m),
                    LoadOp::F32Load => W::F32Load(m),
                    LoadOp::F64Load => W::F64Load(m),
                    LoadOp::I32Load8S => W::I32Load8S(m),
                    LoadOp::I32Load8U => W::I32Load8U(m),
                    LoadOp::I32Load16S => W::I32Load16S(m),
                    LoadOp::I32Load16U => W::I32Load16U(m),
                    LoadOp::I64Load8S => W::I64Load8S(m),
                    LoadOp::I64Load8U => W::I64Load8U(m),
                    LoadOp::I64Load16S => W::I64Load16S(m),
                    LoadOp::I64Load16U => W::I64Load16U(m),
                    LoadOp::I64Load32S => W::I64Load32S(m),
                    LoadOp::I64Load32U => W::I64Load32U(m),
                }
            }
            Instr::Store(op, m) => {
                let m = Self::memarg(*m);
                match op {
                    StoreOp::I32Store => W::I32Store(m),
                    StoreOp::I64Store => W::I64Store(m),
                    StoreOp::F32Store => W::F32Store(m),
                    StoreOp::F64Store => W::F64Store(m),
                    StoreOp::I32Store8 => W::I32Store8(m),
                    StoreOp::I32Store16 => W::I32Store16(m),
                    StoreOp::I64Store8 => W::I64Store8(m),
                    StoreOp::I64Store16 => W::I64Store16(m),
                    StoreOp::I64Store32 => W::I64Store32(m),
                }
            }
            Instr::Unary(op) => match op {
                UnaryOp::I32Eqz => W::I32Eqz,
                UnaryOp::I64Eqz => W::I64Eqz,
                UnaryOp::I32Clz => W::I32Clz,
                UnaryOp::I32Ctz => W::I32Ctz,
                UnaryOp::I32Popcnt => W::I32Popcnt,
                UnaryOp::I64Clz => W::I64Clz,
                UnaryOp::I64Ctz => W::I64Ctz,
                UnaryOp::I64Popcnt => W::I64Popcnt,
                UnaryOp::F32Abs => W::F32Abs,
                UnaryOp::F32Neg => W::F32Neg,
                UnaryOp::F32Ceil => W::F32Ceil,
                UnaryOp::F32Floor => W::F32Floor,
                UnaryOp::F32Trunc => W::F32Trunc,
                UnaryOp::F32Nearest => W::F32Nearest,
                UnaryOp::F32Sqrt => W::F32Sqrt,
                UnaryOp::F64Abs => W::F64Abs,
                UnaryOp::F64Neg => W::F64Neg,
                UnaryOp::F64Ceil => W::F64Ceil,
                UnaryOp::F64Floor => W::F64Floor,
                UnaryOp::F64Trunc => W::F64Trunc,
                UnaryOp::F64Nearest => W::F64Nearest,
                UnaryOp::F64Sqrt => W::F64Sqrt,
                UnaryOp::I32WrapI64 => W::I32WrapI64,
                UnaryOp::I32TruncF32S => W::I32TruncF32S,
                UnaryOp::I32TruncF32U => W::I32TruncF32U,
                UnaryOp::I32TruncF64S => W::I32TruncF64S,
                UnaryOp::I32TruncF64U => W::I32TruncF64U,
                UnaryOp::I32TruncSatF32S => W::I32TruncSatF32S,
                UnaryOp::I32TruncSatF32U => W::I32TruncSatF32U,
                UnaryOp::I32TruncSatF64S => W::I32TruncSatF64S,
                UnaryOp::I32TruncSatF64U => W::I32TruncSatF64U,
                UnaryOp::I64ExtendI32S => W::I64ExtendI32S,
                UnaryOp::I64ExtendI32U => W::I64ExtendI32U,
                UnaryOp::I64TruncF32S => W::I64TruncF32S,
                UnaryOp::I64TruncF32U => W::I64TruncF32U,
                UnaryOp::I64TruncF64S => W::I64TruncF64S,
                UnaryOp::I64TruncF64U => W::I64TruncF64U,
                UnaryOp::I64TruncSatF32S => W::I64TruncSatF32S,
                UnaryOp::I64TruncSatF32U => W::I64TruncSatF32U,
                UnaryOp::I64TruncSatF64S => W::I64TruncSatF64S,
                UnaryOp::I64TruncSatF64U => W::I64TruncSatF64U,
                UnaryOp::F32ConvertI32S => W::F32ConvertI32S,
                UnaryOp::F32ConvertI32U => W::F32ConvertI32U,
                UnaryOp::F32ConvertI64S => W::F32ConvertI64S,
                UnaryOp::F32ConvertI64U => W::F32ConvertI64U,
                UnaryOp::F32DemoteF64 => W::F32DemoteF64,
                UnaryOp::F64ConvertI32S => W::F64ConvertI32S,
                UnaryOp::F64ConvertI32U => W::F64ConvertI32U,
                UnaryOp::F64ConvertI64S => W::F64ConvertI64S,
                UnaryOp::F64ConvertI64U => W::F64ConvertI64U,
                UnaryOp::F64PromoteF32 => W::F64PromoteF32,
                UnaryOp::I32ReinterpretF32 => W::I32ReinterpretF32,
                UnaryOp::I64ReinterpretF64 => W::I64ReinterpretF64,
                UnaryOp::F32ReinterpretI32 => W::F32ReinterpretI32,
                UnaryOp::F64ReinterpretI64 => W::F64ReinterpretI64,
                UnaryOp::I32Extend8S => W::I32Extend8S,
                UnaryOp::I32Extend16S => W::I32Extend16S,
                UnaryOp::I64Extend8S => W::I64Extend8S,
                UnaryOp::I64Extend16S => W::I64Extend16S,
                UnaryOp::I64Extend32S => W::I64Extend32S,
            },
            Instr::Binary(op) => match op {
                BinaryOp::I32Eq => W::I32Eq,
                BinaryOp::I32Ne => W::I32Ne,
                BinaryOp::I32LtS => W::I32LtS,
                BinaryOp::I32LtU => W::I32LtU,
                BinaryOp::I32GtS => W::I32GtS,
                BinaryOp::I32GtU => W::I32GtU,
                BinaryOp::I32LeS => W::I32LeS,
                BinaryOp::I32LeU => W::I32LeU,
                BinaryOp::I32GeS => W::I32GeS,
                BinaryOp::I32GeU => W::I32GeU,
                BinaryOp::I64Eq => W::I64Eq,
                BinaryOp::I64Ne => W::I64Ne,
                BinaryOp::I64LtS => W::I64LtS,
                BinaryOp::I64LtU => W::I64LtU,
                BinaryOp::I64GtS => W::I64GtS,
                BinaryOp::I64GtU => W::I64GtU,
                BinaryOp::I64LeS => W::I64LeS,
                BinaryOp::I64LeU => W::I64LeU,
                BinaryOp::I64GeS => W::I64GeS,
                BinaryOp::I64GeU => W::I64GeU,
                BinaryOp::F32Eq => W::F32Eq,
                BinaryOp::F32Ne => W::F32Ne,
                BinaryOp::F32Lt => W::F32Lt,
                BinaryOp::F32Gt => W::F32Gt,
                BinaryOp::F32Le => W::F32Le,
                BinaryOp::F32Ge => W::F32Ge,
                BinaryOp::F64Eq => W::F64Eq,
                BinaryOp::F64Ne => W::F64Ne,
                BinaryOp::F64Lt => W::F64Lt,
                BinaryOp::F64Gt => W::F64Gt,
                BinaryOp::F64Le => W::F64Le,
                BinaryOp::F64Ge => W::F64Ge,
                BinaryOp::I32Add => W::I32Add,
                BinaryOp::I32Sub => W::I32Sub,
                BinaryOp::I32Mul => W::I32Mul,
                BinaryOp::I32DivS => W::I32DivS,
                BinaryOp::I32DivU => W::I32DivU,
                BinaryOp::I32RemS => W::I32RemS,
                BinaryOp::I32RemU => W::I32RemU,
                BinaryOp::I32And => W::I32And,
                BinaryOp::I32Or => W::I32Or,
                BinaryOp::I32Xor => W::I32Xor,
                BinaryOp::I32Shl => W::I32Shl,
                BinaryOp::I32ShrS => W::I32ShrS,
                BinaryOp::I32ShrU => W::I32ShrU,
                BinaryOp::I32Rotl => W::I32Rotl,
                BinaryOp::I32Rotr => W::I32Rotr,
                BinaryOp::I64Add => W::I64Add,
                BinaryOp::I64Sub => W::I64Sub,
                BinaryOp::I64Mul => W::I64Mul,
                BinaryOp::I64DivS => W::I64DivS,
                BinaryOp::I64DivU => W::I64DivU,
                BinaryOp::I64RemS => W::I64RemS,
                BinaryOp::I64RemU => W::I64RemU,
                BinaryOp::I64And => W::I64And,
                BinaryOp::I64Or => W::I64Or,
                BinaryOp::I64Xor => W::I64Xor,
                BinaryOp::I64Shl => W::I64Shl,
                BinaryOp::I64ShrS => W::I64ShrS,
                BinaryOp::I64ShrU => W::I64ShrU,
                BinaryOp::I64Rotl => W::I64Rotl,
                BinaryOp::I64Rotr => W::I64Rotr,
                BinaryOp::F32Add => W::F32Add,
                BinaryOp::F32Sub => W::F32Sub,
                BinaryOp::F32Mul => W::F32Mul,
                BinaryOp::F32Div => W::F32Div,
                BinaryOp::F32Min => W::F32Min,
                BinaryOp::F32Max => W::F32Max,
                BinaryOp::F32Copysign => W::F32Copysign,
                BinaryOp::F64Add => W::F64Add,
                BinaryOp::F64Sub => W::F64Sub,
                BinaryOp::F64Mul => W::F64Mul,
                BinaryOp::F64Div => W::F64Div,
                BinaryOp::F64Min => W::F64Min,
                BinaryOp::F64Max => W::F64Max,
                BinaryOp::F64Copysign => W::F64Copysign,
            },
        })
    }
}

pub fn encode(m: &Module) -> Res<Vec<u8>> {
    let mut s = State {
        types: vec![],
        functions: renumber(m.functions.iter().map(|f| f.code().is_none())),
        tables: renumber(m.tables.iter().map(|t| t.import.is_some())),
        memories: renumber(m.memories.iter().map(|t| t.import.is_some())),
        globals: renumber(m.globals.iter().map(|g| matches!(g.init, ImportOrPresent::Import(..)))),
        elements: m.elements.len(),
        datas: m.datas.len(),
    };

    let mut imports = we::ImportSection::new();
    let mut functions = we::FunctionSection::new();
    let mut tables = we::TableSection::new();
    let mut memories = we::MemorySection::new();
    let mut globals = we::GlobalSection::new();
    let mut exports = we::ExportSection::new();
    let mut elements = we::ElementSection::new();
    let mut code = we::CodeSection::new();
    let mut data = we::DataSection::new();

    for (i, f) in m.functions.iter().enumerate() {
        let t = s.ty(f.type_);
        match &f.code {
            ImportOrPresent::Import(module, name) => {
                imports.import(module, name, we::EntityType::Function(t));
            }
            ImportOrPresent::Present(c) => {
                functions.function(t);
                let mut fun = we::Function::new_with_locals_types(c.locals.iter().map(|l| val_type(l.type_)));
                for ins in &c.body {
                    let e = s.instr(ins)?;
                    fun.instruction(&e);
                }
                code.function(&fun);
            }
        }
        for e in &f.export {
            exports.export(e, we::ExportKind::Func, s.functions[i]);
        }
    }
    for (i, t) in m.tables.iter().enumerate() {
        let ty = we::TableType {
            element_type: ref_type(t.ref_type),
            table64: false,
            minimum: t.limits.initial_size.into(),
            maximum: t.limits.max_size.map(Into::into),
            shared: false,
        };
        match &t.import {
            Some((module, name)) => {
                imports.import(module, name, ty);
            }
            None => {
                tables.table(ty);
            }
        }
        for e in &t.export {
            exports.export(e, we::ExportKind::Table, s.tables[i]);
        }
    }
    for (i, t) in m.memories.iter().enumerate() {
        let ty = we::MemoryType {
            minimum: t.limits.initial_size.into(),
            maximum: t.limits.max_size.map(Into::into),
            memory64: false,
            shared: false,
            page_size_log2: None,
        };
        match &t.import {
            Some((module, name)) => {
                imports.import(module, name, ty);
            }
            None => {
                memories.memory(ty);
            }
        }
        for e in &t.export {
            exports.export(e, we::ExportKind::Memory, s.memories[i]);
        }
    }
    for (i, g) in m.globals.iter().enumerate() {
        let ty = we::GlobalType {
            val_type: val_type(g.type_.0),
            mutable: g.type_.1 == Mutability::Mut,
            shared: false,
        };
        match &g.init {
            ImportOrPresent::Import(module, name) => {
                imports.import(module, name, ty);
            }
            ImportOrPresent::Present(init) => {
                let init = s.const_expr(init)?;
                globals.global(ty, &init);
            }
        }
        for e in &g.export {
            exports.export(e, we::ExportKind::Global, s.globals[i]);
        }
    }
    for e in &m.elements {
        let init = e.init.iter().map(|x| s.const_expr(x)).collect::<Res<Vec<_>>>()?;
        let items = we::Elements::Expressions(ref_type(e.typ), init.into());
        match &e.mode {
            ElementMode::Passive => {
                elements.passive(items);
            }
            ElementMode::Declarative => {
                elements.declared(items);
            }
            ElementMode::Active { table, offset } => {
                let offset = s.const_expr(offset)?;
                let t = s.table(*table)?;
                elements.active(if t == 0 { None } else { Some(t) }, &offset, items);
            }
        }
    }
    for d in &m.datas {
        match &d.mode {
            DataMode::Passive => {
                data.passive(d.init.iter().copied());
            }
            DataMode::Active { memory, offset } => {
                let offset = s.const_expr(offset)?;
                data.active(s.memory(*memory)?, &offset, d.init.iter().copied());
            }
        }
    }

    let mut types = we::TypeSection::new();
    for t in &s.types {
        types.ty().function(
            t.inputs().iter().map(|t| val_type(*t)),
            t.results().iter().map(|t| val_type(*t)),
        );
    }

    let mut out = we::Module::new();
    out.section(&types).section(&imports).section(&functions).section(&tables).section(&memories);
    out.section(&globals).section(&exports);
    if let Some(f) = m.start {
        out.section(&we::StartSection { function_index: s.function(f)? });
    }
    out.section(&elements);
    if !m.datas.is_empty() {
        out.section(&we::DataCountSection { count: m.datas.len() as u32 });
    }
    out.section(&code);
    if !m.datas.is_empty() {
        out.section(&data);
    }
    for (name, bytes) in &m.custom_sections {
        out.section(&we::CustomSection { name: name.into(), data: bytes.into() });
    }
    Ok(out.finish())
}
