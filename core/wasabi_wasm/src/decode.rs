//! Decoding of a binary module.

use crate::*;
use wasmparser as wp;

fn err<T>(m: impl std::fmt::Display) -> Result<T, ParseError> {
    Err(ParseError { message: m.to_string() })
}

impl From<wp::BinaryReaderError> for ParseError {
    fn from(e: wp::BinaryReaderError) -> Self {
        ParseError { message: e.to_string() }
    }
}

fn ref_type(t: wp::RefType) -> Result<RefType, ParseError> {
    if t == wp::RefType::FUNCREF {
        Ok(RefType::FuncRef)
    } else if t == wp::RefType::EXTERNREF {
        Ok(RefType::ExternRef)
    } else {
        err("unsupported reference type")
    }
}

fn heap_type(t: wp::HeapType) -> Result<RefType, ParseError> {
    if t == wp::HeapType::FUNC {
        Ok(RefType::FuncRef)
    } else if t == wp::HeapType::EXTERN {
        Ok(RefType::ExternRef)
    } else {
        err("unsupported heap type")
    }
}

fn val_type(t: wp::ValType) -> Result<ValType, ParseError> {
    Ok(match t {
        wp::ValType::I32 => ValType::I32,
        wp::ValType::I64 => ValType::I64,
        wp::ValType::F32 => ValType::F32,
        wp::ValType::F64 => ValType::F64,
        wp::ValType::Ref(r) => ValType::Ref(ref_type(r)?),
        wp::ValType::V128 => return err("unsupported type v128"),
    })
}

fn u32_of(v: u64) -> Result<u32, ParseError> {
    u32::try_from(v).map_err(|_| ParseError { message: "64-bit limits or offsets are not supported".into() })
}

fn table_type(t: &wp::TableType) -> Result<(Limits, RefType), ParseError> {
    if t.table64 || t.shared {
        return err("unsupported table type");
    }
    Ok((
        Limits { initial_size: u32_of(t.initial)?, max_size: t.maximum.map(u32_of).transpose()? },
        ref_type(t.element_type)?,
    ))
}

fn memory_type(t: &wp::MemoryType) -> Result<Limits, ParseError> {
    if t.memory64 || t.shared || t.page_size_log2.is_some() {
        return err("unsupported memory type");
    }
    Ok(Limits { initial_size: u32_of(t.initial)?, max_size: t.maximum.map(u32_of).transpose()? })
}

fn global_type(t: &wp::GlobalType) -> Result<GlobalType, ParseError> {
    if t.shared {
        return err("unsupported global type");
    }
    Ok(GlobalType(
        val_type(t.content_type)?,
        if t.mutable { Mutability::Mut } else { Mutability::Const },
    ))
}

fn expr(types: &[FunctionType], mut r: wp::OperatorsReader<'_>) -> Result<Vec<Instr>, ParseError> {
    let mut out = vec![];
    while !r.eof() {
        out.push(instr(types, r.read()?)?);
    }
    Ok(out)
}

pub fn decode(bytes: &[u8]) -> Result<Module, ParseError> {
    // Anything outside WebAssembly 2.0 without SIMD, or not valid, is refused here.
    let features = wp::WasmFeatures::MUTABLE_GLOBAL
        | wp::WasmFeatures::SATURATING_FLOAT_TO_INT
        | wp::WasmFeatures::SIGN_EXTENSION
        | wp::WasmFeatures::MULTI_VALUE
        | wp::WasmFeatures::BULK_MEMORY
        | wp::WasmFeatures::REFERENCE_TYPES
        | wp::WasmFeatures::FLOATS
        | wp::WasmFeatures::GC_TYPES;
    wp::Validator::new_with_features(features).validate_all(bytes)?;

    let mut m = Module::new();
    let mut types: Vec<FunctionType> = vec![];
    let mut declared: Vec<FunctionType> = vec![];
    let mut bodies = 0usize;
    let ty = |types: &[FunctionType], i: u32| -> Result<FunctionType, ParseError> {
        types.get(i as usize).copied().ok_or(ParseError { message: "unknown type".into() })
    };
    for payload in wp::Parser::new(0).parse_all(bytes) {
        use wp::Payload::*;
        match payload? {
            TypeSection(r) => {
                for t in r.into_iter_err_on_gc_types() {
                    let t = t?;
                    let conv = |ts: &[wp::ValType]| ts.iter().map(|t| val_type(*t)).collect::<Result<Vec<_>, _>>();
                    types.push(FunctionType::new(&conv(t.params())?, &conv(t.results())?));
                }
            }
            ImportSection(r) => {
                for i in r {
                    let i = i?;
                    let import = (i.module.to_string(), i.name.to_string());
                    match i.ty {
                        wp::TypeRef::Func(t) => m.functions.push(Function::new_imported(
                            ty(&types, t)?, import.0, import.1, vec![],
                        )),
                        wp::TypeRef::Table(t) => {
                            let (limits, ref_type) = table_type(&t)?;
                            m.tables.push(Table { limits, import: Some(import), ref_type, export: vec![] });
                        }
                        wp::TypeRef::Memory(t) => m.memories.push(Memory {
                            limits: memory_type(&t)?, import: Some(import), export: vec![],
                        }),
                        wp::TypeRef::Global(t) => m.globals.push(Global {
                            type_: global_type(&t)?,
                            init: ImportOrPresent::Import(import.0, import.1),
                            export: vec![],
                        }),
                        _ => return err("unsupported import"),
                    }
                }
            }
            FunctionSection(r) => {
                for f in r {
                    declared.push(ty(&types, f?)?);
                }
                for t in &declared {
                    m.functions.push(Function::new(*t, Code::new(), vec![]));
                }
            }
            TableSection(r) => {
                for t in r {
                    let t = t?;
                    let (limits, ref_type) = table_type(&t.ty)?;
                    if !matches!(t.init, wp::TableInit::RefNull) {
                        return err("unsupported table initialiser");
                    }
                    m.tables.push(Table { limits, import: None, ref_type, export: vec![] });
                }
            }
            MemorySection(r) => {
                for t in r {
                    m.memories.push(Memory { limits: memory_type(&t?)?, import: None, export: vec![] });
                }
            }
            GlobalSection(r) => {
                for g in r {
                    let g = g?;
                    m.globals.push(Global {
                        type_: global_type(&g.ty)?,
                        init: ImportOrPresent::Present(expr(&types, g.init_expr.get_operators_reader())?),
                        export: vec![],
                    });
                }
            }
            ExportSection(r) => {
                for e in r {
                    let e = e?;
                    let i = e.index as usize;
                    let list = match e.kind {
                        wp::ExternalKind::Func => m.functions.get_mut(i).map(|x| &mut x.export),
                        wp::ExternalKind::Table => m.tables.get_mut(i).map(|x| &mut x.export),
                        wp::ExternalKind::Memory => m.memories.get_mut(i).map(|x| &mut x.export),
                        wp::ExternalKind::Global => m.globals.get_mut(i).map(|x| &mut x.export),
                        _ => None,
                    };
                    match list {
                        Some(l) => l.push(e.name.to_string()),
                        None => return err("unsupported export"),
                    }
                }
            }
            StartSection { func, .. } => m.start = Some(func.into()),
            ElementSection(r) => {
                for e in r {
                    let e = e?;
                    let mut init = vec![];
                    let typ = match e.items {
                        wp::ElementItems::Functions(fs) => {
                            for f in fs {
                                init.push(vec![Instr::RefFunc(f?.into()), Instr::End]);
                            }
                            RefType::FuncRef
                        }
                        wp::ElementItems::Expressions(t, es) => {
                            for x in es {
                                init.push(expr(&types, x?.get_operators_reader())?);
                            }
                            ref_type(t)?
                        }
                    };
                    let mode = match e.kind {
                        wp::ElementKind::Passive => ElementMode::Passive,
                        wp::ElementKind::Declared => ElementMode::Declarative,
                        wp::ElementKind::Active { table_index, offset_expr } => ElementMode::Active {
                            table: table_index.unwrap_or(0).into(),
                            offset: expr(&types, offset_expr.get_operators_reader())?,
                        },
                    };
                    m.elements.push(Element { typ, init, mode });
                }
            }
            DataSection(r) => {
                for d in r {
                    let d = d?;
                    let mode = match d.kind {
                        wp::DataKind::Passive => DataMode::Passive,
                        wp::DataKind::Active { memory_index, offset_expr } => DataMode::Active {
                            memory: memory_index.into(),
                            offset: expr(&types, offset_expr.get_operators_reader())?,
                        },
                    };
                    m.datas.push(Data { init: d.data.to_vec(), mode });
                }
            }
            CodeSectionEntry(body) => {
                let index = m.functions.len() - declared.len() + bodies;
                bodies += 1;
                let mut locals = vec![];
                for l in body.get_locals_reader()? {
                    let (n, t) = l?;
                    if locals.len() + n as usize > 50_000 {
                        return err("too many locals");
                    }
                    let t = val_type(t)?;
                    locals.extend((0..n).map(|_| Local::new(t)));
                }
                let code = Code { locals, body: expr(&types, body.get_operators_reader()?)? };
                m.functions[index].code = ImportOrPresent::Present(code);
            }
            CustomSection(c) => {
                if c.name() != "name" {
                    m.custom_sections.push((c.name().to_string(), c.data().to_vec()));
                }
            }
            TagSection(_) => return err("unsupported section"),
            _ => {}
        }
    }
    Ok(m)
}

fn block_type(types: &[FunctionType], t: wp::BlockType) -> Result<FunctionType, ParseError> {
    Ok(match t {
        wp::BlockType::Empty => FunctionType::empty(),
        wp::BlockType::Type(t) => FunctionType::new(&[], &[val_type(t)?]),
        wp::BlockType::FuncType(i) => match types.get(i as usize) {
            Some(t) => *t,
            None => return err("unknown block type"),
        },
    })
}

fn memarg(m: wp::MemArg) -> Result<Memarg, ParseError> {
    if m.memory != 0 {
        return err("unsupported memory index");
    }
    Ok(Memarg { alignment_exp: m.align, offset: u32_of(m.offset)? })
}

fn instr(types: &[FunctionType], op: wp::Operator<'_>) -> Result<Instr, ParseError> {
    use wp::Operator as O;
    use Instr::*;
    Ok(match op {
        O::Unreachable => Unreachable,
        O::Nop => Nop,
        O::Block { blockty } => Block(block_type(types, blockty)?),
        O::Loop { blockty } => Loop(block_type(types, blockty)?),
        O::If { blockty } => If(block_type(types, blockty)?),
        O::Else => Else,
        O::End => End,
        O::Br { relative_depth } => Br(relative_depth.into()),
        O::BrIf { relative_depth } => BrIf(relative_depth.into()),
        O::BrTable { targets } => BrTable {
            default: targets.default().into(),
            table: targets.targets().map(|t| t.map(Into::into)).collect::<Result<Vec<_>, _>>()?.into(),
        },
        O::Return => Return,
        O::Call { function_index } => Call(function_index.into()),
        O::CallIndirect { type_index, table_index } => match types.get(type_index as usize) {
            Some(t) => CallIndirect(*t, table_index.into()),
            None => return err("unknown type"),
        },
        O::RefNull { hty } => RefNull(heap_type(hty)?),
        O::RefIsNull => RefIsNull,
        O::RefFunc { function_index } => RefFunc(function_index.into()),
        O::Drop => Drop,
        O::Select => Select,
        O::TypedSelect { ty } => TypedSelect(val_type(ty)?),
        O::LocalGet { local_index } => Local(LocalOp::Get, local_index.into()),
        O::LocalSet { local_index } => Local(LocalOp::Set, local_index.into()),
        O::LocalTee { local_index } => Local(LocalOp::Tee, local_index.into()),
        O::GlobalGet { global_index } => Global(GlobalOp::Get, global_index.into()),
        O::GlobalSet { global_index } => Global(GlobalOp::Set, global_index.into()),
        O::TableGet { table } => TableGet(table.into()),
        O::TableSet { table } => TableSet(table.into()),
        O::TableSize { table } => TableSize(table.into()),
        O::TableGrow { table } => TableGrow(table.into()),
        O::TableFill { table } => TableFill(table.into()),
        O::TableCopy { dst_table, src_table } => TableCopy(dst_table.into(), src_table.into()),
        O::TableInit { elem_index, table } => TableInit(table.into(), elem_index.into()),
        O::ElemDrop { elem_index } => ElemDrop(elem_index.into()),
        O::MemorySize { mem } => MemorySize(mem.into()),
        O::MemoryGrow { mem } => MemoryGrow(mem.into()),
        O::MemoryFill { .. } => MemoryFill,
        O::MemoryCopy { .. } => MemoryCopy,
        O::MemoryInit { data_index, .. } => MemoryInit(data_index.into()),
        O::DataDrop { data_index } => DataDrop(data_index.into()),
        O::I32Const { value } => Const(Val::I32(value)),
        O::I64Const { value } => Const(Val::I64(value)),
        O::F32Const { value } => Const(Val::F32(F32(value.bits()))),
        O::F64Const { value } => Const(Val::F64(F64(value.bits()))),
        O::I32Load { memarg: m } => Load(LoadOp::I32Load, memarg(m)?),
        O::I64Load { memarg: m } => Load(LoadOp::I64Load, memarg(m)?),
        O::F32Load { memarg: m } => Load(LoadOp::F32Load, memarg(m)?),
        O::F64Load { memarg: m } => Load(LoadOp::F64Load, memarg(m)?),
        O::I32Load8S { memarg: m } => Load(LoadOp::I32Load8S, memarg(m)?),
        O::I32Load8U { memarg: m } => Load(LoadOp::I32Load8U, memarg(m)?),
        O::I32Load16S { memarg: m } => Load(LoadOp::I32Load16S, memarg(m)?),
        O::I32Load16U { memarg: m } => Load(LoadOp::I32Load16U, memarg(m)?),
        O::I64Load8S { memarg: m } => Load(LoadOp::I64Load8S, memarg(m)?),
        O::I64Load8U { memarg: m } => Load(LoadOp::I64Load8U, memarg(m)?),
        O::I64Load16S { memarg: m } => Load(LoadOp::I64Load16S, memarg(m)?),
        O::I64Load16U { memarg: m } => Load(LoadOp::I64Load16U, memarg(m)?),
        O::I64Load32S { memarg: m } => Load(LoadOp::I64Load32S, memarg(m)?),
        O::I64Load32U { memarg: m } => Load(LoadOp::I64Load32U, memarg(m)?),
        O::I32Store { memarg: m } => Store(StoreOp::I32Store, memarg(m)?),
        O::I64Store { memarg: m } => Store(StoreOp::I64Store, memarg(m)?),
        O::F32Store { memarg: m } => Store(StoreOp::F32Store, memarg(m)?),
        O::F64Store { memarg: m } => Store(StoreOp::F64Store, memarg(m)?),
        O::I32Store8 { memarg: m } => Store(StoreOp::I32Store8, memarg(m)?),
        O::I32Store16 { memarg: m } => Store(StoreOp::I32Store16, memarg(m)?),
        O::I64Store8 { memarg: m } => Store(StoreOp::I64Store8, memarg(m)?),
        O::I64Store16 { memarg: m } => Store(StoreOp::I64Store16, memarg(m)?),
        O::I64Store32 { memarg: m } => Store(StoreOp::I64Store32, memarg(m)?),
        O::I32Eqz => Unary(UnaryOp::I32Eqz),
        O::I64Eqz => Unary(UnaryOp::I64Eqz),
        O::I32Clz => Unary(UnaryOp::I32Clz),
        O::I32Ctz => Unary(UnaryOp::I32Ctz),
        O::I32Popcnt => Unary(UnaryOp::I32Popcnt),
        O::I64Clz => Unary(UnaryOp::I64Clz),
        O::I64Ctz => Unary(UnaryOp::I64Ctz),
        O::I64Popcnt => Unary(UnaryOp::I64Popcnt),
        O::F32Abs => Unary(UnaryOp::F32Abs),
        O::F32Neg => Unary(UnaryOp::F32Neg),
        O::F32Ceil => Unary(UnaryOp::F32Ceil),
        O::F32Floor => Unary(UnaryOp::F32Floor),
        O::F32Trunc => Unary(UnaryOp::F32Trunc),
        O::F32Nearest => Unary(UnaryOp::F32Nearest),
        O::F32Sqrt => Unary(UnaryOp::F32Sqrt),
        O::F64Abs => Unary(UnaryOp::F64Abs),
        O::F64Neg => Unary(UnaryOp::F64Neg),
        O::F64Ceil => Unary(UnaryOp::F64Ceil),
        O::F64Floor => Unary(UnaryOp::F64Floor),
        O::F64Trunc => Unary(UnaryOp::F64Trunc),
        O::F64Nearest => Unary(UnaryOp::F64Nearest),
        O::F64Sqrt => Unary(UnaryOp::F64Sqrt),
        O::I32WrapI64 => Unary(UnaryOp::I32WrapI64),
        O::I32TruncF32S => Unary(UnaryOp::I32TruncF32S),
        O::I32TruncF32U => Unary(UnaryOp::I32TruncF32U),
        O::I32TruncF64S => Unary(UnaryOp::I32TruncF64S),
        O::I32TruncF64U => Unary(UnaryOp::I32TruncF64U),
        O::I32TruncSatF32S => Unary(UnaryOp::I32TruncSatF32S),
        O::I32TruncSatF32U => Unary(UnaryOp::I32TruncSatF32U),
        O::I32TruncSatF64S => Unary(UnaryOp::I32TruncSatF64S),
        O::I32TruncSatF64U => Unary(UnaryOp::I32TruncSatF64U),
        O::I64ExtendI32S => Unary(UnaryOp::I64ExtendI32S),
        O::I64ExtendI32U => Unary(UnaryOp::I64ExtendI32U),
        O::I64TruncF32S => Unary(UnaryOp::I64TruncF32S),
        O::I64TruncF32U => Unary(UnaryOp::I64TruncF32U),
        O::I64TruncF64S => Unary(UnaryOp::I64TruncF64S),
        O::I64TruncF64U => Unary(UnaryOp::I64TruncF64U),
        O::I64TruncSatF32S => Unary(UnaryOp::I64TruncSatF32S),
        O::I64TruncSatF32U => Unary(UnaryOp::I64TruncSatF32U),
        O::I64TruncSatF64S => Unary(UnaryOp::I64TruncSatF64S),
        O::I64TruncSatF64U => Unary(UnaryOp::I64TruncSatF64U),
        O::F32ConvertI32S => Unary(UnaryOp::F32ConvertI32S),
        O::F32ConvertI32U => Unary(UnaryOp::F32ConvertI32U),
        O::F32ConvertI64S => Unary(UnaryOp::F32ConvertI64S),
        O::F32ConvertI64U => Unary(UnaryOp::F32ConvertI64U),
        O::F32DemoteF64 => Unary(UnaryOp::F32DemoteF64),
        O::F64ConvertI32S => Unary(UnaryOp::F64ConvertI32S),
        O::F64ConvertI32U => Unary(UnaryOp::F64ConvertI32U),
        O::F64ConvertI64S => Unary(UnaryOp::F64ConvertI64S),
        O::F64ConvertI64U => Unary(UnaryOp::F64ConvertI64U),
        O::F64PromoteF32 => Unary(UnaryOp::F64PromoteF32),
        O::I32ReinterpretF32 => Unary(UnaryOp::I32ReinterpretF32),
        O::I64ReinterpretF64 => Unary(UnaryOp::I64ReinterpretF64),
        O::F32ReinterpretI32 => Unary(UnaryOp::F32ReinterpretI32),
        O::F64ReinterpretI64 => Unary(UnaryOp::F64ReinterpretI64),
        O::I32Extend8S => Unary(UnaryOp::I32Extend8S),
        O::I32Extend16S => Unary(UnaryOp::I32Extend16S),
        O::I64Extend8S => Unary(UnaryOp::I64Extend8S),
        O::I64Extend16S => Unary(UnaryOp::I64Extend16S),
        O::I64Extend32S => Unary(UnaryOp::I64Extend32S),
        O::I32Eq => Binary(BinaryOp::I32Eq),
        O::I32Ne => Binary(BinaryOp::I32Ne),
        O::I32LtS => Binary(BinaryOp::I32LtS),
        O::I32LtU => Binary(BinaryOp::I32LtU),
        O::I32GtS => Binary(BinaryOp::I32GtS),
        O::I32GtU => Binary(BinaryOp::I32GtU),
        O::I32LeS => Binary(BinaryOp::I32LeS),
        O::I32LeU => Binary(BinaryOp::I32LeU),
        O::I32GeS => Binary(BinaryOp::I32GeS),
        O::I32GeU => Binary(BinaryOp::I32GeU),
        O::I64Eq => Binary(BinaryOp::I64Eq),
        O::I64Ne => Binary(BinaryOp::I64Ne),
        O::I64LtS => Binary(BinaryOp::I64LtS),
        O::I64LtU => Binary(BinaryOp::I64LtU),
        O::I64GtS => Binary(BinaryOp::I64GtS),
        O::I64GtU => Binary(BinaryOp::I64GtU),
        O::I64LeS => Binary(BinaryOp::I64LeS),
        O::I64LeU => Binary(BinaryOp::I64LeU),
        O::I64GeS => Binary(BinaryOp::I64GeS),
        O::I64GeU => Binary(BinaryOp::I64GeU),
        O::F32Eq => Binary(BinaryOp::F32Eq),
        O::F32Ne => Binary(BinaryOp::F32Ne),
        O::F32Lt => Binary(BinaryOp::F32Lt),
        O::F32Gt => Binary(BinaryOp::F32Gt),
        O::F32Le => Binary(BinaryOp::F32Le),
        O::F32Ge => Binary(BinaryOp::F32Ge),
        O::F64Eq => Binary(BinaryOp::F64Eq),
        O::F64Ne => Binary(BinaryOp::F64Ne),
        O::F64Lt => Binary(BinaryOp::F64Lt),
        O::F64Gt => Binary(BinaryOp::F64Gt),
        O::F64Le => Binary(BinaryOp::F64Le),
        O::F64Ge => Binary(BinaryOp::F64Ge),
        O::I32Add => Binary(BinaryOp::I32Add),
        O::I32Sub => Binary(BinaryOp::I32Sub),
        O::I32Mul => Binary(BinaryOp::I32Mul),
        O::I32DivS => Binary(BinaryOp::I32DivS),
        O::I32DivU => Binary(BinaryOp::I32DivU),
        O::I32RemS => Binary(BinaryOp::I32RemS),
        O::I32RemU => Binary(BinaryOp::I32RemU),
        O::I32And => Binary(BinaryOp::I32And),
        O::I32Or => Binary(BinaryOp::I32Or),
        O::I32Xor => Binary(BinaryOp::I32Xor),
        O::I32Shl => Binary(BinaryOp::I32Shl),
        O::I32ShrS => Binary(BinaryOp::I32ShrS),
        O::I32ShrU => Binary(BinaryOp::I32ShrU),
        O::I32Rotl => Binary(BinaryOp::I32Rotl),
        O::I32Rotr => Binary(BinaryOp::I32Rotr),
        O::I64Add => Binary(BinaryOp::I64Add),
        O::I64Sub => Binary(BinaryOp::I64Sub),
        O::I64Mul => Binary(BinaryOp::I64Mul),
        O::I64DivS => Binary(BinaryOp::I64DivS),
        O::I64DivU => Binary(BinaryOp::I64DivU),
        O::I64RemS => Binary(BinaryOp::I64RemS),
        O::I64RemU => Binary(BinaryOp::I64RemU),
        O::I64And => Binary(BinaryOp::I64And),
        O::I64Or => Binary(BinaryOp::I64Or),
        O::I64Xor => Binary(BinaryOp::I64Xor),
        O::I64Shl => Binary(BinaryOp::I64Shl),
        O::I64ShrS => Binary(BinaryOp::I64ShrS),
        O::I64ShrU => Binary(BinaryOp::I64ShrU),
        O::I64Rotl => Binary(BinaryOp::I64Rotl),
        O::I64Rotr => Binary(BinaryOp::I64Rotr),
        O::F32Add => Binary(BinaryOp::F32Add),
        O::F32Sub => Binary(BinaryOp::F32Sub),
        O::F32Mul => Binary(BinaryOp::F32Mul),
        O::F32Div => Binary(BinaryOp::F32Div),
        O::F32Min => Binary(BinaryOp::F32Min),
        O::F32Max => Binary(BinaryOp::F32Max),
        O::F32Copysign => Binary(BinaryOp::F32Copysign),
        O::F64Add => Binary(BinaryOp::F64Add),
        O::F64Sub => Binary(BinaryOp::F64Sub),
        O::F64Mul => Binary(BinaryOp::F64Mul),
        O::F64Div => Binary(BinaryOp::F64Div),
        O::F64Min => Binary(BinaryOp::F64Min),
        O::F64Max => Binary(BinaryOp::F64Max),
        O::F64Copysign => Binary(BinaryOp::F64Copysign),
        other => return err(format_args!("unsupported instruction {other:?}")),
    })
}
