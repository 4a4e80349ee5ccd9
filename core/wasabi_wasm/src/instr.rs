//! Instructions. The operator lists are those of the WebAssembly core specification 2.0.

use crate::{Data, Element, Function, FunctionType, Global, Idx, Label, Local, Memory, RefType, Table, ValType};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum UnaryOp {
    I32Eqz,
    I64Eqz,
    I32Clz,
    I32Ctz,
    I32Popcnt,
    I64Clz,
    I64Ctz,
    I64Popcnt,
    F32Abs,
    F32Neg,
    F32Ceil,
    F32Floor,
    F32Trunc,
    F32Nearest,
    F32Sqrt,
    F64Abs,
    F64Neg,
    F64Ceil,
    F64Floor,
    F64Trunc,
    F64Nearest,
    F64Sqrt,
    I32WrapI64,
    I32TruncF32S,
    I32TruncF32U,
    I32TruncF64S,
    I32TruncF64U,
    I32TruncSatF32S,
    I32TruncSatF32U,
    I32TruncSatF64S,
    I32TruncSatF64U,
    I64ExtendI32S,
    I64ExtendI32U,
    I64TruncF32S,
    I64TruncF32U,
    I64TruncF64S,
    I64TruncF64U,
    I64TruncSatF32S,
    I64TruncSatF32U,
    I64TruncSatF64S,
    I64TruncSatF64U,
    F32ConvertI32S,
    F32ConvertI32U,
    F32ConvertI64S,
    F32ConvertI64U,
    F32DemoteF64,
    F64ConvertI32S,
    F64ConvertI32U,
    F64ConvertI64S,
    F64ConvertI64U,
    F64PromoteF32,
    I32ReinterpretF32,
    I64ReinterpretF64,
    F32ReinterpretI32,
    F64ReinterpretI64,
    I32Extend8S,
    I32Extend16S,
    I64Extend8S,
    I64Extend16S,
    I64Extend32S,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum BinaryOp {
    I32Eq,
    I32Ne,
    I32LtS,
    I32LtU,
    I32GtS,
    I32GtU,
    I32LeS,
    I32LeU,
    I32GeS,
    I32GeU,
    I64Eq,
    I64Ne,
    I64LtS,
    I64LtU,
    I64GtS,
    I64GtU,
    I64LeS,
    I64LeU,
    I64GeS,
    I64GeU,
    F32Eq,
    F32Ne,
    F32Lt,
    F32Gt,
    F32Le,
    F32Ge,
    F64Eq,
    F64Ne,
    F64Lt,
    F64Gt,
    F64Le,
    F64Ge,
    I32Add,
    I32Sub,
    I32Mul,
    I32DivS,
    I32DivU,
    I32RemS,
    I32RemU,
    I32And,
    I32Or,
    I32Xor,
    I32Shl,
    I32ShrS,
    I32ShrU,
    I32Rotl,
    I32Rotr,
    I64Add,
    I64Sub,
    I64Mul,
    I64DivS,
    I64DivU,
    I64RemS,
    I64RemU,
    I64And,
    I64Or,
    I64Xor,
    I64Shl,
    I64ShrS,
    I64ShrU,
    I64Rotl,
    I64Rotr,
    F32Add,
    F32Sub,
    F32Mul,
    F32Div,
    F32Min,
    F32Max,
    F32Copysign,
    F64Add,
    F64Sub,
    F64Mul,
    F64Div,
    F64Min,
    F64Max,
    F64Copysign,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum LoadOp {
    I32Load,
    I64Load,
    F32Load,
    F64Load,
    I32Load8S,
    I32Load8U,
    I32Load16S,
    I32Load16U,
    I64Load8S,
    I64Load8U,
    I64Load16S,
    I64Load16U,
    I64Load32S,
    I64Load32U,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum StoreOp {
    I32Store,
    I64Store,
    F32Store,
    F64Store,
    I32Store8,
    I32Store16,
    I64Store8,
    I64Store16,
    I64Store32,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum LocalOp {
    Get,
    Set,
    Tee,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum GlobalOp {
    Get,
    Set,
}

impl UnaryOp {
    pub fn to_types(self) -> (ValType, ValType) {
        use UnaryOp::*;
        match self {
            I32Eqz | I32Clz | I32Ctz | I32Popcnt | I32Extend8S | I32Extend16S => (ValType::I32, ValType::I32),
            I64Eqz | I32WrapI64 => (ValType::I64, ValType::I32),
            I64Clz | I64Ctz | I64Popcnt | I64Extend8S | I64Extend16S | I64Extend32S => (ValType::I64, ValType::I64),
            F32Abs | F32Neg | F32Ceil | F32Floor | F32Trunc | F32Nearest | F32Sqrt => (ValType::F32, ValType::F32),
            F64Abs | F64Neg | F64Ceil | F64Floor | F64Trunc | F64Nearest | F64Sqrt => (ValType::F64, ValType::F64),
            I32TruncF32S | I32TruncF32U | I32TruncSatF32S | I32TruncSatF32U | I32ReinterpretF32 => (ValType::F32, ValType::I32),
            I32TruncF64S | I32TruncF64U | I32TruncSatF64S | I32TruncSatF64U => (ValType::F64, ValType::I32),
            I64ExtendI32S | I64ExtendI32U => (ValType::I32, ValType::I64),
            I64TruncF32S | I64TruncF32U | I64TruncSatF32S | I64TruncSatF32U => (ValType::F32, ValType::I64),
            I64TruncF64S | I64TruncF64U | I64TruncSatF64S | I64TruncSatF64U | I64ReinterpretF64 => (ValType::F64, ValType::I64),
            F32ConvertI32S | F32ConvertI32U | F32ReinterpretI32 => (ValType::I32, ValType::F32),
            F32ConvertI64S | F32ConvertI64U => (ValType::I64, ValType::F32),
            F32DemoteF64 => (ValType::F64, ValType::F32),
            F64ConvertI32S | F64ConvertI32U => (ValType::I32, ValType::F64),
            F64ConvertI64S | F64ConvertI64U | F64ReinterpretI64 => (ValType::I64, ValType::F64),
            F64PromoteF32 => (ValType::F32, ValType::F64),
        }
    }
}

impl BinaryOp {
    pub fn to_types(self) -> (ValType, ValType) {
        use BinaryOp::*;
        match self {
            I32Eq | I32Ne | I32LtS | I32LtU | I32GtS | I32GtU | I32LeS | I32LeU | I32GeS | I32GeU | I32Add | I32Sub | I32Mul | I32DivS | I32DivU | I32RemS | I32RemU | I32And | I32Or | I32Xor | I32Shl | I32ShrS | I32ShrU | I32Rotl | I32Rotr => (ValType::I32, ValType::I32),
            I64Eq | I64Ne | I64LtS | I64LtU | I64GtS | I64GtU | I64LeS | I64LeU | I64GeS | I64GeU => (ValType::I64, ValType::I32),
            F32Eq | F32Ne | F32Lt | F32Gt | F32Le | F32Ge => (ValType::F32, ValType::I32),
            F64Eq | F64Ne | F64Lt | F64Gt | F64Le | F64Ge => (ValType::F64, ValType::I32),
            I64Add | I64Sub | I64Mul | I64DivS | I64DivU | I64RemS | I64RemU | I64And | I64Or | I64Xor | I64Shl | I64ShrS | I64ShrU | I64Rotl | I64Rotr => (ValType::I64, ValType::I64),
            F32Add | F32Sub | F32Mul | F32Div | F32Min | F32Max | F32Copysign => (ValType::F32, ValType::F32),
            F64Add | F64Sub | F64Mul | F64Div | F64Min | F64Max | F64Copysign => (ValType::F64, ValType::F64),
        }
    }
}

impl UnaryOp {
    pub fn to_type(self) -> FunctionType {
        let (i, o) = self.to_types();
        FunctionType::new(&[i], &[o])
    }
}
impl BinaryOp {
    pub fn to_type(self) -> FunctionType {
        let (i, o) = self.to_types();
        FunctionType::new(&[i, i], &[o])
    }
}

impl LoadOp {
    pub fn val_type(self) -> ValType {
        use LoadOp::*;
        match self {
            I32Load | I32Load8S | I32Load8U | I32Load16S | I32Load16U => ValType::I32,
            I64Load | I64Load8S | I64Load8U | I64Load16S | I64Load16U | I64Load32S | I64Load32U => ValType::I64,
            F32Load => ValType::F32,
            F64Load => ValType::F64,
        }
    }
}

impl StoreOp {
    pub fn val_type(self) -> ValType {
        use StoreOp::*;
        match self {
            I32Store | I32Store8 | I32Store16 => ValType::I32,
            I64Store | I64Store8 | I64Store16 | I64Store32 => ValType::I64,
            F32Store => ValType::F32,
            F64Store => ValType::F64,
        }
    }
}

pub trait MemoryOp {
    fn natural_alignment_exp(self) -> u8;
}

impl MemoryOp for LoadOp {
    fn natural_alignment_exp(self) -> u8 {
        use LoadOp::*;
        match self {
            I32Load | F32Load | I64Load32S | I64Load32U => 2,
            I64Load | F64Load => 3,
            I32Load8S | I32Load8U | I64Load8S | I64Load8U => 0,
            I32Load16S | I32Load16U | I64Load16S | I64Load16U => 1,
        }
    }
}

impl MemoryOp for StoreOp {
    fn natural_alignment_exp(self) -> u8 {
        use StoreOp::*;
        match self {
            I32Store | F32Store | I64Store32 => 2,
            I64Store | F64Store => 3,
            I32Store8 | I64Store8 => 0,
            I32Store16 | I64Store16 => 1,
        }
    }
}


#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Memarg {
    pub alignment_exp: u8,
    pub offset: u32,
}

impl Memarg {
    pub fn default(op: impl MemoryOp) -> Self {
        Memarg { alignment_exp: op.natural_alignment_exp(), offset: 0 }
    }
}

/// Bit patterns, so that values compare and hash exactly.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct F32(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct F64(pub u64);
impl From<f32> for F32 {
    fn from(v: f32) -> Self {
        F32(v.to_bits())
    }
}
impl From<f64> for F64 {
    fn from(v: f64) -> Self {
        F64(v.to_bits())
    }
}
impl std::fmt::Debug for F32 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", f32::from_bits(self.0))
    }
}
impl std::fmt::Debug for F64 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", f64::from_bits(self.0))
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
    I32(i32),
    I64(i64),
    F32(F32),
    F64(F64),
}

impl Val {
    pub fn to_type(self) -> ValType {
        match self {
            Val::I32(_) => ValType::I32,
            Val::I64(_) => ValType::I64,
            Val::F32(_) => ValType::F32,
            Val::F64(_) => ValType::F64,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Instr {
    Unreachable,
    Nop,

    Block(FunctionType),
    Loop(FunctionType),
    If(FunctionType),
    Else,
    End,

    Br(Label),
    BrIf(Label),
    BrTable { table: Box<[Label]>, default: Label },

    Return,
    Call(Idx<Function>),
    CallIndirect(FunctionType, Idx<Table>),

    RefNull(RefType),
    RefIsNull,
    RefFunc(Idx<Function>),

    Drop,
    Select,
    TypedSelect(ValType),

    Local(LocalOp, Idx<Local>),
    Global(GlobalOp, Idx<Global>),

    TableGet(Idx<Table>),
    TableSet(Idx<Table>),
    TableSize(Idx<Table>),
    TableGrow(Idx<Table>),
    TableFill(Idx<Table>),
    TableCopy(Idx<Table>, Idx<Table>),
    TableInit(Idx<Table>, Idx<Element>),
    ElemDrop(Idx<Element>),

    Load(LoadOp, Memarg),
    Store(StoreOp, Memarg),

    MemorySize(Idx<Memory>),
    MemoryGrow(Idx<Memory>),
    MemoryFill,
    MemoryCopy,
    MemoryInit(Idx<Data>),
    DataDrop(Idx<Data>),

    Const(Val),
    Unary(UnaryOp),
    Binary(BinaryOp),
}
