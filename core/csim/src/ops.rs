//! Numeric operators: the WebAssembly core specification 2.0, with NaN results made canonical so
//! that every execution is deterministic. The numbers are those the analysis-side libraries decode.

use crate::wasm::{Trap, Ty, V};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Un {
    I32Eqz,
    I64Eqz,
    I32Clz,
    I32Ctz,
    I32Popcnt,
    I64Clz,
    I64Ctz,
    I64Popcnt,
    F32Abs,
    F32Neg,
    F32Ceil,
    F32Floor,
    F32Trunc,
    F32Nearest,
    F32Sqrt,
    F64Abs,
    F64Neg,
    F64Ceil,
    F64Floor,
    F64Trunc,
    F64Nearest,
    F64Sqrt,
    I32WrapI64,
    I32TruncF32S,
    I32TruncF32U,
    I32TruncF64S,
    I32TruncF64U,
    I32TruncSatF32S,
    I32TruncSatF32U,
    I32TruncSatF64S,
    I32TruncSatF64U,
    I64ExtendI32S,
    I64ExtendI32U,
    I64TruncF32S,
    I64TruncF32U,
    I64TruncF64S,
    I64TruncF64U,
    I64TruncSatF32S,
    I64TruncSatF32U,
    I64TruncSatF64S,
    I64TruncSatF64U,
    F32ConvertI32S,
    F32ConvertI32U,
    F32ConvertI64S,
    F32ConvertI64U,
    F32DemoteF64,
    F64ConvertI32S,
    F64ConvertI32U,
    F64ConvertI64S,
    F64ConvertI64U,
    F64PromoteF32,
    I32ReinterpretF32,
    I64ReinterpretF64,
    F32ReinterpretI32,
    F64ReinterpretI64,
    I32Extend8S,
    I32Extend16S,
    I64Extend8S,
    I64Extend16S,
    I64Extend32S,
}

pub const UN_ALL: [Un; 60] = [
    Un::I32Eqz,
    Un::I64Eqz,
    Un::I32Clz,
    Un::I32Ctz,
    Un::I32Popcnt,
    Un::I64Clz,
    Un::I64Ctz,
    Un::I64Popcnt,
    Un::F32Abs,
    Un::F32Neg,
    Un::F32Ceil,
    Un::F32Floor,
    Un::F32Trunc,
    Un::F32Nearest,
    Un::F32Sqrt,
    Un::F64Abs,
    Un::F64Neg,
    Un::F64Ceil,
    Un::F64Floor,
    Un::F64Trunc,
    Un::F64Nearest,
    Un::F64Sqrt,
    Un::I32WrapI64,
    Un::I32TruncF32S,
    Un::I32TruncF32U,
    Un::I32TruncF64S,
    Un::I32TruncF64U,
    Un::I32TruncSatF32S,
    Un::I32TruncSatF32U,
    Un::I32TruncSatF64S,
    Un::I32TruncSatF64U,
    Un::I64ExtendI32S,
    Un::I64ExtendI32U,
    Un::I64TruncF32S,
    Un::I64TruncF32U,
    Un::I64TruncF64S,
    Un::I64TruncF64U,
    Un::I64TruncSatF32S,
    Un::I64TruncSatF32U,
    Un::I64TruncSatF64S,
    Un::I64TruncSatF64U,
    Un::F32ConvertI32S,
    Un::F32ConvertI32U,
    Un::F32ConvertI64S,
    Un::F32ConvertI64U,
    Un::F32DemoteF64,
    Un::F64ConvertI32S,
    Un::F64ConvertI32U,
    Un::F64ConvertI64S,
    Un::F64ConvertI64U,
    Un::F64PromoteF32,
    Un::I32ReinterpretF32,
    Un::I64ReinterpretF64,
    Un::F32ReinterpretI32,
    Un::F64ReinterpretI64,
    Un::I32Extend8S,
    Un::I32Extend16S,
    Un::I64Extend8S,
    Un::I64Extend16S,
    Un::I64Extend32S,
];

impl Un {
    /// The number the analysis receives for this operator.
    pub fn id(self) -> i32 {
        self as i32 + 1
    }
    pub fn from_id(id: i32) -> Option<Un> {
        UN_ALL.get((id as usize).wrapping_sub(1)).copied()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Bi {
    I32Eq,
    I32Ne,
    I32LtS,
    I32LtU,
    I32GtS,
    I32GtU,
    I32LeS,
    I32LeU,
    I32GeS,
    I32GeU,
    I64Eq,
    I64Ne,
    I64LtS,
    I64LtU,
    I64GtS,
    I64GtU,
    I64LeS,
    I64LeU,
    I64GeS,
    I64GeU,
    F32Eq,
    F32Ne,
    F32Lt,
    F32Gt,
    F32Le,
    F32Ge,
    F64Eq,
    F64Ne,
    F64Lt,
    F64Gt,
    F64Le,
    F64Ge,
    I32Add,
    I32Sub,
    I32Mul,
    I32DivS,
    I32DivU,
    I32RemS,
    I32RemU,
    I32And,
    I32Or,
    I32Xor,
    I32Shl,
    I32ShrS,
    I32ShrU,
    I32Rotl,
    I32Rotr,
    I64Add,
    I64Sub,
    I64Mul,
    I64DivS,
    I64DivU,
    I64RemS,
    I64RemU,
    I64And,
    I64Or,
    I64Xor,
    I64Shl,
    I64ShrS,
    I64ShrU,
    I64Rotl,
    I64Rotr,
    F32Add,
    F32Sub,
    F32Mul,
    F32Div,
    F32Min,
    F32Max,
    F32Copysign,
    F64Add,
    F64Sub,
    F64Mul,
    F64Div,
    F64Min,
    F64Max,
    F64Copysign,
}

pub const BI_ALL: [Bi; 76] = [
    Bi::I32Eq,
    Bi::I32Ne,
    Bi::I32LtS,
    Bi::I32LtU,
    Bi::I32GtS,
    Bi::I32GtU,
    Bi::I32LeS,
    Bi::I32LeU,
    Bi::I32GeS,
    Bi::I32GeU,
    Bi::I64Eq,
    Bi::I64Ne,
    Bi::I64LtS,
    Bi::I64LtU,
    Bi::I64GtS,
    Bi::I64GtU,
    Bi::I64LeS,
    Bi::I64LeU,
    Bi::I64GeS,
    Bi::I64GeU,
    Bi::F32Eq,
    Bi::F32Ne,
    Bi::F32Lt,
    Bi::F32Gt,
    Bi::F32Le,
    Bi::F32Ge,
    Bi::F64Eq,
    Bi::F64Ne,
    Bi::F64Lt,
    Bi::F64Gt,
    Bi::F64Le,
    Bi::F64Ge,
    Bi::I32Add,
    Bi::I32Sub,
    Bi::I32Mul,
    Bi::I32DivS,
    Bi::I32DivU,
    Bi::I32RemS,
    Bi::I32RemU,
    Bi::I32And,
    Bi::I32Or,
    Bi::I32Xor,
    Bi::I32Shl,
    Bi::I32ShrS,
    Bi::I32ShrU,
    Bi::I32Rotl,
    Bi::I32Rotr,
    Bi::I64Add,
    Bi::I64Sub,
    Bi::I64Mul,
    Bi::I64DivS,
    Bi::I64DivU,
    Bi::I64RemS,
    Bi::I64RemU,
    Bi::I64And,
    Bi::I64Or,
    Bi::I64Xor,
    Bi::I64Shl,
    Bi::I64ShrS,
    Bi::I64ShrU,
    Bi::I64Rotl,
    Bi::I64Rotr,
    Bi::F32Add,
    Bi::F32Sub,
    Bi::F32Mul,
    Bi::F32Div,
    Bi::F32Min,
    Bi::F32Max,
    Bi::F32Copysign,
    Bi::F64Add,
    Bi::F64Sub,
    Bi::F64Mul,
    Bi::F64Div,
    Bi::F64Min,
    Bi::F64Max,
    Bi::F64Copysign,
];

impl Bi {
    /// The number the analysis receives for this operator.
    pub fn id(self) -> i32 {
        self as i32 + 1
    }
    pub fn from_id(id: i32) -> Option<Bi> {
        BI_ALL.get((id as usize).wrapping_sub(1)).copied()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ld {
    I32Load,
    I64Load,
    F32Load,
    F64Load,
    I32Load8S,
    I32Load8U,
    I32Load16S,
    I32Load16U,
    I64Load8S,
    I64Load8U,
    I64Load16S,
    I64Load16U,
    I64Load32S,
    I64Load32U,
}

pub const LD_ALL: [Ld; 14] = [
    Ld::I32Load,
    Ld::I64Load,
    Ld::F32Load,
    Ld::F64Load,
    Ld::I32Load8S,
    Ld::I32Load8U,
    Ld::I32Load16S,
    Ld::I32Load16U,
    Ld::I64Load8S,
    Ld::I64Load8U,
    Ld::I64Load16S,
    Ld::I64Load16U,
    Ld::I64Load32S,
    Ld::I64Load32U,
];

impl Ld {
    /// The number the analysis receives for this operator.
    pub fn id(self) -> i32 {
        self as i32 + 1
    }
    pub fn from_id(id: i32) -> Option<Ld> {
        LD_ALL.get((id as usize).wrapping_sub(1)).copied()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum St {
    I32Store,
    I64Store,
    F32Store,
    F64Store,
    I32Store8,
    I32Store16,
    I64Store8,
    I64Store16,
    I64Store32,
}

pub const ST_ALL: [St; 9] = [
    St::I32Store,
    St::I64Store,
    St::F32Store,
    St::F64Store,
    St::I32Store8,
    St::I32Store16,
    St::I64Store8,
    St::I64Store16,
    St::I64Store32,
];

impl St {
    /// The number the analysis receives for this operator.
    pub fn id(self) -> i32 {
        self as i32 + 1
    }
    pub fn from_id(id: i32) -> Option<St> {
        ST_ALL.get((id as usize).wrapping_sub(1)).copied()
    }
}

impl Un {
    pub fn types(self) -> (Ty, Ty) {
        use Un::*;
        match self {
            I32Eqz | I32Clz | I32Ctz | I32Popcnt | I32Extend8S | I32Extend16S => (Ty::I32, Ty::I32),
            I64Eqz | I32WrapI64 => (Ty::I64, Ty::I32),
            I64Clz | I64Ctz | I64Popcnt | I64Extend8S | I64Extend16S | I64Extend32S => (Ty::I64, Ty::I64),
            F32Abs | F32Neg | F32Ceil | F32Floor | F32Trunc | F32Nearest | F32Sqrt => (Ty::F32, Ty::F32),
            F64Abs | F64Neg | F64Ceil | F64Floor | F64Trunc | F64Nearest | F64Sqrt => (Ty::F64, Ty::F64),
            I32TruncF32S | I32TruncF32U | I32TruncSatF32S | I32TruncSatF32U | I32ReinterpretF32 => (Ty::F32, Ty::I32),
            I32TruncF64S | I32TruncF64U | I32TruncSatF64S | I32TruncSatF64U => (Ty::F64, Ty::I32),
            I64ExtendI32S | I64ExtendI32U => (Ty::I32, Ty::I64),
            I64TruncF32S | I64TruncF32U | I64TruncSatF32S | I64TruncSatF32U => (Ty::F32, Ty::I64),
            I64TruncF64S | I64TruncF64U | I64TruncSatF64S | I64TruncSatF64U | I64ReinterpretF64 => (Ty::F64, Ty::I64),
            F32ConvertI32S | F32ConvertI32U | F32ReinterpretI32 => (Ty::I32, Ty::F32),
            F32ConvertI64S | F32ConvertI64U => (Ty::I64, Ty::F32),
            F32DemoteF64 => (Ty::F64, Ty::F32),
            F64ConvertI32S | F64ConvertI32U => (Ty::I32, Ty::F64),
            F64ConvertI64S | F64ConvertI64U | F64ReinterpretI64 => (Ty::I64, Ty::F64),
            F64PromoteF32 => (Ty::F32, Ty::F64),
        }
    }
}

impl Bi {
    pub fn types(self) -> (Ty, Ty) {
        use Bi::*;
        match self {
            I32Eq | I32Ne | I32LtS | I32LtU | I32GtS | I32GtU | I32LeS | I32LeU | I32GeS | I32GeU | I32Add | I32Sub | I32Mul | I32DivS | I32DivU | I32RemS | I32RemU | I32And | I32Or | I32Xor | I32Shl | I32ShrS | I32ShrU | I32Rotl | I32Rotr => (Ty::I32, Ty::I32),
            I64Eq | I64Ne | I64LtS | I64LtU | I64GtS | I64GtU | I64LeS | I64LeU | I64GeS | I64GeU => (Ty::I64, Ty::I32),
            F32Eq | F32Ne | F32Lt | F32Gt | F32Le | F32Ge => (Ty::F32, Ty::I32),
            F64Eq | F64Ne | F64Lt | F64Gt | F64Le | F64Ge => (Ty::F64, Ty::I32),
            I64Add | I64Sub | I64Mul | I64DivS | I64DivU | I64RemS | I64RemU | I64And | I64Or | I64Xor | I64Shl | I64ShrS | I64ShrU | I64Rotl | I64Rotr => (Ty::I64, Ty::I64),
            F32Add | F32Sub | F32Mul | F32Div | F32Min | F32Max | F32Copysign => (Ty::F32, Ty::F32),
            F64Add | F64Sub | F64Mul | F64Div | F64Min | F64Max | F64Copysign => (Ty::F64, Ty::F64),
        }
    }
}

impl Ld {
    pub fn ty(self) -> Ty {
        use Ld::*;
        match self {
            I32Load | I32Load8S | I32Load8U | I32Load16S | I32Load16U => Ty::I32,
            I64Load | I64Load8S | I64Load8U | I64Load16S | I64Load16U | I64Load32S | I64Load32U => Ty::I64,
            F32Load => Ty::F32,
            F64Load => Ty::F64,
        }
    }
}

impl St {
    pub fn ty(self) -> Ty {
        use St::*;
        match self {
            I32Store | I32Store8 | I32Store16 => Ty::I32,
            I64Store | I64Store8 | I64Store16 | I64Store32 => Ty::I64,
            F32Store => Ty::F32,
            F64Store => Ty::F64,
        }
    }
}

impl Ld {
    pub fn width(self) -> usize {
        use Ld::*;
        match self {

            I32Load | F32Load | I64Load32S | I64Load32U => 4,
            I64Load | F64Load => 8,
            I32Load8S | I32Load8U | I64Load8S | I64Load8U => 1,
            I32Load16S | I32Load16U | I64Load16S | I64Load16U => 2,
        }
    }
}

impl St {
    pub fn width(self) -> usize {
        use St::*;
        match self {

            I32Store | F32Store | I64Store32 => 4,
            I64Store | F64Store => 8,
            I32Store8 | I64Store8 => 1,
            I32Store16 | I64Store16 => 2,
        }
    }
}

pub fn decode_op(op: &wasmparser::Operator<'_>) -> Option<Num> {
    use wasmparser::Operator as O;
    Some(match op {
        O::I32Eqz => Num::Un(Un::I32Eqz),
        O::I64Eqz => Num::Un(Un::I64Eqz),
        O::I32Clz => Num::Un(Un::I32Clz),
        O::I32Ctz => Num::Un(Un::I32Ctz),
        O::I32Popcnt => Num::Un(Un::I32Popcnt),
        O::I64Clz => Num::Un(Un::I64Clz),
        O::I64Ctz => Num::Un(Un::I64Ctz),
        O::I64Popcnt => Num::Un(Un::I64Popcnt),
        O::F32Abs => Num::Un(Un::F32Abs),
        O::F32Neg => Num::Un(Un::F32Neg),
        O::F32Ceil => Num::Un(Un::F32Ceil),
        O::F32Floor => Num::Un(Un::F32Floor),
        O::F32Trunc => Num::Un(Un::F32Trunc),
        O::F32Nearest => Num::Un(Un::F32Nearest),
        O::F32Sqrt => Num::Un(Un::F32Sqrt),
        O::F64Abs => Num::Un(Un::F64Abs),
        O::F64Neg => Num::Un(Un::F64Neg),
        O::F64Ceil => Num::Un(Un::F64Ceil),
        O::F64Floor => Num::Un(Un::F64Floor),
        O::F64Trunc => Num::Un(Un::F64Trunc),
        O::F64Nearest => Num::Un(Un::F64Nearest),
        O::F64Sqrt => Num::Un(Un::F64Sqrt),
        O::I32WrapI64 => Num::Un(Un::I32WrapI64),
        O::I32TruncF32S => Num::Un(Un::I32TruncF32S),
        O::I32TruncF32U => Num::Un(Un::I32TruncF32U),
        O::I32TruncF64S => Num::Un(Un::I32TruncF64S),
        O::I32TruncF64U => Num::Un(Un::I32TruncF64U),
        O::I32TruncSatF32S => Num::Un(Un::I32TruncSatF32S),
        O::I32TruncSatF32U => Num::Un(Un::I32TruncSatF32U),
        O::I32TruncSatF64S => Num::Un(Un::I32TruncSatF64S),
        O::I32TruncSatF64U => Num::Un(Un::I32TruncSatF64U),
        O::I64ExtendI32S => Num::Un(Un::I64ExtendI32S),
        O::I64ExtendI32U => Num::Un(Un::I64ExtendI32U),
        O::I64TruncF32S => Num::Un(Un::I64TruncF32S),
        O::I64TruncF32U => Num::Un(Un::I64TruncF32U),
        O::I64TruncF64S => Num::Un(Un::I64TruncF64S),
        O::I64TruncF64U => Num::Un(Un::I64TruncF64U),
        O::I64TruncSatF32S => Num::Un(Un::I64TruncSatF32S),
        O::I64TruncSatF32U => Num::Un(Un::I64TruncSatF32U),
        O::I64TruncSatF64S => Num::Un(Un::I64TruncSatF64S),
        O::I64TruncSatF64U => Num::Un(Un::I64TruncSatF64U),
        O::F32ConvertI32S => Num::Un(Un::F32ConvertI32S),
        O::F32ConvertI32U => Num::Un(Un::F32ConvertI32U),
        O::F32ConvertI64S => Num::Un(Un::F32ConvertI64S),
        O::F32ConvertI64U => Num::Un(Un::F32ConvertI64U),
        O::F32DemoteF64 => Num::Un(Un::F32DemoteF64),
        O::F64ConvertI32S => Num::Un(Un::F64ConvertI32S),
        O::F64ConvertI32U => Num::Un(Un::F64ConvertI32U),
        O::F64ConvertI64S => Num::Un(Un::F64ConvertI64S),
        O::F64ConvertI64U => Num::Un(Un::F64ConvertI64U),
        O::F64PromoteF32 => Num::Un(Un::F64PromoteF32),
        O::I32ReinterpretF32 => Num::Un(Un::I32ReinterpretF32),
        O::I64ReinterpretF64 => Num::Un(Un::I64ReinterpretF64),
        O::F32ReinterpretI32 => Num::Un(Un::F32ReinterpretI32),
        O::F64ReinterpretI64 => Num::Un(Un::F64ReinterpretI64),
        O::I32Extend8S => Num::Un(Un::I32Extend8S),
        O::I32Extend16S => Num::Un(Un::I32Extend16S),
        O::I64Extend8S => Num::Un(Un::I64Extend8S),
        O::I64Extend16S => Num::Un(Un::I64Extend16S),
        O::I64Extend32S => Num::Un(Un::I64Extend32S),
        O::I32Eq => Num::Bi(Bi::I32Eq),
        O::I32Ne => Num::Bi(Bi::I32Ne),
        O::I32LtS => Num::Bi(Bi::I32LtS),
        O::I32LtU => Num::Bi(Bi::I32LtU),
        O::I32GtS => Num::Bi(Bi::I32GtS),
        O::I32GtU => Num::Bi(Bi::I32GtU),
        O::I32LeS => Num::Bi(Bi::I32LeS),
        O::I32LeU => Num::Bi(Bi::I32LeU),
        O::I32GeS => Num::Bi(Bi::I32GeS),
        O::I32GeU => Num::Bi(Bi::I32GeU),
        O::I64Eq => Num::Bi(Bi::I64Eq),
        O::I64Ne => Num::Bi(Bi::I64Ne),
        O::I64LtS => Num::Bi(Bi::I64LtS),
        O::I64LtU => Num::Bi(Bi::I64LtU),
        O::I64GtS => Num::Bi(Bi::I64GtS),
        O::I64GtU => Num::Bi(Bi::I64GtU),
        O::I64LeS => Num::Bi(Bi::I64LeS),
        O::I64LeU => Num::Bi(Bi::I64LeU),
        O::I64GeS => Num::Bi(Bi::I64GeS),
        O::I64GeU => Num::Bi(Bi::I64GeU),
        O::F32Eq => Num::Bi(Bi::F32Eq),
        O::F32Ne => Num::Bi(Bi::F32Ne),
        O::F32Lt => Num::Bi(Bi::F32Lt),
        O::F32Gt => Num::Bi(Bi::F32Gt),
        O::F32Le => Num::Bi(Bi::F32Le),
        O::F32Ge => Num::Bi(Bi::F32Ge),
        O::F64Eq => Num::Bi(Bi::F64Eq),
        O::F64Ne => Num::Bi(Bi::F64Ne),
        O::F64Lt => Num::Bi(Bi::F64Lt),
        O::F64Gt => Num::Bi(Bi::F64Gt),
        O::F64Le => Num::Bi(Bi::F64Le),
        O::F64Ge => Num::Bi(Bi::F64Ge),
        O::I32Add => Num::Bi(Bi::I32Add),
        O::I32Sub => Num::Bi(Bi::I32Sub),
        O::I32Mul => Num::Bi(Bi::I32Mul),
        O::I32DivS => Num::Bi(Bi::I32DivS),
        O::I32DivU => Num::Bi(Bi::I32DivU),
        O::I32RemS => Num::Bi(Bi::I32RemS),
        O::I32RemU => Num::Bi(Bi::I32RemU),
        O::I32And => Num::Bi(Bi::I32And),
        O::I32Or => Num::Bi(Bi::I32Or),
        O::I32Xor => Num::Bi(Bi::I32Xor),
        O::I32Shl => Num::Bi(Bi::I32Shl),
        O::I32ShrS => Num::Bi(Bi::I32ShrS),
        O::I32ShrU => Num::Bi(Bi::I32ShrU),
        O::I32Rotl => Num::Bi(Bi::I32Rotl),
        O::I32Rotr => Num::Bi(Bi::I32Rotr),
        O::I64Add => Num::Bi(Bi::I64Add),
        O::I64Sub => Num::Bi(Bi::I64Sub),
        O::I64Mul => Num::Bi(Bi::I64Mul),
        O::I64DivS => Num::Bi(Bi::I64DivS),
        O::I64DivU => Num::Bi(Bi::I64DivU),
        O::I64RemS => Num::Bi(Bi::I64RemS),
        O::I64RemU => Num::Bi(Bi::I64RemU),
        O::I64And => Num::Bi(Bi::I64And),
        O::I64Or => Num::Bi(Bi::I64Or),
        O::I64Xor => Num::Bi(Bi::I64Xor),
        O::I64Shl => Num::Bi(Bi::I64Shl),
        O::I64ShrS => Num::Bi(Bi::I64ShrS),
        O::I64ShrU => Num::Bi(Bi::I64ShrU),
        O::I64Rotl => Num::Bi(Bi::I64Rotl),
        O::I64Rotr => Num::Bi(Bi::I64Rotr),
        O::F32Add => Num::Bi(Bi::F32Add),
        O::F32Sub => Num::Bi(Bi::F32Sub),
        O::F32Mul => Num::Bi(Bi::F32Mul),
        O::F32Div => Num::Bi(Bi::F32Div),
        O::F32Min => Num::Bi(Bi::F32Min),
        O::F32Max => Num::Bi(Bi::F32Max),
        O::F32Copysign => Num::Bi(Bi::F32Copysign),
        O::F64Add => Num::Bi(Bi::F64Add),
        O::F64Sub => Num::Bi(Bi::F64Sub),
        O::F64Mul => Num::Bi(Bi::F64Mul),
        O::F64Div => Num::Bi(Bi::F64Div),
        O::F64Min => Num::Bi(Bi::F64Min),
        O::F64Max => Num::Bi(Bi::F64Max),
        O::F64Copysign => Num::Bi(Bi::F64Copysign),
        O::I32Load { memarg } => Num::Ld(Ld::I32Load, memarg.offset as u32),
        O::I64Load { memarg } => Num::Ld(Ld::I64Load, memarg.offset as u32),
        O::F32Load { memarg } => Num::Ld(Ld::F32Load, memarg.offset as u32),
        O::F64Load { memarg } => Num::Ld(Ld::F64Load, memarg.offset as u32),
        O::I32Load8S { memarg } => Num::Ld(Ld::I32Load8S, memarg.offset as u32),
        O::I32Load8U { memarg } => Num::Ld(Ld::I32Load8U, memarg.offset as u32),
        O::I32Load16S { memarg } => Num::Ld(Ld::I32Load16S, memarg.offset as u32),
        O::I32Load16U { memarg } => Num::Ld(Ld::I32Load16U, memarg.offset as u32),
        O::I64Load8S { memarg } => Num::Ld(Ld::I64Load8S, memarg.offset as u32),
        O::I64Load8U { memarg } => Num::Ld(Ld::I64Load8U, memarg.offset as u32),
        O::I64Load16S { memarg } => Num::Ld(Ld::I64Load16S, memarg.offset as u32),
        O::I64Load16U { memarg } => Num::Ld(Ld::I64Load16U, memarg.offset as u32),
        O::I64Load32S { memarg } => Num::Ld(Ld::I64Load32S, memarg.offset as u32),
        O::I64Load32U { memarg } => Num::Ld(Ld::I64Load32U, memarg.offset as u32),
        O::I32Store { memarg } => Num::St(St::I32Store, memarg.offset as u32),
        O::I64Store { memarg } => Num::St(St::I64Store, memarg.offset as u32),
        O::F32Store { memarg } => Num::St(St::F32Store, memarg.offset as u32),
        O::F64Store { memarg } => Num::St(St::F64Store, memarg.offset as u32),
        O::I32Store8 { memarg } => Num::St(St::I32Store8, memarg.offset as u32),
        O::I32Store16 { memarg } => Num::St(St::I32Store16, memarg.offset as u32),
        O::I64Store8 { memarg } => Num::St(St::I64Store8, memarg.offset as u32),
        O::I64Store16 { memarg } => Num::St(St::I64Store16, memarg.offset as u32),
        O::I64Store32 { memarg } => Num::St(St::I64Store32, memarg.offset as u32),
        _ => return None,
    })
}

pub enum Num {
    Un(Un),
    Bi(Bi),
    Ld(Ld, u32),
    St(St, u32),
}

pub fn encode_op(n: &Num) -> wasm_encoder::Instruction<'static> {
    use wasm_encoder::Instruction as W;
    let m = |offset: u32| wasm_encoder::MemArg { offset: offset.into(), align: 0, memory_index: 0 };
    match n {
        Num::Un(Un::I32Eqz) => W::I32Eqz,
        Num::Un(Un::I64Eqz) => W::I64Eqz,
        Num::Un(Un::I32Clz) => W::I32Clz,
        Num::Un(Un::I32Ctz) => W::I32Ctz,
        Num::Un(Un::I32Popcnt) => W::I32Popcnt,
        Num::Un(Un::I64Clz) => W::I64Clz,
        Num::Un(Un::I64Ctz) => W::I64Ctz,
        Num::Un(Un::I64Popcnt) => W::I64Popcnt,
        Num::Un(Un::F32Abs) => W::F32Abs,
        Num::Un(Un::F32Neg) => W::F32Neg,
        Num::Un(Un::F32Ceil) => W::F32Ceil,
        Num::Un(Un::F32Floor) => W::F32Floor,
        Num::Un(Un::F32Trunc) => W::F32Trunc,
        Num::Un(Un::F32Nearest) => W::F32Nearest,
        Num::Un(Un::F32Sqrt) => W::F32Sqrt,
        Num::Un(Un::F64Abs) => W::F64Abs,
        Num::Un(Un::F64Neg) => W::F64Neg,
        Num::Un(Un::F64Ceil) => W::F64Ceil,
        Num::Un(Un::F64Floor) => W::F64Floor,
        Num::Un(Un::F64Trunc) => W::F64Trunc,
        Num::Un(Un::F64Nearest) => W::F64Nearest,
        Num::Un(Un::F64Sqrt) => W::F64Sqrt,
        Num::Un(Un::I32WrapI64) => W::I32WrapI64,
        Num::Un(Un::I32TruncF32S) => W::I32TruncF32S,
        Num::Un(Un::I32TruncF32U) => W::I32TruncF32U,
        Num::Un(Un::I32TruncF64S) => W::I32TruncF64S,
        Num::Un(Un::I32TruncF64U) => W::I32TruncF64U,
        Num::Un(Un::I32TruncSatF32S) => W::I32TruncSatF32S,
        Num::Un(Un::I32TruncSatF32U) => W::I32TruncSatF32U,
        Num::Un(Un::I32TruncSatF64S) => W::I32TruncSatF64S,
        Num::Un(Un::I32TruncSatF64U) => W::I32TruncSatF64U,
        Num::Un(Un::I64ExtendI32S) => W::I64ExtendI32S,
        Num::Un(Un::I64ExtendI32U) => W::I64ExtendI32U,
        Num::Un(Un::I64TruncF32S) => W::I64TruncF32S,
        Num::Un(Un::I64TruncF32U) => W::I64TruncF32U,
        Num::Un(Un::I64TruncF64S) => W::I64TruncF64S,
        Num::Un(Un::I64TruncF64U) => W::I64TruncF64U,
        Num::Un(Un::I64TruncSatF32S) => W::I64TruncSatF32S,
        Num::Un(Un::I64TruncSatF32U) => W::I64TruncSatF32U,
        Num::Un(Un::I64TruncSatF64S) => W::I64TruncSatF64S,
        Num::Un(Un::I64TruncSatF64U) => W::I64TruncSatF64U,
        Num::Un(Un::F32ConvertI32S) => W::F32ConvertI32S,
        Num::Un(Un::F32ConvertI32U) => W::F32ConvertI32U,
        Num::Un(Un::F32ConvertI64S) => W::F32ConvertI64S,
        Num::Un(Un::F32ConvertI64U) => W::F32ConvertI64U,
        Num::Un(Un::F32DemoteF64) => W::F32DemoteF64,
        Num::Un(Un::F64ConvertI32S) => W::F64ConvertI32S,
        Num::Un(Un::F64ConvertI32U) => W::F64ConvertI32U,
        Num::Un(Un::F64ConvertI64S) => W::F64ConvertI64S,
        Num::Un(Un::F64ConvertI64U) => W::F64ConvertI64U,
        Num::Un(Un::F64PromoteF32) => W::F64PromoteF32,
        Num::Un(Un::I32ReinterpretF32) => W::I32ReinterpretF32,
        Num::Un(Un::I64ReinterpretF64) => W::I64ReinterpretF64,
        Num::Un(Un::F32ReinterpretI32) => W::F32ReinterpretI32,
        Num::Un(Un::F64ReinterpretI64) => W::F64ReinterpretI64,
        Num::Un(Un::I32Extend8S) => W::I32Extend8S,
        Num::Un(Un::I32Extend16S) => W::I32Extend16S,
        Num::Un(Un::I64Extend8S) => W::I64Extend8S,
        Num::Un(Un::I64Extend16S) => W::I64Extend16S,
        Num::Un(Un::I64Extend32S) => W::I64Extend32S,
        Num::Bi(Bi::I32Eq) => W::I32Eq,
        Num::Bi(Bi::I32Ne) => W::I32Ne,
        Num::Bi(Bi::I32LtS) => W::I32LtS,
        Num::Bi(Bi::I32LtU) => W::I32LtU,
        Num::Bi(Bi::I32GtS) => W::I32GtS,
        Num::Bi(Bi::I32GtU) => W::I32GtU,
        Num::Bi(Bi::I32LeS) => W::I32LeS,
        Num::Bi(Bi::I32LeU) => W::I32LeU,
        Num::Bi(Bi::I32GeS) => W::I32GeS,
        Num::Bi(Bi::I32GeU) => W::I32GeU,
        Num::Bi(Bi::I64Eq) => W::I64Eq,
        Num::Bi(Bi::I64Ne) => W::I64Ne,
        Num::Bi(Bi::I64LtS) => W::I64LtS,
        Num::Bi(Bi::I64LtU) => W::I64LtU,
        Num::Bi(Bi::I64GtS) => W::I64GtS,
        Num::Bi(Bi::I64GtU) => W::I64GtU,
        Num::Bi(Bi::I64LeS) => W::I64LeS,
        Num::Bi(Bi::I64LeU) => W::I64LeU,
        Num::Bi(Bi::I64GeS) => W::I64GeS,
        Num::Bi(Bi::I64GeU) => W::I64GeU,
        Num::Bi(Bi::F32Eq) => W::F32Eq,
        Num::Bi(Bi::F32Ne) => W::F32Ne,
        Num::Bi(Bi::F32Lt) => W::F32Lt,
        Num::Bi(Bi::F32Gt) => W::F32Gt,
        Num::Bi(Bi::F32Le) => W::F32Le,
        Num::Bi(Bi::F32Ge) => W::F32Ge,
        Num::Bi(Bi::F64Eq) => W::F64Eq,
        Num::Bi(Bi::F64Ne) => W::F64Ne,
        Num::Bi(Bi::F64Lt) => W::F64Lt,
        Num::Bi(Bi::F64Gt) => W::F64Gt,
        Num::Bi(Bi::F64Le) => W::F64Le,
        Num::Bi(Bi::F64Ge) => W::F64Ge,
        Num::Bi(Bi::I32Add) => W::I32Add,
        Num::Bi(Bi::I32Sub) => W::I32Sub,
        Num::Bi(Bi::I32Mul) => W::I32Mul,
        Num::Bi(Bi::I32DivS) => W::I32DivS,
        Num::Bi(Bi::I32DivU) => W::I32DivU,
        Num::Bi(Bi::I32RemS) => W::I32RemS,
        Num::Bi(Bi::I32RemU) => W::I32RemU,
        Num::Bi(Bi::I32And) => W::I32And,
        Num::Bi(Bi::I32Or) => W::I32Or,
        Num::Bi(Bi::I32Xor) => W::I32Xor,
        Num::Bi(Bi::I32Shl) => W::I32Shl,
        Num::Bi(Bi::I32ShrS) => W::I32ShrS,
        Num::Bi(Bi::I32ShrU) => W::I32ShrU,
        Num::Bi(Bi::I32Rotl) => W::I32Rotl,
        Num::Bi(Bi::I32Rotr) => W::I32Rotr,
        Num::Bi(Bi::I64Add) => W::I64Add,
        Num::Bi(Bi::I64Sub) => W::I64Sub,
        Num::Bi(Bi::I64Mul) => W::I64Mul,
        Num::Bi(Bi::I64DivS) => W::I64DivS,
        Num::Bi(Bi::I64DivU) => W::I64DivU,
        Num::Bi(Bi::I64RemS) => W::I64RemS,
        Num::Bi(Bi::I64RemU) => W::I64RemU,
        Num::Bi(Bi::I64And) => W::I64And,
        Num::Bi(Bi::I64Or) => W::I64Or,
        Num::Bi(Bi::I64Xor) => W::I64Xor,
        Num::Bi(Bi::I64Shl) => W::I64Shl,
        Num::Bi(Bi::I64ShrS) => W::I64ShrS,
        Num::Bi(Bi::I64ShrU) => W::I64ShrU,
        Num::Bi(Bi::I64Rotl) => W::I64Rotl,
        Num::Bi(Bi::I64Rotr) => W::I64Rotr,
        Num::Bi(Bi::F32Add) => W::F32Add,
        Num::Bi(Bi::F32Sub) => W::F32Sub,
        Num::Bi(Bi::F32Mul) => W::F32Mul,
        Num::Bi(Bi::F32Div) => W::F32Div,
        Num::Bi(Bi::F32Min) => W::F32Min,
        Num::Bi(Bi::F32Max) => W::F32Max,
        Num::Bi(Bi::F32Copysign) => W::F32Copysign,
        Num::Bi(Bi::F64Add) => W::F64Add,
        Num::Bi(Bi::F64Sub) => W::F64Sub,
        Num::Bi(Bi::F64Mul) => W::F64Mul,
        Num::Bi(Bi::F64Div) => W::F64Div,
        Num::Bi(Bi::F64Min) => W::F64Min,
        Num::Bi(Bi::F64Max) => W::F64Max,
        Num::Bi(Bi::F64Copysign) => W::F64Copysign,
        Num::Ld(Ld::I32Load, o) => W::I32Load(m(*o)),
        Num::Ld(Ld::I64Load, o) => W::I64Load(m(*o)),
        Num::Ld(Ld::F32Load, o) => W::F32Load(m(*o)),
        Num::Ld(Ld::F64Load, o) => W::F64Load(m(*o)),
        Num::Ld(Ld::I32Load8S, o) => W::I32Load8S(m(*o)),
        Num::Ld(Ld::I32Load8U, o) => W::I32Load8U(m(*o)),
        Num::Ld(Ld::I32Load16S, o) => W::I32Load16S(m(*o)),
        Num::Ld(Ld::I32Load16U, o) => W::I32Load16U(m(*o)),
        Num::Ld(Ld::I64Load8S, o) => W::I64Load8S(m(*o)),
        Num::Ld(Ld::I64Load8U, o) => W::I64Load8U(m(*o)),
        Num::Ld(Ld::I64Load16S, o) => W::I64Load16S(m(*o)),
        Num::Ld(Ld::I64Load16U, o) => W::I64Load16U(m(*o)),
        Num::Ld(Ld::I64Load32S, o) => W::I64Load32S(m(*o)),
        Num::Ld(Ld::I64Load32U, o) => W::I64Load32U(m(*o)),
        Num::St(St::I32Store, o) => W::I32Store(m(*o)),
        Num::St(St::I64Store, o) => W::I64Store(m(*o)),
        Num::St(St::F32Store, o) => W::F32Store(m(*o)),
        Num::St(St::F64Store, o) => W::F64Store(m(*o)),
        Num::St(St::I32Store8, o) => W::I32Store8(m(*o)),
        Num::St(St::I32Store16, o) => W::I32Store16(m(*o)),
        Num::St(St::I64Store8, o) => W::I64Store8(m(*o)),
        Num::St(St::I64Store16, o) => W::I64Store16(m(*o)),
        Num::St(St::I64Store32, o) => W::I64Store32(m(*o)),
    }
}


const NAN32: u32 = 0x7fc0_0000;
const NAN64: u64 = 0x7ff8_0000_0000_0000;

fn f32v(v: f32) -> V {
    V::F32(if v.is_nan() { NAN32 } else { v.to_bits() })
}
fn f64v(v: f64) -> V {
    V::F64(if v.is_nan() { NAN64 } else { v.to_bits() })
}
fn b(v: bool) -> V {
    V::I32(v as u32)
}

macro_rules! trunc {
    ($x:expr, $t:ty, $lo:expr, $hi:expr) => {{
        let x = $x;
        if x.is_nan() {
            return Err(Trap::BadConversion);
        }
        // Both limits are exclusive.
        if !(x > $lo && x < $hi) {
            return Err(Trap::IntOverflow);
        }
        x as $t
    }};
}

pub fn unary(op: Un, v: V) -> Result<V, Trap> {
    use Un::*;
    let i = || v.i32();
    let l = || v.i64();
    let f = || f32::from_bits(v.f32());
    let d = || f64::from_bits(v.f64());
    Ok(match op {
        I32Eqz => b(i() == 0),
        I64Eqz => b(l() == 0),
        I32Clz => V::I32(i().leading_zeros()),
        I32Ctz => V::I32(i().trailing_zeros()),
        I32Popcnt => V::I32(i().count_ones()),
        I64Clz => V::I64(l().leading_zeros().into()),
        I64Ctz => V::I64(l().trailing_zeros().into()),
        I64Popcnt => V::I64(l().count_ones().into()),
        F32Abs => V::F32(v.f32() & 0x7fff_ffff),
        F32Neg => V::F32(v.f32() ^ 0x8000_0000),
        F32Ceil => f32v(f().ceil()),
        F32Floor => f32v(f().floor()),
        F32Trunc => f32v(f().trunc()),
        F32Nearest => f32v(f().round_ties_even()),
        F32Sqrt => f32v(f().sqrt()),
        F64Abs => V::F64(v.f64() & !(1 << 63)),
        F64Neg => V::F64(v.f64() ^ (1 << 63)),
        F64Ceil => f64v(d().ceil()),
        F64Floor => f64v(d().floor()),
        F64Trunc => f64v(d().trunc()),
        F64Nearest => f64v(d().round_ties_even()),
        F64Sqrt => f64v(d().sqrt()),
        I32WrapI64 => V::I32(l() as u32),
        I32TruncF32S => V::I32(trunc!(f() as f64, i32, -2147483649.0, 2147483648.0) as u32),
        I32TruncF32U => V::I32(trunc!(f() as f64, u32, -1.0, 4294967296.0)),
        I32TruncF64S => V::I32(trunc!(d(), i32, -2147483649.0, 2147483648.0) as u32),
        I32TruncF64U => V::I32(trunc!(d(), u32, -1.0, 4294967296.0)),
        I32TruncSatF32S => V::I32(f() as i32 as u32),
        I32TruncSatF32U => V::I32(f() as u32),
        I32TruncSatF64S => V::I32(d() as i32 as u32),
        I32TruncSatF64U => V::I32(d() as u32),
        I64ExtendI32S => V::I64(i() as i32 as i64 as u64),
        I64ExtendI32U => V::I64(i().into()),
        // -2^63 itself is representable, its predecessor in either float format is not near it.
        I64TruncF32S => V::I64(trunc!(f() as f64, i64, -9223372036854777856.0, 9223372036854775808.0) as u64),
        I64TruncF32U => V::I64(trunc!(f() as f64, u64, -1.0, 18446744073709551616.0)),
        I64TruncF64S => V::I64(trunc!(d(), i64, -9223372036854777856.0, 9223372036854775808.0) as u64),
        I64TruncF64U => V::I64(trunc!(d(), u64, -1.0, 18446744073709551616.0)),
        I64TruncSatF32S => V::I64(f() as i64 as u64),
        I64TruncSatF32U => V::I64(f() as u64),
        I64TruncSatF64S => V::I64(d() as i64 as u64),
        I64TruncSatF64U => V::I64(d() as u64),
        F32ConvertI32S => f32v(i() as i32 as f32),
        F32ConvertI32U => f32v(i() as f32),
        F32ConvertI64S => f32v(l() as i64 as f32),
        F32ConvertI64U => f32v(l() as f32),
        F32DemoteF64 => f32v(d() as f32),
        F64ConvertI32S => f64v(i() as i32 as f64),
        F64ConvertI32U => f64v(i() as f64),
        F64ConvertI64S => f64v(l() as i64 as f64),
        F64ConvertI64U => f64v(l() as f64),
        F64PromoteF32 => f64v(f() as f64),
        I32ReinterpretF32 => V::I32(v.f32()),
        I64ReinterpretF64 => V::I64(v.f64()),
        F32ReinterpretI32 => V::F32(i()),
        F64ReinterpretI64 => V::F64(l()),
        I32Extend8S => V::I32(i() as i8 as u32),
        I32Extend16S => V::I32(i() as i16 as u32),
        I64Extend8S => V::I64(l() as i8 as u64),
        I64Extend16S => V::I64(l() as i16 as u64),
        I64Extend32S => V::I64(l() as i32 as u64),
    })
}

macro_rules! fminmax {
    ($a:expr, $b:expr, $min:expr) => {{
        let (a, b) = ($a, $b);
        if a.is_nan() || b.is_nan() {
            a + b
        } else if a == b {
            // Zeros of different sign compare equal.
            if a.is_sign_negative() == $min { a } else { b }
        } else if (a < b) == $min {
            a
        } else {
            b
        }
    }};
}

pub fn binary(op: Bi, x: V, y: V) -> Result<V, Trap> {
    use Bi::*;
    let i = || (x.i32(), y.i32());
    let is = || (x.i32() as i32, y.i32() as i32);
    let l = || (x.i64(), y.i64());
    let ls = || (x.i64() as i64, y.i64() as i64);
    let f = || (f32::from_bits(x.f32()), f32::from_bits(y.f32()));
    let d = || (f64::from_bits(x.f64()), f64::from_bits(y.f64()));
    Ok(match op {
        I32Eq => b(i().0 == i().1),
        I32Ne => b(i().0 != i().1),
        I32LtS => b(is().0 < is().1),
        I32LtU => b(i().0 < i().1),
        I32GtS => b(is().0 > is().1),
        I32GtU => b(i().0 > i().1),
        I32LeS => b(is().0 <= is().1),
        I32LeU => b(i().0 <= i().1),
        I32GeS => b(is().0 >= is().1),
        I32GeU => b(i().0 >= i().1),
        I64Eq => b(l().0 == l().1),
        I64Ne => b(l().0 != l().1),
        I64LtS => b(ls().0 < ls().1),
        I64LtU => b(l().0 < l().1),
        I64GtS => b(ls().0 > ls().1),
        I64GtU => b(l().0 > l().1),
        I64LeS => b(ls().0 <= ls().1),
        I64LeU => b(l().0 <= l().1),
        I64GeS => b(ls().0 >= ls().1),
        I64GeU => b(l().0 >= l().1),
        F32Eq => b(f().0 == f().1),
        F32Ne => b(f().0 != f().1),
        F32Lt => b(f().0 < f().1),
        F32Gt => b(f().0 > f().1),
        F32Le => b(f().0 <= f().1),
        F32Ge => b(f().0 >= f().1),
        F64Eq => b(d().0 == d().1),
        F64Ne => b(d().0 != d().1),
        F64Lt => b(d().0 < d().1),
        F64Gt => b(d().0 > d().1),
        F64Le => b(d().0 <= d().1),
        F64Ge => b(d().0 >= d().1),
        I32Add => V::I32(i().0.wrapping_add(i().1)),
        I32Sub => V::I32(i().0.wrapping_sub(i().1)),
        I32Mul => V::I32(i().0.wrapping_mul(i().1)),
        I32DivS => match is() {
            (_, 0) => return Err(Trap::DivByZero),
            (i32::MIN, -1) => return Err(Trap::IntOverflow),
            (a, b) => V::I32((a / b) as u32),
        },
        I32DivU => V::I32(i().0.checked_div(i().1).ok_or(Trap::DivByZero)?),
        I32RemS => match is() {
            (_, 0) => return Err(Trap::DivByZero),
            (a, b) => V::I32(a.wrapping_rem(b) as u32),
        },
        I32RemU => V::I32(i().0.checked_rem(i().1).ok_or(Trap::DivByZero)?),
        I32And => V::I32(i().0 & i().1),
        I32Or => V::I32(i().0 | i().1),
        I32Xor => V::I32(i().0 ^ i().1),
        I32Shl => V::I32(i().0.wrapping_shl(i().1)),
        I32ShrS => V::I32(is().0.wrapping_shr(i().1) as u32),
        I32ShrU => V::I32(i().0.wrapping_shr(i().1)),
        I32Rotl => V::I32(i().0.rotate_left(i().1 % 32)),
        I32Rotr => V::I32(i().0.rotate_right(i().1 % 32)),
        I64Add => V::I64(l().0.wrapping_add(l().1)),
        I64Sub => V::I64(l().0.wrapping_sub(l().1)),
        I64Mul => V::I64(l().0.wrapping_mul(l().1)),
        I64DivS => match ls() {
            (_, 0) => return Err(Trap::DivByZero),
            (i64::MIN, -1) => return Err(Trap::IntOverflow),
            (a, b) => V::I64((a / b) as u64),
        },
        I64DivU => V::I64(l().0.checked_div(l().1).ok_or(Trap::DivByZero)?),
        I64RemS => match ls() {
            (_, 0) => return Err(Trap::DivByZero),
            (a, b) => V::I64(a.wrapping_rem(b) as u64),
        },
        I64RemU => V::I64(l().0.checked_rem(l().1).ok_or(Trap::DivByZero)?),
        I64And => V::I64(l().0 & l().1),
        I64Or => V::I64(l().0 | l().1),
        I64Xor => V::I64(l().0 ^ l().1),
        I64Shl => V::I64(l().0.wrapping_shl(l().1 as u32)),
        I64ShrS => V::I64(ls().0.wrapping_shr(l().1 as u32) as u64),
        I64ShrU => V::I64(l().0.wrapping_shr(l().1 as u32)),
        I64Rotl => V::I64(l().0.rotate_left((l().1 % 64) as u32)),
        I64Rotr => V::I64(l().0.rotate_right((l().1 % 64) as u32)),
        F32Add => f32v(f().0 + f().1),
        F32Sub => f32v(f().0 - f().1),
        F32Mul => f32v(f().0 * f().1),
        F32Div => f32v(f().0 / f().1),
        F32Min => f32v(fminmax!(f().0, f().1, true)),
        F32Max => f32v(fminmax!(f().0, f().1, false)),
        F32Copysign => V::F32((x.f32() & 0x7fff_ffff) | (y.f32() & 0x8000_0000)),
        F64Add => f64v(d().0 + d().1),
        F64Sub => f64v(d().0 - d().1),
        F64Mul => f64v(d().0 * d().1),
        F64Div => f64v(d().0 / d().1),
        F64Min => f64v(fminmax!(d().0, d().1, true)),
        F64Max => f64v(fminmax!(d().0, d().1, false)),
        F64Copysign => V::F64((x.f64() & !(1 << 63)) | (y.f64() & (1 << 63))),
    })
}

pub fn load(op: Ld, bytes: &[u8]) -> V {
    use Ld::*;
    let mut raw = [0u8; 8];
    raw[..bytes.len()].copy_from_slice(bytes);
    let u = u64::from_le_bytes(raw);
    match op {
        I32Load => V::I32(u as u32),
        I64Load => V::I64(u),
        F32Load => V::F32(u as u32),
        F64Load => V::F64(u),
        I32Load8S => V::I32(u as i8 as u32),
        I32Load8U => V::I32(u as u8 as u32),
        I32Load16S => V::I32(u as i16 as u32),
        I32Load16U => V::I32(u as u16 as u32),
        I64Load8S => V::I64(u as i8 as u64),
        I64Load8U => V::I64(u as u8 as u64),
        I64Load16S => V::I64(u as i16 as u64),
        I64Load16U => V::I64(u as u16 as u64),
        I64Load32S => V::I64(u as i32 as u64),
        I64Load32U => V::I64(u as u32 as u64),
    }
}

pub fn store(op: St, v: V) -> [u8; 8] {
    let _ = op;
    let u = match v {
        V::I32(x) | V::F32(x) => x as u64,
        V::I64(x) | V::F64(x) => x,
        _ => 0,
    };
    u.to_le_bytes()
}
