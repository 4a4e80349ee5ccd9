//! Parts of the crate's interface that the code under test does not use today: a rewrite of it may.

use crate::*;
use std::fmt;
use std::path::Path;

impl Module {
    pub fn functions_mut(&mut self) -> impl Iterator<Item = (Idx<Function>, &mut Function)> {
        self.functions.iter_mut().enumerate().map(|(i, f)| (i.into(), f))
    }
    pub fn globals_mut(&mut self) -> impl Iterator<Item = (Idx<Global>, &mut Global)> {
        self.globals.iter_mut().enumerate().map(|(i, f)| (i.into(), f))
    }
    pub fn tables(&self) -> impl Iterator<Item = (Idx<Table>, &Table)> {
        self.tables.iter().enumerate().map(|(i, t)| (i.into(), t))
    }
    pub fn tables_mut(&mut self) -> impl Iterator<Item = (Idx<Table>, &mut Table)> {
        self.tables.iter_mut().enumerate().map(|(i, t)| (i.into(), t))
    }
    pub fn memories(&self) -> impl Iterator<Item = (Idx<Memory>, &Memory)> {
        self.memories.iter().enumerate().map(|(i, t)| (i.into(), t))
    }
    pub fn memories_mut(&mut self) -> impl Iterator<Item = (Idx<Memory>, &mut Memory)> {
        self.memories.iter_mut().enumerate().map(|(i, t)| (i.into(), t))
    }
    pub fn elements(&self) -> impl Iterator<Item = (Idx<Element>, &Element)> {
        self.elements.iter().enumerate().map(|(i, t)| (i.into(), t))
    }
    pub fn datas(&self) -> impl Iterator<Item = (Idx<Data>, &Data)> {
        self.datas.iter().enumerate().map(|(i, t)| (i.into(), t))
    }
    pub fn table_mut(&mut self, idx: Idx<Table>) -> &mut Table {
        &mut self.tables[idx.to_usize()]
    }
    pub fn memory_mut(&mut self, idx: Idx<Memory>) -> &mut Memory {
        &mut self.memories[idx.to_usize()]
    }
    pub fn element(&self, idx: Idx<Element>) -> &Element {
        &self.elements[idx.to_usize()]
    }
    pub fn data(&self, idx: Idx<Data>) -> &Data {
        &self.datas[idx.to_usize()]
    }
    pub fn to_file(&self, path: impl AsRef<Path>) -> Result<usize, Box<dyn std::error::Error>> {
        let b = self.to_bytes()?;
        std::fs::write(path, &b)?;
        Ok(b.len())
    }
}

impl Function {
    pub fn params(&self) -> impl Iterator<Item = (Idx<Local>, ValType)> {
        self.type_.inputs().iter().enumerate().map(|(i, t)| (i.into(), *t))
    }
    pub fn local_count(&self) -> usize {
        self.code().map_or(0, |c| c.locals.len())
    }
    pub fn param_or_local_count(&self) -> usize {
        self.param_count() + self.local_count()
    }
    pub fn instructions_mut(&mut self) -> Option<&mut Vec<Instr>> {
        self.code_mut().map(|c| &mut c.body)
    }
    pub fn instruction_count(&self) -> usize {
        self.instructions().len()
    }
    pub fn is_import(&self) -> bool {
        self.import().is_some()
    }
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    pub fn export(&self) -> &[String] {
        &self.export
    }
}

impl Global {
    pub fn new(type_: GlobalType, init: Expr, export: Vec<String>) -> Self {
        Global { type_, init: ImportOrPresent::Present(init), export }
    }
    pub fn import(&self) -> Option<(&str, &str)> {
        match &self.init {
            ImportOrPresent::Import(m, n) => Some((m, n)),
            ImportOrPresent::Present(_) => None,
        }
    }
    pub fn init(&self) -> Option<&Expr> {
        match &self.init {
            ImportOrPresent::Import(..) => None,
            ImportOrPresent::Present(e) => Some(e),
        }
    }
}

impl Table {
    pub fn import(&self) -> Option<(&str, &str)> {
        self.import.as_ref().map(|(m, n)| (m.as_str(), n.as_str()))
    }
}

impl Memory {
    pub fn import(&self) -> Option<(&str, &str)> {
        self.import.as_ref().map(|(m, n)| (m.as_str(), n.as_str()))
    }
}

impl FunctionType {
    pub fn from_slices(inputs: &[ValType], results: &[ValType]) -> Self {
        Self::new(inputs, results)
    }
}

impl Local {
    pub fn with_name(type_: ValType, name: String) -> Self {
        Local { type_, name: Some(name) }
    }
}

impl<T> fmt::Display for Idx<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.to_u32())
    }
}

impl fmt::Display for Label {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.to_u32())
    }
}

impl<T> From<Idx<T>> for u32 {
    fn from(i: Idx<T>) -> u32 {
        i.to_u32()
    }
}

impl From<RefType> for ValType {
    fn from(t: RefType) -> ValType {
        ValType::Ref(t)
    }
}

impl LoadOp {
    pub fn to_type(self) -> FunctionType {
        FunctionType::new(&[ValType::I32], &[self.val_type()])
    }
}

impl StoreOp {
    pub fn to_type(self) -> FunctionType {
        FunctionType::new(&[ValType::I32, self.val_type()], &[])
    }
}

impl Val {
    pub fn get_default_value(t: ValType) -> Val {
        t.zero()
    }
}

fn dotted(debug: &str) -> String {
    // "I32TruncSatF32S" is "i32.trunc_sat_f32_s"
    let (t, rest) = debug.split_at(3);
    let mut s = format!("{}.", t.to_lowercase());
    let b: Vec<char> = rest.chars().collect();
    for (i, c) in b.iter().enumerate() {
        if c.is_uppercase() && i > 0 {
            s.push('_');
        }
        s.push(c.to_ascii_lowercase());
    }
    s
}

macro_rules! named {
    ($($t:ty),*) => {$(
        impl $t {
            pub fn to_name(self) -> String {
                dotted(&format!("{self:?}"))
            }
        }
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(&self.to_name())
            }
        }
    )*};
}
named!(UnaryOp, BinaryOp, LoadOp, StoreOp);

impl LocalOp {
    pub fn to_name(self) -> &'static str {
        match self {
            LocalOp::Get => "local.get",
            LocalOp::Set => "local.set",
            LocalOp::Tee => "local.tee",
        }
    }
}

impl GlobalOp {
    pub fn to_name(self) -> &'static str {
        match self {
            GlobalOp::Get => "global.get",
            GlobalOp::Set => "global.set",
        }
    }
}

impl Instr {
    /// The type of an instruction that has one whatever surrounds it.
    pub fn to_type(&self) -> Option<FunctionType> {
        use Instr::*;
        use ValType::I32;
        Some(match self {
            Nop => FunctionType::empty(),
            Load(op, _) => op.to_type(),
            Store(op, _) => op.to_type(),
            MemorySize(_) | TableSize(_) => FunctionType::new(&[], &[I32]),
            MemoryGrow(_) => FunctionType::new(&[I32], &[I32]),
            MemoryFill | MemoryCopy | MemoryInit(_) | TableCopy(..) | TableInit(..) => FunctionType::new(&[I32, I32, I32], &[]),
            DataDrop(_) | ElemDrop(_) => FunctionType::empty(),
            Const(v) => FunctionType::new(&[], &[v.to_type()]),
            Unary(op) => op.to_type(),
            Binary(op) => op.to_type(),
            _ => return None,
        })
    }
}

#[cfg(test)]
mod test {
    #[test]
    fn names() {
        assert_eq!(crate::UnaryOp::I32TruncSatF32S.to_name(), "i32.trunc_sat_f32_s");
        assert_eq!(crate::LoadOp::I32Load8S.to_name(), "i32.load8_s");
    }
}
