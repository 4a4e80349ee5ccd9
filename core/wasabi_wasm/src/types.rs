//! Type inference of single instructions, after the validation algorithm in the appendix of
//! the WebAssembly specification.

use crate::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum InferredInstructionType {
    /// The instruction can never execute.
    Unreachable,
    Reachable(FunctionType),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TypeErrorInner {
    pub message: String,
    pub instruction_idx: Option<Idx<Instr>>,
    pub instruction: Option<Instr>,
    pub function_idx: Option<Idx<Function>>,
    pub function_name: Option<String>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TypeError(pub Box<TypeErrorInner>);

impl std::fmt::Display for TypeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "type error: {}", self.0.message)?;
        if let (Some(i), Some(x)) = (self.0.instruction_idx, &self.0.instruction) {
            write!(f, " (instruction {} {:?})", i.to_u32(), x)?;
        }
        Ok(())
    }
}
impl std::error::Error for TypeError {}

fn err<T>(m: impl Into<String>) -> Result<T, TypeError> {
    Err(TypeError(Box::new(TypeErrorInner {
        message: m.into(),
        instruction_idx: None,
        instruction: None,
        function_idx: None,
        function_name: None,
    })))
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Kind {
    Function,
    Block,
    Loop,
    If,
    Else,
}

struct Frame {
    kind: Kind,
    type_: FunctionType,
    height: usize,
    unreachable: bool,
    /// Whether the whole construct sits in code that cannot execute.
    dead: bool,
}

/// `None` is a value of unknown type (in unreachable code).
type Operand = Option<ValType>;

pub struct TypeChecker<'m> {
    function: &'m Function,
    module: &'m Module,
    values: Vec<Operand>,
    frames: Vec<Frame>,
}

impl<'m> TypeChecker<'m> {
    pub fn begin_function(function: &'m Function, module: &'m Module) -> Self {
        TypeChecker {
            function,
            module,
            values: vec![],
            frames: vec![Frame {
                kind: Kind::Function,
                type_: FunctionType::new(&[], function.type_.results()),
                height: 0,
                unreachable: false,
                dead: false,
            }],
        }
    }

    fn frame(&self) -> Result<&Frame, TypeError> {
        match self.frames.last() {
            Some(f) => Ok(f),
            None => err("instruction after the end of the function"),
        }
    }

    fn pop(&mut self, expect: Operand) -> Result<Operand, TypeError> {
        let (height, unreachable) = {
            let f = self.frame()?;
            (f.height, f.unreachable)
        };
        if self.values.len() == height {
            return if unreachable { Ok(expect) } else { err("operand stack is empty") };
        }
        let v = self.values.pop().unwrap();
        match (v, expect) {
            (Some(a), Some(b)) if a != b => err(format!("expected {b}, but got {a}")),
            (None, e) => Ok(e),
            (v, _) => Ok(v),
        }
    }
    fn pops(&mut self, ts: &[ValType]) -> Result<(), TypeError> {
        for t in ts.iter().rev() {
            self.pop(Some(*t))?;
        }
        Ok(())
    }
    fn pushes(&mut self, ts: &[ValType]) {
        self.values.extend(ts.iter().map(|t| Some(*t)));
    }
    fn label(&self, l: Label) -> Result<&'static [ValType], TypeError> {
        let n = self.frames.len();
        match n.checked_sub(1 + l.to_usize()).and_then(|i| self.frames.get(i)) {
            Some(f) if f.kind == Kind::Loop => Ok(f.type_.inputs()),
            Some(f) => Ok(f.type_.results()),
            None => err("unknown label"),
        }
    }
    fn set_unreachable(&mut self) {
        if let Some(f) = self.frames.last_mut() {
            self.values.truncate(f.height);
            f.unreachable = true;
        }
    }
    fn enter(&mut self, kind: Kind, type_: FunctionType, dead: bool) {
        self.frames.push(Frame { kind, type_, height: self.values.len(), unreachable: false, dead });
        self.pushes(type_.inputs());
    }
    fn leave(&mut self) -> Result<Frame, TypeError> {
        let (results, height) = {
            let f = self.frame()?;
            (f.type_.results(), f.height)
        };
        self.pops(results)?;
        if self.values.len() != height {
            return err("values remain on the operand stack");
        }
        Ok(self.frames.pop().unwrap())
    }
    fn simple(&mut self, t: FunctionType) -> Result<FunctionType, TypeError> {
        self.pops(t.inputs())?;
        self.pushes(t.results());
        Ok(t)
    }
    fn local(&self, l: Idx<Local>) -> Result<ValType, TypeError> {
        match self.function.param_or_local_type(l) {
            Some(t) => Ok(t),
            None => err("unknown local"),
        }
    }
    fn table(&self, t: Idx<Table>) -> Result<ValType, TypeError> {
        match self.module.tables.get(t.to_usize()) {
            Some(t) => Ok(ValType::Ref(t.ref_type)),
            None => err("unknown table"),
        }
    }

    pub fn check_next_instr(&mut self, instr: &Instr) -> Result<InferredInstructionType, TypeError> {
        if let Some(m) = fault::at_check() {
            return err(m);
        }
        use ValType::{F32, F64, I32, I64};
        let ft = FunctionType::new;
        let dead = {
            let f = self.frame()?;
            f.unreachable || f.dead
        };
        let t = match instr {
            Instr::Unreachable => {
                self.set_unreachable();
                ft(&[], &[])
            }
            Instr::Nop => ft(&[], &[]),
            Instr::Block(t) | Instr::Loop(t) | Instr::If(t) => {
                let kind = match instr {
                    Instr::Block(_) => Kind::Block,
                    Instr::Loop(_) => Kind::Loop,
                    _ => {
                        self.pop(Some(I32))?;
                        Kind::If
                    }
                };
                self.pops(t.inputs())?;
                self.enter(kind, *t, dead);
                *t
            }
            Instr::Else => {
                let f = self.leave()?;
                if f.kind != Kind::If {
                    return err("else without if");
                }
                self.enter(Kind::Else, f.type_, f.dead);
                f.type_
            }
            Instr::End => {
                let f = self.leave()?;
                if f.kind == Kind::If && f.type_.inputs() != f.type_.results() {
                    return err("if without else must not change the stack");
                }
                if !self.frames.is_empty() {
                    self.pushes(f.type_.results());
                }
                return Ok(if f.dead {
                    InferredInstructionType::Unreachable
                } else {
                    InferredInstructionType::Reachable(f.type_)
                });
            }
            Instr::Br(l) => {
                let ts = self.label(*l)?;
                self.pops(ts)?;
                self.set_unreachable();
                ft(ts, &[])
            }
            Instr::BrIf(l) => {
                let ts = self.label(*l)?;
                self.pop(Some(I32))?;
                self.pops(ts)?;
                self.pushes(ts);
                let mut inputs = ts.to_vec();
                inputs.push(I32);
                ft(&inputs, ts)
            }
            Instr::BrTable { table, default } => {
                self.pop(Some(I32))?;
                let ts = self.label(*default)?;
                for l in table.iter() {
                    let other = self.label(*l)?;
                    if other.len() != ts.len() {
                        return err("labels of a branch table differ in arity");
                    }
                    let mut popped = vec![];
                    for t in other.iter().rev() {
                        popped.push(self.pop(Some(*t))?);
                    }
                    popped.reverse();
                    self.values.extend(popped);
                }
                self.pops(ts)?;
                self.set_unreachable();
                let mut inputs = ts.to_vec();
                inputs.push(I32);
                ft(&inputs, &[])
            }
            Instr::Return => {
                let ts = self.function.type_.results();
                self.pops(ts)?;
                self.set_unreachable();
                ft(ts, &[])
            }
            Instr::Call(f) => match self.module.functions.get(f.to_usize()) {
                Some(f) => self.simple(f.type_)?,
                None => return err("unknown function"),
            },
            Instr::CallIndirect(t, table) => {
                self.table(*table)?;
                self.pop(Some(I32))?;
                self.simple(*t)?;
                let mut inputs = t.inputs().to_vec();
                inputs.push(I32);
                ft(&inputs, t.results())
            }
            Instr::RefNull(r) => self.simple(ft(&[], &[ValType::Ref(*r)]))?,
            Instr::RefFunc(f) => {
                if f.to_usize() >= self.module.functions.len() {
                    return err("unknown function");
                }
                self.simple(ft(&[], &[ValType::Ref(RefType::FuncRef)]))?
            }
            Instr::RefIsNull => {
                let v = self.pop(None)?;
                match v {
                    Some(t @ ValType::Ref(_)) => {
                        self.pushes(&[I32]);
                        ft(&[t], &[I32])
                    }
                    None => {
                        self.pushes(&[I32]);
                        ft(&[], &[I32])
                    }
                    _ => return err("expected a reference"),
                }
            }
            Instr::Drop => match self.pop(None)? {
                Some(t) => ft(&[t], &[]),
                None => ft(&[], &[]),
            },
            Instr::Select => {
                self.pop(Some(I32))?;
                let b = self.pop(None)?;
                let a = self.pop(b)?;
                let t = a.or(b);
                self.values.push(t);
                match t {
                    Some(ValType::Ref(_)) => return err("untyped select on references"),
                    Some(t) => ft(&[t, t, I32], &[t]),
                    None => ft(&[], &[]),
                }
            }
            Instr::TypedSelect(t) => self.simple(ft(&[*t, *t, I32], &[*t]))?,
            Instr::Local(op, l) => {
                let t = self.local(*l)?;
                self.simple(match op {
                    LocalOp::Get => ft(&[], &[t]),
                    LocalOp::Set => ft(&[t], &[]),
                    LocalOp::Tee => ft(&[t], &[t]),
                })?
            }
            Instr::Global(op, g) => {
                let Some(g) = self.module.globals.get(g.to_usize()) else {
                    return err("unknown global");
                };
                self.simple(match op {
                    GlobalOp::Get => ft(&[], &[g.type_.0]),
                    GlobalOp::Set if g.type_.1 == Mutability::Mut => ft(&[g.type_.0], &[]),
                    GlobalOp::Set => return err("global is constant"),
                })?
            }
            Instr::TableGet(t) => {
                let r = self.table(*t)?;
                self.simple(ft(&[I32], &[r]))?
            }
            Instr::TableSet(t) => {
                let r = self.table(*t)?;
                self.simple(ft(&[I32, r], &[]))?
            }
            Instr::TableSize(t) => {
                self.table(*t)?;
                self.simple(ft(&[], &[I32]))?
            }
            Instr::TableGrow(t) => {
                let r = self.table(*t)?;
                self.simple(ft(&[r, I32], &[I32]))?
            }
            Instr::TableFill(t) => {
                let r = self.table(*t)?;
                self.simple(ft(&[I32, r, I32], &[]))?
            }
            Instr::TableCopy(a, b) => {
                if self.table(*a)? != self.table(*b)? {
                    return err("tables differ in type");
                }
                self.simple(ft(&[I32, I32, I32], &[]))?
            }
            Instr::TableInit(t, e) => {
                self.table(*t)?;
                if e.to_usize() >= self.module.elements.len() {
                    return err("unknown element segment");
                }
                self.simple(ft(&[I32, I32, I32], &[]))?
            }
            Instr::ElemDrop(_) | Instr::DataDrop(_) => ft(&[], &[]),
            Instr::Load(op, _) => self.simple(ft(&[I32], &[op.val_type()]))?,
            Instr::Store(op, _) => self.simple(ft(&[I32, op.val_type()], &[]))?,
            Instr::MemorySize(_) => self.simple(ft(&[], &[I32]))?,
            Instr::MemoryGrow(_) => self.simple(ft(&[I32], &[I32]))?,
            Instr::MemoryFill | Instr::MemoryCopy | Instr::MemoryInit(_) => {
                self.simple(ft(&[I32, I32, I32], &[]))?
            }
            Instr::Const(v) => {
                let t = match v {
                    Val::I32(_) => I32,
                    Val::I64(_) => I64,
                    Val::F32(_) => F32,
                    Val::F64(_) => F64,
                };
                self.simple(ft(&[], &[t]))?
            }
            Instr::Unary(op) => self.simple(op.to_type())?,
            Instr::Binary(op) => self.simple(op.to_type())?,
        };
        Ok(if dead {
            InferredInstructionType::Unreachable
        } else {
            InferredInstructionType::Reachable(t)
        })
    }
}
