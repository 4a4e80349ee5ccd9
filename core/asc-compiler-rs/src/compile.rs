//! Translates AssemblyScript to WebAssembly.

use crate::parse::*;
use crate::Error;
use std::collections::{BTreeMap, HashMap, HashSet};
use wasm_encoder as we;
use we::{Instruction as I, MemArg, ValType as W};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ty {
    Void,
    Bool,
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    I64,
    U64,
    Isize,
    Usize,
    F32,
    F64,
    Class(usize),
}

impl Ty {
    fn w(self) -> Option<W> {
        match self {
            Ty::Void => None,
            Ty::I64 | Ty::U64 => Some(W::I64),
            Ty::F32 => Some(W::F32),
            Ty::F64 => Some(W::F64),
            _ => Some(W::I32),
        }
    }
    fn size(self) -> u32 {
        match self {
            Ty::Void => 0,
            Ty::Bool | Ty::I8 | Ty::U8 => 1,
            Ty::I16 | Ty::U16 => 2,
            Ty::I64 | Ty::U64 | Ty::F64 => 8,
            _ => 4,
        }
    }
    fn float(self) -> bool {
        matches!(self, Ty::F32 | Ty::F64)
    }
    fn integer(self) -> bool {
        !matches!(self, Ty::Void | Ty::F32 | Ty::F64 | Ty::Class(_))
    }
    fn signed(self) -> bool {
        matches!(self, Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64 | Ty::Isize)
    }
    fn bits(self) -> u32 {
        match self {
            Ty::Bool => 1,
            t => t.size() * 8,
        }
    }
    fn wide(self) -> bool {
        self.w() == Some(W::I64)
    }
    fn small(self) -> bool {
        matches!(self, Ty::I8 | Ty::U8 | Ty::I16 | Ty::U16)
    }
    fn by_name(n: &str) -> Option<Ty> {
        Some(match n {
            "void" => Ty::Void,
            "bool" | "boolean" => Ty::Bool,
            "i8" => Ty::I8,
            "u8" => Ty::U8,
            "i16" => Ty::I16,
            "u16" => Ty::U16,
            "i32" => Ty::I32,
            "u32" => Ty::U32,
            "i64" => Ty::I64,
            "u64" => Ty::U64,
            "isize" => Ty::Isize,
            "usize" => Ty::Usize,
            "f32" => Ty::F32,
            "f64" | "number" => Ty::F64,
            _ => return None,
        })
    }
}

#[derive(Clone, Debug)]
enum Op {
    I(I<'static>),
    /// a function of the program
    F(usize),
    /// an imported function
    X(usize),
}

type Code = Vec<Op>;
type R<T> = Result<T, Error>;

fn unsupported<T>(s: impl Into<String>) -> R<T> {
    Err(Error::Unsupported(s.into()))
}
fn bad<T>(s: impl Into<String>) -> R<T> {
    Err(Error::Program(s.into()))
}

struct ClassInfo {
    decl: Class,
    base: Option<usize>,
    /// own and inherited
    fields: Vec<(String, Ty, u32)>,
    size: u32,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Key {
    Fun(usize, Vec<Ty>),
    Method(usize, usize, Vec<Ty>),
    /// allocates and constructs
    New(usize),
    Ctor(usize),
    /// a method by the class of the object: class, name, type arguments
    Virtual(usize, String, Vec<Ty>),
    Alloc,
}

struct Sig {
    params: Vec<Ty>,
    ret: Ty,
}

struct Compiled {
    params: Vec<Ty>,
    ret: Ty,
    locals: Vec<W>,
    code: Code,
}

struct Global {
    name: String,
    ty: Ty,
    constant: bool,
    init: u64,
    export: bool,
}

enum Slot {
    Local(u32, Ty, bool),
}

/// What is known while a function body is compiled.
struct Ctx {
    tys: HashMap<String, Ty>,
    scopes: Vec<HashMap<String, Slot>>,
    nparams: u32,
    locals: Vec<W>,
    this: Option<usize>,
    in_ctor: bool,
    ret: Ty,
    depth: u32,
    /// depths to branch to: break, continue
    breaks: Vec<u32>,
    continues: Vec<u32>,
}

impl Ctx {
    fn new(ret: Ty) -> Ctx {
        Ctx {
            tys: HashMap::new(),
            scopes: vec![HashMap::new()],
            nparams: 0,
            locals: vec![],
            this: None,
            in_ctor: false,
            ret,
            depth: 0,
            breaks: vec![],
            continues: vec![],
        }
    }
    fn param(&mut self, name: &str, t: Ty) {
        self.scopes[0].insert(name.to_string(), Slot::Local(self.nparams, t, false));
        self.nparams += 1;
    }
    fn temp(&mut self, w: W) -> u32 {
        self.locals.push(w);
        self.nparams + self.locals.len() as u32 - 1
    }
    fn local(&self, n: &str) -> Option<(u32, Ty, bool)> {
        self.scopes.iter().rev().find_map(|s| s.get(n)).map(|Slot::Local(i, t, c)| (*i, *t, *c))
    }
}

#[derive(Default)]
struct Prog {
    funs: Vec<Fun>,
    fun_by_name: HashMap<String, usize>,
    classes: Vec<ClassInfo>,
    class_by_name: HashMap<String, usize>,
    enums: HashMap<String, HashMap<String, i32>>,
    globals: Vec<Global>,
    global_by_name: HashMap<String, usize>,
    pending: HashSet<String>,
    keys: Vec<Key>,
    key_index: HashMap<Key, usize>,
    done: Vec<Option<Compiled>>,
    queue: Vec<usize>,
    imports: Vec<(String, String, Vec<Ty>, Ty)>,
    import_by_fun: HashMap<usize, usize>,
    heap: bool,
}

const BUILTIN: [&str; 60] = [
    "assert", "abort", "trace", "console", "Math", "Mathf", "JSMath", "NativeMath", "NativeMathf", "heap", "memory", "changetype", "bswap", "clz", "ctz", "popcnt",
    "rotl", "rotr", "abs", "max", "min", "ceil", "floor", "copysign", "nearest", "reinterpret", "sqrt", "trunc", "eqz", "select", "offsetof", "alignof", "nameof",
    "idof", "isBoolean", "isReference", "isString", "isArray", "isArrayLike", "isFunction", "isNullable", "isDefined", "isConstant", "isManaged", "isVoid",
    "isVector", "lengthof", "instantiate", "call_indirect", "unchecked", "inline", "add", "sub", "mul", "div", "atomic", "ASC_TARGET", "__new", "process", "Date",
];
const STDLIB: [&str; 24] = [
    "Array", "String", "string", "Map", "Set", "ArrayBuffer", "StaticArray", "Uint8Array", "Int32Array", "Uint32Array", "Int8Array", "Float32Array", "Float64Array",
    "Int64Array", "Uint64Array", "DataView", "Error", "RegExp", "Symbol", "Object", "v128", "externref", "funcref", "i31ref",
];

pub fn compile(src: &str) -> R<Vec<u8>> {
    let items = Parser::new(src)?.program()?;
    let mut p = Prog::default();
    let mut start = vec![];
    let mut classes = vec![];
    for i in &items {
        match i {
            Item::Fun(f) => {
                if p.fun_by_name.insert(f.name.clone(), p.funs.len()).is_some() {
                    return bad(format!("duplicate identifier '{}'", f.name));
                }
                p.funs.push(f.clone());
            }
            Item::Class(c) => {
                if !c.tparams.is_empty() {
                    return unsupported("generic class");
                }
                if p.class_by_name.insert(c.name.clone(), p.class_by_name.len()).is_some() {
                    return bad(format!("duplicate identifier '{}'", c.name));
                }
                classes.push(c.clone());
            }
            Item::Enum(n, v) => {
                let mut m = HashMap::new();
                let mut next = 0;
                for (k, x) in v {
                    if let Some(x) = x {
                        next = match x {
                            Ex::Int(n) => *n as i32,
                            Ex::Un("-", e) if matches!(**e, Ex::Int(_)) => {
                                let Ex::Int(n) = **e else { unreachable!() };
                                -(n as i32)
                            }
                            _ => return unsupported("enum value"),
                        };
                    }
                    m.insert(k.clone(), next);
                    next += 1;
                }
                if p.enums.insert(n.clone(), m).is_some() {
                    return bad(format!("duplicate identifier '{n}'"));
                }
            }
            Item::Var(..) | Item::St(_) => (),
        }
    }
    for c in &classes {
        p.add_class(c, &classes, &mut vec![])?;
    }
    let names: Vec<(String, usize)> = p.class_by_name.iter().map(|(a, b)| (a.clone(), *b)).collect();
    for (n, _) in names {
        if p.fun_by_name.contains_key(&n) || p.enums.contains_key(&n) {
            return bad(format!("duplicate identifier '{n}'"));
        }
    }
    for i in &items {
        if let Item::Var(v, _) = i {
            for x in v {
                if !p.pending.insert(x.name.clone()) || p.fun_by_name.contains_key(&x.name) || p.class_by_name.contains_key(&x.name) {
                    return bad(format!("duplicate identifier '{}'", x.name));
                }
            }
        }
    }
    let mut cx = Ctx::new(Ty::Void);
    for i in &items {
        match i {
            Item::Var(v, export) => {
                for x in v {
                    p.global(&mut cx, x, *export, &mut start)?;
                }
            }
            Item::St(s) => {
                let c = p.stmt(&mut cx, s)?;
                start.extend(c);
            }
            _ => (),
        }
    }
    let mut exports = vec![];
    for k in 0..p.funs.len() {
        if !p.funs[k].export {
            continue;
        }
        if !p.funs[k].tparams.is_empty() {
            continue;
        }
        if p.funs[k].declare {
            return unsupported("exported declaration");
        }
        let f = p.want(Key::Fun(k, vec![]));
        exports.push((p.funs[k].name.clone(), f));
    }
    p.drain()?;
    p.emit(start, cx.locals, exports)
}

impl Prog {
    fn add_class(&mut self, c: &Class, all: &[Class], busy: &mut Vec<String>) -> R<usize> {
        let id = self.class_by_name[&c.name];
        if busy.contains(&c.name) {
            return bad("a class extends itself");
        }
        if id < self.classes.len() && self.classes[id].decl.name == c.name && !self.classes[id].decl.name.is_empty() {
            return Ok(id);
        }
        busy.push(c.name.clone());
        let base = match &c.base {
            None => None,
            Some(b) => {
                let Some(bc) = all.iter().find(|x| x.name == b.name) else {
                    return if STDLIB.contains(&b.name.as_str()) { unsupported(b.name.clone()) } else { bad(format!("cannot find name '{}'", b.name)) };
                };
                Some(self.add_class(bc, all, busy)?)
            }
        };
        busy.pop();
        while self.classes.len() <= id {
            self.classes.push(ClassInfo {
                decl: Class { name: String::new(), base: None, tparams: vec![], fields: vec![], ctor: None, methods: vec![], is_abstract: false },
                base: None,
                fields: vec![],
                size: 4,
            });
        }
        let (mut fields, mut size) = match base {
            Some(b) => (self.classes[b].fields.clone(), self.classes[b].size),
            None => (vec![], 4),
        };
        for f in &c.fields {
            let t = match &f.ty {
                Some(t) => self.ty(&HashMap::new(), t)?,
                None => return unsupported("field without a type"),
            };
            if let Some(old) = fields.iter().find(|x| x.0 == f.name) {
                if old.1 != t {
                    return bad(format!("types of property '{}' are incompatible", f.name));
                }
                continue;
            }
            let a = t.size().max(1);
            size = size.div_ceil(a) * a;
            fields.push((f.name.clone(), t, size));
            size += a;
        }
        self.classes[id] = ClassInfo { decl: c.clone(), base, fields, size };
        Ok(id)
    }

    fn ty(&self, tys: &HashMap<String, Ty>, t: &TyEx) -> R<Ty> {
        if t.array > 0 || !t.args.is_empty() {
            return unsupported("array or generic type");
        }
        if let Some(x) = tys.get(&t.name) {
            return Ok(*x);
        }
        if let Some(x) = Ty::by_name(&t.name) {
            return Ok(x);
        }
        if let Some(c) = self.class_by_name.get(&t.name) {
            return Ok(Ty::Class(*c));
        }
        if self.enums.contains_key(&t.name) {
            return Ok(Ty::I32);
        }
        if STDLIB.contains(&t.name.as_str()) {
            return unsupported(t.name.clone());
        }
        bad(format!("cannot find name '{}'", t.name))
    }

    fn want(&mut self, k: Key) -> usize {
        if let Some(i) = self.key_index.get(&k) {
            return *i;
        }
        let i = self.keys.len();
        self.keys.push(k.clone());
        self.key_index.insert(k, i);
        self.done.push(None);
        self.queue.push(i);
        i
    }

    fn drain(&mut self) -> R<()> {
        while let Some(i) = self.queue.pop() {
            let k = self.keys[i].clone();
            let c = self.body(&k)?;
            self.done[i] = Some(c);
            if self.keys.len() > 20_000 {
                return unsupported("too many instances");
            }
        }
        Ok(())
    }

    fn bind(&self, f: &Fun, targs: &[Ty]) -> R<HashMap<String, Ty>> {
        if f.tparams.len() != targs.len() {
            return bad(format!("expected {} type arguments, but got {}", f.tparams.len(), targs.len()));
        }
        Ok(f.tparams.iter().cloned().zip(targs.iter().copied()).collect())
    }

    fn sig(&self, f: &Fun, tys: &HashMap<String, Ty>) -> R<Sig> {
        let params = f.params.iter().map(|p| self.ty(tys, &p.1)).collect::<R<Vec<_>>>()?;
        let ret = match &f.ret {
            Some(t) => self.ty(tys, t)?,
            None => return bad(format!("type expected: return type of '{}'", f.name)),
        };
        if params.contains(&Ty::Void) {
            return bad("type expected");
        }
        Ok(Sig { params, ret })
    }

    /// The class that declares a method, from the class of the object upwards.
    fn method(&self, c: usize, n: &str) -> Option<(usize, usize)> {
        let mut k = Some(c);
        while let Some(x) = k {
            if let Some(i) = self.classes[x].decl.methods.iter().position(|m| m.name == n && !m.is_static) {
                return Some((x, i));
            }
            k = self.classes[x].base;
        }
        None
    }
    fn is_a(&self, c: usize, b: usize) -> bool {
        let mut k = Some(c);
        while let Some(x) = k {
            if x == b {
                return true;
            }
            k = self.classes[x].base;
        }
        false
    }
    /// The constructor an object of this class is made with, and the class it belongs to.
    fn ctor(&self, c: usize) -> Option<(usize, Fun)> {
        let mut k = Some(c);
        while let Some(x) = k {
            if let Some(f) = &self.classes[x].decl.ctor {
                return Some((x, f.clone()));
            }
            k = self.classes[x].base;
        }
        None
    }
    fn ctor_params(&self, c: usize) -> R<Vec<Ty>> {
        match self.ctor(c) {
            None => Ok(vec![]),
            Some((_, f)) => f.params.iter().map(|p| self.ty(&HashMap::new(), &p.1)).collect(),
        }
    }

    fn body(&mut self, k: &Key) -> R<Compiled> {
        match k {
            Key::Fun(i, t) => {
                let f = self.funs[*i].clone();
                self.function(&f, t, None)
            }
            Key::Method(c, i, t) => {
                let f = self.classes[*c].decl.methods[*i].clone();
                self.function(&f, t, Some(*c))
            }
            Key::New(c) => {
                let params = self.ctor_params(*c)?;
                let a = self.want(Key::Alloc);
                let f = self.want(Key::Ctor(*c));
                let this = params.len() as u32;
                let mut code = vec![Op::I(I::I32Const(self.classes[*c].size as i32)), Op::F(a), Op::I(I::LocalTee(this)), Op::I(I::I32Const(*c as i32))];
                code.push(Op::I(I::I32Store(MemArg { offset: 0, align: 2, memory_index: 0 })));
                code.push(Op::I(I::LocalGet(this)));
                for i in 0..params.len() {
                    code.push(Op::I(I::LocalGet(i as u32)));
                }
                code.push(Op::F(f));
                code.push(Op::I(I::LocalGet(this)));
                Ok(Compiled { params, ret: Ty::Class(*c), locals: vec![W::I32], code })
            }
            Key::Ctor(c) => self.constructor(*c),
            Key::Virtual(c, n, t) => self.dispatch(*c, n, t),
            Key::Alloc => {
                self.heap = true;
                // size -> address: global 0 is the next free byte
                let code = vec![
                    I::GlobalGet(0),
                    I::LocalSet(1),
                    I::GlobalGet(0),
                    I::LocalGet(0),
                    I::I32Add,
                    I::I32Const(7),
                    I::I32Add,
                    I::I32Const(-8),
                    I::I32And,
                    I::LocalTee(2),
                    I::MemorySize(0),
                    I::I32Const(16),
                    I::I32Shl,
                    I::I32GtU,
                    I::If(we::BlockType::Empty),
                    I::I32Const(1),
                    I::MemoryGrow(0),
                    I::I32Const(-1),
                    I::I32Eq,
                    I::If(we::BlockType::Empty),
                    I::Unreachable,
                    I::End,
                    I::End,
                    I::LocalGet(2),
                    I::GlobalSet(0),
                    I::LocalGet(1),
                ];
                Ok(Compiled { params: vec![Ty::Usize], ret: Ty::Usize, locals: vec![W::I32, W::I32], code: code.into_iter().map(Op::I).collect() })
            }
        }
    }

    fn function(&mut self, f: &Fun, targs: &[Ty], this: Option<usize>) -> R<Compiled> {
        let tys = self.bind(f, targs)?;
        let s = self.sig(f, &tys)?;
        let mut cx = Ctx::new(s.ret);
        cx.tys = tys;
        let mut params = vec![];
        if let Some(c) = this {
            cx.nparams = 1;
            cx.this = Some(c);
            params.push(Ty::Class(c));
        }
        for (n, t) in f.params.iter().zip(&s.params) {
            if cx.scopes[0].contains_key(&n.0) {
                return bad(format!("duplicate identifier '{}'", n.0));
            }
            cx.param(&n.0, *t);
        }
        params.extend(&s.params);
        let Some(body) = &f.body else { return bad(format!("function '{}' has no body", f.name)) };
        let (mut code, ends) = self.block(&mut cx, body)?;
        if s.ret != Ty::Void {
            if !ends {
                return bad(format!("function '{}' whose declared type is not 'void' must return a value", f.name));
            }
            code.push(Op::I(I::Unreachable));
        }
        Ok(Compiled { params, ret: s.ret, locals: cx.locals, code })
    }

    fn constructor(&mut self, c: usize) -> R<Compiled> {
        let decl = self.classes[c].decl.clone();
        let base = self.classes[c].base;
        let mut cx = Ctx::new(Ty::Void);
        cx.this = Some(c);
        cx.in_ctor = true;
        cx.nparams = 1;
        let inherited = self.ctor_params(c)?;
        let mut params = vec![Ty::Class(c)];
        params.extend(&inherited);
        match &decl.ctor {
            Some(f) => {
                for (n, t) in f.params.iter().zip(&inherited) {
                    cx.param(&n.0, *t);
                }
            }
            None => cx.nparams += inherited.len() as u32,
        }
        let mut code = vec![];
        for f in decl.fields.iter().filter(|f| f.init.is_some()) {
            let (_, t, off) = self.classes[c].fields.iter().find(|x| x.0 == f.name).cloned().expect("field");
            code.push(Op::I(I::LocalGet(0)));
            let x = self.conv_expr(&mut cx, f.init.as_ref().expect("init"), t)?;
            code.extend(x);
            code.push(Op::I(store_op(t, off)));
        }
        match &decl.ctor {
            Some(f) => {
                let body = f.body.clone().unwrap_or_default();
                let mut calls_super = false;
                fn find(s: &St, y: &mut bool) {
                    match s {
                        St::Ex(Ex::Super(_)) => *y = true,
                        St::Block(v) => v.iter().for_each(|s| find(s, y)),
                        _ => (),
                    }
                }
                body.iter().for_each(|s| find(s, &mut calls_super));
                if base.is_some() && !calls_super {
                    return bad("constructors for derived classes must contain a 'super' call");
                }
                let (b, _) = self.block(&mut cx, &body)?;
                code.extend(b);
            }
            None => {
                if let Some(b) = base {
                    let f = self.want(Key::Ctor(b));
                    for i in 0..=inherited.len() {
                        code.push(Op::I(I::LocalGet(i as u32)));
                    }
                    code.push(Op::F(f));
                }
            }
        }
        Ok(Compiled { params, ret: Ty::Void, locals: cx.locals, code })
    }

    fn dispatch(&mut self, c: usize, n: &str, t: &[Ty]) -> R<Compiled> {
        let (dc, di) = self.method(c, n).expect("method");
        let decl = self.classes[dc].decl.methods[di].clone();
        let tys = self.bind(&decl, t)?;
        let s = self.sig(&decl, &tys)?;
        let mut params = vec![Ty::Class(c)];
        params.extend(&s.params);
        let mut code = vec![];
        let all: Vec<usize> = (0..self.classes.len()).filter(|k| self.is_a(*k, c)).collect();
        for k in all {
            if self.classes[k].decl.is_abstract {
                continue;
            }
            let (mc, mi) = self.method(k, n).expect("method");
            let m = self.classes[mc].decl.methods[mi].clone();
            if m.body.is_none() {
                return bad(format!("class '{}' does not implement '{n}'", self.classes[k].decl.name));
            }
            let mt = self.bind(&m, t)?;
            let ms = self.sig(&m, &mt)?;
            if ms.params != s.params || ms.ret != s.ret {
                return unsupported("overriding method with another signature");
            }
            let f = self.want(Key::Method(mc, mi, t.to_vec()));
            code.push(Op::I(I::LocalGet(0)));
            code.push(Op::I(I::I32Load(MemArg { offset: 0, align: 2, memory_index: 0 })));
            code.push(Op::I(I::I32Const(k as i32)));
            code.push(Op::I(I::I32Eq));
            code.push(Op::I(I::If(we::BlockType::Empty)));
            for i in 0..params.len() {
                code.push(Op::I(I::LocalGet(i as u32)));
            }
            code.push(Op::F(f));
            code.push(Op::I(I::Return));
            code.push(Op::I(I::End));
        }
        code.push(Op::I(I::Unreachable));
        Ok(Compiled { params, ret: s.ret, locals: vec![], code })
    }

    fn global(&mut self, cx: &mut Ctx, v: &Var, export: bool, start: &mut Code) -> R<()> {
        let given = match &v.ty {
            Some(t) => Some(self.ty(&HashMap::new(), t)?),
            None => None,
        };
        let mut init = 0;
        let ty;
        match &v.init {
            None => {
                let Some(t) = given else { return bad("type expected") };
                if v.constant {
                    return bad("'const' declarations must be initialized");
                }
                ty = t;
            }
            Some(e) => {
                let (t, code) = match given {
                    Some(t) => (t, self.conv_expr(cx, e, t)?),
                    None => self.expr(cx, e, None)?,
                };
                if t == Ty::Void {
                    return bad("type 'void' is not assignable");
                }
                ty = t;
                let index = self.globals.len() as u32 + 1;
                match code.as_slice() {
                    [Op::I(I::I32Const(x))] => init = *x as u32 as u64,
                    [Op::I(I::I64Const(x))] => init = *x as u64,
                    [Op::I(I::F32Const(x))] => init = x.bits().into(),
                    [Op::I(I::F64Const(x))] => init = x.bits(),
                    _ => {
                        start.extend(code);
                        start.push(Op::I(I::GlobalSet(index)));
                    }
                }
            }
        }
        self.pending.remove(&v.name);
        self.global_by_name.insert(v.name.clone(), self.globals.len());
        self.globals.push(Global { name: v.name.clone(), ty, constant: v.constant, init, export });
        Ok(())
    }

    // ------------------------------------------------------------ statements

    /// The code, and whether control never comes out at the end.
    fn block(&mut self, cx: &mut Ctx, v: &[St]) -> R<(Code, bool)> {
        cx.scopes.push(HashMap::new());
        let r = self.seq(cx, v);
        cx.scopes.pop();
        r
    }
    fn seq(&mut self, cx: &mut Ctx, v: &[St]) -> R<(Code, bool)> {
        let mut code = vec![];
        for s in v {
            let (c, e) = self.stmt_ends(cx, s)?;
            code.extend(c);
            if e {
                return Ok((code, true));
            }
        }
        Ok((code, false))
    }
    fn stmt(&mut self, cx: &mut Ctx, s: &St) -> R<Code> {
        self.stmt_ends(cx, s).map(|x| x.0)
    }
    fn scoped(&mut self, cx: &mut Ctx, s: &St) -> R<(Code, bool)> {
        cx.scopes.push(HashMap::new());
        let r = self.stmt_ends(cx, s);
        cx.scopes.pop();
        r
    }

    fn stmt_ends(&mut self, cx: &mut Ctx, s: &St) -> R<(Code, bool)> {
        match s {
            St::Empty => Ok((vec![], false)),
            St::Block(v) => self.block(cx, v),
            St::Ex(e) => {
                let (t, mut c) = self.expr(cx, e, None)?;
                if t != Ty::Void {
                    c.push(Op::I(I::Drop));
                }
                let ends = matches!(e, Ex::Call(f, _, _) if matches!(&**f, Ex::Name(n) if (n == "unreachable" || n == "abort") && cx.local(n).is_none() && !self.fun_by_name.contains_key(n)));
                Ok((c, ends))
            }
            St::Throw => Ok((vec![Op::I(I::Unreachable)], true)),
            St::Var(v) => {
                let mut code = vec![];
                for x in v {
                    let given = match &x.ty {
                        Some(t) => Some(self.ty(&cx.tys.clone(), t)?),
                        None => None,
                    };
                    let (t, c) = match (&x.init, given) {
                        (Some(e), Some(t)) => (t, self.conv_expr(cx, e, t)?),
                        (Some(e), None) => self.expr(cx, e, None)?,
                        (None, Some(t)) => (t, vec![]),
                        (None, None) => return bad("type expected"),
                    };
                    let Some(w) = t.w() else { return bad("type 'void' is not assignable") };
                    if cx.scopes.last().expect("scope").contains_key(&x.name) || cx.scopes.len() == 2 && cx.scopes[0].contains_key(&x.name) {
                        return bad(format!("duplicate identifier '{}'", x.name));
                    }
                    let i = cx.temp(w);
                    if x.init.is_some() {
                        code.extend(c);
                    } else {
                        code.push(Op::I(zero(w)));
                    }
                    code.push(Op::I(I::LocalSet(i)));
                    cx.scopes.last_mut().expect("scope").insert(x.name.clone(), Slot::Local(i, t, x.constant));
                }
                Ok((code, false))
            }
            St::If(c, a, b) => {
                if let Some(k) = self.constant(cx, c) {
                    return match (k != 0, b) {
                        (true, _) => self.scoped(cx, a),
                        (false, Some(b)) => self.scoped(cx, b),
                        (false, None) => Ok((vec![], false)),
                    };
                }
                let mut code = self.truth(cx, c)?;
                code.push(Op::I(I::If(we::BlockType::Empty)));
                cx.depth += 1;
                let (x, e1) = self.scoped(cx, a)?;
                code.extend(x);
                let mut e2 = false;
                if let Some(b) = b {
                    code.push(Op::I(I::Else));
                    let (x, e) = self.scoped(cx, b)?;
                    code.extend(x);
                    e2 = e;
                }
                cx.depth -= 1;
                code.push(Op::I(I::End));
                Ok((code, e1 && e2))
            }
            St::While(c, b) => {
                let body = St::For(None, Some(c.clone()), None, b.clone());
                self.stmt_ends(cx, &body)
            }
            St::For(init, c, n, b) => {
                cx.scopes.push(HashMap::new());
                let mut code = match init {
                    Some(s) => self.stmt(cx, s)?,
                    None => vec![],
                };
                let endless = match c {
                    None => true,
                    Some(c) => self.constant(cx, c).is_some_and(|k| k != 0),
                };
                // block { loop { cond; br_if out; block { body } ; next; br loop } }
                code.push(Op::I(I::Block(we::BlockType::Empty)));
                cx.depth += 1;
                let out = cx.depth;
                code.push(Op::I(I::Loop(we::BlockType::Empty)));
                cx.depth += 1;
                if let (false, Some(c)) = (endless, c) {
                    let x = self.truth(cx, c)?;
                    code.extend(x);
                    code.push(Op::I(I::I32Eqz));
                    code.push(Op::I(I::BrIf(1)));
                }
                code.push(Op::I(I::Block(we::BlockType::Empty)));
                cx.depth += 1;
                cx.breaks.push(out);
                cx.continues.push(cx.depth);
                let (x, _) = self.scoped(cx, b)?;
                cx.breaks.pop();
                cx.continues.pop();
                code.extend(x);
                code.push(Op::I(I::End));
                cx.depth -= 1;
                if let Some(n) = n {
                    let (t, x) = self.expr(cx, n, None)?;
                    code.extend(x);
                    if t != Ty::Void {
                        code.push(Op::I(I::Drop));
                    }
                }
                code.push(Op::I(I::Br(0)));
                code.push(Op::I(I::End));
                code.push(Op::I(I::End));
                cx.depth -= 2;
                cx.scopes.pop();
                let breaks = matches!(&**b, St::Block(_) | St::Break | St::If(..)) && has_break(b);
                Ok((code, endless && !breaks))
            }
            St::DoWhile(..) => unsupported("do while"),
            St::Switch(e, cases) => {
                let (t, mut code) = self.expr(cx, e, None)?;
                let Some(w) = t.w() else { return bad("operator cannot be applied to type 'void'") };
                let v = cx.temp(w);
                code.push(Op::I(I::LocalSet(v)));
                // a block per case, innermost first; out around them
                code.push(Op::I(I::Block(we::BlockType::Empty)));
                cx.depth += 1;
                let out = cx.depth;
                let n = cases.len();
                for _ in 0..n {
                    code.push(Op::I(I::Block(we::BlockType::Empty)));
                }
                let mut default = n as u32;
                for (i, (k, _)) in cases.iter().enumerate() {
                    let Some(k) = k else {
                        default = i as u32;
                        continue;
                    };
                    cx.depth += n as u32;
                    let (kt, x) = self.expr(cx, k, Some(t))?;
                    cx.depth -= n as u32;
                    let (_, eq) = self.binary("==", t, vec![Op::I(I::LocalGet(v))], kt, x)?;
                    code.extend(eq);
                    code.push(Op::I(I::BrIf(i as u32)));
                }
                code.push(Op::I(I::Br(default)));
                let mut ends = cases.iter().any(|c| c.0.is_none());
                cx.scopes.push(HashMap::new());
                for (i, (_, b)) in cases.iter().enumerate() {
                    code.push(Op::I(I::End));
                    cx.depth += (n - 1 - i) as u32;
                    cx.breaks.push(out);
                    let (x, e) = self.seq(cx, b)?;
                    cx.breaks.pop();
                    cx.depth -= (n - 1 - i) as u32;
                    code.extend(x);
                    if i + 1 == n {
                        ends &= e;
                    }
                    ends &= !b.iter().any(has_break);
                }
                cx.scopes.pop();
                code.push(Op::I(I::End));
                cx.depth -= 1;
                Ok((code, ends))
            }
            St::Return(None) => {
                if cx.ret != Ty::Void {
                    return bad("type 'void' is not assignable to the return type");
                }
                Ok((vec![Op::I(I::Return)], true))
            }
            St::Return(Some(e)) => {
                let mut code = if cx.ret == Ty::Void {
                    let (t, c) = self.expr(cx, e, None)?;
                    if t != Ty::Void {
                        return bad("a value is returned from a function of type 'void'");
                    }
                    c
                } else {
                    let r = cx.ret;
                    self.conv_expr(cx, e, r)?
                };
                code.push(Op::I(I::Return));
                Ok((code, true))
            }
            St::Break => match cx.breaks.last() {
                Some(d) => Ok((vec![Op::I(I::Br(cx.depth - d))], true)),
                None => bad("a 'break' outside of a loop"),
            },
            St::Continue => match cx.continues.last() {
                Some(d) => Ok((vec![Op::I(I::Br(cx.depth - d))], true)),
                None => bad("a 'continue' outside of a loop"),
            },
        }
    }

    // ------------------------------------------------------------ expressions

    /// What is known when compiling, for branches that are then not compiled.
    fn constant(&self, cx: &Ctx, e: &Ex) -> Option<i64> {
        Some(match e {
            Ex::Int(n) => *n as i64,
            Ex::Bool(b) => i64::from(*b),
            Ex::Un("!", a) => i64::from(self.constant(cx, a)? == 0),
            Ex::Un("-", a) => self.constant(cx, a)?.wrapping_neg(),
            Ex::Call(f, Some(t), a) if t.len() == 1 && a.is_empty() => {
                let Ex::Name(n) = &**f else { return None };
                let t = self.ty(&cx.tys, &t[0]).ok()?;
                match n.as_str() {
                    "sizeof" => t.size().max(u32::from(t == Ty::Bool)).into(),
                    "isInteger" => t.integer().into(),
                    "isFloat" => t.float().into(),
                    "isSigned" => t.signed().into(),
                    _ => return None,
                }
            }
            Ex::Bin("&&", a, b) => {
                let x = self.constant(cx, a)?;
                if x == 0 {
                    0
                } else {
                    self.constant(cx, b)?
                }
            }
            Ex::Bin("||", a, b) => {
                let x = self.constant(cx, a)?;
                if x == 0 {
                    self.constant(cx, b)?
                } else {
                    x
                }
            }
            Ex::Bin(op, a, b) => {
                let (a, b) = (self.constant(cx, a)?, self.constant(cx, b)?);
                match *op {
                    "==" | "===" => (a == b).into(),
                    "!=" | "!==" => (a != b).into(),
                    "<" => (a < b).into(),
                    ">" => (a > b).into(),
                    "<=" => (a <= b).into(),
                    ">=" => (a >= b).into(),
                    _ => return None,
                }
            }
            _ => return None,
        })
    }

    fn truth(&mut self, cx: &mut Ctx, e: &Ex) -> R<Code> {
        let (t, mut c) = self.expr(cx, e, None)?;
        match t.w() {
            None => return bad("an expression of type 'void' cannot be tested"),
            Some(W::I32) => (),
            Some(W::I64) => {
                c.push(Op::I(I::I64Const(0)));
                c.push(Op::I(I::I64Ne));
            }
            _ => return unsupported("truth of a float"),
        }
        Ok(c)
    }

    fn assignable(&self, a: Ty, b: Ty) -> bool {
        match (a, b) {
            (Ty::Class(x), Ty::Class(y)) => self.is_a(x, y),
            (Ty::Class(_), _) | (_, Ty::Class(_)) | (Ty::Void, _) | (_, Ty::Void) => false,
            (a, b) if a.integer() && b.integer() => b != Ty::Bool && (a == Ty::Bool || a.bits() <= b.bits()) || a == b,
            (a, Ty::F32) if a.integer() => a.bits() <= 23,
            (a, Ty::F64) if a.integer() => a.bits() <= 52,
            (a, b) => a == b || (a == Ty::F32 && b == Ty::F64),
        }
    }

    fn convert(&self, from: Ty, to: Ty, mut c: Code, explicit: bool) -> R<Code> {
        if from == to {
            return Ok(c);
        }
        if !explicit && !self.assignable(from, to) {
            if to == Ty::Bool && from.integer() && !from.wide() {
                // asc says so too: not assignable
                return bad(format!("type '{}' is not assignable to type 'bool'", self.show(from)));
            }
            if from.integer() && to.integer() || from.float() && to.float() || from.integer() && to.float() || from.float() && to.integer() {
                return bad(format!("conversion from type '{}' to '{}' requires an explicit cast", self.show(from), self.show(to)));
            }
            return bad(format!("type '{}' is not assignable to type '{}'", self.show(from), self.show(to)));
        }
        if to == Ty::Void {
            c.push(Op::I(I::Drop));
            return Ok(c);
        }
        if from == Ty::Void {
            return bad("type 'void' is not assignable");
        }
        if let (Ty::Class(_), _) | (_, Ty::Class(_)) = (from, to) {
            return match (from, to) {
                (Ty::Class(a), Ty::Class(b)) if self.is_a(a, b) => Ok(c),
                _ => unsupported("cast of an object"),
            };
        }
        if to == Ty::Bool {
            if from.wide() {
                c.push(Op::I(I::I64Const(0)));
                c.push(Op::I(I::I64Ne));
            } else if from.integer() {
                c.push(Op::I(I::I32Const(0)));
                c.push(Op::I(I::I32Ne));
            } else {
                return unsupported("float to bool");
            }
            return Ok(c);
        }
        let (a, b) = (from.w().expect("value"), to.w().expect("value"));
        let i = match (a, b) {
            (W::I32, W::I64) => Some(if from.signed() { I::I64ExtendI32S } else { I::I64ExtendI32U }),
            (W::I64, W::I32) => Some(I::I32WrapI64),
            (W::F32, W::F64) => Some(I::F64PromoteF32),
            (W::F64, W::F32) => Some(I::F32DemoteF64),
            (W::I32, W::F32) => Some(if from.signed() { I::F32ConvertI32S } else { I::F32ConvertI32U }),
            (W::I32, W::F64) => Some(if from.signed() { I::F64ConvertI32S } else { I::F64ConvertI32U }),
            (W::I64, W::F32) => Some(if from.signed() { I::F32ConvertI64S } else { I::F32ConvertI64U }),
            (W::I64, W::F64) => Some(if from.signed() { I::F64ConvertI64S } else { I::F64ConvertI64U }),
            (W::F32, W::I32) => Some(if to.signed() { I::I32TruncF32S } else { I::I32TruncF32U }),
            (W::F64, W::I32) => Some(if to.signed() { I::I32TruncF64S } else { I::I32TruncF64U }),
            (W::F32, W::I64) => Some(if to.signed() { I::I64TruncF32S } else { I::I64TruncF32U }),
            (W::F64, W::I64) => Some(if to.signed() { I::I64TruncF64S } else { I::I64TruncF64U }),
            _ => None,
        };
        c.extend(i.map(Op::I));
        wrap_small(to, &mut c);
        Ok(c)
    }

    fn show(&self, t: Ty) -> String {
        match t {
            Ty::Class(c) => self.classes[c].decl.name.clone(),
            t => format!("{t:?}").to_lowercase(),
        }
    }

    fn conv_expr(&mut self, cx: &mut Ctx, e: &Ex, t: Ty) -> R<Code> {
        let (f, c) = self.expr(cx, e, Some(t))?;
        self.convert(f, t, c, false)
    }

    fn int(&self, n: u64, neg: bool, ctx: Option<Ty>) -> R<(Ty, Code)> {
        let v = if neg { (n as i64).wrapping_neg() } else { n as i64 };
        match ctx {
            Some(Ty::F32) => return Ok((Ty::F32, vec![Op::I(I::F32Const((v as f32).into()))])),
            Some(Ty::F64) => return Ok((Ty::F64, vec![Op::I(I::F64Const((v as f64).into()))])),
            Some(t) if t.wide() => return Ok((t, vec![Op::I(I::I64Const(v))])),
            Some(t @ (Ty::I32 | Ty::U32 | Ty::Usize | Ty::Isize)) if (i64::from(i32::MIN)..=i64::from(u32::MAX)).contains(&v) => {
                if t.signed() && v > i64::from(i32::MAX) || !t.signed() && v < 0 {
                    return unsupported("literal out of range");
                }
                return Ok((t, vec![Op::I(I::I32Const(v as i32))]));
            }
            Some(t) if t.small() || t == Ty::Bool => return unsupported("small literal"),
            _ => (),
        }
        if i32::try_from(v).is_ok() {
            Ok((Ty::I32, vec![Op::I(I::I32Const(v as i32))]))
        } else if u32::try_from(v).is_ok() {
            Ok((Ty::U32, vec![Op::I(I::I32Const(v as u32 as i32))]))
        } else {
            Ok((Ty::I64, vec![Op::I(I::I64Const(v))]))
        }
    }

    fn unknown<T>(&self, n: &str) -> R<T> {
        if BUILTIN.contains(&n) || STDLIB.contains(&n) || n.starts_with("__") || Ty::by_name(n).is_some() || self.pending.contains(n) {
            return unsupported(n.to_string());
        }
        bad(format!("cannot find name '{n}'"))
    }

    fn expr(&mut self, cx: &mut Ctx, e: &Ex, ctx: Option<Ty>) -> R<(Ty, Code)> {
        match e {
            Ex::Int(n) => self.int(*n, false, ctx),
            Ex::Float(x) => Ok(match ctx {
                Some(Ty::F32) => (Ty::F32, vec![Op::I(I::F32Const((*x as f32).into()))]),
                _ => (Ty::F64, vec![Op::I(I::F64Const((*x).into()))]),
            }),
            Ex::Str(_) => unsupported("string"),
            Ex::Null => unsupported("null"),
            Ex::Bool(b) => Ok((Ty::Bool, vec![Op::I(I::I32Const(i32::from(*b)))])),
            Ex::This => match cx.this {
                Some(c) => Ok((Ty::Class(c), vec![Op::I(I::LocalGet(0))])),
                None => bad("'this' cannot be referenced here"),
            },
            Ex::Name(n) => {
                if let Some((i, t, _)) = cx.local(n) {
                    return Ok((t, vec![Op::I(I::LocalGet(i))]));
                }
                if let Some(g) = self.global_by_name.get(n) {
                    return Ok((self.globals[*g].ty, vec![Op::I(I::GlobalGet(*g as u32 + 1))]));
                }
                if self.fun_by_name.contains_key(n) {
                    return unsupported("function as a value");
                }
                if matches!(n.as_str(), "NaN" | "Infinity") {
                    let x = if n == "NaN" { f64::NAN } else { f64::INFINITY };
                    return self.expr(cx, &Ex::Float(x), ctx);
                }
                self.unknown(n)
            }
            Ex::Other(s) => unsupported(s.clone()),
            Ex::Un("-", a) if matches!(**a, Ex::Int(_)) => {
                let Ex::Int(n) = **a else { unreachable!() };
                self.int(n, true, ctx)
            }
            Ex::Un(op, a) => {
                if *op == "!" {
                    let mut c = self.truth(cx, a)?;
                    c.push(Op::I(I::I32Eqz));
                    return Ok((Ty::Bool, c));
                }
                let (t, mut c) = self.expr(cx, a, ctx)?;
                if t == Ty::Void || matches!(t, Ty::Class(_)) {
                    return bad(format!("operator '{op}' cannot be applied to type '{}'", self.show(t)));
                }
                if t.small() || t == Ty::Bool {
                    return unsupported("unary on a small integer");
                }
                match (*op, t.w().expect("value")) {
                    ("+", _) => (),
                    ("-", W::F32) => c.push(Op::I(I::F32Neg)),
                    ("-", W::F64) => c.push(Op::I(I::F64Neg)),
                    ("-", W::I32) => {
                        c.insert(0, Op::I(I::I32Const(0)));
                        c.push(Op::I(I::I32Sub));
                    }
                    ("-", _) => {
                        c.insert(0, Op::I(I::I64Const(0)));
                        c.push(Op::I(I::I64Sub));
                    }
                    ("~", W::I32) => {
                        c.push(Op::I(I::I32Const(-1)));
                        c.push(Op::I(I::I32Xor));
                    }
                    ("~", W::I64) => {
                        c.push(Op::I(I::I64Const(-1)));
                        c.push(Op::I(I::I64Xor));
                    }
                    _ => return bad(format!("operator '{op}' cannot be applied to type '{}'", self.show(t))),
                }
                Ok((t, c))
            }
            Ex::Inc(op, before, a) => {
                let one = Ex::Assign(Some(if *op == "++" { "+" } else { "-" }), a.clone(), Box::new(Ex::Int(1)));
                if *before {
                    return self.expr(cx, &one, ctx);
                }
                let (t, mut c) = self.expr(cx, a, None)?;
                if matches!(**a, Ex::Dot(..)) {
                    // the object is looked at twice, which only shows if that does something
                    if !pure(a) {
                        return unsupported("increment of a computed place");
                    }
                }
                let (t2, c2) = self.expr(cx, &one, None)?;
                c.extend(c2);
                if t2 != Ty::Void {
                    c.push(Op::I(I::Drop));
                }
                Ok((t, c))
            }
            Ex::Bin(op @ ("&&" | "||"), a, b) => {
                let (ta, ca) = self.expr(cx, a, ctx)?;
                let test = {
                    if ta == Ty::Void {
                        return bad("an expression of type 'void' cannot be tested");
                    }
                    if ta.float() {
                        return unsupported("truth of a float");
                    }
                    ca
                };
                let Some(w) = ta.w() else { unreachable!() };
                let t = cx.temp(w);
                cx.depth += 1;
                let r = self.expr(cx, b, Some(ta));
                cx.depth -= 1;
                let (tb, cb) = r?;
                let tb2 = if tb == ta { ta } else if self.assignable(tb, ta) { ta } else { return unsupported("mixed types with && or ||") };
                let cb = self.convert(tb, tb2, cb, false)?;
                let mut c = test;
                c.push(Op::I(I::LocalTee(t)));
                if w == W::I64 {
                    c.push(Op::I(I::I64Const(0)));
                    c.push(Op::I(I::I64Ne));
                }
                c.push(Op::I(I::If(we::BlockType::Result(w))));
                if *op == "&&" {
                    c.extend(cb);
                    c.push(Op::I(I::Else));
                    c.push(Op::I(I::LocalGet(t)));
                } else {
                    c.push(Op::I(I::LocalGet(t)));
                    c.push(Op::I(I::Else));
                    c.extend(cb);
                }
                c.push(Op::I(I::End));
                Ok((ta, c))
            }
            Ex::Bin(op, a, b) => {
                let compares = matches!(*op, "==" | "!=" | "===" | "!==" | "<" | ">" | "<=" | ">=");
                let (ta, ca) = self.expr(cx, a, if compares { None } else { ctx })?;
                let (tb, cb) = self.expr(cx, b, Some(ta))?;
                self.binary(op, ta, ca, tb, cb)
            }
            Ex::Assign(op, to, v) => self.assign(cx, *op, to, v),
            Ex::Cond(c, a, b) => {
                if let Some(k) = self.constant(cx, c) {
                    return self.expr(cx, if k != 0 { a } else { b }, ctx);
                }
                let mut code = self.truth(cx, c)?;
                cx.depth += 1;
                let ra = self.expr(cx, a, ctx);
                let rb = match &ra {
                    Ok((t, _)) => {
                        let t = ctx.unwrap_or(*t);
                        self.expr(cx, b, Some(t))
                    }
                    Err(e) => Err(e.clone()),
                };
                cx.depth -= 1;
                let ((ta, ca), (tb, cb)) = (ra?, rb?);
                let t = if self.assignable(tb, ta) || ta == tb {
                    ta
                } else if self.assignable(ta, tb) {
                    tb
                } else {
                    return bad("the arms of a conditional have no common type");
                };
                let (ca, cb) = (self.convert(ta, t, ca, false)?, self.convert(tb, t, cb, false)?);
                code.push(Op::I(I::If(match t.w() {
                    Some(w) => we::BlockType::Result(w),
                    None => we::BlockType::Empty,
                })));
                code.extend(ca);
                code.push(Op::I(I::Else));
                code.extend(cb);
                code.push(Op::I(I::End));
                Ok((t, code))
            }
            Ex::As(a, t) => {
                let t = self.ty(&cx.tys.clone(), t)?;
                let (f, c) = self.expr(cx, a, Some(t))?;
                Ok((t, self.convert(f, t, c, true)?))
            }
            Ex::New(t, args) => {
                if !t.args.is_empty() || t.array > 0 {
                    return unsupported("generic class");
                }
                let Some(c) = self.class_by_name.get(&t.name).copied() else { return self.unknown(&t.name) };
                if self.classes[c].decl.is_abstract {
                    return bad("cannot create an instance of an abstract class");
                }
                let params = self.ctor_params(c)?;
                let mut code = self.arguments(cx, args, &params)?;
                let f = self.want(Key::New(c));
                code.push(Op::F(f));
                Ok((Ty::Class(c), code))
            }
            Ex::Super(args) => {
                let (Some(c), true) = (cx.this, cx.in_ctor) else { return bad("'super' outside of a constructor") };
                let Some(b) = self.classes[c].base else { return bad("'super' in a class without a base") };
                let params = self.ctor_params(b)?;
                let mut code = vec![Op::I(I::LocalGet(0))];
                code.extend(self.arguments(cx, args, &params)?);
                let f = self.want(Key::Ctor(b));
                code.push(Op::F(f));
                Ok((Ty::Void, code))
            }
            Ex::Dot(o, n) => {
                if let Ex::Name(x) = &**o {
                    if cx.local(x).is_none() && !self.global_by_name.contains_key(x) {
                        if let Some(e) = self.enums.get(x) {
                            return match e.get(n) {
                                Some(v) => Ok((Ty::I32, vec![Op::I(I::I32Const(*v))])),
                                None => bad(format!("property '{n}' does not exist on '{x}'")),
                            };
                        }
                        if Ty::by_name(x).is_some() {
                            return unsupported(format!("{x}.{n}"));
                        }
                    }
                }
                let (t, mut c) = self.expr(cx, o, None)?;
                let Ty::Class(k) = t else { return bad(format!("property '{n}' does not exist on type '{}'", self.show(t))) };
                let Some((_, ft, off)) = self.classes[k].fields.iter().find(|f| f.0 == *n).cloned() else {
                    return bad(format!("property '{n}' does not exist on type '{}'", self.show(t)));
                };
                c.push(Op::I(load_op(ft, off)));
                Ok((ft, c))
            }
            Ex::Call(f, targs, args) => self.call(cx, f, targs.as_deref(), args, ctx),
        }
    }

    fn arguments(&mut self, cx: &mut Ctx, args: &[Ex], params: &[Ty]) -> R<Code> {
        if args.len() != params.len() {
            return bad(format!("expected {} arguments, but got {}", params.len(), args.len()));
        }
        let mut code = vec![];
        for (a, t) in args.iter().zip(params) {
            code.extend(self.conv_expr(cx, a, *t)?);
        }
        Ok(code)
    }

    fn binary(&self, op: &str, ta: Ty, ca: Code, tb: Ty, cb: Code) -> R<(Ty, Code)> {
        let compares = matches!(op, "==" | "!=" | "===" | "!==" | "<" | ">" | "<=" | ">=");
        if ta == Ty::Void || tb == Ty::Void {
            return bad(format!("operator '{op}' cannot be applied to type 'void'"));
        }
        if matches!(ta, Ty::Class(_)) || matches!(tb, Ty::Class(_)) {
            return unsupported("operator on objects");
        }
        if matches!(op, "<<" | ">>" | ">>>") && tb != ta {
            return unsupported("shift of mixed types");
        }
        let t = if ta == tb {
            ta
        } else if self.assignable(tb, ta) {
            ta
        } else if self.assignable(ta, tb) {
            tb
        } else {
            return bad(format!("operator '{op}' cannot be applied to types '{}' and '{}'", self.show(ta), self.show(tb)));
        };
        if matches!(op, "<" | ">" | "<=" | ">=") && ta.integer() && tb.integer() && ta.signed() != tb.signed() && ta != Ty::Bool && tb != Ty::Bool {
            return unsupported("comparison of different signedness");
        }
        if (t.small() || t == Ty::Bool) && !compares {
            return unsupported("operator on a small integer");
        }
        let mut c = self.convert(ta, t, ca, false)?;
        c.extend(self.convert(tb, t, cb, false)?);
        let s = t.signed();
        let i = match (t.w().expect("value"), op) {
            (W::I32, "+") => I::I32Add,
            (W::I32, "-") => I::I32Sub,
            (W::I32, "*") => I::I32Mul,
            (W::I32, "/") => if s { I::I32DivS } else { I::I32DivU },
            (W::I32, "%") => if s { I::I32RemS } else { I::I32RemU },
            (W::I32, "&") => I::I32And,
            (W::I32, "|") => I::I32Or,
            (W::I32, "^") => I::I32Xor,
            (W::I32, "<<") => I::I32Shl,
            (W::I32, ">>") => if s { I::I32ShrS } else { I::I32ShrU },
            (W::I32, ">>>") => I::I32ShrU,
            (W::I32, "==" | "===") => I::I32Eq,
            (W::I32, "!=" | "!==") => I::I32Ne,
            (W::I32, "<") => if s { I::I32LtS } else { I::I32LtU },
            (W::I32, ">") => if s { I::I32GtS } else { I::I32GtU },
            (W::I32, "<=") => if s { I::I32LeS } else { I::I32LeU },
            (W::I32, ">=") => if s { I::I32GeS } else { I::I32GeU },
            (W::I64, "+") => I::I64Add,
            (W::I64, "-") => I::I64Sub,
            (W::I64, "*") => I::I64Mul,
            (W::I64, "/") => if s { I::I64DivS } else { I::I64DivU },
            (W::I64, "%") => if s { I::I64RemS } else { I::I64RemU },
            (W::I64, "&") => I::I64And,
            (W::I64, "|") => I::I64Or,
            (W::I64, "^") => I::I64Xor,
            (W::I64, "<<") => I::I64Shl,
            (W::I64, ">>") => if s { I::I64ShrS } else { I::I64ShrU },
            (W::I64, ">>>") => I::I64ShrU,
            (W::I64, "==" | "===") => I::I64Eq,
            (W::I64, "!=" | "!==") => I::I64Ne,
            (W::I64, "<") => if s { I::I64LtS } else { I::I64LtU },
            (W::I64, ">") => if s { I::I64GtS } else { I::I64GtU },
            (W::I64, "<=") => if s { I::I64LeS } else { I::I64LeU },
            (W::I64, ">=") => if s { I::I64GeS } else { I::I64GeU },
            (W::F32, "+") => I::F32Add,
            (W::F32, "-") => I::F32Sub,
            (W::F32, "*") => I::F32Mul,
            (W::F32, "/") => I::F32Div,
            (W::F32, "==" | "===") => I::F32Eq,
            (W::F32, "!=" | "!==") => I::F32Ne,
            (W::F32, "<") => I::F32Lt,
            (W::F32, ">") => I::F32Gt,
            (W::F32, "<=") => I::F32Le,
            (W::F32, ">=") => I::F32Ge,
            (W::F64, "+") => I::F64Add,
            (W::F64, "-") => I::F64Sub,
            (W::F64, "*") => I::F64Mul,
            (W::F64, "/") => I::F64Div,
            (W::F64, "==" | "===") => I::F64Eq,
            (W::F64, "!=" | "!==") => I::F64Ne,
            (W::F64, "<") => I::F64Lt,
            (W::F64, ">") => I::F64Gt,
            (W::F64, "<=") => I::F64Le,
            (W::F64, ">=") => I::F64Ge,
            _ => return unsupported(format!("operator {op} on {t:?}")),
        };
        c.push(Op::I(i));
        Ok((if compares { Ty::Bool } else { t }, c))
    }

    fn assign(&mut self, cx: &mut Ctx, op: Option<&'static str>, to: &Ex, v: &Ex) -> R<(Ty, Code)> {
        let value = |p: &mut Self, cx: &mut Ctx, t: Ty, old: Code| -> R<Code> {
            match op {
                None => p.conv_expr(cx, v, t),
                Some(op) => {
                    let (tb, cb) = p.expr(cx, v, Some(t))?;
                    let (r, c) = p.binary(op, t, old, tb, cb)?;
                    p.convert(r, t, c, false)
                }
            }
        };
        match to {
            Ex::Name(n) => {
                if let Some((i, t, constant)) = cx.local(n) {
                    if constant {
                        return bad(format!("cannot assign to '{n}' because it is a constant"));
                    }
                    let mut c = value(self, cx, t, vec![Op::I(I::LocalGet(i))])?;
                    c.push(Op::I(I::LocalTee(i)));
                    return Ok((t, c));
                }
                let Some(g) = self.global_by_name.get(n).copied() else { return self.unknown(n) };
                let t = self.globals[g].ty;
                if self.globals[g].constant {
                    return bad(format!("cannot assign to '{n}' because it is a constant"));
                }
                let i = g as u32 + 1;
                let mut c = value(self, cx, t, vec![Op::I(I::GlobalGet(i))])?;
                c.push(Op::I(I::GlobalSet(i)));
                c.push(Op::I(I::GlobalGet(i)));
                Ok((t, c))
            }
            Ex::Dot(o, n) => {
                let (t, mut c) = self.expr(cx, o, None)?;
                let Ty::Class(k) = t else { return bad(format!("property '{n}' does not exist on type '{}'", self.show(t))) };
                let Some((_, ft, off)) = self.classes[k].fields.iter().find(|f| f.0 == *n).cloned() else {
                    return bad(format!("property '{n}' does not exist on type '{}'", self.show(t)));
                };
                let readonly = self.classes[k].decl.fields.iter().any(|f| f.name == *n && f.constant);
                if readonly && !(cx.in_ctor && matches!(**o, Ex::This)) {
                    return bad(format!("cannot assign to '{n}' because it is a constant or a read-only property"));
                }
                let obj = cx.temp(W::I32);
                let val = cx.temp(ft.w().expect("value"));
                c.push(Op::I(I::LocalTee(obj)));
                let x = value(self, cx, ft, vec![Op::I(I::LocalGet(obj)), Op::I(load_op(ft, off))])?;
                c.extend(x);
                c.push(Op::I(I::LocalTee(val)));
                c.push(Op::I(store_op(ft, off)));
                c.push(Op::I(I::LocalGet(val)));
                Ok((ft, c))
            }
            _ => unsupported("assignment to this"),
        }
    }

    fn call(&mut self, cx: &mut Ctx, f: &Ex, targs: Option<&[TyEx]>, args: &[Ex], ctx: Option<Ty>) -> R<(Ty, Code)> {
        let tys = cx.tys.clone();
        let targs: Option<Vec<Ty>> = match targs {
            Some(v) => Some(v.iter().map(|t| self.ty(&tys, t)).collect::<R<_>>()?),
            None => None,
        };
        match f {
            Ex::Name(n) if cx.local(n).is_none() && !self.global_by_name.contains_key(n) => {
                if let Some(i) = self.fun_by_name.get(n).copied() {
                    let fun = self.funs[i].clone();
                    let t = match targs {
                        Some(t) => t,
                        None if fun.tparams.is_empty() => vec![],
                        None => self.infer(cx, &fun, args)?,
                    };
                    let b = self.bind(&fun, &t)?;
                    let s = self.sig(&fun, &b)?;
                    let mut c = self.arguments(cx, args, &s.params)?;
                    if fun.body.is_some() {
                        let k = self.want(Key::Fun(i, t));
                        c.push(Op::F(k));
                    } else {
                        let k = match self.import_by_fun.get(&i) {
                            Some(k) => *k,
                            None => {
                                let (m, n) = fun.external.clone().unwrap_or(("module".into(), fun.name.clone()));
                                self.imports.push((m, n, s.params.clone(), s.ret));
                                self.import_by_fun.insert(i, self.imports.len() - 1);
                                self.imports.len() - 1
                            }
                        };
                        c.push(Op::X(k));
                    }
                    return Ok((s.ret, c));
                }
                self.builtin(cx, n, targs, args, ctx)
            }
            Ex::Dot(o, n) => {
                if let Ex::Name(x) = &**o {
                    if cx.local(x).is_none() && !self.global_by_name.contains_key(x) {
                        return self.builtin(cx, &format!("{x}.{n}"), targs, args, ctx);
                    }
                }
                let (t, mut c) = self.expr(cx, o, None)?;
                let Ty::Class(k) = t else { return bad(format!("property '{n}' does not exist on type '{}'", self.show(t))) };
                let Some((mc, mi)) = self.method(k, n) else { return bad(format!("property '{n}' does not exist on type '{}'", self.show(t))) };
                let m = self.classes[mc].decl.methods[mi].clone();
                let t = match targs {
                    Some(t) => t,
                    None if m.tparams.is_empty() => vec![],
                    None => self.infer(cx, &m, args)?,
                };
                let b = self.bind(&m, &t)?;
                let s = self.sig(&m, &b)?;
                c.extend(self.arguments(cx, args, &s.params)?);
                let overridden = (0..self.classes.len()).any(|x| x != k && self.is_a(x, k) && self.classes[x].decl.methods.iter().any(|m| m.name == *n));
                let key = if overridden || m.body.is_none() { Key::Virtual(k, n.clone(), t) } else { Key::Method(mc, mi, t) };
                let k = self.want(key);
                c.push(Op::F(k));
                Ok((s.ret, c))
            }
            _ => unsupported("call of a computed function"),
        }
    }

    fn infer(&mut self, cx: &mut Ctx, f: &Fun, args: &[Ex]) -> R<Vec<Ty>> {
        let mut v = vec![];
        for t in &f.tparams {
            let Some(i) = f.params.iter().position(|p| p.1.name == *t) else { return unsupported("type argument that cannot be inferred") };
            let Some(a) = args.get(i) else { return bad("missing argument") };
            let (ty, _) = self.expr(cx, a, None)?;
            v.push(ty);
        }
        Ok(v)
    }

    fn builtin(&mut self, cx: &mut Ctx, n: &str, targs: Option<Vec<Ty>>, args: &[Ex], ctx: Option<Ty>) -> R<(Ty, Code)> {
        let one = |t: Option<Vec<Ty>>| -> R<Ty> {
            match t.as_deref() {
                Some([t]) => Ok(*t),
                _ => bad(format!("'{n}' expects one type argument")),
            }
        };
        let count = |k: usize| -> R<()> {
            if args.len() == k {
                Ok(())
            } else {
                bad(format!("'{n}' expected {k} arguments, but got {}", args.len()))
            }
        };
        if let Some(t) = Ty::by_name(n) {
            // a conversion written as a call
            count(1)?;
            let (f, c) = self.expr(cx, &args[0], Some(t))?;
            return Ok((t, self.convert(f, t, c, true)?));
        }
        match n {
            "unreachable" => {
                count(0)?;
                Ok((Ty::Void, vec![Op::I(I::Unreachable)]))
            }
            "sizeof" | "alignof" if n == "sizeof" => {
                count(0)?;
                let t = one(targs)?;
                let size = t.size();
                Ok(match ctx {
                    Some(c) if c.integer() && c.wide() => (c, vec![Op::I(I::I64Const(size.into()))]),
                    Some(c @ (Ty::I32 | Ty::U32)) => (c, vec![Op::I(I::I32Const(size as i32))]),
                    _ => (Ty::Usize, vec![Op::I(I::I32Const(size as i32))]),
                })
            }
            "isInteger" | "isFloat" | "isSigned" => {
                let t = one(targs)?;
                let y = match n {
                    "isInteger" => t.integer(),
                    "isFloat" => t.float(),
                    _ => t.signed(),
                };
                Ok((Ty::Bool, vec![Op::I(I::I32Const(i32::from(y)))]))
            }
            "load" => {
                let t = one(targs)?;
                if args.is_empty() || args.len() > 3 {
                    return bad("'load' expected 1 to 3 arguments");
                }
                let off = self.offset(cx, args.get(1))?;
                self.alignment(args.get(2))?;
                let mut c = self.conv_expr(cx, &args[0], Ty::Usize)?;
                c.push(Op::I(load_op(t, off)));
                Ok((t, c))
            }
            "store" => {
                let t = one(targs)?;
                if args.len() < 2 || args.len() > 4 {
                    return bad("'store' expected 2 to 4 arguments");
                }
                let off = self.offset(cx, args.get(2))?;
                self.alignment(args.get(3))?;
                let mut c = self.conv_expr(cx, &args[0], Ty::Usize)?;
                c.extend(self.conv_expr(cx, &args[1], t)?);
                c.push(Op::I(store_op(t, off)));
                Ok((Ty::Void, c))
            }
            "memory.grow" => {
                count(1)?;
                let mut c = self.conv_expr(cx, &args[0], Ty::I32)?;
                c.push(Op::I(I::MemoryGrow(0)));
                Ok((Ty::I32, c))
            }
            "memory.size" => {
                count(0)?;
                Ok((Ty::I32, vec![Op::I(I::MemorySize(0))]))
            }
            "memory.fill" => {
                count(3)?;
                let mut c = self.conv_expr(cx, &args[0], Ty::Usize)?;
                c.extend(self.conv_expr(cx, &args[1], Ty::U8).or_else(|_| self.conv_expr(cx, &args[1], Ty::I32))?);
                c.extend(self.conv_expr(cx, &args[2], Ty::Usize)?);
                c.push(Op::I(I::MemoryFill(0)));
                Ok((Ty::Void, c))
            }
            "memory.copy" => {
                count(3)?;
                let mut c = vec![];
                for a in args {
                    c.extend(self.conv_expr(cx, a, Ty::Usize)?);
                }
                c.push(Op::I(I::MemoryCopy { src_mem: 0, dst_mem: 0 }));
                Ok((Ty::Void, c))
            }
            "assert" => {
                if args.is_empty() || args.len() > 2 {
                    return bad("'assert' expected 1 or 2 arguments");
                }
                let mut c = self.truth(cx, &args[0])?;
                c.push(Op::I(I::I32Eqz));
                c.push(Op::I(I::If(we::BlockType::Empty)));
                c.push(Op::I(I::Unreachable));
                c.push(Op::I(I::End));
                Ok((Ty::Void, c))
            }
            "reinterpret" => {
                let t = one(targs)?;
                count(1)?;
                let (f, mut c) = self.expr(cx, &args[0], None)?;
                c.push(Op::I(match (f.w(), t.w()) {
                    (Some(W::I32), Some(W::F32)) => I::F32ReinterpretI32,
                    (Some(W::F32), Some(W::I32)) => I::I32ReinterpretF32,
                    (Some(W::I64), Some(W::F64)) => I::F64ReinterpretI64,
                    (Some(W::F64), Some(W::I64)) => I::I64ReinterpretF64,
                    _ => return unsupported("reinterpret"),
                }));
                Ok((t, c))
            }
            _ => {
                if let Some((t, f)) = n.split_once('.') {
                    if let Some(ty @ (Ty::I32 | Ty::I64 | Ty::F32 | Ty::F64)) = Ty::by_name(t) {
                        if f == "load" {
                            return self.builtin(cx, "load", Some(vec![ty]), args, ctx);
                        }
                        if f == "store" {
                            return self.builtin(cx, "store", Some(vec![ty]), args, ctx);
                        }
                    }
                    return match self.unknown(t) {
                        Ok(()) => unreachable!(),
                        Err(e) => Err(e),
                    };
                }
                self.unknown(n)
            }
        }
    }

    fn offset(&self, cx: &Ctx, e: Option<&Ex>) -> R<u32> {
        match e {
            None => Ok(0),
            Some(e) => match self.constant(cx, e) {
                Some(k) if k >= 0 => Ok(k as u32),
                Some(_) => bad("offset out of range"),
                None => match e {
                    Ex::Name(n) if self.global_by_name.get(n).is_some_and(|g| self.globals[*g].constant) => Ok(self.globals[self.global_by_name[n]].init as u32),
                    _ => bad("expression must be a compile-time constant"),
                },
            },
        }
    }
    fn alignment(&self, e: Option<&Ex>) -> R<()> {
        match e {
            None => Ok(()),
            Some(_) => unsupported("alignment"),
        }
    }

    // ------------------------------------------------------------ module

    fn emit(mut self, start: Code, start_locals: Vec<W>, exports: Vec<(String, usize)>) -> R<Vec<u8>> {
        let nimp = self.imports.len() as u32;
        let mut types: BTreeMap<(Vec<W>, Vec<W>), u32> = BTreeMap::new();
        let mut order = vec![];
        let mut ty = |p: Vec<W>, r: Vec<W>| -> u32 {
            let k = (p, r);
            if let Some(i) = types.get(&k) {
                return *i;
            }
            let i = types.len() as u32;
            types.insert(k.clone(), i);
            order.push(k);
            i
        };
        let ws = |v: &[Ty]| v.iter().filter_map(|t| t.w()).collect::<Vec<_>>();
        let mut imports = we::ImportSection::new();
        for (m, n, p, r) in &self.imports {
            imports.import(m, n, we::EntityType::Function(ty(ws(p), ws(&[*r]))));
        }
        let mut funcs = we::FunctionSection::new();
        let mut code = we::CodeSection::new();
        let resolve = |c: &Code, f: &mut we::Function| {
            for o in c {
                match o {
                    Op::I(i) => f.instruction(i),
                    Op::F(k) => f.instruction(&I::Call(nimp + *k as u32)),
                    Op::X(k) => f.instruction(&I::Call(*k as u32)),
                };
            }
            f.instruction(&I::End);
        };
        for d in self.done.drain(..) {
            let Some(d) = d else { return unsupported("function without a body") };
            funcs.function(ty(ws(&d.params), ws(&[d.ret])));
            let mut f = we::Function::new_with_locals_types(d.locals.iter().copied());
            resolve(&d.code, &mut f);
            code.function(&f);
        }
        let n = funcs.len();
        if !start.is_empty() {
            funcs.function(ty(vec![], vec![]));
            let mut f = we::Function::new_with_locals_types(start_locals);
            resolve(&start, &mut f);
            code.function(&f);
        }
        let mut tsec = we::TypeSection::new();
        for (p, r) in order {
            tsec.ty().function(p, r);
        }
        let mut globals = we::GlobalSection::new();
        // the heap begins after what asc reserves
        globals.global(we::GlobalType { val_type: W::I32, mutable: true, shared: false }, &we::ConstExpr::i32_const(1024));
        let mut ex = we::ExportSection::new();
        for (n, f) in &exports {
            ex.export(n, we::ExportKind::Func, nimp + *f as u32);
        }
        for (i, g) in self.globals.iter().enumerate() {
            let w = g.ty.w().expect("value");
            let init = match w {
                W::I32 => we::ConstExpr::i32_const(g.init as i32),
                W::I64 => we::ConstExpr::i64_const(g.init as i64),
                W::F32 => we::ConstExpr::f32_const(f32::from_bits(g.init as u32).into()),
                _ => we::ConstExpr::f64_const(f64::from_bits(g.init).into()),
            };
            globals.global(we::GlobalType { val_type: w, mutable: true, shared: false }, &init);
            if g.export {
                ex.export(&g.name, we::ExportKind::Global, i as u32 + 1);
            }
        }
        ex.export("memory", we::ExportKind::Memory, 0);
        let mut mem = we::MemorySection::new();
        mem.memory(we::MemoryType { minimum: u64::from(self.heap), maximum: None, memory64: false, shared: false, page_size_log2: None });
        let mut m = we::Module::new();
        m.section(&tsec);
        m.section(&imports);
        m.section(&funcs);
        m.section(&mem);
        m.section(&globals);
        m.section(&ex);
        if !start.is_empty() {
            m.section(&we::StartSection { function_index: nimp + n });
        }
        m.section(&code);
        Ok(m.finish())
    }
}

fn has_break(s: &St) -> bool {
    match s {
        St::Break => true,
        St::Block(v) => v.iter().any(has_break),
        St::If(_, a, b) => has_break(a) || b.as_ref().is_some_and(|b| has_break(b)),
        _ => false,
    }
}

fn pure(e: &Ex) -> bool {
    match e {
        Ex::Name(_) | Ex::This => true,
        Ex::Dot(o, _) => pure(o),
        _ => false,
    }
}

fn zero(w: W) -> I<'static> {
    match w {
        W::I64 => I::I64Const(0),
        W::F32 => I::F32Const(0.0.into()),
        W::F64 => I::F64Const(0.0.into()),
        _ => I::I32Const(0),
    }
}

fn wrap_small(t: Ty, c: &mut Code) {
    match t {
        Ty::I8 => c.push(Op::I(I::I32Extend8S)),
        Ty::I16 => c.push(Op::I(I::I32Extend16S)),
        Ty::U8 | Ty::U16 => {
            c.push(Op::I(I::I32Const(if t == Ty::U8 { 0xff } else { 0xffff })));
            c.push(Op::I(I::I32And));
        }
        _ => (),
    }
}

fn load_op(t: Ty, off: u32) -> I<'static> {
    let m = |a| MemArg { offset: off.into(), align: a, memory_index: 0 };
    match t {
        Ty::Bool | Ty::U8 => I::I32Load8U(m(0)),
        Ty::I8 => I::I32Load8S(m(0)),
        Ty::I16 => I::I32Load16S(m(1)),
        Ty::U16 => I::I32Load16U(m(1)),
        Ty::I64 | Ty::U64 => I::I64Load(m(3)),
        Ty::F32 => I::F32Load(m(2)),
        Ty::F64 => I::F64Load(m(3)),
        _ => I::I32Load(m(2)),
    }
}

fn store_op(t: Ty, off: u32) -> I<'static> {
    let m = |a| MemArg { offset: off.into(), align: a, memory_index: 0 };
    match t {
        Ty::Bool | Ty::U8 | Ty::I8 => I::I32Store8(m(0)),
        Ty::I16 | Ty::U16 => I::I32Store16(m(1)),
        Ty::I64 | Ty::U64 => I::I64Store(m(3)),
        Ty::F32 => I::F32Store(m(2)),
        Ty::F64 => I::F64Store(m(3)),
        _ => I::I32Store(m(2)),
    }
}
