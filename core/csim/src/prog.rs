//! Programs: valid modules drawn from a tape of choices (zero is always the simplest choice, so that
//! shortening or zeroing the tape makes the module smaller).

use crate::ops::{self, Bi, Ld, Num, St, Un};
use crate::wasm::{FTy, Ty};
use simos::Rng;
use wasm_encoder as we;
use we::{BlockType, ConstExpr, HeapType, Instruction as I, RefType, ValType};

pub struct Tape {
    pub v: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
}

impl Tape {
    pub fn record(seed: u64) -> Tape {
        Tape { v: vec![], pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(v: Vec<u32>) -> Tape {
        Tape { v, pos: 0, rng: None }
    }
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let x = match &mut self.rng {
            Some(r) => {
                let x = r.below(u64::from(n)) as u32;
                self.v.push(x);
                x
            }
            None => self.v.get(self.pos).copied().unwrap_or(0) % n,
        };
        self.pos += 1;
        x
    }
    /// True so many times out of a thousand; zero on the tape is false.
    pub fn chance(&mut self, permille: u32) -> bool {
        self.below(1000) >= 1000 - permille
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u32) as usize]
    }
    /// Index by weight; the first one is the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let mut x = self.below(w.iter().sum());
        for (i, n) in w.iter().enumerate() {
            if x < *n {
                return i;
            }
            x -= n;
        }
        0
    }
    fn bits(&mut self) -> u64 {
        (u64::from(self.below(1 << 31)) << 33) ^ (u64::from(self.below(1 << 31)) << 9) ^ u64::from(self.below(512))
    }
}

pub const NUM: [Ty; 4] = [Ty::I32, Ty::I64, Ty::F32, Ty::F64];

pub fn i32_value(t: &mut Tape) -> u32 {
    match t.weighted(&[30, 12, 6, 6, 6]) {
        0 => t.below(10),
        1 => t.below(70_000),
        2 => t.pick(&[0, u32::MAX, 0x8000_0000, 0x7fff_ffff, 1 << 16, 0xffff_fffe, 0xffff_0000]),
        3 => 1 << t.below(32),
        _ => t.bits() as u32,
    }
}

pub fn i64_value(t: &mut Tape) -> u64 {
    match t.weighted(&[20, 8, 8, 6]) {
        0 => u64::from(t.below(10)),
        1 => t.pick(&[0, u64::MAX, 1 << 63, u64::MAX >> 1, 1 << 32, 0xffff_ffff]),
        2 => 1 << t.below(64),
        _ => t.bits(),
    }
}

pub fn f32_value(t: &mut Tape) -> u32 {
    match t.weighted(&[16, 10, 4]) {
        0 => (t.below(10) as f32).to_bits(),
        1 => t.pick(&[
            0x8000_0000,
            0x3fc0_0000,
            0xbf80_0000,
            0x7f80_0000,
            0xff80_0000,
            0x7fc0_0000,
            0x7fa0_0001,
            0x0000_0001,
            0x4f00_0000,
            0xcf00_0000,
            0x4f80_0000,
            0x5f00_0000,
            0x3eff_ffff,
        ]),
        _ => t.bits() as u32,
    }
}

pub fn f64_value(t: &mut Tape) -> u64 {
    match t.weighted(&[16, 10, 4]) {
        0 => f64::from(t.below(10)).to_bits(),
        1 => t.pick(&[
            1 << 63,
            0x3ff8_0000_0000_0000,
            0xbff0_0000_0000_0000,
            0x7ff0_0000_0000_0000,
            0xfff0_0000_0000_0000,
            0x7ff8_0000_0000_0000,
            0x7ff4_0000_0000_0001,
            1,
            0x41e0_0000_0000_0000,
            0xc1e0_0000_0000_0000,
            0x43e0_0000_0000_0000,
            0x43f0_0000_0000_0000,
            0x3fdf_ffff_ffff_ffff,
        ]),
        _ => t.bits(),
    }
}

/// The bits of an interesting number of a type.
pub fn value(t: &mut Tape, ty: Ty) -> u64 {
    match ty {
        Ty::I32 => i32_value(t).into(),
        Ty::I64 => i64_value(t),
        Ty::F32 => f32_value(t).into(),
        Ty::F64 => f64_value(t),
        _ => 0,
    }
}

pub fn vt(t: Ty) -> ValType {
    match t {
        Ty::I32 => ValType::I32,
        Ty::I64 => ValType::I64,
        Ty::F32 => ValType::F32,
        Ty::F64 => ValType::F64,
        Ty::Func => ValType::Ref(RefType::FUNCREF),
        Ty::Extern => ValType::Ref(RefType::EXTERNREF),
    }
}

fn rt(t: Ty) -> RefType {
    if t == Ty::Func {
        RefType::FUNCREF
    } else {
        RefType::EXTERNREF
    }
}

fn ht(t: Ty) -> HeapType {
    if t == Ty::Func {
        HeapType::FUNC
    } else {
        HeapType::EXTERN
    }
}

/// What a generated module looks like; sizes and how much of what.
#[derive(Clone, Copy)]
pub struct Style {
    /// functions defined in the module, at most
    pub funcs: u32,
    /// instructions per function, roughly
    pub len: u32,
    /// reference types, tables beyond the first, bulk operations
    pub refs: u32,
    pub memory: u32,
    /// permille of functions that stay clear of memory, tables, globals and the host
    pub pure_: u32,
    /// permille of statements of those functions that do not stay clear after all
    pub slip: u32,
    /// one thing there is much of
    pub big: Big,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Big {
    Nothing,
    Locals,
    Functions,
    BranchTables,
    Nesting,
    Code,
    Signatures,
    Globals,
    Indices,
}

impl Style {
    pub fn draw(t: &mut Tape) -> Style {
        Style {
            funcs: [3, 2, 5, 8][t.weighted(&[5, 3, 2, 1])],
            len: [12, 5, 25, 60][t.weighted(&[5, 3, 3, 1])],
            refs: [0, 150, 400][t.weighted(&[4, 4, 2])],
            memory: [700, 1000, 0][t.weighted(&[5, 3, 1])],
            pure_: 0,
            slip: 0,
            big: [Big::Nothing, Big::Locals, Big::Functions, Big::BranchTables, Big::Nesting, Big::Code, Big::Signatures, Big::Globals, Big::Indices]
                [t.weighted(&[92, 1, 1, 1, 1, 1, 1, 1, 1])],
        }
    }
}

struct Glob {
    ty: Ty,
    mutable: bool,
    import: bool,
    /// not touched by ordinary instructions
    reserved: bool,
}

struct Tab {
    ty: Ty,
    size: u32,
    max: Option<u32>,
    import: bool,
}

#[derive(Default)]
struct Env {
    types: Vec<FTy>,
    /// type index of every function
    funcs: Vec<u32>,
    n_fimp: u32,
    pure_fn: Vec<bool>,
    globals: Vec<Glob>,
    tables: Vec<Tab>,
    mem: Option<(u32, Option<u32>, bool)>,
    /// passive or dropped-on-use segments
    elems: Vec<Ty>,
    n_datas: u32,
    budget: u32,
    recurse: bool,
}

impl Env {
    fn type_index(&mut self, t: FTy) -> u32 {
        if let Some(i) = self.types.iter().position(|x| *x == t) {
            return i as u32;
        }
        self.types.push(t);
        self.types.len() as u32 - 1
    }
    fn fty(&self, f: u32) -> FTy {
        self.types[self.funcs[f as usize] as usize].clone()
    }
}

struct Ctl {
    /// operand types a branch to it takes
    label: Vec<Ty>,
    results: Vec<Ty>,
    height: usize,
    /// the local that counts a loop down
    counter: Option<u32>,
}

struct Body<'a, 'b> {
    t: &'a mut Tape,
    e: &'b mut Env,
    style: Style,
    me: u32,
    pure_: bool,
    locals: Vec<Ty>,
    n_params: usize,
    reserved: Vec<u32>,
    st: Vec<Ty>,
    ctl: Vec<Ctl>,
    out: Vec<I<'static>>,
    fuel: i32,
    ref_funcs: bool,
    /// operands below this are spoken for
    floor: usize,
    /// blocks around everything
    deep: usize,
}

impl Body<'_, '_> {
    fn push(&mut self, i: I<'static>) {
        self.out.push(i);
        self.fuel -= 1;
    }

    fn ty(&mut self) -> Ty {
        if self.t.chance(self.style.refs / 4) {
            return self.t.pick(&[Ty::Func, Ty::Extern]);
        }
        NUM[self.t.weighted(&[6, 3, 2, 2])]
    }

    fn block_ty(&mut self) -> FTy {
        let mut f = FTy { params: vec![], results: vec![] };
        // parameters are what is on the stack
        let avail = self.st.len() - self.ctl.last().map_or(0, |c| c.height);
        let np = [0, 1, 2, 3][self.t.weighted(&[10, 3, 2, 1])].min(avail);
        f.params = self.st[self.st.len() - np..].to_vec();
        let nr = [0, 1, 2, 3][self.t.weighted(&[8, 6, 2, 1])];
        for _ in 0..nr {
            let t = self.ty();
            f.results.push(t);
        }
        f
    }

    fn bt(&mut self, f: &FTy) -> BlockType {
        match (&f.params[..], &f.results[..]) {
            ([], []) => BlockType::Empty,
            ([], [t]) => BlockType::Result(vt(*t)),
            _ => BlockType::FunctionType(self.e.type_index(f.clone())),
        }
    }

    fn locals_of(&self, t: Ty) -> Vec<u32> {
        (0..self.locals.len() as u32).filter(|i| self.locals[*i as usize] == t && !self.reserved.contains(i)).collect()
    }

    fn globals_of(&self, t: Ty, write: bool) -> Vec<u32> {
        if self.pure_ {
            return vec![];
        }
        (0..self.e.globals.len() as u32)
            .filter(|i| {
                let g = &self.e.globals[*i as usize];
                g.ty == t && !g.reserved && (!write || g.mutable)
            })
            .collect()
    }

    fn constant(&mut self, t: Ty) -> I<'static> {
        match t {
            Ty::I32 => I::I32Const(i32_value(self.t) as i32),
            Ty::I64 => I::I64Const(i64_value(self.t) as i64),
            Ty::F32 => I::F32Const(f32::from_bits(f32_value(self.t)).into()),
            Ty::F64 => I::F64Const(f64::from_bits(f64_value(self.t)).into()),
            Ty::Func => {
                if self.e.funcs.is_empty() || !self.t.chance(600) || self.pure_ {
                    I::RefNull(HeapType::FUNC)
                } else {
                    self.ref_funcs = true;
                    let n = self.e.funcs.len() as u32;
                    I::RefFunc(self.t.below(n))
                }
            }
            Ty::Extern => I::RefNull(HeapType::EXTERN),
        }
    }

    /// Puts a value of a type on the stack.
    fn produce(&mut self, t: Ty, depth: u32) {
        let floor = std::mem::replace(&mut self.floor, self.st.len());
        self.produce_(t, depth);
        self.floor = floor;
    }

    fn produce_(&mut self, t: Ty, depth: u32) {
        let l = self.locals_of(t);
        let g = self.globals_of(t, false);
        let deep = u32::from(depth < 3 && self.fuel > 0);
        let k = self.t.weighted(&[6, if l.is_empty() { 0 } else { 8 }, if g.is_empty() { 0 } else { 3 }, 5 * deep, 3 * deep]);
        match k {
            0 => {
                let c = self.constant(t);
                self.push(c);
                self.st.push(t);
            }
            1 => {
                let i = self.t.pick(&l);
                self.push(I::LocalGet(i));
                self.st.push(t);
            }
            2 => {
                let i = self.t.pick(&g);
                self.push(I::GlobalGet(i));
                self.st.push(t);
            }
            3 => {
                // an operation with this result
                self.numeric(Some(t), depth + 1);
            }
            _ => {
                if !self.special(Some(t), depth + 1) {
                    self.numeric(Some(t), depth + 1);
                }
            }
        }
    }

    /// Makes sure these types are on top of the stack: sometimes what is there already, else new values.
    fn need(&mut self, ts: &[Ty], depth: u32) {
        let h = self.ctl.last().map_or(0, |c| c.height).max(self.floor);
        for have in (1..=ts.len()).rev() {
            if self.st.len() >= h + have && self.st[self.st.len() - have..] == ts[..have] && self.t.chance(600) {
                for t in &ts[have..] {
                    self.produce(*t, depth);
                }
                return;
            }
        }
        for t in ts {
            self.produce(*t, depth);
        }
    }

    fn pop(&mut self, n: usize) {
        let l = self.st.len();
        self.st.truncate(l - n);
    }

    /// A number operation, with a given result type or any.
    fn numeric(&mut self, want: Option<Ty>, depth: u32) {
        let want = match want {
            Some(t) if t.is_ref() => {
                let c = self.constant(t);
                self.push(c);
                self.st.push(t);
                return;
            }
            w => w,
        };
        if self.t.chance(600) {
            let all: Vec<Bi> = (1..300).map_while(Bi::from_id).filter(|o| want.is_none_or(|t| o.types().1 == t)).collect();
            let o = self.t.pick(&all);
            let (a, r) = o.types();
            let div = format!("{o:?}").contains("Div") || format!("{o:?}").contains("Rem");
            self.need(&[a, a], depth);
            if div && self.t.chance(850) {
                // mostly not by zero
                match a {
                    Ty::I32 => {
                        self.push(I::I32Const(1));
                        self.push(I::I32Or);
                    }
                    Ty::I64 => {
                        self.push(I::I64Const(1));
                        self.push(I::I64Or);
                    }
                    _ => (),
                }
            }
            self.push(ops::encode_op(&Num::Bi(o)));
            self.pop(2);
            self.st.push(r);
        } else {
            let all: Vec<Un> = (1..300).map_while(Un::from_id).filter(|o| want.is_none_or(|t| o.types().1 == t)).collect();
            let o = self.t.pick(&all);
            let (a, r) = o.types();
            self.need(&[a], depth);
            let name = format!("{o:?}");
            if name.contains("Trunc") && !name.contains("Sat") && r != a && self.t.chance(700) {
                // mostly convertible
                self.push(I::Drop);
                let c = self.t.below(100);
                if a == Ty::F32 {
                    self.push(I::F32Const((c as f32).into()));
                } else {
                    self.push(I::F64Const(f64::from(c).into()));
                }
            }
            self.push(ops::encode_op(&Num::Un(o)));
            self.pop(1);
            self.st.push(r);
        }
    }

    /// An address that mostly lies inside a small memory.
    fn address(&mut self, depth: u32) -> u32 {
        self.need(&[Ty::I32], depth);
        if self.t.chance(650) {
            let m = self.t.pick(&[0xff, 0xfff, 0xffff]);
            self.push(I::I32Const(m));
            self.push(I::I32And);
        }
        match self.t.weighted(&[8, 6, 2, 1]) {
            0 => 0,
            1 => self.t.below(256),
            2 => self.t.below(200_000),
            _ => self.t.pick(&[u32::MAX, 0x8000_0000, 65535, 65536, u32::MAX - 65535, 0x7fff_ffff]),
        }
    }

    /// Operations other than plain number crunching that produce a value. False if there is none for that type here.
    fn special(&mut self, want: Option<Ty>, depth: u32) -> bool {
        let t = match want {
            Some(t) => t,
            None => self.ty(),
        };
        let k = self.t.weighted(&[6, 6, 3, 3, 2, 2, 3, 3]);
        match k {
            0 => {
                // select
                self.need(&[t, t, Ty::I32], depth);
                if t.is_ref() || self.t.chance(300) {
                    self.push(I::TypedSelect(vt(t)));
                } else {
                    self.push(I::Select);
                }
                self.pop(3);
                self.st.push(t);
                true
            }
            1 => {
                if self.e.mem.is_none() || self.pure_ || t.is_ref() {
                    return false;
                }
                let all: Vec<Ld> = (1..100).map_while(Ld::from_id).filter(|o| o.ty() == t).collect();
                let off = self.address(depth);
                let o = self.t.pick(&all);
                self.push(ops::encode_op(&Num::Ld(o, off)));
                self.pop(1);
                self.st.push(t);
                true
            }
            2 => {
                // tee
                let l = self.locals_of(t);
                if l.is_empty() {
                    return false;
                }
                self.need(&[t], depth);
                let i = self.t.pick(&l);
                self.push(I::LocalTee(i));
                true
            }
            3 => {
                if t != Ty::I32 || self.e.mem.is_none() || self.pure_ {
                    return false;
                }
                if self.t.chance(400) {
                    self.need(&[Ty::I32], depth);
                    if self.t.chance(800) {
                        self.push(I::I32Const(3));
                        self.push(I::I32And);
                    }
                    self.push(I::MemoryGrow(0));
                    self.pop(1);
                } else {
                    self.push(I::MemorySize(0));
                }
                self.st.push(Ty::I32);
                true
            }
            4 => {
                if t != Ty::I32 || self.style.refs == 0 {
                    return false;
                }
                let r = self.t.pick(&[Ty::Func, Ty::Extern]);
                self.need(&[r], depth);
                self.push(I::RefIsNull);
                self.pop(1);
                self.st.push(Ty::I32);
                true
            }
            5 => {
                if self.pure_ {
                    return false;
                }
                let tabs: Vec<u32> = (0..self.e.tables.len() as u32).filter(|i| t == Ty::I32 || self.e.tables[*i as usize].ty == t).collect();
                if tabs.is_empty() || self.style.refs == 0 {
                    return false;
                }
                let k = self.t.pick(&tabs);
                let kt = self.e.tables[k as usize].ty;
                if t == Ty::I32 {
                    if self.t.chance(500) {
                        self.need(&[kt], depth);
                        let n = self.t.below(4) as i32;
                        self.push(I::I32Const(n));
                        self.push(I::TableGrow(k));
                        self.pop(1);
                    } else {
                        self.push(I::TableSize(k));
                    }
                    self.st.push(Ty::I32);
                } else {
                    self.index(k, depth);
                    self.push(I::TableGet(k));
                    self.pop(1);
                    self.st.push(t);
                }
                true
            }
            6 => self.call(want, depth),
            _ => self.structured(Some(vec![t]), depth),
        }
    }

    /// A table index that is mostly inside.
    fn index(&mut self, table: u32, depth: u32) {
        if self.t.chance(750) {
            let n = self.e.tables[table as usize].size.max(1);
            let i = self.t.below(n);
            self.push(I::I32Const(i as i32));
            self.st.push(Ty::I32);
        } else {
            self.produce(Ty::I32, depth);
            if self.t.chance(700) {
                self.push(I::I32Const(7));
                self.push(I::I32And);
            }
        }
    }

    fn call(&mut self, want: Option<Ty>, depth: u32) -> bool {
        let n = self.e.funcs.len() as u32;
        let direct: Vec<u32> = (0..n)
            .filter(|f| {
                (*f < self.e.n_fimp || *f > self.me)
                    && want.is_none_or(|t| self.e.fty(*f).results == [t])
                    && (!self.pure_ || self.e.pure_fn[*f as usize])
            })
            .collect();
        let guarded = self.e.recurse && !self.pure_;
        let k = self.t.weighted(&[if direct.is_empty() { 0 } else { 8 }, u32::from(guarded) * 6, u32::from(guarded) * 2]);
        if direct.is_empty() && !guarded {
            return false;
        }
        match k {
            0 => {
                let f = self.t.pick(&direct);
                let ft = self.e.fty(f);
                self.need(&ft.params, depth);
                self.push(I::Call(f));
                self.pop(ft.params.len());
                self.st.extend(&ft.results);
                true
            }
            k => {
                // a call that may come back here: only while the budget lasts
                let f = self.t.below(n);
                let tabs: Vec<u32> = (0..self.e.tables.len() as u32).filter(|i| self.e.tables[*i as usize].ty == Ty::Func).collect();
                if k == 1 && tabs.is_empty() {
                    return false;
                }
                let ft = self.e.fty(f);
                if want.is_some_and(|t| ft.results != [t]) {
                    return false;
                }
                let b = self.e.budget;
                self.need(&ft.params, depth);
                let mut index = None;
                if k == 1 {
                    let tab = self.t.pick(&tabs);
                    self.index(tab, depth);
                    index = Some(tab);
                }
                // parameters stay on the stack through the guard: if (params) -> (results)
                self.push(I::GlobalGet(b));
                let mut params = ft.params.clone();
                if index.is_some() {
                    params.push(Ty::I32);
                }
                let bty = FTy { params: params.clone(), results: ft.results.clone() };
                let bt = self.bt(&bty);
                self.push(I::If(bt));
                self.push(I::GlobalGet(b));
                self.push(I::I32Const(1));
                self.push(I::I32Sub);
                self.push(I::GlobalSet(b));
                match index {
                    Some(tab) => {
                        let ti = self.e.type_index(ft.clone());
                        self.push(I::CallIndirect { type_index: ti, table_index: tab });
                    }
                    None => self.push(I::Call(f)),
                }
                self.push(I::Else);
                if bty.params == bty.results && self.t.chance(500) {
                    // pass through
                } else {
                    for _ in &params {
                        self.push(I::Drop);
                    }
                    for t in &ft.results {
                        let c = self.constant(*t);
                        self.push(c);
                    }
                }
                self.push(I::End);
                self.pop(params.len());
                self.st.extend(&ft.results);
                true
            }
        }
    }

    /// A block, loop or conditional. With `want`: exactly these results and no parameters.
    fn structured(&mut self, want: Option<Vec<Ty>>, depth: u32) -> bool {
        if self.ctl.len() > self.deep + 5 || self.fuel <= 0 {
            if let Some(w) = want {
                for t in w {
                    let c = self.constant(t);
                    self.push(c);
                    self.st.push(t);
                }
                return true;
            }
            return false;
        }
        let mut kind = self.t.weighted(&[5, 3, 5, 5]);
        if kind == 2 && want.is_some() {
            kind = 3;
        }
        let cond = kind >= 2;
        if cond {
            self.need(&[Ty::I32], depth);
            self.st.pop();
        }
        let mut counter = None;
        let mut f = match want {
            Some(results) => FTy { params: vec![], results },
            None => self.block_ty(),
        };
        if kind == 2 && f.params != f.results {
            // no else: what goes in comes out
            f.results.clone_from(&f.params);
        }
        if kind == 1 {
            let c = self.locals.len() as u32;
            self.locals.push(Ty::I32);
            self.reserved.push(c);
            counter = Some(c);
            // the stack is as it was: setting the counter leaves parameters alone
            let n = 1 + self.t.below(4);
            self.push(I::I32Const(n as i32));
            self.push(I::LocalSet(c));
        }
        let wanted_none = f.results.is_empty();
        let bt = self.bt(&f);
        self.push(match kind {
            0 => I::Block(bt),
            1 => I::Loop(bt),
            _ => I::If(bt),
        });
        let np = f.params.len();
        self.pop(np);
        let height = self.st.len();
        let label = if kind == 1 { f.params.clone() } else { f.results.clone() };
        let part = |s: &mut Self| {
            s.st.truncate(height);
            s.st.extend(&f.params);
            s.ctl.push(Ctl { label: label.clone(), results: f.results.clone(), height, counter });
            let n = s.t.below(5);
            let reachable = s.seq(n, depth + 1);
            if reachable {
                s.settle(&f.results.clone(), height);
            }
            s.ctl.pop();
        };
        part(self);
        if kind == 3 {
            self.push(I::Else);
            part(self);
        }
        if kind == 2 && wanted_none && self.t.chance(100) {
            // an empty else
            self.push(I::Else);
        }
        self.push(I::End);
        self.st.truncate(height);
        self.st.extend(&f.results);
        true
    }

    /// Leaves exactly these on the stack above `height`.
    fn settle(&mut self, results: &[Ty], height: usize) {
        let mut keep = 0;
        // the longest prefix of the results that is already there
        for n in (0..=results.len()).rev() {
            if self.st.len() >= height + n && self.st[height..height + n] == results[..n] && (n == 0 || self.t.chance(800)) {
                keep = n;
                break;
            }
        }
        while self.st.len() > height + keep {
            self.push(I::Drop);
            self.st.pop();
        }
        for t in &results[keep..] {
            self.produce(*t, 2);
        }
    }

    /// Statements; false if the end cannot be reached.
    fn seq(&mut self, n: u32, depth: u32) -> bool {
        for _ in 0..n {
            if self.fuel <= 0 {
                break;
            }
            if !self.stmt(depth) {
                self.dead();
                return false;
            }
        }
        true
    }

    /// Some instructions nothing reaches.
    fn dead(&mut self) {
        if !self.t.chance(350) {
            return;
        }
        for _ in 0..=self.t.below(3) {
            match self.t.weighted(&[4, 3, 3, 2, 2, 2, 1]) {
                0 => {
                    self.push(I::Nop);
                }
                1 => {
                    self.push(I::I32Const(5));
                    self.push(I::Drop);
                }
                2 => {
                    // polymorphic operands
                    self.push(I::Drop);
                }
                3 => {
                    self.push(I::I32Add);
                    self.push(I::Drop);
                }
                4 => {
                    self.push(I::Block(BlockType::Empty));
                    self.push(I::End);
                }
                5 => {
                    let n = self.ctl.len() as u32;
                    let l = self.t.below(n);
                    self.push(I::Br(l));
                }
                _ => {
                    self.push(I::Unreachable);
                }
            }
        }
    }

    /// Operands for a branch to label `l`, with the loop counter tested if it leads back.
    fn branch(&mut self, l: u32, depth: u32) -> Option<u32> {
        let c = &self.ctl[self.ctl.len() - 1 - l as usize];
        let (label, counter) = (c.label.clone(), c.counter);
        self.need(&label, depth);
        counter
    }

    /// Counts a loop down and leaves "again" on the stack.
    fn again(&mut self, c: u32) {
        // c = c == 0 ? 0 : c - 1, and go on while it is not zero
        self.push(I::LocalGet(c));
        self.push(I::I32Const(1));
        self.push(I::I32Sub);
        self.push(I::I32Const(0));
        self.push(I::LocalGet(c));
        self.push(I::Select);
        self.push(I::LocalTee(c));
        self.st.push(Ty::I32);
    }

    fn stmt(&mut self, depth: u32) -> bool {
        if self.pure_ && self.style.slip > 0 && self.t.chance(self.style.slip) {
            self.pure_ = false;
            let r = self.stmt_(depth);
            self.pure_ = true;
            return r;
        }
        if self.style.pure_ > 0 && self.t.chance(70) {
            self.cycle();
            return true;
        }
        self.stmt_(depth)
    }

    /// A call that may lead back here, counted down by the first parameter.
    fn cycle(&mut self) {
        let counts = |f: FTy| f.params.first() == Some(&Ty::I32);
        if !counts(self.e.fty(self.me)) {
            return;
        }
        let to: Vec<u32> =
            (self.e.n_fimp..self.e.funcs.len() as u32).filter(|f| counts(self.e.fty(*f)) && (!self.pure_ || self.e.pure_fn[*f as usize])).collect();
        if to.is_empty() {
            return;
        }
        let f = self.t.pick(&to);
        let ft = self.e.fty(f);
        for i in [I::LocalGet(0), I::I32Const(1), I::I32Sub, I::I32Const(4), I::I32LtU, I::If(BlockType::Empty), I::LocalGet(0), I::I32Const(1), I::I32Sub] {
            self.push(i);
        }
        for p in &ft.params[1..] {
            let c = self.constant(*p);
            self.push(c);
        }
        self.push(I::Call(f));
        for _ in &ft.results {
            self.push(I::Drop);
        }
        self.push(I::End);
    }

    fn stmt_(&mut self, depth: u32) -> bool {
        let w = [10, 8, 6, 4, 6, 6, 5, 5, 3, 2, 2, 1, 3, 3, 2, 2];
        let tabled = self.style.big == Big::BranchTables && self.t.chance(120);
        match if tabled { 10 } else { self.t.weighted(&w) } {
            0 => {
                let t = self.ty();
                self.produce(t, depth.min(2));
            }
            1 => {
                let t = self.ty();
                let l = self.locals_of(t);
                self.need(&[t], depth.min(2));
                if l.is_empty() {
                    self.push(I::Drop);
                } else {
                    let i = self.t.pick(&l);
                    self.push(I::LocalSet(i));
                }
                self.st.pop();
            }
            2 => {
                let t = self.ty();
                let l = self.globals_of(t, true);
                self.need(&[t], depth.min(2));
                if l.is_empty() {
                    self.push(I::Drop);
                } else {
                    let i = self.t.pick(&l);
                    self.push(I::GlobalSet(i));
                }
                self.st.pop();
            }
            3 => {
                let h = self.ctl.last().map_or(0, |c| c.height);
                if self.st.len() > h {
                    self.push(I::Drop);
                    self.st.pop();
                } else {
                    self.push(I::Nop);
                }
            }
            4 => {
                // store
                if self.e.mem.is_some() && !self.pure_ {
                    let all: Vec<St> = (1..100).map_while(St::from_id).collect();
                    let off = self.address(depth.min(2));
                    let o = self.t.pick(&all);
                    let n = self.st.len();
                    self.need_fresh(o.ty(), n, depth.min(2));
                    self.push(ops::encode_op(&Num::St(o, off)));
                    self.pop(2);
                }
            }
            5 => {
                self.structured(None, depth);
            }
            6 => {
                self.call(None, depth.min(2));
            }
            7 => {
                // br_if
                let n = self.ctl.len() as u32;
                let l = self.t.below(n);
                match self.branch(l, depth.min(2)) {
                    Some(c) => self.again(c),
                    None => {
                        let n = self.st.len();
                        self.need_fresh(Ty::I32, n, depth.min(2));
                    }
                }
                self.push(I::BrIf(l));
                self.st.pop();
            }
            8 => {
                self.special(None, depth.min(2));
            }
            9 => {
                // br; back to a loop only if the counter allows
                let n = self.ctl.len() as u32;
                let l = self.t.below(n);
                if let Some(c) = self.branch(l, depth.min(2)) {
                    self.again(c);
                    // two targets: the loop, or out of the function
                    self.st.pop();
                    if self.t.chance(500) && self.ctl[0].label == self.ctl[(n - 1 - l) as usize].label {
                        self.push(I::BrTable(vec![n - 1].into(), l));
                    } else {
                        self.push(I::If(BlockType::Empty));
                        self.push(I::Else);
                        let end = self.e.budget;
                        self.push(I::GlobalGet(end));
                        self.push(I::Drop);
                        self.push(I::Unreachable);
                        self.push(I::End);
                        self.push(I::Br(l));
                    }
                } else {
                    self.push(I::Br(l));
                }
                return false;
            }
            10 => {
                // br_table over labels with the same types, none of them a loop
                let n = self.ctl.len() as u32;
                let d = self.t.below(n);
                let c = &self.ctl[(n - 1 - d) as usize];
                if c.counter.is_some() {
                    return true;
                }
                let label = c.label.clone();
                let same: Vec<u32> = (0..n)
                    .filter(|l| {
                        let c = &self.ctl[(n - 1 - l) as usize];
                        c.label == label && c.counter.is_none()
                    })
                    .collect();
                self.need(&label, depth.min(2));
                let k = self.st.len();
                self.need_fresh(Ty::I32, k, depth.min(2));
                let mut m = self.t.below(5);
                let mut mask = 3;
                if self.style.big == Big::BranchTables {
                    m = [5, 16, 17, 33, 64, 100, 129, 300][self.t.below(8) as usize];
                    mask = [3, 31, 127, 511][self.t.below(4) as usize];
                }
                if self.t.chance(600) {
                    self.push(I::I32Const(mask));
                    self.push(I::I32And);
                }
                if m > 4 && self.t.chance(600) {
                    let k = self.t.below(m + 2);
                    self.push(I::I32Const(k as i32));
                    self.push(I::I32Add);
                }
                let v: Vec<u32> = (0..m).map(|_| self.t.pick(&same)).collect();
                self.push(I::BrTable(v.into(), d));
                self.st.pop();
                return false;
            }
            11 => {
                let r = self.ctl[0].label.clone();
                self.need(&r, depth.min(2));
                self.push(I::Return);
                return false;
            }
            12 => {
                self.numeric(None, depth.min(2));
            }
            13 => {
                if self.e.mem.is_some() && !self.pure_ && self.style.refs > 0 {
                    self.bulk_memory(depth.min(2));
                }
            }
            14 => {
                if !self.e.tables.is_empty() && !self.pure_ && self.style.refs > 0 {
                    self.bulk_table(depth.min(2));
                }
            }
            _ => {
                if self.t.chance(120) {
                    self.push(I::Unreachable);
                    return false;
                }
                self.push(I::Nop);
            }
        }
        true
    }

    /// One more value of a type, whatever is on the stack already.
    fn need_fresh(&mut self, t: Ty, height: usize, depth: u32) {
        self.st.truncate(height.max(self.st.len()));
        self.produce(t, depth);
    }

    fn small(&mut self, n: u32) {
        let x = self.t.below(n);
        self.push(I::I32Const(x as i32));
    }

    fn bulk_memory(&mut self, depth: u32) {
        let k = self.t.weighted(&[3, 3, 3, 2]);
        if k == 3 {
            if self.e.n_datas > 0 {
                let n = self.e.n_datas;
                let s = self.t.below(n);
                self.push(I::DataDrop(s));
            }
            return;
        }
        if k == 2 && self.e.n_datas == 0 {
            return;
        }
        // the destination may be anything
        self.address(depth);
        match k {
            0 => {
                self.small(300);
                self.small(200);
                self.push(I::MemoryFill(0));
            }
            1 => {
                self.small(70_000);
                self.small(200);
                self.push(I::MemoryCopy { src_mem: 0, dst_mem: 0 });
            }
            _ => {
                self.small(4);
                self.small(12);
                let n = self.e.n_datas;
                let s = self.t.below(n);
                self.push(I::MemoryInit { mem: 0, data_index: s });
            }
        }
        self.st.pop();
    }

    fn bulk_table(&mut self, depth: u32) {
        let n = self.e.tables.len() as u32;
        let t = self.t.below(n);
        let ty = self.e.tables[t as usize].ty;
        match self.t.weighted(&[5, 3, 3, 3, 1]) {
            0 => {
                self.index(t, depth);
                self.need_fresh(ty, 0, depth);
                self.push(I::TableSet(t));
                self.pop(2);
            }
            1 => {
                self.index(t, depth);
                self.need_fresh(ty, 0, depth);
                self.small(4);
                self.push(I::TableFill(t));
                self.pop(2);
            }
            2 => {
                let other: Vec<u32> = (0..n).filter(|i| self.e.tables[*i as usize].ty == ty).collect();
                let s = self.t.pick(&other);
                self.index(t, depth);
                self.small(4);
                self.small(4);
                self.push(I::TableCopy { src_table: s, dst_table: t });
                self.pop(1);
            }
            k => {
                let segs: Vec<u32> = (0..self.e.elems.len() as u32).filter(|i| self.e.elems[*i as usize] == ty).collect();
                if segs.is_empty() {
                    return;
                }
                let s = self.t.pick(&segs);
                if k == 4 {
                    self.push(I::ElemDrop(s));
                    return;
                }
                self.index(t, depth);
                self.small(3);
                self.small(4);
                self.push(I::TableInit { elem_index: s, table: t });
                self.pop(1);
            }
        }
    }
}

fn fty(t: &mut Tape, style: Style) -> FTy {
    let one = |t: &mut Tape| {
        if t.chance(style.refs / 5) {
            t.pick(&[Ty::Func, Ty::Extern])
        } else {
            NUM[t.weighted(&[5, 3, 2, 2])]
        }
    };
    let mut np = [1, 0, 2, 3, 5, 9][t.weighted(&[6, 4, 5, 3, 2, 1])];
    let mut nr = [1, 0, 2, 3, 6][t.weighted(&[8, 4, 3, 2, 1])];
    if style.big == Big::Signatures {
        np = [np, 16, 33, 70, 140][t.below(5) as usize];
        nr = [nr, nr, 16, 33][t.below(4) as usize];
    }
    FTy { params: (0..np).map(|_| one(t)).collect(), results: (0..nr).map(|_| one(t)).collect() }
}

/// A whole module.
pub fn module(t: &mut Tape, style: Style) -> Vec<u8> {
    let mut e = Env::default();
    let n_types = 1 + t.below(4);
    for _ in 0..n_types {
        let f = fty(t, style);
        e.types.push(f);
    }
    let nt = e.types.len() as u32;

    let n_fimp = [1, 0, 2, 3][t.weighted(&[5, 2, 4, 2])];
    let mut imports = we::ImportSection::new();
    let mut host_names: Vec<(String, u32)> = vec![];
    for i in 0..n_fimp {
        if i > 0 && t.chance(100) {
            // the same function once more
            let (n, ty) = host_names[t.below(host_names.len() as u32) as usize].clone();
            host_names.push((n, ty));
        } else {
            let ty = t.below(nt);
            host_names.push((format!("h{i}"), ty));
        }
    }
    for (n, ty) in &host_names {
        imports.import("env", n, we::EntityType::Function(*ty));
        e.funcs.push(*ty);
        e.pure_fn.push(false);
    }
    e.n_fimp = host_names.len() as u32;
    let mut n_def = 1 + t.below(style.funcs);
    // the ones beyond these are short
    let n_long = n_def;
    if style.big == Big::Functions {
        n_def += [20, 70, 140, 280][t.below(4) as usize];
    }
    for _ in 0..n_def {
        let ty = t.below(nt);
        e.funcs.push(ty);
        let p = t.chance(style.pure_);
        e.pure_fn.push(p);
    }
    let n_funcs = e.funcs.len() as u32;

    // tables
    let n_tab = if style.refs > 0 { 1 + t.below(3) } else { t.below(2) };
    for i in 0..n_tab {
        let ty = if i > 0 && t.chance(300) { Ty::Extern } else { Ty::Func };
        let size = 1 + t.below(6);
        let max = if t.chance(300) { Some(size + t.below(4)) } else { None };
        let import = t.chance(200);
        e.tables.push(Tab { ty, size, max, import });
    }
    e.tables.sort_by_key(|x| !x.import);
    for (i, x) in e.tables.iter().enumerate().filter(|x| x.1.import) {
        imports.import(
            "env",
            &format!("t{i}"),
            we::TableType { element_type: rt(x.ty), table64: false, minimum: x.size.into(), maximum: x.max.map(Into::into), shared: false },
        );
    }
    // memory
    if t.chance(style.memory) {
        let min = [1, 0, 2][t.weighted(&[8, 1, 1])];
        let max = if t.chance(500) { Some(min + t.below(4)) } else { None };
        let import = t.chance(250);
        e.mem = Some((min, max, import));
        if import {
            imports.import(
                "env",
                "m",
                we::MemoryType { minimum: min.into(), maximum: max.map(Into::into), memory64: false, shared: false, page_size_log2: None },
            );
        }
    }
    // globals
    let mut n_glob = t.below(5);
    if style.big == Big::Globals {
        n_glob += [20, 70, 140][t.below(3) as usize];
    }
    for _ in 0..n_glob {
        let ty = if t.chance(style.refs / 3) { t.pick(&[Ty::Func, Ty::Extern]) } else { t.pick(&NUM) };
        let mutable = !t.chance(250);
        let import = t.chance(250);
        e.globals.push(Glob { ty, mutable, import, reserved: false });
    }
    e.globals.sort_by_key(|x| !x.import);
    for (i, g) in e.globals.iter().enumerate().filter(|x| x.1.import) {
        imports.import("env", &format!("g{i}"), we::GlobalType { val_type: vt(g.ty), mutable: g.mutable, shared: false });
    }
    e.budget = e.globals.len() as u32;
    e.globals.push(Glob { ty: Ty::I32, mutable: true, import: false, reserved: true });
    e.recurse = t.chance(500);
    let budget = 1 + t.below(6);
    let mut global_inits = vec![];
    for i in 0..e.globals.len() {
        let g = &e.globals[i];
        let (ty, import) = (g.ty, g.import);
        if import {
            continue;
        }
        let from: Vec<u32> = (0..i as u32).filter(|k| e.globals[*k as usize].import && !e.globals[*k as usize].mutable && e.globals[*k as usize].ty == ty).collect();
        let x = if i == e.budget as usize {
            ConstExpr::i32_const(budget as i32)
        } else if !from.is_empty() && t.chance(300) {
            ConstExpr::global_get(t.pick(&from))
        } else {
            match ty {
                Ty::I32 => ConstExpr::i32_const(i32_value(t) as i32),
                Ty::I64 => ConstExpr::i64_const(i64_value(t) as i64),
                Ty::F32 => ConstExpr::f32_const(f32::from_bits(f32_value(t)).into()),
                Ty::F64 => ConstExpr::f64_const(f64::from_bits(f64_value(t)).into()),
                Ty::Func if t.chance(600) => ConstExpr::ref_func(t.below(n_funcs)),
                ty => ConstExpr::ref_null(ht(ty)),
            }
        };
        global_inits.push((i, x));
    }
    // element segments
    let mut elems = we::ElementSection::new();
    let mut n_elem = 0u32;
    let items_of = |t: &mut Tape, ty: Ty, n: u32| -> Vec<ConstExpr> {
        (0..n)
            .map(|_| if ty == Ty::Func && !t.chance(150) { ConstExpr::ref_func(t.below(n_funcs)) } else { ConstExpr::ref_null(ht(ty)) })
            .collect()
    };
    for (i, x) in e.tables.iter().enumerate() {
        if x.size == 0 || t.chance(100) {
            continue;
        }
        let n = x.size.min(1 + t.below(x.size + 1));
        let off = if t.chance(200) { x.size - n + t.below(2) } else { t.below(x.size - n + 1) };
        if x.ty == Ty::Func && !t.chance(300) {
            let v: Vec<u32> = (0..n).map(|_| t.below(n_funcs)).collect();
            elems.active(Some(i as u32), &ConstExpr::i32_const(off as i32), we::Elements::Functions(v.into()));
        } else {
            let v = items_of(t, x.ty, n);
            elems.active(Some(i as u32), &ConstExpr::i32_const(off as i32), we::Elements::Expressions(rt(x.ty), v.into()));
        }
        e.elems.push(x.ty);
        n_elem += 1;
    }
    if style.refs > 0 {
        for _ in 0..t.below(3) {
            let ty = if t.chance(200) { Ty::Extern } else { Ty::Func };
            let n = t.below(4);
            if ty == Ty::Func && t.chance(500) {
                let v: Vec<u32> = (0..n).map(|_| t.below(n_funcs)).collect();
                elems.passive(we::Elements::Functions(v.into()));
            } else {
                let v = items_of(t, ty, n);
                elems.passive(we::Elements::Expressions(rt(ty), v.into()));
            }
            e.elems.push(ty);
            n_elem += 1;
        }
    }
    // data segments
    let mut datas = we::DataSection::new();
    if let Some((min, _, _)) = e.mem {
        for _ in 0..t.below(3) {
            let n = t.below(12);
            let bytes: Vec<u8> = (0..n).map(|_| t.below(256) as u8).collect();
            if t.chance(style.refs) {
                datas.passive(bytes);
            } else {
                let off = if t.chance(20) { min * 65536 } else { t.below(64) };
                if min == 0 && !t.chance(50) {
                    continue;
                }
                datas.active(0, &ConstExpr::i32_const(off as i32), bytes);
            }
            e.n_datas += 1;
        }
    }
    // code
    let mut codes = we::CodeSection::new();
    let mut ref_funcs = false;
    for f in e.n_fimp..n_funcs {
        let ft = e.fty(f);
        let pure_ = e.pure_fn[f as usize];
        let mut locals = ft.params.clone();
        let mut n_loc = t.below(4);
        if style.big == Big::Locals && t.chance(600) {
            n_loc += [30, 70, 140, 220, 300][t.below(5) as usize];
        }
        for _ in 0..n_loc {
            let ty = if t.chance(style.refs / 4) { t.pick(&[Ty::Func, Ty::Extern]) } else { t.pick(&NUM) };
            locals.push(ty);
        }
        let mut style = style;
        if f >= e.n_fimp + n_long {
            style.len = 2;
        } else if style.big == Big::Code && t.chance(500) {
            style.len = 300;
        }
        let mut b = Body {
            style,
            me: f,
            pure_,
            n_params: ft.params.len(),
            locals,
            reserved: vec![],
            st: vec![],
            ctl: vec![Ctl { label: ft.results.clone(), results: ft.results.clone(), height: 0, counter: None }],
            out: vec![],
            fuel: style.len as i32 * 3,
            ref_funcs: false,
            floor: 0,
            deep: 0,
            t: &mut *t,
            e: &mut e,
        };
        let mut n = 1 + b.t.below(style.len);
        if style.big == Big::Code && style.len > 60 {
            n += 100;
        }
        if (style.big == Big::Nesting && b.t.chance(600)) || (style.big == Big::BranchTables && b.t.chance(500)) {
            b.deep = [7, 9, 20, 40, 140][b.t.below(5) as usize];
            for _ in 0..b.deep {
                b.push(I::Block(BlockType::Empty));
                b.ctl.push(Ctl { label: vec![], results: vec![], height: 0, counter: None });
            }
            b.fuel = style.len as i32 * 3;
        }
        if style.big == Big::Indices && b.t.chance(600) {
            // everything after these has a large index
            let k = [120, 250, 1_020, 4_090, 32_760, 65_530][b.t.weighted(&[8, 8, 6, 4, 2, 1])];
            b.out.extend(std::iter::repeat_n(I::Nop, k));
        }
        let mut reachable = b.seq(n, 0);
        for _ in 0..b.deep {
            if reachable {
                b.settle(&[], 0);
            }
            b.st.clear();
            b.push(I::End);
            b.ctl.pop();
            reachable = true;
            // where a branch goes is to be seen
            if b.t.chance(if style.big == Big::BranchTables { 400 } else { 50 }) {
                b.fuel = b.fuel.max(4);
                reachable = b.seq(1, 0);
            }
        }
        if reachable {
            b.settle(&ft.results, 0);
            if b.t.chance(100) {
                b.push(I::Return);
            }
        }
        b.push(I::End);
        ref_funcs |= b.ref_funcs;
        let mut c = we::Function::new_with_locals_types(b.locals[b.n_params..].iter().map(|t| vt(*t)));
        for i in &b.out {
            c.instruction(i);
        }
        codes.function(&c);
    }
    // exports
    let mut exports = we::ExportSection::new();
    let all = !t.chance(400);
    for f in 0..n_funcs {
        if all || f + 1 == n_funcs || t.chance(500) {
            exports.export(&format!("f{f}"), we::ExportKind::Func, f);
        }
    }
    if n_funcs > 0 && t.chance(100) {
        exports.export("again", we::ExportKind::Func, t.below(n_funcs));
    }
    if e.mem.is_some() && !t.chance(250) {
        exports.export("m", we::ExportKind::Memory, 0);
    }
    for i in 0..e.tables.len() as u32 {
        if !t.chance(300) {
            exports.export(&format!("t{i}"), we::ExportKind::Table, i);
        }
    }
    for i in 0..e.globals.len() as u32 {
        if !t.chance(300) {
            exports.export(&format!("g{i}"), we::ExportKind::Global, i);
        }
    }
    // functions referred to in code have to be declared
    if ref_funcs {
        elems.declared(we::Elements::Functions((0..n_funcs).collect::<Vec<_>>().into()));
        e.elems.push(Ty::Func);
        n_elem += 1;
    }
    let starts: Vec<u32> = (0..n_funcs).filter(|f| e.fty(*f) == FTy { params: vec![], results: vec![] }).collect();
    let start = if !starts.is_empty() && t.chance(300) { Some(t.pick(&starts)) } else { None };

    // put together
    let mut m = we::Module::new();
    let mut types = we::TypeSection::new();
    for ft in &e.types {
        types.ty().function(ft.params.iter().map(|t| vt(*t)), ft.results.iter().map(|t| vt(*t)));
    }
    m.section(&types);
    m.section(&imports);
    let mut funcs = we::FunctionSection::new();
    for f in e.n_fimp..n_funcs {
        funcs.function(e.funcs[f as usize]);
    }
    m.section(&funcs);
    let mut tables = we::TableSection::new();
    for x in e.tables.iter().filter(|x| !x.import) {
        tables.table(we::TableType { element_type: rt(x.ty), table64: false, minimum: x.size.into(), maximum: x.max.map(Into::into), shared: false });
    }
    m.section(&tables);
    if let Some((min, max, false)) = e.mem {
        let mut mems = we::MemorySection::new();
        mems.memory(we::MemoryType { minimum: min.into(), maximum: max.map(Into::into), memory64: false, shared: false, page_size_log2: None });
        m.section(&mems);
    }
    let mut globals = we::GlobalSection::new();
    for (i, x) in global_inits {
        let g = &e.globals[i];
        globals.global(we::GlobalType { val_type: vt(g.ty), mutable: g.mutable, shared: false }, &x);
    }
    m.section(&globals);
    m.section(&exports);
    if let Some(f) = start {
        m.section(&we::StartSection { function_index: f });
    }
    if n_elem > 0 {
        m.section(&elems);
    }
    if e.n_datas > 0 {
        m.section(&we::DataCountSection { count: e.n_datas });
    }
    m.section(&codes);
    if e.n_datas > 0 {
        m.section(&datas);
    }
    m.finish()
}

/// A program of functions with these signatures that do nothing but trap.
pub fn skeleton(sigs: &[(Vec<Ty>, Vec<Ty>)]) -> Vec<u8> {
    let mut m = we::Module::new();
    let (mut ts, mut fs, mut cs, mut xs) = (we::TypeSection::new(), we::FunctionSection::new(), we::CodeSection::new(), we::ExportSection::new());
    for (k, (a, r)) in sigs.iter().enumerate() {
        ts.ty().function(a.iter().map(|x| vt(*x)), r.iter().map(|x| vt(*x)));
        fs.function(k as u32);
        let mut f = we::Function::new([]);
        f.instruction(&I::Unreachable);
        f.instruction(&I::End);
        cs.function(&f);
        xs.export(&format!("f{k}"), we::ExportKind::Func, k as u32);
    }
    m.section(&ts).section(&fs).section(&xs).section(&cs);
    m.finish()
}
