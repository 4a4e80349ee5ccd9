//! The hooks of an analysis: names as an analysis exports them, and the groups they are selected by.

use crate::wasm::Ty;
use std::collections::HashSet;
use wastrumentation::analysis::AnalysisInterface;
use wastrumentation_lang_webassembly::generate::analysis::{interface_from, Hook};

pub const N_HOOKS: usize = 76;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub enum H {
    GenericApply,
    BlockPre,
    BlockPost,
    LoopPre,
    LoopPost,
    IfThen,
    IfThenPost,
    IfThenElse,
    IfThenElsePost,
    Br,
    BrIf,
    BrTable,
    Return,
    CallPre,
    CallPost,
    CallIndirectPre,
    CallIndirectPost,
    Drop,
    Select,
    MemorySize,
    MemoryGrow,
    ConstI32,
    ConstI64,
    ConstF32,
    ConstF64,
    LocalGetI32,
    LocalGetI64,
    LocalGetF32,
    LocalGetF64,
    LocalSetI32,
    LocalSetI64,
    LocalSetF32,
    LocalSetF64,
    LocalTeeI32,
    LocalTeeI64,
    LocalTeeF32,
    LocalTeeF64,
    GlobalGetI32,
    GlobalGetI64,
    GlobalGetF32,
    GlobalGetF64,
    GlobalSetI32,
    GlobalSetI64,
    GlobalSetF32,
    GlobalSetF64,
    LoadI32,
    LoadI64,
    LoadF32,
    LoadF64,
    StoreI32,
    StoreI64,
    StoreF32,
    StoreF64,
    UnI32I32,
    UnI64I32,
    UnI64I64,
    UnF32F32,
    UnF64F64,
    UnF32I32,
    UnF64I32,
    UnI32I64,
    UnF32I64,
    UnF64I64,
    UnI32F32,
    UnI64F32,
    UnF64F32,
    UnI32F64,
    UnI64F64,
    UnF32F64,
    BiI32I32,
    BiI64I32,
    BiF32I32,
    BiF64I32,
    BiI64I64,
    BiF32F32,
    BiF64F64,
}

/// Every hook besides the generic application, with the name of the function the analysis exports for it.
pub const HOOKS: [(H, &str); 75] = [
    (H::BlockPre, "trap_block_pre"),
    (H::BlockPost, "trap_block_post"),
    (H::LoopPre, "trap_loop_pre"),
    (H::LoopPost, "trap_loop_post"),
    (H::IfThen, "specialized_if_then_k"),
    (H::IfThenPost, "trap_if_then_post"),
    (H::IfThenElse, "specialized_if_then_else_k"),
    (H::IfThenElsePost, "trap_if_then_else_post"),
    (H::Br, "specialized_br"),
    (H::BrIf, "specialized_br_if"),
    (H::BrTable, "specialized_br_table"),
    (H::Return, "return_trap"),
    (H::CallPre, "specialized_call_pre"),
    (H::CallPost, "specialized_call_post"),
    (H::CallIndirectPre, "specialized_call_indirect_pre"),
    (H::CallIndirectPost, "specialized_call_indirect_post"),
    (H::Drop, "drop_trap"),
    (H::Select, "specialized_select"),
    (H::MemorySize, "trap_memory_size"),
    (H::MemoryGrow, "trap_memory_grow"),
    (H::ConstI32, "trap_const_i32"),
    (H::ConstI64, "trap_const_i64"),
    (H::ConstF32, "trap_const_f32"),
    (H::ConstF64, "trap_const_f64"),
    (H::LocalGetI32, "trap_local_get_i32"),
    (H::LocalGetI64, "trap_local_get_i64"),
    (H::LocalGetF32, "trap_local_get_f32"),
    (H::LocalGetF64, "trap_local_get_f64"),
    (H::LocalSetI32, "trap_local_set_i32"),
    (H::LocalSetI64, "trap_local_set_i64"),
    (H::LocalSetF32, "trap_local_set_f32"),
    (H::LocalSetF64, "trap_local_set_f64"),
    (H::LocalTeeI32, "trap_local_tee_i32"),
    (H::LocalTeeI64, "trap_local_tee_i64"),
    (H::LocalTeeF32, "trap_local_tee_f32"),
    (H::LocalTeeF64, "trap_local_tee_f64"),
    (H::GlobalGetI32, "trap_global_get_i32"),
    (H::GlobalGetI64, "trap_global_get_i64"),
    (H::GlobalGetF32, "trap_global_get_f32"),
    (H::GlobalGetF64, "trap_global_get_f64"),
    (H::GlobalSetI32, "trap_global_set_i32"),
    (H::GlobalSetI64, "trap_global_set_i64"),
    (H::GlobalSetF32, "trap_global_set_f32"),
    (H::GlobalSetF64, "trap_global_set_f64"),
    (H::LoadI32, "trap_i32_load"),
    (H::LoadI64, "trap_i64_load"),
    (H::LoadF32, "trap_f32_load"),
    (H::LoadF64, "trap_f64_load"),
    (H::StoreI32, "trap_i32_store"),
    (H::StoreI64, "trap_i64_store"),
    (H::StoreF32, "trap_f32_store"),
    (H::StoreF64, "trap_f64_store"),
    (H::UnI32I32, "unary_i32_to_i32"),
    (H::UnI64I32, "unary_i64_to_i32"),
    (H::UnI64I64, "unary_i64_to_i64"),
    (H::UnF32F32, "unary_f32_to_f32"),
    (H::UnF64F64, "unary_f64_to_f64"),
    (H::UnF32I32, "unary_f32_to_i32"),
    (H::UnF64I32, "unary_f64_to_i32"),
    (H::UnI32I64, "unary_i32_to_i64"),
    (H::UnF32I64, "unary_f32_to_i64"),
    (H::UnF64I64, "unary_f64_to_i64"),
    (H::UnI32F32, "unary_i32_to_f32"),
    (H::UnI64F32, "unary_i64_to_f32"),
    (H::UnF64F32, "unary_f64_to_f32"),
    (H::UnI32F64, "unary_i32_to_f64"),
    (H::UnI64F64, "unary_i64_to_f64"),
    (H::UnF32F64, "unary_f32_to_f64"),
    (H::BiI32I32, "binary_i32_i32_to_i32"),
    (H::BiI64I32, "binary_i64_i64_to_i32"),
    (H::BiF32I32, "binary_f32_f32_to_i32"),
    (H::BiF64I32, "binary_f64_f64_to_i32"),
    (H::BiI64I64, "binary_i64_i64_to_i64"),
    (H::BiF32F32, "binary_f32_f32_to_f32"),
    (H::BiF64F64, "binary_f64_f64_to_f64"),
];

/// Takes a single hook out of an interface.
pub fn clear(i: &mut AnalysisInterface, h: H) {
    match h {
        H::GenericApply => i.generic_interface = None,
        H::BlockPre => i.pre_block = None,
        H::BlockPost => i.post_block = None,
        H::LoopPre => i.pre_loop = None,
        H::LoopPost => i.post_loop = None,
        H::IfThen => i.if_then_trap = None,
        H::IfThenPost => i.if_then_post_trap = None,
        H::IfThenElse => i.if_then_else_trap = None,
        H::IfThenElsePost => i.if_then_else_post_trap = None,
        H::Br => i.br_trap = None,
        H::BrIf => i.br_if_trap = None,
        H::BrTable => i.br_table_trap = None,
        H::Return => i.return_trap = None,
        H::CallPre => i.pre_trap_call = None,
        H::CallPost => i.post_trap_call = None,
        H::CallIndirectPre => i.pre_trap_call_indirect = None,
        H::CallIndirectPost => i.post_trap_call_indirect = None,
        H::Drop => i.drop_trap = None,
        H::Select => i.select = None,
        H::MemorySize => i.memory_size = None,
        H::MemoryGrow => i.memory_grow = None,
        H::ConstI32 => i.const_i32_trap = None,
        H::ConstI64 => i.const_i64_trap = None,
        H::ConstF32 => i.const_f32_trap = None,
        H::ConstF64 => i.const_f64_trap = None,
        H::LocalGetI32 => i.local_get_i32 = None,
        H::LocalGetI64 => i.local_get_i64 = None,
        H::LocalGetF32 => i.local_get_f32 = None,
        H::LocalGetF64 => i.local_get_f64 = None,
        H::LocalSetI32 => i.local_set_i32 = None,
        H::LocalSetI64 => i.local_set_i64 = None,
        H::LocalSetF32 => i.local_set_f32 = None,
        H::LocalSetF64 => i.local_set_f64 = None,
        H::LocalTeeI32 => i.local_tee_i32 = None,
        H::LocalTeeI64 => i.local_tee_i64 = None,
        H::LocalTeeF32 => i.local_tee_f32 = None,
        H::LocalTeeF64 => i.local_tee_f64 = None,
        H::GlobalGetI32 => i.global_get_i32 = None,
        H::GlobalGetI64 => i.global_get_i64 = None,
        H::GlobalGetF32 => i.global_get_f32 = None,
        H::GlobalGetF64 => i.global_get_f64 = None,
        H::GlobalSetI32 => i.global_set_i32 = None,
        H::GlobalSetI64 => i.global_set_i64 = None,
        H::GlobalSetF32 => i.global_set_f32 = None,
        H::GlobalSetF64 => i.global_set_f64 = None,
        H::LoadI32 => i.i32_load = None,
        H::LoadI64 => i.i64_load = None,
        H::LoadF32 => i.f32_load = None,
        H::LoadF64 => i.f64_load = None,
        H::StoreI32 => i.i32_store = None,
        H::StoreI64 => i.i64_store = None,
        H::StoreF32 => i.f32_store = None,
        H::StoreF64 => i.f64_store = None,
        H::UnI32I32 => i.unary_i32_to_i32 = None,
        H::UnI64I32 => i.unary_i64_to_i32 = None,
        H::UnI64I64 => i.unary_i64_to_i64 = None,
        H::UnF32F32 => i.unary_f32_to_f32 = None,
        H::UnF64F64 => i.unary_f64_to_f64 = None,
        H::UnF32I32 => i.unary_f32_to_i32 = None,
        H::UnF64I32 => i.unary_f64_to_i32 = None,
        H::UnI32I64 => i.unary_i32_to_i64 = None,
        H::UnF32I64 => i.unary_f32_to_i64 = None,
        H::UnF64I64 => i.unary_f64_to_i64 = None,
        H::UnI32F32 => i.unary_i32_to_f32 = None,
        H::UnI64F32 => i.unary_i64_to_f32 = None,
        H::UnF64F32 => i.unary_f64_to_f32 = None,
        H::UnI32F64 => i.unary_i32_to_f64 = None,
        H::UnI64F64 => i.unary_i64_to_f64 = None,
        H::UnF32F64 => i.unary_f32_to_f64 = None,
        H::BiI32I32 => i.binary_i32_i32_to_i32 = None,
        H::BiI64I32 => i.binary_i64_i64_to_i32 = None,
        H::BiF32I32 => i.binary_f32_f32_to_i32 = None,
        H::BiF64I32 => i.binary_f64_f64_to_i32 = None,
        H::BiI64I64 => i.binary_i64_i64_to_i64 = None,
        H::BiF32F32 => i.binary_f32_f32_to_f32 = None,
        H::BiF64F64 => i.binary_f64_f64_to_f64 = None,
    }
}

/// Which hooks an interface selects.
pub fn selected(i: &AnalysisInterface) -> [bool; N_HOOKS] {
    let mut on = [false; N_HOOKS];
    on[H::GenericApply as usize] = i.generic_interface.is_some();
    on[H::BlockPre as usize] = i.pre_block.is_some();
    on[H::BlockPost as usize] = i.post_block.is_some();
    on[H::LoopPre as usize] = i.pre_loop.is_some();
    on[H::LoopPost as usize] = i.post_loop.is_some();
    on[H::IfThen as usize] = i.if_then_trap.is_some();
    on[H::IfThenPost as usize] = i.if_then_post_trap.is_some();
    on[H::IfThenElse as usize] = i.if_then_else_trap.is_some();
    on[H::IfThenElsePost as usize] = i.if_then_else_post_trap.is_some();
    on[H::Br as usize] = i.br_trap.is_some();
    on[H::BrIf as usize] = i.br_if_trap.is_some();
    on[H::BrTable as usize] = i.br_table_trap.is_some();
    on[H::Return as usize] = i.return_trap.is_some();
    on[H::CallPre as usize] = i.pre_trap_call.is_some();
    on[H::CallPost as usize] = i.post_trap_call.is_some();
    on[H::CallIndirectPre as usize] = i.pre_trap_call_indirect.is_some();
    on[H::CallIndirectPost as usize] = i.post_trap_call_indirect.is_some();
    on[H::Drop as usize] = i.drop_trap.is_some();
    on[H::Select as usize] = i.select.is_some();
    on[H::MemorySize as usize] = i.memory_size.is_some();
    on[H::MemoryGrow as usize] = i.memory_grow.is_some();
    on[H::ConstI32 as usize] = i.const_i32_trap.is_some();
    on[H::ConstI64 as usize] = i.const_i64_trap.is_some();
    on[H::ConstF32 as usize] = i.const_f32_trap.is_some();
    on[H::ConstF64 as usize] = i.const_f64_trap.is_some();
    on[H::LocalGetI32 as usize] = i.local_get_i32.is_some();
    on[H::LocalGetI64 as usize] = i.local_get_i64.is_some();
    on[H::LocalGetF32 as usize] = i.local_get_f32.is_some();
    on[H::LocalGetF64 as usize] = i.local_get_f64.is_some();
    on[H::LocalSetI32 as usize] = i.local_set_i32.is_some();
    on[H::LocalSetI64 as usize] = i.local_set_i64.is_some();
    on[H::LocalSetF32 as usize] = i.local_set_f32.is_some();
    on[H::LocalSetF64 as usize] = i.local_set_f64.is_some();
    on[H::LocalTeeI32 as usize] = i.local_tee_i32.is_some();
    on[H::LocalTeeI64 as usize] = i.local_tee_i64.is_some();
    on[H::LocalTeeF32 as usize] = i.local_tee_f32.is_some();
    on[H::LocalTeeF64 as usize] = i.local_tee_f64.is_some();
    on[H::GlobalGetI32 as usize] = i.global_get_i32.is_some();
    on[H::GlobalGetI64 as usize] = i.global_get_i64.is_some();
    on[H::GlobalGetF32 as usize] = i.global_get_f32.is_some();
    on[H::GlobalGetF64 as usize] = i.global_get_f64.is_some();
    on[H::GlobalSetI32 as usize] = i.global_set_i32.is_some();
    on[H::GlobalSetI64 as usize] = i.global_set_i64.is_some();
    on[H::GlobalSetF32 as usize] = i.global_set_f32.is_some();
    on[H::GlobalSetF64 as usize] = i.global_set_f64.is_some();
    on[H::LoadI32 as usize] = i.i32_load.is_some();
    on[H::LoadI64 as usize] = i.i64_load.is_some();
    on[H::LoadF32 as usize] = i.f32_load.is_some();
    on[H::LoadF64 as usize] = i.f64_load.is_some();
    on[H::StoreI32 as usize] = i.i32_store.is_some();
    on[H::StoreI64 as usize] = i.i64_store.is_some();
    on[H::StoreF32 as usize] = i.f32_store.is_some();
    on[H::StoreF64 as usize] = i.f64_store.is_some();
    on[H::UnI32I32 as usize] = i.unary_i32_to_i32.is_some();
    on[H::UnI64I32 as usize] = i.unary_i64_to_i32.is_some();
    on[H::UnI64I64 as usize] = i.unary_i64_to_i64.is_some();
    on[H::UnF32F32 as usize] = i.unary_f32_to_f32.is_some();
    on[H::UnF64F64 as usize] = i.unary_f64_to_f64.is_some();
    on[H::UnF32I32 as usize] = i.unary_f32_to_i32.is_some();
    on[H::UnF64I32 as usize] = i.unary_f64_to_i32.is_some();
    on[H::UnI32I64 as usize] = i.unary_i32_to_i64.is_some();
    on[H::UnF32I64 as usize] = i.unary_f32_to_i64.is_some();
    on[H::UnF64I64 as usize] = i.unary_f64_to_i64.is_some();
    on[H::UnI32F32 as usize] = i.unary_i32_to_f32.is_some();
    on[H::UnI64F32 as usize] = i.unary_i64_to_f32.is_some();
    on[H::UnF64F32 as usize] = i.unary_f64_to_f32.is_some();
    on[H::UnI32F64 as usize] = i.unary_i32_to_f64.is_some();
    on[H::UnI64F64 as usize] = i.unary_i64_to_f64.is_some();
    on[H::UnF32F64 as usize] = i.unary_f32_to_f64.is_some();
    on[H::BiI32I32 as usize] = i.binary_i32_i32_to_i32.is_some();
    on[H::BiI64I32 as usize] = i.binary_i64_i64_to_i32.is_some();
    on[H::BiF32I32 as usize] = i.binary_f32_f32_to_i32.is_some();
    on[H::BiF64I32 as usize] = i.binary_f64_f64_to_i32.is_some();
    on[H::BiI64I64 as usize] = i.binary_i64_i64_to_i64.is_some();
    on[H::BiF32F32 as usize] = i.binary_f32_f32_to_f32.is_some();
    on[H::BiF64F64 as usize] = i.binary_f64_f64_to_f64.is_some();
    on
}

impl H {
    /// The type of what the analysis returns to this hook.
    pub fn answer(self) -> Option<Ty> {
        use H::*;
        match self {
            GenericApply | BlockPre | BlockPost | LoopPre | LoopPost | IfThenPost | IfThenElsePost | Br | Return | CallPre | CallPost | CallIndirectPost
            | Drop | StoreI32 | StoreI64 | StoreF32 | StoreF64 => None,
            IfThen | IfThenElse | BrIf | BrTable | CallIndirectPre | Select | MemorySize | MemoryGrow => Some(Ty::I32),
            h => {
                let n = format!("{h:?}");
                Some(match &n[n.len() - 3..] {
                    "I32" => Ty::I32,
                    "I64" => Ty::I64,
                    "F32" => Ty::F32,
                    _ => Ty::F64,
                })
            }
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            H::GenericApply => "generic_apply",
            h => HOOKS[h as usize - 1].1,
        }
    }
    pub fn by_name(n: &str) -> Option<H> {
        HOOKS.iter().find(|x| x.1 == n).map(|x| x.0)
    }
    pub fn local_get(t: Ty) -> Option<H> {
        Some(match t {
            Ty::I32 => H::LocalGetI32,
            Ty::I64 => H::LocalGetI64,
            Ty::F32 => H::LocalGetF32,
            Ty::F64 => H::LocalGetF64,
            _ => return None,
        })
    }
    pub fn local_set(t: Ty) -> Option<H> {
        Some(match t {
            Ty::I32 => H::LocalSetI32,
            Ty::I64 => H::LocalSetI64,
            Ty::F32 => H::LocalSetF32,
            Ty::F64 => H::LocalSetF64,
            _ => return None,
        })
    }
    pub fn local_tee(t: Ty) -> Option<H> {
        Some(match t {
            Ty::I32 => H::LocalTeeI32,
            Ty::I64 => H::LocalTeeI64,
            Ty::F32 => H::LocalTeeF32,
            Ty::F64 => H::LocalTeeF64,
            _ => return None,
        })
    }
    pub fn global_get(t: Ty) -> Option<H> {
        Some(match t {
            Ty::I32 => H::GlobalGetI32,
            Ty::I64 => H::GlobalGetI64,
            Ty::F32 => H::GlobalGetF32,
            Ty::F64 => H::GlobalGetF64,
            _ => return None,
        })
    }
    pub fn global_set(t: Ty) -> Option<H> {
        Some(match t {
            Ty::I32 => H::GlobalSetI32,
            Ty::I64 => H::GlobalSetI64,
            Ty::F32 => H::GlobalSetF32,
            Ty::F64 => H::GlobalSetF64,
            _ => return None,
        })
    }
    pub fn load(t: Ty) -> H {
        match t {
            Ty::I32 => H::LoadI32,
            Ty::I64 => H::LoadI64,
            Ty::F32 => H::LoadF32,
            Ty::F64 => H::LoadF64,
            _ => panic!("number expected"),
        }
    }
    pub fn store(t: Ty) -> H {
        match t {
            Ty::I32 => H::StoreI32,
            Ty::I64 => H::StoreI64,
            Ty::F32 => H::StoreF32,
            Ty::F64 => H::StoreF64,
            _ => panic!("number expected"),
        }
    }
    pub fn constant(t: Ty) -> H {
        match t {
            Ty::I32 => H::ConstI32,
            Ty::I64 => H::ConstI64,
            Ty::F32 => H::ConstF32,
            Ty::F64 => H::ConstF64,
            _ => panic!("number expected"),
        }
    }
    pub fn unary(a: Ty, r: Ty) -> Option<H> {
        Some(match (a, r) {
            (Ty::I32, Ty::I32) => H::UnI32I32,
            (Ty::I64, Ty::I32) => H::UnI64I32,
            (Ty::I64, Ty::I64) => H::UnI64I64,
            (Ty::F32, Ty::F32) => H::UnF32F32,
            (Ty::F64, Ty::F64) => H::UnF64F64,
            (Ty::F32, Ty::I32) => H::UnF32I32,
            (Ty::F64, Ty::I32) => H::UnF64I32,
            (Ty::I32, Ty::I64) => H::UnI32I64,
            (Ty::F32, Ty::I64) => H::UnF32I64,
            (Ty::F64, Ty::I64) => H::UnF64I64,
            (Ty::I32, Ty::F32) => H::UnI32F32,
            (Ty::I64, Ty::F32) => H::UnI64F32,
            (Ty::F64, Ty::F32) => H::UnF64F32,
            (Ty::I32, Ty::F64) => H::UnI32F64,
            (Ty::I64, Ty::F64) => H::UnI64F64,
            (Ty::F32, Ty::F64) => H::UnF32F64,
            _ => return None,
        })
    }
    pub fn binary(a: Ty, r: Ty) -> Option<H> {
        Some(match (a, r) {
            (Ty::I32, Ty::I32) => H::BiI32I32,
            (Ty::I64, Ty::I32) => H::BiI64I32,
            (Ty::F32, Ty::I32) => H::BiF32I32,
            (Ty::F64, Ty::I32) => H::BiF64I32,
            (Ty::I64, Ty::I64) => H::BiI64I64,
            (Ty::F32, Ty::F32) => H::BiF32F32,
            (Ty::F64, Ty::F64) => H::BiF64F64,
            _ => return None,
        })
    }
}

/// The groups an analysis selects hooks by.
pub const GROUPS: [Hook; 28] = [
    Hook::GenericApply,
    Hook::CallPre,
    Hook::CallPost,
    Hook::CallIndirectPre,
    Hook::CallIndirectPost,
    Hook::IfThen,
    Hook::IfThenPost,
    Hook::IfThenElse,
    Hook::IfThenElsePost,
    Hook::Branch,
    Hook::BranchIf,
    Hook::BranchTable,
    Hook::Select,
    Hook::Unary,
    Hook::Binary,
    Hook::Drop,
    Hook::Return,
    Hook::Const,
    Hook::Local,
    Hook::Global,
    Hook::Store,
    Hook::Load,
    Hook::MemorySize,
    Hook::MemoryGrow,
    Hook::BlockPre,
    Hook::BlockPost,
    Hook::LoopPre,
    Hook::LoopPost,
];

/// The hooks a group stands for.
pub fn group(g: Hook) -> Vec<H> {
    let pre = |p: &str| HOOKS.iter().map(|x| x.0).filter(|h| format!("{h:?}").starts_with(p)).collect::<Vec<_>>();
    match g {
        Hook::GenericApply => vec![H::GenericApply],
        Hook::CallPre => vec![H::CallPre],
        Hook::CallPost => vec![H::CallPost],
        Hook::CallIndirectPre => vec![H::CallIndirectPre],
        Hook::CallIndirectPost => vec![H::CallIndirectPost],
        Hook::IfThen => vec![H::IfThen],
        Hook::IfThenPost => vec![H::IfThenPost],
        Hook::IfThenElse => vec![H::IfThenElse],
        Hook::IfThenElsePost => vec![H::IfThenElsePost],
        Hook::Branch => vec![H::Br],
        Hook::BranchIf => vec![H::BrIf],
        Hook::BranchTable => vec![H::BrTable],
        Hook::Select => vec![H::Select],
        Hook::Unary => pre("Un"),
        Hook::Binary => pre("Bi"),
        Hook::Drop => vec![H::Drop],
        Hook::Return => vec![H::Return],
        Hook::Const => pre("Const"),
        Hook::Local => pre("Local"),
        Hook::Global => pre("Global"),
        Hook::Store => pre("Store"),
        Hook::Load => pre("Load"),
        Hook::MemorySize => vec![H::MemorySize],
        Hook::MemoryGrow => vec![H::MemoryGrow],
        Hook::BlockPre => vec![H::BlockPre],
        Hook::BlockPost => vec![H::BlockPost],
        Hook::LoopPre => vec![H::LoopPre],
        Hook::LoopPost => vec![H::LoopPost],
    }
}

/// The interface of an analysis that selects these groups, without the hooks of `off`.
pub fn interface(groups: &[usize], off: &[H]) -> AnalysisInterface {
    let set: HashSet<Hook> = groups.iter().map(|g| GROUPS[*g]).collect();
    let mut i = interface_from(&set);
    for h in off {
        clear(&mut i, *h);
    }
    i
}

/// What that selection means.
pub fn expected(groups: &[usize], off: &[H]) -> [bool; N_HOOKS] {
    let mut on = [false; N_HOOKS];
    for g in groups {
        for h in group(GROUPS[*g]) {
            on[h as usize] = true;
        }
    }
    for h in off {
        on[*h as usize] = false;
    }
    on
}
