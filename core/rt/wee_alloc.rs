//! Stands in for the crate of this name: a first-fit allocator over an address-ordered free list, which trusts the
//! layouts it is given, as the contract of `GlobalAlloc` allows.
#![no_std]
use core::alloc::{GlobalAlloc, Layout};
use core::cell::UnsafeCell;
use core::marker::PhantomData;
use core::ptr::null_mut;

#[repr(C)]
struct Block {
    next: *mut Block,
    size: usize,
}

/// What a free block takes, and the alignment of all.
const UNIT: usize = 8;
const PAGE: usize = 65536;

pub struct WeeAlloc<'a> {
    head: UnsafeCell<*mut Block>,
    _a: PhantomData<&'a ()>,
}

unsafe impl Sync for WeeAlloc<'_> {}

impl<'a> WeeAlloc<'a> {
    pub const INIT: Self = WeeAlloc { head: UnsafeCell::new(null_mut()), _a: PhantomData };

    unsafe fn give(&self, p: usize, size: usize) {
        let mut at: *mut *mut Block = self.head.get();
        let mut before: *mut Block = null_mut();
        while !(*at).is_null() && (*at as usize) < p {
            before = *at;
            at = &mut (**at).next;
        }
        let b = p as *mut Block;
        (*b).next = *at;
        (*b).size = size;
        *at = b;
        if !(*b).next.is_null() && p + size == (*b).next as usize {
            (*b).size += (*(*b).next).size;
            (*b).next = (*(*b).next).next;
        }
        if !before.is_null() && before as usize + (*before).size == p {
            (*before).size += (*b).size;
            (*before).next = (*b).next;
        }
    }

    unsafe fn take(&self, size: usize) -> *mut u8 {
        let mut at: *mut *mut Block = self.head.get();
        while !(*at).is_null() {
            let b = *at;
            if (*b).size >= size {
                if (*b).size > size {
                    let rest = (b as usize + size) as *mut Block;
                    (*rest).next = (*b).next;
                    (*rest).size = (*b).size - size;
                    *at = rest;
                } else {
                    *at = (*b).next;
                }
                return b.cast();
            }
            at = &mut (*b).next;
        }
        null_mut()
    }
}

unsafe impl GlobalAlloc for WeeAlloc<'_> {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            return l.align() as *mut u8;
        }
        let size = (l.size() + UNIT - 1) / UNIT * UNIT;
        let p = self.take(size);
        if !p.is_null() {
            return p;
        }
        let pages = (size + PAGE - 1) / PAGE;
        let old = core::arch::wasm32::memory_grow::<0>(pages);
        if old == usize::MAX {
            return null_mut();
        }
        self.give(old * PAGE, pages * PAGE);
        self.take(size)
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() == 0 {
            return;
        }
        let size = (l.size() + UNIT - 1) / UNIT * UNIT;
        self.give(p as usize, size);
    }
}
