//! Stands in for the crate of this name: a buffer that forgets its oldest element when it is full.
#![no_std]
use core::mem::MaybeUninit;
use core::ops::Index;

pub struct CircularBuffer<const N: usize, T> {
    first: usize,
    len: usize,
    items: [MaybeUninit<T>; N],
}

impl<const N: usize, T> CircularBuffer<N, T> {
    pub const fn new() -> Self {
        CircularBuffer { first: 0, len: 0, items: [const { MaybeUninit::zeroed() }; N] }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn push_back(&mut self, t: T) {
        let at = (self.first + self.len) % N;
        self.items[at] = MaybeUninit::new(t);
        if self.len == N {
            self.first = (self.first + 1) % N;
        } else {
            self.len += 1;
        }
    }
    pub fn get(&self, i: usize) -> Option<&T> {
        (i < self.len).then(|| unsafe { self.items[(self.first + i) % N].assume_init_ref() })
    }
}

impl<const N: usize, T> Index<usize> for CircularBuffer<N, T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        self.get(i).expect("index out of bounds")
    }
}
