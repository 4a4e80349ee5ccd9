//! Stands in for the crate of this name: a map from the variants of an enumeration.
use core::ops::{Index, IndexMut};
pub use strum_derive::Enumerated;

pub trait Enumerated: Sized + 'static {
    const VARIANTS: &'static [Self];
    fn position(self) -> usize;
}

pub struct EnumMap<K, V, const N: usize> {
    values: [V; N],
    keys: core::marker::PhantomData<K>,
}

impl<K: Enumerated, V: Default, const N: usize> EnumMap<K, V, N> {
    pub fn new_default() -> Self {
        EnumMap { values: core::array::from_fn(|_| V::default()), keys: core::marker::PhantomData }
    }
}

impl<K: Enumerated, V, const N: usize> EnumMap<K, V, N> {
    pub fn iter(&self) -> core::slice::Iter<'_, V> {
        self.values.iter()
    }
}

impl<K: Enumerated, V, const N: usize> Index<K> for EnumMap<K, V, N> {
    type Output = V;
    fn index(&self, k: K) -> &V {
        &self.values[k.position()]
    }
}

impl<K: Enumerated, V, const N: usize> IndexMut<K> for EnumMap<K, V, N> {
    fn index_mut(&mut self, k: K) -> &mut V {
        &mut self.values[k.position()]
    }
}
