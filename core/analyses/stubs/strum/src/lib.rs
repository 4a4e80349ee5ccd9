//! Stands in for the crate of this name: the number of variants of an enumeration.
#![no_std]
pub use strum_derive::EnumCount;
pub trait EnumCount {
    const COUNT: usize;
}
