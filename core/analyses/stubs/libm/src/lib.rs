//! Stands in for the crate of this name: what is compiled for WebAssembly calls nothing of it.
#![no_std]
