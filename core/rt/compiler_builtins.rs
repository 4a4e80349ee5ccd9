#![feature(compiler_builtins)]
#![allow(internal_features)]
#![compiler_builtins]
#![no_std]
