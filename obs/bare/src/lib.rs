//! Only compiles the library for a target with no standard library.
#![no_std]
pub use hyperloglogplus::HyperLogLogPF as Sketch;
