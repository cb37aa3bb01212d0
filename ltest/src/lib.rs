//! Private helpers of the repository's test crate, compiled from its own source files.
#![feature(f16, f128)]
#![allow(dead_code)]

pub use libm::support::{Float, Int, IntTy, MinInt};
pub use f8_impl::{f8, hf8};
pub use num::FloatExt;

#[path = "../../../repo/libm-test/src/num.rs"]
pub mod num;
#[path = "../../../repo/libm-test/src/f8_impl.rs"]
pub mod f8_impl;
