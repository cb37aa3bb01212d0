#![no_builtins]
#![no_std]
#![feature(abi_custom, abi_unadjusted, cfg_target_has_atomic, core_intrinsics, linkage, macro_metavar_expr_concat, rustc_attrs, f16, f128)]
#![allow(internal_features, unused_features, stable_features, unstable_name_collisions, unused_macros, unexpected_cfgs, dead_code, clippy::all)]

#[macro_use]
#[path = "/repo/compiler-builtins/src/macros.rs"]
mod macros;

pub mod math {
    include!(concat!(env!("OUT_DIR"), "/math.rs"));
}
pub use math::libm_math::support;

/// Division as compiled where pointers have 32 bits.
pub mod div32 {
    include!(concat!(env!("OUT_DIR"), "/div_mod.rs"));
}

macro_rules! i {
    ($a:expr, $i:expr) => {
        $a[$i]
    };
    ($a:expr, $i:expr, ==, $v:expr) => {
        $a[$i] == $v
    };
    ($a:expr, $i:expr, $op:tt, $v:expr) => {
        $a[$i] $op $v
    };
}

/// Argument reduction with either table of digits.
pub mod pio2 {
    use crate::math::libm_math::{floor, scalbn};
    include!(concat!(env!("OUT_DIR"), "/pio2_mod.rs"));
}
