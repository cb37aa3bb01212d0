//! The portable modules of compiler-builtins as an ARM build sees them: word-aligned memory
//! routines, `__aeabi_*` aliases as callable functions (PowerPC names likewise).
#![no_builtins]
#![no_std]
#![feature(abi_custom, abi_unadjusted, asm_experimental_arch, cfg_target_has_atomic, core_intrinsics, linkage, repr_simd, macro_metavar_expr_concat, rustc_attrs)]
#![feature(f16, f128)]
#![allow(warnings)]

#[macro_export]
macro_rules! intr {
    (@ $k:tt $a:tt) => {};
    (@ $k:tt [$($al:ident)*] #[arm_aeabi_alias = $alias:ident] $($rest:tt)*) => { $crate::intr! { @ $k [$($al)* $alias] $($rest)* } };
    (@ $k:tt [$($al:ident)*] #[ppc_name = $alias:ident] $($rest:tt)*) => { $crate::intr! { @ $k [$($al)* $alias] $($rest)* } };
    (@ $k:tt $a:tt #[apple_f16_arg_abi] $($rest:tt)*) => { $crate::intr! { @ $k $a $($rest)* } };
    (@ $k:tt $a:tt #[apple_f16_ret_abi] $($rest:tt)*) => { $crate::intr! { @ $k $a $($rest)* } };
    (@ $k:tt $a:tt #[maybe_use_optimized_c_shim] $($rest:tt)*) => { $crate::intr! { @ $k $a $($rest)* } };
    (@ $k:tt $a:tt #[mem_builtin] $($rest:tt)*) => { $crate::intr! { @ $k $a $($rest)* } };
    (@ [$($k:tt)*] $a:tt #[unsafe(naked)] $($rest:tt)*) => { $crate::intr! { @ [$($k)*] $a $($rest)* } };
    (@ [$($k:tt)*] $a:tt #[$($x:tt)*] $($rest:tt)*) => { $crate::intr! { @ [$($k)* #[$($x)*]] $a $($rest)* } };
    (@ $k:tt $a:tt
        pub $(unsafe $(@ $e:tt)?)? extern $abi:tt fn $name:ident ( $($arg:ident : $ty:ty),* $(,)? ) $(-> $ret:ty)? { $($body:tt)* }
        $($rest:tt)*
    ) => {
        $crate::intr! { # $k [$(unsafe $($e)?)?] $name [$($arg : $ty),*] [$(-> $ret)?] { $($body)* } }
        $crate::intr! { = $a $k [$(unsafe $($e)?)?] $name [$($arg : $ty),*] [$(-> $ret)?] { $name($($arg),*) } }
        $crate::intr! { @ [] [] $($rest)* }
    };
    (= [] $($t:tt)*) => {};
    (= [$al:ident $($als:ident)*] $k:tt $u:tt $name:ident $args:tt $ret:tt $body:tt) => {
        $crate::intr! { # $k $u $al $args $ret $body }
        $crate::intr! { = [$($als)*] $k $u $name $args $ret $body }
    };
    (# [$($k:tt)*] [$($u:tt)*] $name:ident [$($args:tt)*] [$($ret:tt)*] { $($body:tt)* }) => {
        $($k)* pub $($u)* extern "C" fn $name ( $($args)* ) $($ret)* { $($body)* }
    };
}
macro_rules! intrinsics {
    ($($t:tt)*) => { intr! { @ [] [] $($t)* } };
}

#[path = "/repo/compiler-builtins/src/float/mod.rs"]
pub mod float;
#[path = "/repo/compiler-builtins/src/int/mod.rs"]
pub mod int;
#[path = "/repo/compiler-builtins/src/math/mod.rs"]
pub mod math;
#[path = "/repo/compiler-builtins/src/mem/mod.rs"]
pub mod mem;
pub use math::libm_math::support;
