//! Machine-specific files of /repo built against `fake_core`; see build.rs for the ones that are copied first.
#![feature(abi_custom, linkage, macro_metavar_expr_concat, rustc_attrs, core_intrinsics, f16, f128)]
#![allow(warnings)]

extern crate fake_core as core;
pub use armish::mem;

macro_rules! intrinsics {
    ($($t:tt)*) => { armish::intr! { @ [] [] $($t)* } };
}

#[path = "/repo/compiler-builtins/src/arm.rs"]
pub mod arm;
#[path = "/repo/compiler-builtins/src/aarch64_outline_atomics.rs"]
pub mod aarch64_outline_atomics;

macro_rules! m {
    ($($n:ident = $f:literal)*) => {$(
        pub mod $n {
            include!(concat!(env!("OUT_DIR"), "/", $f));
        }
    )*};
}
m! {
    arm_linux_le = "arm_linux_le.rs"
    arm_linux_be = "arm_linux_be.rs"
    thumbv6k = "thumbv6k.rs"
    probe64 = "probe64.rs"
    probe64sgx = "probe64sgx.rs"
    probe32 = "probe32.rs"
    probe32uefi = "probe32uefi.rs"
    chkstk32 = "chkstk32.rs"
    chkstk64 = "chkstk64.rs"
    chkstk_a64 = "chkstk_a64.rs"
    sdr_p32 = "sdr_p32.rs"
    sdr_p16 = "sdr_p16.rs"
    sdr_x86 = "sdr_x86.rs"
    sdr_wasm = "sdr_wasm.rs"
    sdr_rv = "sdr_rv.rs"
    sdr_sparc = "sdr_sparc.rs"
    udiv_avr = "udiv_avr.rs"
    sdiv_avr = "sdiv_avr.rs"
    udiv_sparc = "udiv_sparc.rs"
    sdiv_sparc = "sdiv_sparc.rs"
    mul_uefi = "mul_uefi.rs"
    conv_uefi = "conv_uefi.rs"
    hexagon = "hexagon.rs"
    aarch64_fma = "aarch64_fma.rs"
    aarch64_rounding = "aarch64_rounding.rs"
    aarch64_sqrt = "aarch64_sqrt.rs"
    loongarch_fma = "loongarch_fma.rs"
    loongarch_rounding = "loongarch_rounding.rs"
    loongarch_sqrt = "loongarch_sqrt.rs"
    wasm32_fabs = "wasm32_fabs.rs"
    wasm32_rounding = "wasm32_rounding.rs"
    wasm32_sqrt = "wasm32_sqrt.rs"
}

pub mod support {
    pub use libm::support::*;
    #[path = "/repo/libm/src/math/support/feature_detect.rs"]
    pub mod feature_detect;
}
pub mod math {
    pub use libm::generic;
    pub mod arch {
        pub mod x86 {
            #[path = "/repo/libm/src/math/arch/x86/detect.rs"]
            pub mod detect;
            #[path = "/repo/libm/src/math/arch/x86/fma.rs"]
            pub mod fma;
        }
    }
}
