//! The exported symbols of the runtime library and calls through a table of their addresses.

use crate::rf::*;
use crate::table::*;
use std::sync::atomic::{AtomicPtr, Ordering};

/// All symbols the runtime library exports on the host target.
pub const NAMES: [&str; 226] = [
    "__adddf3",
    "__addhf3",
    "__addsf3",
    "__addtf3",
    "__ashldi3",
    "__ashlsi3",
    "__ashlti3",
    "__ashrdi3",
    "__ashrsi3",
    "__ashrti3",
    "__bswapdi2",
    "__bswapsi2",
    "__bswapti2",
    "__clzdi2",
    "__clzsi2",
    "__clzti2",
    "__ctzdi2",
    "__ctzsi2",
    "__ctzti2",
    "__divdf3",
    "__divdi3",
    "__divmoddi4",
    "__divmodsi4",
    "__divmodti4",
    "__divsf3",
    "__divsi3",
    "__divtf3",
    "__divti3",
    "__eqdf2",
    "__eqhf2",
    "__eqsf2",
    "__eqtf2",
    "__extenddftf2",
    "__extendhfdf2",
    "__extendhfsf2",
    "__extendhftf2",
    "__extendsfdf2",
    "__extendsftf2",
    "__fixdfdi",
    "__fixdfsi",
    "__fixdfti",
    "__fixsfdi",
    "__fixsfsi",
    "__fixsfti",
    "__fixtfdi",
    "__fixtfsi",
    "__fixtfti",
    "__fixunsdfdi",
    "__fixunsdfsi",
    "__fixunsdfti",
    "__fixunssfdi",
    "__fixunssfsi",
    "__fixunssfti",
    "__fixunstfdi",
    "__fixunstfsi",
    "__fixunstfti",
    "__floatdidf",
    "__floatdisf",
    "__floatditf",
    "__floatsidf",
    "__floatsisf",
    "__floatsitf",
    "__floattidf",
    "__floattisf",
    "__floattitf",
    "__floatundidf",
    "__floatundisf",
    "__floatunditf",
    "__floatunsidf",
    "__floatunsisf",
    "__floatunsitf",
    "__floatuntidf",
    "__floatuntisf",
    "__floatuntitf",
    "__gedf2",
    "__gehf2",
    "__gesf2",
    "__getf2",
    "__gnu_f2h_ieee",
    "__gnu_h2f_ieee",
    "__gtdf2",
    "__gthf2",
    "__gtsf2",
    "__gttf2",
    "__ledf2",
    "__lehf2",
    "__lesf2",
    "__letf2",
    "__lshrdi3",
    "__lshrsi3",
    "__lshrti3",
    "__ltdf2",
    "__lthf2",
    "__ltsf2",
    "__lttf2",
    "__moddi3",
    "__modsi3",
    "__modti3",
    "__muldf3",
    "__muldi3",
    "__mulhf3",
    "__mulodi4",
    "__mulosi4",
    "__muloti4",
    "__mulsf3",
    "__multf3",
    "__multi3",
    "__nedf2",
    "__nehf2",
    "__nesf2",
    "__netf2",
    "__powidf2",
    "__powisf2",
    "__powitf2",
    "__rust_i128_add",
    "__rust_i128_addo",
    "__rust_i128_mulo",
    "__rust_i128_sub",
    "__rust_i128_subo",
    "__rust_u128_add",
    "__rust_u128_addo",
    "__rust_u128_mulo",
    "__rust_u128_sub",
    "__rust_u128_subo",
    "__subdf3",
    "__subhf3",
    "__subsf3",
    "__subtf3",
    "__truncdfhf2",
    "__truncdfsf2",
    "__truncsfhf2",
    "__trunctfdf2",
    "__trunctfhf2",
    "__trunctfsf2",
    "__udivdi3",
    "__udivmoddi4",
    "__udivmodsi4",
    "__udivmodti4",
    "__udivsi3",
    "__udivti3",
    "__umoddi3",
    "__umodsi3",
    "__umodti3",
    "__unorddf2",
    "__unordhf2",
    "__unordsf2",
    "__unordtf2",
    "bcmp",
    "cbrt",
    "cbrtf",
    "ceil",
    "ceilf",
    "ceilf128",
    "ceilf16",
    "copysign",
    "copysignf",
    "copysignf128",
    "copysignf16",
    "fabs",
    "fabsf",
    "fabsf128",
    "fabsf16",
    "fdim",
    "fdimf",
    "fdimf128",
    "fdimf16",
    "floor",
    "floorf",
    "floorf128",
    "floorf16",
    "fma",
    "fmaf",
    "fmaf128",
    "fmax",
    "fmaxf",
    "fmaxf128",
    "fmaxf16",
    "fmaximum",
    "fmaximum_num",
    "fmaximum_numf",
    "fmaximum_numf128",
    "fmaximum_numf16",
    "fmaximumf",
    "fmaximumf128",
    "fmaximumf16",
    "fmin",
    "fminf",
    "fminf128",
    "fminf16",
    "fminimum",
    "fminimum_num",
    "fminimum_numf",
    "fminimum_numf128",
    "fminimum_numf16",
    "fminimumf",
    "fminimumf128",
    "fminimumf16",
    "fmod",
    "fmodf",
    "fmodf128",
    "fmodf16",
    "memcmp",
    "memcpy",
    "memmove",
    "memset",
    "rint",
    "rintf",
    "rintf128",
    "rintf16",
    "round",
    "roundeven",
    "roundevenf",
    "roundevenf128",
    "roundevenf16",
    "roundf",
    "roundf128",
    "roundf16",
    "sqrt",
    "sqrtf",
    "sqrtf128",
    "sqrtf16",
    "strlen",
    "trunc",
    "truncf",
    "truncf128",
    "truncf16",
];

static TABLE: AtomicPtr<usize> = AtomicPtr::new(std::ptr::null_mut());

/// Sets the table of addresses, in the order of the names.
///
/// # Safety
/// There has to be a valid address for each name that is called.
pub unsafe fn set(p: *mut usize) {
    TABLE.store(p, Ordering::SeqCst);
}

pub fn at(i: usize) -> usize {
    unsafe { *TABLE.load(Ordering::Relaxed).add(i) }
}

macro_rules! call {
    ($i:literal, $n:ident, ($($a:ident: $t:ty),*), $r:ty) => {
        pub fn $n($($a: $t),*) -> $r {
            unsafe { std::mem::transmute::<usize, extern "C" fn($($t),*) -> $r>(super::at($i))($($a),*) }
        }
    };
}

pub mod sym {
    call!(0, __adddf3, (a: f64, b: f64), f64);
    call!(1, __addhf3, (a: f16, b: f16), f16);
    call!(2, __addsf3, (a: f32, b: f32), f32);
    call!(3, __addtf3, (a: f128, b: f128), f128);
    call!(4, __ashldi3, (a: u64, b: u32), u64);
    call!(5, __ashlsi3, (a: u32, b: u32), u32);
    call!(6, __ashlti3, (a: u128, b: u32), u128);
    call!(7, __ashrdi3, (a: i64, b: u32), i64);
    call!(8, __ashrsi3, (a: i32, b: u32), i32);
    call!(9, __ashrti3, (a: i128, b: u32), i128);
    call!(10, __bswapdi2, (x: u64), u64);
    call!(11, __bswapsi2, (x: u32), u32);
    call!(12, __bswapti2, (x: u128), u128);
    call!(13, __clzdi2, (x: u64), usize);
    call!(14, __clzsi2, (x: u32), usize);
    call!(15, __clzti2, (x: u128), usize);
    call!(16, __ctzdi2, (x: u64), usize);
    call!(17, __ctzsi2, (x: u32), usize);
    call!(18, __ctzti2, (x: u128), usize);
    call!(19, __divdf3, (a: f64, b: f64), f64);
    call!(20, __divdi3, (a: i64, b: i64), i64);
    call!(21, __divmoddi4, (a: i64, b: i64, rem: &mut i64), i64);
    call!(22, __divmodsi4, (a: i32, b: i32, rem: &mut i32), i32);
    call!(23, __divmodti4, (a: i128, b: i128, rem: &mut i128), i128);
    call!(24, __divsf3, (a: f32, b: f32), f32);
    call!(25, __divsi3, (a: i32, b: i32), i32);
    call!(26, __divtf3, (a: f128, b: f128), f128);
    call!(27, __divti3, (a: i128, b: i128), i128);
    call!(28, __eqdf2, (a: f64, b: f64), i32);
    call!(29, __eqhf2, (a: f16, b: f16), i32);
    call!(30, __eqsf2, (a: f32, b: f32), i32);
    call!(31, __eqtf2, (a: f128, b: f128), i32);
    call!(32, __extenddftf2, (a: f64), f128);
    call!(33, __extendhfdf2, (a: f16), f64);
    call!(34, __extendhfsf2, (a: f16), f32);
    call!(35, __extendhftf2, (a: f16), f128);
    call!(36, __extendsfdf2, (x: f32), f64);
    call!(37, __extendsftf2, (a: f32), f128);
    call!(38, __fixdfdi, (f: f64), i64);
    call!(39, __fixdfsi, (f: f64), i32);
    call!(40, __fixdfti, (f: f64), i128);
    call!(41, __fixsfdi, (f: f32), i64);
    call!(42, __fixsfsi, (f: f32), i32);
    call!(43, __fixsfti, (f: f32), i128);
    call!(44, __fixtfdi, (f: f128), i64);
    call!(45, __fixtfsi, (f: f128), i32);
    call!(46, __fixtfti, (f: f128), i128);
    call!(47, __fixunsdfdi, (f: f64), u64);
    call!(48, __fixunsdfsi, (f: f64), u32);
    call!(49, __fixunsdfti, (f: f64), u128);
    call!(50, __fixunssfdi, (f: f32), u64);
    call!(51, __fixunssfsi, (f: f32), u32);
    call!(52, __fixunssfti, (f: f32), u128);
    call!(53, __fixunstfdi, (f: f128), u64);
    call!(54, __fixunstfsi, (f: f128), u32);
    call!(55, __fixunstfti, (f: f128), u128);
    call!(56, __floatdidf, (i: i64), f64);
    call!(57, __floatdisf, (i: i64), f32);
    call!(58, __floatditf, (i: i64), f128);
    call!(59, __floatsidf, (i: i32), f64);
    call!(60, __floatsisf, (i: i32), f32);
    call!(61, __floatsitf, (i: i32), f128);
    call!(62, __floattidf, (i: i128), f64);
    call!(63, __floattisf, (i: i128), f32);
    call!(64, __floattitf, (i: i128), f128);
    call!(65, __floatundidf, (i: u64), f64);
    call!(66, __floatundisf, (i: u64), f32);
    call!(67, __floatunditf, (i: u64), f128);
    call!(68, __floatunsidf, (i: u32), f64);
    call!(69, __floatunsisf, (i: u32), f32);
    call!(70, __floatunsitf, (i: u32), f128);
    call!(71, __floatuntidf, (i: u128), f64);
    call!(72, __floatuntisf, (i: u128), f32);
    call!(73, __floatuntitf, (i: u128), f128);
    call!(74, __gedf2, (a: f64, b: f64), i32);
    call!(75, __gehf2, (a: f16, b: f16), i32);
    call!(76, __gesf2, (a: f32, b: f32), i32);
    call!(77, __getf2, (a: f128, b: f128), i32);
    call!(78, __gnu_f2h_ieee, (a: f32), f16);
    call!(79, __gnu_h2f_ieee, (a: f16), f32);
    call!(80, __gtdf2, (a: f64, b: f64), i32);
    call!(81, __gthf2, (a: f16, b: f16), i32);
    call!(82, __gtsf2, (a: f32, b: f32), i32);
    call!(83, __gttf2, (a: f128, b: f128), i32);
    call!(84, __ledf2, (a: f64, b: f64), i32);
    call!(85, __lehf2, (a: f16, b: f16), i32);
    call!(86, __lesf2, (a: f32, b: f32), i32);
    call!(87, __letf2, (a: f128, b: f128), i32);
    call!(88, __lshrdi3, (a: u64, b: u32), u64);
    call!(89, __lshrsi3, (a: u32, b: u32), u32);
    call!(90, __lshrti3, (a: u128, b: u32), u128);
    call!(91, __ltdf2, (a: f64, b: f64), i32);
    call!(92, __lthf2, (a: f16, b: f16), i32);
    call!(93, __ltsf2, (a: f32, b: f32), i32);
    call!(94, __lttf2, (a: f128, b: f128), i32);
    call!(95, __moddi3, (a: i64, b: i64), i64);
    call!(96, __modsi3, (a: i32, b: i32), i32);
    call!(97, __modti3, (a: i128, b: i128), i128);
    call!(98, __muldf3, (a: f64, b: f64), f64);
    call!(99, __muldi3, (a: u64, b: u64), u64);
    call!(100, __mulhf3, (a: f16, b: f16), f16);
    call!(101, __mulodi4, (a: i64, b: i64, oflow: &mut i32), i64);
    call!(102, __mulosi4, (a: i32, b: i32, oflow: &mut i32), i32);
    call!(103, __muloti4, (a: i128, b: i128, oflow: &mut i32), i128);
    call!(104, __mulsf3, (a: f32, b: f32), f32);
    call!(105, __multf3, (a: f128, b: f128), f128);
    call!(106, __multi3, (a: i128, b: i128), i128);
    call!(107, __nedf2, (a: f64, b: f64), i32);
    call!(108, __nehf2, (a: f16, b: f16), i32);
    call!(109, __nesf2, (a: f32, b: f32), i32);
    call!(110, __netf2, (a: f128, b: f128), i32);
    call!(111, __powidf2, (a: f64, b: i32), f64);
    call!(112, __powisf2, (a: f32, b: i32), f32);
    call!(113, __powitf2, (a: f128, b: i32), f128);
    call!(114, __rust_i128_add, (a: i128, b: i128), i128);
    call!(115, __rust_i128_addo, (a: i128, b: i128, oflow: &mut i32), i128);
    call!(116, __rust_i128_mulo, (a: i128, b: i128, oflow: &mut i32), i128);
    call!(117, __rust_i128_sub, (a: i128, b: i128), i128);
    call!(118, __rust_i128_subo, (a: i128, b: i128, oflow: &mut i32), i128);
    call!(119, __rust_u128_add, (a: u128, b: u128), u128);
    call!(120, __rust_u128_addo, (a: u128, b: u128, oflow: &mut i32), u128);
    call!(121, __rust_u128_mulo, (a: u128, b: u128, oflow: &mut i32), u128);
    call!(122, __rust_u128_sub, (a: u128, b: u128), u128);
    call!(123, __rust_u128_subo, (a: u128, b: u128, oflow: &mut i32), u128);
    call!(124, __subdf3, (a: f64, b: f64), f64);
    call!(125, __subhf3, (a: f16, b: f16), f16);
    call!(126, __subsf3, (a: f32, b: f32), f32);
    call!(127, __subtf3, (a: f128, b: f128), f128);
    call!(128, __truncdfhf2, (a: f64), f16);
    call!(129, __truncdfsf2, (a: f64), f32);
    call!(130, __truncsfhf2, (a: f32), f16);
    call!(131, __trunctfdf2, (a: f128), f64);
    call!(132, __trunctfhf2, (a: f128), f16);
    call!(133, __trunctfsf2, (a: f128), f32);
    call!(134, __udivdi3, (n: u64, d: u64), u64);
    call!(135, __udivmoddi4, (n: u64, d: u64, rem: Option<&mut u64>), u64);
    call!(136, __udivmodsi4, (n: u32, d: u32, rem: Option<&mut u32>), u32);
    call!(137, __udivmodti4, (n: u128, d: u128, rem: Option<&mut u128>), u128);
    call!(138, __udivsi3, (n: u32, d: u32), u32);
    call!(139, __udivti3, (n: u128, d: u128), u128);
    call!(140, __umoddi3, (n: u64, d: u64), u64);
    call!(141, __umodsi3, (n: u32, d: u32), u32);
    call!(142, __umodti3, (n: u128, d: u128), u128);
    call!(143, __unorddf2, (a: f64, b: f64), i32);
    call!(144, __unordhf2, (a: f16, b: f16), i32);
    call!(145, __unordsf2, (a: f32, b: f32), i32);
    call!(146, __unordtf2, (a: f128, b: f128), i32);
    call!(148, cbrt, (x: f64), f64);
    call!(149, cbrtf, (n: f32), f32);
    call!(150, ceil, (x: f64), f64);
    call!(151, ceilf, (x: f32), f32);
    call!(152, ceilf128, (x: f128), f128);
    call!(153, ceilf16, (x: f16), f16);
    call!(154, copysign, (x: f64, y: f64), f64);
    call!(155, copysignf, (x: f32, y: f32), f32);
    call!(156, copysignf128, (x: f128, y: f128), f128);
    call!(157, copysignf16, (x: f16, y: f16), f16);
    call!(158, fabs, (x: f64), f64);
    call!(159, fabsf, (x: f32), f32);
    call!(160, fabsf128, (x: f128), f128);
    call!(161, fabsf16, (x: f16), f16);
    call!(162, fdim, (a: f64, b: f64), f64);
    call!(163, fdimf, (a: f32, b: f32), f32);
    call!(164, fdimf128, (x: f128, y: f128), f128);
    call!(165, fdimf16, (x: f16, y: f16), f16);
    call!(166, floor, (x: f64), f64);
    call!(167, floorf, (x: f32), f32);
    call!(168, floorf128, (x: f128), f128);
    call!(169, floorf16, (x: f16), f16);
    call!(170, fma, (x: f64, y: f64, z: f64), f64);
    call!(171, fmaf, (x: f32, y: f32, z: f32), f32);
    call!(172, fmaf128, (x: f128, y: f128, z: f128), f128);
    call!(173, fmax, (x: f64, y: f64), f64);
    call!(174, fmaxf, (x: f32, y: f32), f32);
    call!(175, fmaxf128, (x: f128, y: f128), f128);
    call!(176, fmaxf16, (x: f16, y: f16), f16);
    call!(177, fmaximum, (x: f64, y: f64), f64);
    call!(178, fmaximum_num, (x: f64, y: f64), f64);
    call!(179, fmaximum_numf, (x: f32, y: f32), f32);
    call!(180, fmaximum_numf128, (x: f128, y: f128), f128);
    call!(181, fmaximum_numf16, (x: f16, y: f16), f16);
    call!(182, fmaximumf, (x: f32, y: f32), f32);
    call!(183, fmaximumf128, (x: f128, y: f128), f128);
    call!(184, fmaximumf16, (x: f16, y: f16), f16);
    call!(185, fmin, (x: f64, y: f64), f64);
    call!(186, fminf, (x: f32, y: f32), f32);
    call!(187, fminf128, (x: f128, y: f128), f128);
    call!(188, fminf16, (x: f16, y: f16), f16);
    call!(189, fminimum, (x: f64, y: f64), f64);
    call!(190, fminimum_num, (x: f64, y: f64), f64);
    call!(191, fminimum_numf, (x: f32, y: f32), f32);
    call!(192, fminimum_numf128, (x: f128, y: f128), f128);
    call!(193, fminimum_numf16, (x: f16, y: f16), f16);
    call!(194, fminimumf, (x: f32, y: f32), f32);
    call!(195, fminimumf128, (x: f128, y: f128), f128);
    call!(196, fminimumf16, (x: f16, y: f16), f16);
    call!(197, fmod, (x: f64, y: f64), f64);
    call!(198, fmodf, (x: f32, y: f32), f32);
    call!(199, fmodf128, (x: f128, y: f128), f128);
    call!(200, fmodf16, (x: f16, y: f16), f16);
    call!(205, rint, (x: f64), f64);
    call!(206, rintf, (x: f32), f32);
    call!(207, rintf128, (x: f128), f128);
    call!(208, rintf16, (x: f16), f16);
    call!(209, round, (x: f64), f64);
    call!(210, roundeven, (x: f64), f64);
    call!(211, roundevenf, (x: f32), f32);
    call!(212, roundevenf128, (x: f128), f128);
    call!(213, roundevenf16, (x: f16), f16);
    call!(214, roundf, (x: f32), f32);
    call!(215, roundf128, (x: f128), f128);
    call!(216, roundf16, (x: f16), f16);
    call!(217, sqrt, (x: f64), f64);
    call!(218, sqrtf, (x: f32), f32);
    call!(219, sqrtf128, (x: f128), f128);
    call!(220, sqrtf16, (x: f16), f16);
    call!(222, trunc, (x: f64), f64);
    call!(223, truncf, (x: f32), f32);
    call!(224, truncf128, (x: f128), f128);
    call!(225, truncf16, (x: f16), f16);
}

/// Every symbol with plain operands.
pub fn entries() -> Vec<Entry> {
    use Kind::*;
    use sym::*;
    let mut v: Vec<Entry> = Vec::new();
    crate::entry!(v, "__adddf3", true, __adddf3, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "__addhf3", true, __addhf3, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "__addsf3", true, __addsf3, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "__addtf3", true, __addtf3, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "__ashldi3", true, __ashldi3, (u64, I(64)), (u32, Below(64)));
    crate::entry!(v, "__ashlsi3", true, __ashlsi3, (u32, I(32)), (u32, Below(32)));
    crate::entry!(v, "__ashlti3", true, __ashlti3, (u128, I(128)), (u32, Below(128)));
    crate::entry!(v, "__ashrdi3", true, __ashrdi3, (i64, I(64)), (u32, Below(64)));
    crate::entry!(v, "__ashrsi3", true, __ashrsi3, (i32, I(32)), (u32, Below(32)));
    crate::entry!(v, "__ashrti3", true, __ashrti3, (i128, I(128)), (u32, Below(128)));
    crate::entry!(v, "__bswapdi2", true, __bswapdi2, (u64, I(64)));
    crate::entry!(v, "__bswapsi2", true, __bswapsi2, (u32, I(32)));
    crate::entry!(v, "__bswapti2", true, __bswapti2, (u128, I(128)));
    crate::entry!(v, "__clzdi2", true, __clzdi2, (u64, I(64)));
    crate::entry!(v, "__clzsi2", true, __clzsi2, (u32, I(32)));
    crate::entry!(v, "__clzti2", true, __clzti2, (u128, I(128)));
    crate::entry!(v, "__ctzdi2", true, __ctzdi2, (u64, I(64)));
    crate::entry!(v, "__ctzsi2", true, __ctzsi2, (u32, I(32)));
    crate::entry!(v, "__ctzti2", true, __ctzti2, (u128, I(128)));
    crate::entry!(v, "__divdf3", true, __divdf3, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "__divdi3", true, __divdi3, (i64, I(64)), (i64, Nonzero(64)));
    crate::entry!(v, "__divmoddi4", true, |a, b| { let mut r = 77; let q = __divmoddi4(a, b, &mut r); (q, r) }, (i64, I(64)), (i64, Nonzero(64)));
    crate::entry!(v, "__divmodsi4", true, |a, b| { let mut r = 77; let q = __divmodsi4(a, b, &mut r); (q, r) }, (i32, I(32)), (i32, Nonzero(32)));
    crate::entry!(v, "__divmodti4", true, |a, b| { let mut r = 77; let q = __divmodti4(a, b, &mut r); (q, r) }, (i128, I(128)), (i128, Nonzero(128)));
    crate::entry!(v, "__divsf3", true, __divsf3, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "__divsi3", true, __divsi3, (i32, I(32)), (i32, Nonzero(32)));
    crate::entry!(v, "__divtf3", true, __divtf3, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "__divti3", true, __divti3, (i128, I(128)), (i128, Nonzero(128)));
    crate::entry!(v, "__eqdf2", true, |a, b| __eqdf2(a, b) as i32, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "__eqhf2", true, |a, b| __eqhf2(a, b) as i32, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "__eqsf2", true, |a, b| __eqsf2(a, b) as i32, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "__eqtf2", true, |a, b| __eqtf2(a, b) as i32, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "__extenddftf2", true, __extenddftf2, (f64, F(F64)));
    crate::entry!(v, "__extendhfdf2", true, __extendhfdf2, (f16, F(F16)));
    crate::entry!(v, "__extendhfsf2", true, __extendhfsf2, (f16, F(F16)));
    crate::entry!(v, "__extendhftf2", true, __extendhftf2, (f16, F(F16)));
    crate::entry!(v, "__extendsfdf2", true, __extendsfdf2, (f32, F(F32)));
    crate::entry!(v, "__extendsftf2", true, __extendsftf2, (f32, F(F32)));
    crate::entry!(v, "__fixdfdi", true, __fixdfdi, (f64, F(F64)));
    crate::entry!(v, "__fixdfsi", true, __fixdfsi, (f64, F(F64)));
    crate::entry!(v, "__fixdfti", true, __fixdfti, (f64, F(F64)));
    crate::entry!(v, "__fixsfdi", true, __fixsfdi, (f32, F(F32)));
    crate::entry!(v, "__fixsfsi", true, __fixsfsi, (f32, F(F32)));
    crate::entry!(v, "__fixsfti", true, __fixsfti, (f32, F(F32)));
    crate::entry!(v, "__fixtfdi", true, __fixtfdi, (f128, F(F128)));
    crate::entry!(v, "__fixtfsi", true, __fixtfsi, (f128, F(F128)));
    crate::entry!(v, "__fixtfti", true, __fixtfti, (f128, F(F128)));
    crate::entry!(v, "__fixunsdfdi", true, __fixunsdfdi, (f64, F(F64)));
    crate::entry!(v, "__fixunsdfsi", true, __fixunsdfsi, (f64, F(F64)));
    crate::entry!(v, "__fixunsdfti", true, __fixunsdfti, (f64, F(F64)));
    crate::entry!(v, "__fixunssfdi", true, __fixunssfdi, (f32, F(F32)));
    crate::entry!(v, "__fixunssfsi", true, __fixunssfsi, (f32, F(F32)));
    crate::entry!(v, "__fixunssfti", true, __fixunssfti, (f32, F(F32)));
    crate::entry!(v, "__fixunstfdi", true, __fixunstfdi, (f128, F(F128)));
    crate::entry!(v, "__fixunstfsi", true, __fixunstfsi, (f128, F(F128)));
    crate::entry!(v, "__fixunstfti", true, __fixunstfti, (f128, F(F128)));
    crate::entry!(v, "__floatdidf", true, __floatdidf, (i64, I(64)));
    crate::entry!(v, "__floatdisf", true, __floatdisf, (i64, I(64)));
    crate::entry!(v, "__floatditf", true, __floatditf, (i64, I(64)));
    crate::entry!(v, "__floatsidf", true, __floatsidf, (i32, I(32)));
    crate::entry!(v, "__floatsisf", true, __floatsisf, (i32, I(32)));
    crate::entry!(v, "__floatsitf", true, __floatsitf, (i32, I(32)));
    crate::entry!(v, "__floattidf", true, __floattidf, (i128, I(128)));
    crate::entry!(v, "__floattisf", true, __floattisf, (i128, I(128)));
    crate::entry!(v, "__floattitf", true, __floattitf, (i128, I(128)));
    crate::entry!(v, "__floatundidf", true, __floatundidf, (u64, I(64)));
    crate::entry!(v, "__floatundisf", true, __floatundisf, (u64, I(64)));
    crate::entry!(v, "__floatunditf", true, __floatunditf, (u64, I(64)));
    crate::entry!(v, "__floatunsidf", true, __floatunsidf, (u32, I(32)));
    crate::entry!(v, "__floatunsisf", true, __floatunsisf, (u32, I(32)));
    crate::entry!(v, "__floatunsitf", true, __floatunsitf, (u32, I(32)));
    crate::entry!(v, "__floatuntidf", true, __floatuntidf, (u128, I(128)));
    crate::entry!(v, "__floatuntisf", true, __floatuntisf, (u128, I(128)));
    crate::entry!(v, "__floatuntitf", true, __floatuntitf, (u128, I(128)));
    crate::entry!(v, "__gedf2", true, |a, b| __gedf2(a, b) as i32, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "__gehf2", true, |a, b| __gehf2(a, b) as i32, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "__gesf2", true, |a, b| __gesf2(a, b) as i32, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "__getf2", true, |a, b| __getf2(a, b) as i32, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "__gnu_f2h_ieee", true, __gnu_f2h_ieee, (f32, F(F32)));
    crate::entry!(v, "__gnu_h2f_ieee", true, __gnu_h2f_ieee, (f16, F(F16)));
    crate::entry!(v, "__gtdf2", true, |a, b| __gtdf2(a, b) as i32, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "__gthf2", true, |a, b| __gthf2(a, b) as i32, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "__gtsf2", true, |a, b| __gtsf2(a, b) as i32, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "__gttf2", true, |a, b| __gttf2(a, b) as i32, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "__ledf2", true, |a, b| __ledf2(a, b) as i32, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "__lehf2", true, |a, b| __lehf2(a, b) as i32, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "__lesf2", true, |a, b| __lesf2(a, b) as i32, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "__letf2", true, |a, b| __letf2(a, b) as i32, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "__lshrdi3", true, __lshrdi3, (u64, I(64)), (u32, Below(64)));
    crate::entry!(v, "__lshrsi3", true, __lshrsi3, (u32, I(32)), (u32, Below(32)));
    crate::entry!(v, "__lshrti3", true, __lshrti3, (u128, I(128)), (u32, Below(128)));
    crate::entry!(v, "__ltdf2", true, |a, b| __ltdf2(a, b) as i32, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "__lthf2", true, |a, b| __lthf2(a, b) as i32, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "__ltsf2", true, |a, b| __ltsf2(a, b) as i32, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "__lttf2", true, |a, b| __lttf2(a, b) as i32, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "__moddi3", true, __moddi3, (i64, I(64)), (i64, Nonzero(64)));
    crate::entry!(v, "__modsi3", true, __modsi3, (i32, I(32)), (i32, Nonzero(32)));
    crate::entry!(v, "__modti3", true, __modti3, (i128, I(128)), (i128, Nonzero(128)));
    crate::entry!(v, "__muldf3", true, __muldf3, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "__muldi3", true, __muldi3, (u64, I(64)), (u64, I(64)));
    crate::entry!(v, "__mulhf3", true, __mulhf3, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "__mulodi4", true, |a, b| { let mut o = 77; let p = __mulodi4(a, b, &mut o); (p, o) }, (i64, I(64)), (i64, I(64)));
    crate::entry!(v, "__mulosi4", true, |a, b| { let mut o = 77; let p = __mulosi4(a, b, &mut o); (p, o) }, (i32, I(32)), (i32, I(32)));
    crate::entry!(v, "__muloti4", true, |a, b| { let mut o = 77; let p = __muloti4(a, b, &mut o); (p, o) }, (i128, I(128)), (i128, I(128)));
    crate::entry!(v, "__mulsf3", true, __mulsf3, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "__multf3", true, __multf3, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "__multi3", true, __multi3, (i128, I(128)), (i128, I(128)));
    crate::entry!(v, "__nedf2", true, |a, b| __nedf2(a, b) as i32, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "__nehf2", true, |a, b| __nehf2(a, b) as i32, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "__nesf2", true, |a, b| __nesf2(a, b) as i32, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "__netf2", true, |a, b| __netf2(a, b) as i32, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "__powidf2", true, __powidf2, (f64, F(F64)), (i32, Scale));
    crate::entry!(v, "__powisf2", true, __powisf2, (f32, F(F32)), (i32, Scale));
    crate::entry!(v, "__powitf2", true, __powitf2, (f128, F(F128)), (i32, Scale));
    crate::entry!(v, "__rust_i128_add", true, __rust_i128_add, (i128, I(128)), (i128, I(128)));
    crate::entry!(v, "__rust_i128_addo", true, |a, b| { let mut o = 77; let p = __rust_i128_addo(a, b, &mut o); (p, o) }, (i128, I(128)), (i128, I(128)));
    crate::entry!(v, "__rust_i128_mulo", true, |a, b| { let mut o = 77; let p = __rust_i128_mulo(a, b, &mut o); (p, o) }, (i128, I(128)), (i128, I(128)));
    crate::entry!(v, "__rust_i128_sub", true, __rust_i128_sub, (i128, I(128)), (i128, I(128)));
    crate::entry!(v, "__rust_i128_subo", true, |a, b| { let mut o = 77; let p = __rust_i128_subo(a, b, &mut o); (p, o) }, (i128, I(128)), (i128, I(128)));
    crate::entry!(v, "__rust_u128_add", true, __rust_u128_add, (u128, I(128)), (u128, I(128)));
    crate::entry!(v, "__rust_u128_addo", true, |a, b| { let mut o = 77; let p = __rust_u128_addo(a, b, &mut o); (p, o) }, (u128, I(128)), (u128, I(128)));
    crate::entry!(v, "__rust_u128_mulo", true, |a, b| { let mut o = 77; let p = __rust_u128_mulo(a, b, &mut o); (p, o) }, (u128, I(128)), (u128, I(128)));
    crate::entry!(v, "__rust_u128_sub", true, __rust_u128_sub, (u128, I(128)), (u128, I(128)));
    crate::entry!(v, "__rust_u128_subo", true, |a, b| { let mut o = 77; let p = __rust_u128_subo(a, b, &mut o); (p, o) }, (u128, I(128)), (u128, I(128)));
    crate::entry!(v, "__subdf3", true, __subdf3, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "__subhf3", true, __subhf3, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "__subsf3", true, __subsf3, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "__subtf3", true, __subtf3, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "__truncdfhf2", true, __truncdfhf2, (f64, F(F64)));
    crate::entry!(v, "__truncdfsf2", true, __truncdfsf2, (f64, F(F64)));
    crate::entry!(v, "__truncsfhf2", true, __truncsfhf2, (f32, F(F32)));
    crate::entry!(v, "__trunctfdf2", true, __trunctfdf2, (f128, F(F128)));
    crate::entry!(v, "__trunctfhf2", true, __trunctfhf2, (f128, F(F128)));
    crate::entry!(v, "__trunctfsf2", true, __trunctfsf2, (f128, F(F128)));
    crate::entry!(v, "__udivdi3", true, __udivdi3, (u64, I(64)), (u64, Nonzero(64)));
    crate::entry!(v, "__udivmoddi4", true, |a, b| { let mut r = 77; let q = __udivmoddi4(a, b, Some(&mut r)); (q, r) }, (u64, I(64)), (u64, Nonzero(64)));
    crate::entry!(v, "__udivmodsi4", true, |a, b| { let mut r = 77; let q = __udivmodsi4(a, b, Some(&mut r)); (q, r) }, (u32, I(32)), (u32, Nonzero(32)));
    crate::entry!(v, "__udivmodti4", true, |a, b| { let mut r = 77; let q = __udivmodti4(a, b, Some(&mut r)); (q, r) }, (u128, I(128)), (u128, Nonzero(128)));
    crate::entry!(v, "__udivsi3", true, __udivsi3, (u32, I(32)), (u32, Nonzero(32)));
    crate::entry!(v, "__udivti3", true, __udivti3, (u128, I(128)), (u128, Nonzero(128)));
    crate::entry!(v, "__umoddi3", true, __umoddi3, (u64, I(64)), (u64, Nonzero(64)));
    crate::entry!(v, "__umodsi3", true, __umodsi3, (u32, I(32)), (u32, Nonzero(32)));
    crate::entry!(v, "__umodti3", true, __umodti3, (u128, I(128)), (u128, Nonzero(128)));
    crate::entry!(v, "__unorddf2", true, |a, b| __unorddf2(a, b) as i32, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "__unordhf2", true, |a, b| __unordhf2(a, b) as i32, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "__unordsf2", true, |a, b| __unordsf2(a, b) as i32, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "__unordtf2", true, |a, b| __unordtf2(a, b) as i32, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "cbrt", true, cbrt, (f64, F(F64)));
    crate::entry!(v, "cbrtf", true, cbrtf, (f32, F(F32)));
    crate::entry!(v, "ceil", true, ceil, (f64, F(F64)));
    crate::entry!(v, "ceilf", true, ceilf, (f32, F(F32)));
    crate::entry!(v, "ceilf128", true, ceilf128, (f128, F(F128)));
    crate::entry!(v, "ceilf16", true, ceilf16, (f16, F(F16)));
    crate::entry!(v, "copysign", true, copysign, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "copysignf", true, copysignf, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "copysignf128", true, copysignf128, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "copysignf16", true, copysignf16, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "fabs", true, fabs, (f64, F(F64)));
    crate::entry!(v, "fabsf", true, fabsf, (f32, F(F32)));
    crate::entry!(v, "fabsf128", true, fabsf128, (f128, F(F128)));
    crate::entry!(v, "fabsf16", true, fabsf16, (f16, F(F16)));
    crate::entry!(v, "fdim", true, fdim, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "fdimf", true, fdimf, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "fdimf128", true, fdimf128, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "fdimf16", true, fdimf16, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "floor", true, floor, (f64, F(F64)));
    crate::entry!(v, "floorf", true, floorf, (f32, F(F32)));
    crate::entry!(v, "floorf128", true, floorf128, (f128, F(F128)));
    crate::entry!(v, "floorf16", true, floorf16, (f16, F(F16)));
    crate::entry!(v, "fma", true, fma, (f64, F(F64)), (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "fmaf", true, fmaf, (f32, F(F32)), (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "fmaf128", true, fmaf128, (f128, F(F128)), (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "fmax", true, fmax, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "fmaxf", true, fmaxf, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "fmaxf128", true, fmaxf128, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "fmaxf16", true, fmaxf16, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "fmaximum", true, fmaximum, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "fmaximum_num", true, fmaximum_num, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "fmaximum_numf", true, fmaximum_numf, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "fmaximum_numf128", true, fmaximum_numf128, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "fmaximum_numf16", true, fmaximum_numf16, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "fmaximumf", true, fmaximumf, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "fmaximumf128", true, fmaximumf128, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "fmaximumf16", true, fmaximumf16, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "fmin", true, fmin, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "fminf", true, fminf, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "fminf128", true, fminf128, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "fminf16", true, fminf16, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "fminimum", true, fminimum, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "fminimum_num", true, fminimum_num, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "fminimum_numf", true, fminimum_numf, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "fminimum_numf128", true, fminimum_numf128, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "fminimum_numf16", true, fminimum_numf16, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "fminimumf", true, fminimumf, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "fminimumf128", true, fminimumf128, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "fminimumf16", true, fminimumf16, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "fmod", true, fmod, (f64, F(F64)), (f64, F(F64)));
    crate::entry!(v, "fmodf", true, fmodf, (f32, F(F32)), (f32, F(F32)));
    crate::entry!(v, "fmodf128", true, fmodf128, (f128, F(F128)), (f128, F(F128)));
    crate::entry!(v, "fmodf16", true, fmodf16, (f16, F(F16)), (f16, F(F16)));
    crate::entry!(v, "rint", true, rint, (f64, F(F64)));
    crate::entry!(v, "rintf", true, rintf, (f32, F(F32)));
    crate::entry!(v, "rintf128", true, rintf128, (f128, F(F128)));
    crate::entry!(v, "rintf16", true, rintf16, (f16, F(F16)));
    crate::entry!(v, "round", true, round, (f64, F(F64)));
    crate::entry!(v, "roundeven", true, roundeven, (f64, F(F64)));
    crate::entry!(v, "roundevenf", true, roundevenf, (f32, F(F32)));
    crate::entry!(v, "roundevenf128", true, roundevenf128, (f128, F(F128)));
    crate::entry!(v, "roundevenf16", true, roundevenf16, (f16, F(F16)));
    crate::entry!(v, "roundf", true, roundf, (f32, F(F32)));
    crate::entry!(v, "roundf128", true, roundf128, (f128, F(F128)));
    crate::entry!(v, "roundf16", true, roundf16, (f16, F(F16)));
    crate::entry!(v, "sqrt", true, sqrt, (f64, F(F64)));
    crate::entry!(v, "sqrtf", true, sqrtf, (f32, F(F32)));
    crate::entry!(v, "sqrtf128", true, sqrtf128, (f128, F(F128)));
    crate::entry!(v, "sqrtf16", true, sqrtf16, (f16, F(F16)));
    crate::entry!(v, "trunc", true, trunc, (f64, F(F64)));
    crate::entry!(v, "truncf", true, truncf, (f32, F(F32)));
    crate::entry!(v, "truncf128", true, truncf128, (f128, F(F128)));
    crate::entry!(v, "truncf16", true, truncf16, (f16, F(F16)));
    v
}
