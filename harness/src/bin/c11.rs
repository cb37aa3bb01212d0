//! C11: float to integer conversion.
#![feature(f16, f128)]
use vh::alpha::*;
use vh::fl::*;
use vh::rf::*;
use vh::run;

/// Truncated and saturated value as a two's complement pattern of `bits` bits.
fn reference(f: &Fmt, x: u128, bits: u32, signed: bool) -> u128 {
    let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let (max, min) = if signed { (mask >> 1, (mask >> 1) + 1) } else { (mask, 0) };
    if f.is_nan(x) {
        return 0;
    }
    let neg = f.sign(x);
    let lim = if neg { min } else { max };
    if f.is_inf(x) {
        return lim;
    }
    let e = f.exp_field(x) as i32 - f.bias();
    if e < 0 {
        return 0;
    }
    if e >= bits as i32 {
        return lim;
    }
    let m = x & f.sigmask() | 1 << f.sb;
    let sh = e - f.sb as i32;
    let mag = if sh >= 0 { m << sh } else { m >> -sh };
    if mag > lim {
        return lim;
    }
    if neg { mag.wrapping_neg() & mask } else { mag }
}

macro_rules! one {
    ($ctx:ident, $cb:ident, $n:ident, $t:ident, $tb:ident, $f:ident, $i:ident, $iu:ident, $signed:expr) => {{
        let case = |x: u128| {
            let r = reference(&$f, x, $i::BITS, $signed);
            let g = $cb::float::conv::$n($t::from_bits(x as $tb)) as $iu as u128;
            if g == r { Ok(r > 1 && !$f.is_nan(x)) } else { Err((format!("{r:#x}"), format!("{g:#x}"))) }
        };
        let u = Un { name: concat!(stringify!($cb), "::", stringify!($n)), f: $f, case: &case };
        if stringify!($cb) == "compiler_builtins" {
            if $ctx.thorough && $f.sb == 23 {
                u.all($ctx, 1);
            } else {
                u.grid($ctx, "all exponents x runs", &exps_all(&$f), &if $f.sb == 112 && !$ctx.thorough { sig_small($f.sb) } else { sig_runs($f.sb) });
                let e: Vec<u32> = ($f.bias() as u32 - 3..$f.bias() as u32 + 131).filter(|&e| e < $f.emax()).collect();
                u.grid($ctx, "integer-range exponents x all runs", &e, &sig_allruns($f.sb));
                u.grid($ctx, "integer-range exponents x prefixes", &e, &sig_top($f.sb, if $ctx.thorough { 13 } else { 9 }));
                // exactly at and next to every integer limit
                let near: Vec<u32> = [31, 32, 63, 64, 127, 128, 0].iter().flat_map(|k| [$f.bias() as u32 + k - 1, $f.bias() as u32 + k]).filter(|&e| e < $f.emax()).collect();
                u.grid($ctx, "limit exponents x low weight", &near, &sig_weight($f.sb, if $ctx.thorough || $f.sb < 100 { 3 } else { 2 }));
            }
        } else {
            u.grid($ctx, "", &exps_all(&$f), &sig_small($f.sb));
        }
    }};
}

fn main() {
    run("C11", "exploration", |ctx| {
        ctx.rule("all exponents x run significands x signs, integer-range exponents x all runs and all top-bit prefixes; thorough: all 2^32 binary32 inputs; nontrivial = result other than 0 and 1, input not NaN");
        one!(ctx, compiler_builtins, __fixunssfsi, f32, u32, F32, u32, u32, false);
        one!(ctx, compiler_builtins, __fixsfsi, f32, u32, F32, i32, u32, true);
        one!(ctx, compiler_builtins, __fixunssfdi, f32, u32, F32, u64, u64, false);
        one!(ctx, compiler_builtins, __fixsfdi, f32, u32, F32, i64, u64, true);
        one!(ctx, compiler_builtins, __fixunssfti, f32, u32, F32, u128, u128, false);
        one!(ctx, compiler_builtins, __fixsfti, f32, u32, F32, i128, u128, true);
        one!(ctx, compiler_builtins, __fixunsdfsi, f64, u64, F64, u32, u32, false);
        one!(ctx, compiler_builtins, __fixdfsi, f64, u64, F64, i32, u32, true);
        one!(ctx, compiler_builtins, __fixunsdfdi, f64, u64, F64, u64, u64, false);
        one!(ctx, compiler_builtins, __fixdfdi, f64, u64, F64, i64, u64, true);
        one!(ctx, compiler_builtins, __fixunsdfti, f64, u64, F64, u128, u128, false);
        one!(ctx, compiler_builtins, __fixdfti, f64, u64, F64, i128, u128, true);
        one!(ctx, compiler_builtins, __fixunstfsi, f128, u128, F128, u32, u32, false);
        one!(ctx, compiler_builtins, __fixtfsi, f128, u128, F128, i32, u32, true);
        one!(ctx, compiler_builtins, __fixunstfdi, f128, u128, F128, u64, u64, false);
        one!(ctx, compiler_builtins, __fixtfdi, f128, u128, F128, i64, u64, true);
        one!(ctx, compiler_builtins, __fixunstfti, f128, u128, F128, u128, u128, false);
        one!(ctx, compiler_builtins, __fixtfti, f128, u128, F128, i128, u128, true);
        #[cfg(feature = "inc")]
        {
            one!(ctx, armish, __aeabi_f2uiz, f32, u32, F32, u32, u32, false);
            one!(ctx, armish, __aeabi_f2iz, f32, u32, F32, i32, u32, true);
            one!(ctx, armish, __aeabi_f2ulz, f32, u32, F32, u64, u64, false);
            one!(ctx, armish, __aeabi_f2lz, f32, u32, F32, i64, u64, true);
            one!(ctx, armish, __aeabi_d2uiz, f64, u64, F64, u32, u32, false);
            one!(ctx, armish, __aeabi_d2iz, f64, u64, F64, i32, u32, true);
            one!(ctx, armish, __aeabi_d2ulz, f64, u64, F64, u64, u64, false);
            one!(ctx, armish, __aeabi_d2lz, f64, u64, F64, i64, u64, true);
            one!(ctx, armish, __fixunskfsi, f128, u128, F128, u32, u32, false);
            one!(ctx, armish, __fixkfsi, f128, u128, F128, i32, u32, true);
            one!(ctx, armish, __fixunskfdi, f128, u128, F128, u64, u64, false);
            one!(ctx, armish, __fixkfdi, f128, u128, F128, i64, u64, true);
            one!(ctx, armish, __fixunskfti, f128, u128, F128, u128, u128, false);
            one!(ctx, armish, __fixkfti, f128, u128, F128, i128, u128, true);
        }
    })
}
