//! C10: integer to float conversion.
#![feature(f16, f128)]
use vh::alpha::*;
use vh::fl::*;
use vh::rf::*;
use vh::{Ctx, Worker, run};

/// All integers of `bits` bits made of a leading one, a significand of the target and a tail
/// below it, at every position.
fn ints(f: &Fmt, bits: u32, dense: bool) -> Vec<u128> {
    let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let mut v = ints_allruns(bits);
    v.extend(ints_runs(bits));
    if bits > 32 {
        v.extend(ints_limbs(bits, bits / 4, &limb_edges(bits / 4)));
    }
    let sigs = if dense { sig_runs(f.sb) } else { sig_small(f.sb) };
    for m in 0..bits {
        if m <= f.sb {
            for &s in &sigs {
                v.push(1 << m | s >> (f.sb - m));
            }
            continue;
        }
        let tail = m - f.sb;
        let h = 1u128 << (tail - 1);
        let full = (h << 1).wrapping_sub(1);
        let mut tails = vec![0, 1, h - 1, h, h | 1, full, full - 1, h >> 1, h | h >> 1, h - (h >> 1), h.wrapping_sub(2) & full];
        for i in 0..tail {
            tails.push(1 << i);
            tails.push(h | 1 << i);
        }
        for &s in &sigs {
            for &t in &tails {
                v.push((1u128 << m | s << tail | t & full) & mask);
            }
        }
    }
    let neg: Vec<u128> = v.iter().map(|x| x.wrapping_neg() & mask).collect();
    v.extend(neg);
    dedup(v)
}

fn conv(ctx: &Ctx, name: &'static str, f: Fmt, bits: u32, signed: bool, imp: &(dyn Fn(u128) -> u128 + Sync), v: &[u128]) {
    const C: usize = 4096;
    ctx.par(name, v.len().div_ceil(C) as u64, |i, w: &mut Worker| {
        w.func(name);
        for &x in &v[i as usize * C..v.len().min((i as usize + 1) * C)] {
            w.args([x as u64, (x >> 64) as u64]);
            let neg = signed && x >> (bits - 1) & 1 == 1;
            let mag = if neg { sext(x, bits).unsigned_abs() } else { x };
            let r = if mag == 0 { 0 } else { f.round128(neg, mag, 0) };
            let g = imp(x);
            if g != r {
                w.fail(name, &format!("{x:#x}"), &hex(&f, r), &hex(&f, g));
            }
            w.done(mag >> 1 != 0);
        }
        w.sample(|| format!("{name}({:#x})", v[i as usize * C]));
    });
}

macro_rules! c {
    ($ctx:ident, $cb:ident, $n:ident, $i:ident, $u:ident, $t:ident, $f:expr, $signed:expr, $v:expr) => {
        conv($ctx, concat!(stringify!($cb), "::", stringify!($n)), $f, $i::BITS, $signed, &|x| $cb::float::conv::$n(x as $i).to_bits() as u128, $v)
    };
}

/// Entry points of the UEFI form, which take 128-bit integers as two halves.
#[cfg(feature = "arch")]
mod uefi {
    pub mod float {
        pub mod conv {
            use archasm::conv_uefi as c;
            pub fn __floatuntisf(i: u128) -> f32 {
                c::__floatuntisf(i as u64, (i >> 64) as u64)
            }
            pub fn __floattisf(i: i128) -> f32 {
                c::__floattisf(i as u64, (i >> 64) as u64)
            }
            pub fn __floatuntidf(i: u128) -> f64 {
                c::__floatuntidf(i as u64, (i >> 64) as u64)
            }
            pub fn __floattidf(i: i128) -> f64 {
                c::__floattidf(i as u64, (i >> 64) as u64)
            }
        }
    }
}

fn main() {
    run("C10", "exploration", |ctx| {
        ctx.rule("for every position of the leading one: significand alphabet x every single tail bit / half-way / sticky pattern, all runs of ones, limb edges, negations; thorough adds all 2^32 32-bit integers; nontrivial = magnitude above 1");
        let t = ctx.thorough;
        let i = |f: &Fmt, b| ints(f, b, t || f.sb < 100);
        let (a, b, d) = (i(&F32, 32), i(&F32, 64), i(&F32, 128));
        c!(ctx, compiler_builtins, __floatunsisf, u32, u32, f32, F32, false, &a);
        c!(ctx, compiler_builtins, __floatsisf, i32, u32, f32, F32, true, &a);
        c!(ctx, compiler_builtins, __floatundisf, u64, u64, f32, F32, false, &b);
        c!(ctx, compiler_builtins, __floatdisf, i64, u64, f32, F32, true, &b);
        c!(ctx, compiler_builtins, __floatuntisf, u128, u128, f32, F32, false, &d);
        c!(ctx, compiler_builtins, __floattisf, i128, u128, f32, F32, true, &d);
        #[cfg(feature = "inc")]
        {
            c!(ctx, armish, __aeabi_ui2f, u32, u32, f32, F32, false, &a);
            c!(ctx, armish, __aeabi_i2f, i32, u32, f32, F32, true, &a);
            c!(ctx, armish, __aeabi_ul2f, u64, u64, f32, F32, false, &b);
            c!(ctx, armish, __aeabi_l2f, i64, u64, f32, F32, true, &b);
        }
        #[cfg(feature = "arch")]
        {
            c!(ctx, uefi, __floatuntisf, u128, u128, f32, F32, false, &d);
            c!(ctx, uefi, __floattisf, i128, u128, f32, F32, true, &d);
        }
        let (a, b, d) = (i(&F64, 32), i(&F64, 64), i(&F64, 128));
        c!(ctx, compiler_builtins, __floatunsidf, u32, u32, f64, F64, false, &a);
        c!(ctx, compiler_builtins, __floatsidf, i32, u32, f64, F64, true, &a);
        c!(ctx, compiler_builtins, __floatundidf, u64, u64, f64, F64, false, &b);
        c!(ctx, compiler_builtins, __floatdidf, i64, u64, f64, F64, true, &b);
        c!(ctx, compiler_builtins, __floatuntidf, u128, u128, f64, F64, false, &d);
        c!(ctx, compiler_builtins, __floattidf, i128, u128, f64, F64, true, &d);
        #[cfg(feature = "inc")]
        {
            c!(ctx, armish, __aeabi_ui2d, u32, u32, f64, F64, false, &a);
            c!(ctx, armish, __aeabi_i2d, i32, u32, f64, F64, true, &a);
            c!(ctx, armish, __aeabi_ul2d, u64, u64, f64, F64, false, &b);
            c!(ctx, armish, __aeabi_l2d, i64, u64, f64, F64, true, &b);
        }
        #[cfg(feature = "arch")]
        {
            c!(ctx, uefi, __floatuntidf, u128, u128, f64, F64, false, &d);
            c!(ctx, uefi, __floattidf, i128, u128, f64, F64, true, &d);
        }
        let (a, b, d) = (i(&F128, 32), i(&F128, 64), i(&F128, 128));
        c!(ctx, compiler_builtins, __floatunsitf, u32, u32, f128, F128, false, &a);
        c!(ctx, compiler_builtins, __floatsitf, i32, u32, f128, F128, true, &a);
        c!(ctx, compiler_builtins, __floatunditf, u64, u64, f128, F128, false, &b);
        c!(ctx, compiler_builtins, __floatditf, i64, u64, f128, F128, true, &b);
        c!(ctx, compiler_builtins, __floatuntitf, u128, u128, f128, F128, false, &d);
        c!(ctx, compiler_builtins, __floattitf, i128, u128, f128, F128, true, &d);
        #[cfg(feature = "inc")]
        {
            c!(ctx, armish, __floatunsikf, u32, u32, f128, F128, false, &a);
            c!(ctx, armish, __floatsikf, i32, u32, f128, F128, true, &a);
            c!(ctx, armish, __floatundikf, u64, u64, f128, F128, false, &b);
            c!(ctx, armish, __floatdikf, i64, u64, f128, F128, true, &b);
            c!(ctx, armish, __floatuntikf, u128, u128, f128, F128, false, &d);
            c!(ctx, armish, __floattikf, i128, u128, f128, F128, true, &d);
        }
        // The processor's conversions as the reference.
        ctx.par("32-bit integers, processor reference", 1 << 16, |c, w| {
            use compiler_builtins::float::conv::*;
            w.func("__float[un]si[sd]f");
            for l in (0..1u32 << 16).step_by(if t { 1 } else { 13 }) {
                let x = (c as u32) << 16 | l;
                w.args([x as u64]);
                let g = (__floatunsisf(x).to_bits(), __floatsisf(x as i32).to_bits(), __floatunsidf(x).to_bits(), __floatsidf(x as i32).to_bits());
                let r = ((x as f32).to_bits(), (x as i32 as f32).to_bits(), (x as f64).to_bits(), (x as i32 as f64).to_bits());
                if g != r {
                    w.fail("__float[un]si[sd]f", &format!("{x:#x}"), &format!("{r:x?}"), &format!("{g:x?}"));
                }
                w.done(x > 1);
            }
        });
        ctx.par("64-bit integers with 32-bit windows, processor reference", 33, |sh, w| {
            use compiler_builtins::float::conv::*;
            w.func("__float[un]di[sd]f");
            for l in (0..1u64 << 32).step_by(if t { 61 } else { 2477 }) {
                for x in [l << sh, (l << sh).wrapping_neg(), l << sh | 1 << 62] {
                    w.args([x]);
                    let g = (__floatundisf(x).to_bits(), __floatdisf(x as i64).to_bits(), __floatundidf(x).to_bits(), __floatdidf(x as i64).to_bits());
                    let r = ((x as f32).to_bits(), (x as i64 as f32).to_bits(), (x as f64).to_bits(), (x as i64 as f64).to_bits());
                    if g != r {
                        w.fail("__float[un]di[sd]f", &format!("{x:#x}"), &format!("{r:x?}"), &format!("{g:x?}"));
                    }
                    w.done(x > 1);
                }
            }
        });
    })
}
