//! C08: division.
#![feature(f16, f128)]
use vh::alpha::*;
use vh::fl::*;
use vh::rf::*;
use vh::run;

fn main() {
    run("C08", "exploration", |ctx| {
        ctx.rule("binary32: all exponent pairs x significand alphabet pairs x signs, plus all divisor significands (thorough) against dividend alphabets; binary64/128: exponent pairs sweeping every result exponent of the underflow range, the overflow edge and the middle x significand alphabets x signs, plus all 2^k divisor prefixes; pairs whose quotient is a short pattern followed by a long run of equal bits, for every length of the pattern; binary32 also as compiled for 32-bit pointers; nontrivial = finite non-zero result");
        ctx.assume("the host processor's SSE2 arithmetic is the reference for binary32/64 and cross-checks the big-integer reference used for binary128");
        let t = ctx.thorough;
        selfcheck(ctx, "div");
        let b = Bin { name: "__divsf3", f: F32, imp: &|a, b| compiler_builtins::float::div::__divsf3(f32::from_bits(a as u32), f32::from_bits(b as u32)).to_bits() as u128, oracle: &hw::div32 };
        let s = if t { sig_runs(23) } else { sig_small(23) };
        b.grid(ctx, "all exponent pairs", &pairs_all(&F32), &s, &sig_small(23));
        let r = sig_runs(23);
        b.grid(ctx, "result exponents, run significands", &pairs_target(&F32, true, 0), &r, if t { &r } else { &r[..20] });
        let g = sig_top(23, if t { 11 } else { 9 });
        b.grid(ctx, "prefix significands", &[(127, 127), (60, 180), (1, 120)], &g, &g);
        // every divisor significand
        let nums: Vec<u128> = if t { sig_runs(23) } else { sig_small(23) };
        let den: Vec<u128> = if t { (0..1 << 23).collect() } else { (0..1u128 << 23).step_by(5).collect() };
        b.grid(ctx, "divisor significands x dividend alphabet", &[(127, 127)], &den, &nums);

        // quotients extremely close to a rounding boundary, at every length of the result
        let under: Vec<_> = (0..=28).map(|d| (60, 60 + 127 - 2 + d)).collect();
        let ns: Vec<u32> = (1..=25).collect();
        let den = sig_grid(23, if t { 14 } else { 11 });
        b.matched(ctx, "quotients beside short patterns", &under, &hard_quotients(24, &den, &ns), false);
        let all: Vec<u128> = (0..1u128 << 22).step_by(if t { 1 } else { 3 }).map(|x| x << 1 | 1).collect();
        b.matched(ctx, "quotients beside rounding boundaries", &[(127, 127)], &hard_quotients(24, &all, &[24, 25]), false);

        // binary32 as divided where pointers have 32 bits
        #[cfg(feature = "bare")]
        {
            let b = Bin { name: "__divsf3 (32-bit pointers)", f: F32, imp: &|a, b| cb_bare::div32::__divsf3(f32::from_bits(a as u32), f32::from_bits(b as u32)).to_bits() as u128, oracle: &hw::div32 };
            b.grid(ctx, "all exponent pairs", &pairs_all(&F32), &sig_small(23), &sig_small(23)[..if t { 20 } else { 6 }]);
            b.grid(ctx, "result exponents, run significands", &pairs_target(&F32, true, 0), &r, if t { &r } else { &r[..8] });
            b.grid(ctx, "prefix significands", &[(127, 127), (60, 180), (1, 120)], &g, &g);
            b.grid(ctx, "divisor significands x dividend alphabet", &[(127, 127)], &(0..1u128 << 23).step_by(if t { 1 } else { 11 }).collect::<Vec<_>>(), &nums);
            b.matched(ctx, "quotients beside short patterns", &under, &hard_quotients(24, &den, &ns), false);
            b.matched(ctx, "quotients beside rounding boundaries", &[(127, 127)], &hard_quotients(24, &all, &[24, 25]), false);
        }

        let b = Bin { name: "__divdf3", f: F64, imp: &|a, b| compiler_builtins::float::div::__divdf3(f64::from_bits(a as u64), f64::from_bits(b as u64)).to_bits() as u128, oracle: &hw::div64 };
        b.grid(ctx, "class edges x result exponents", &pairs_target(&F64, true, if t { 3 } else { 1 }), &sig_small(52), &sig_small(52));
        let under: Vec<_> = (0..=58).map(|d| (500, 500 + 1023 - 4 + d)).collect();
        let r = sig_runs(52);
        b.grid(ctx, "underflow range, run significands", &under, &r, if t { &r } else { &r[..40] });
        let g = sig_top(52, if t { 10 } else { 8 });
        b.grid(ctx, "prefix significands", &[(1023, 1023), (500, 1525)], &g, &g);
        let den = sig_grid(52, if t { 20 } else { 17 });
        b.grid(ctx, "long divisor prefixes x dividend alphabet", &[(1023, 1024)], &den, &sig_small(52));

        let under: Vec<_> = (0..=57).map(|d| (500, 500 + 1023 - 2 + d)).collect();
        let ns: Vec<u32> = (1..=54).collect();
        let den = sig_grid(52, if t { 11 } else { 8 });
        b.matched(ctx, "quotients beside short patterns", &under, &hard_quotients(53, &den, &ns), false);
        b.matched(ctx, "quotients beside rounding boundaries", &[(1023, 1023)], &hard_quotients(53, &sig_grid(52, if t { 20 } else { 17 }), &[53, 54]), false);

        let b = Bin { name: "__divtf3", f: F128, imp: &|a, b| compiler_builtins::float::div::__divtf3(f128::from_bits(a), f128::from_bits(b)).to_bits(), oracle: &|a, b| F128.div(a, b).0 };
        b.grid(ctx, "class edges x result exponents", &pairs_target(&F128, true, if t { 2 } else { 0 }), &sig_small(112), &sig_small(112)[..if t { 20 } else { 8 }]);
        let under: Vec<_> = (0..=120).map(|d| (8000, 8000 + 16383 - 4 + d)).collect();
        let r = sig_runs(112);
        b.grid(ctx, "underflow range, run significands", &under, &r, if t { &r } else { &r[..6] });
        let g = sig_top(112, if t { 8 } else { 6 });
        b.grid(ctx, "prefix significands", &[(16383, 16383), (8000, 24385)], &g, &g);
        let den = sig_grid(112, if t { 17 } else { 14 });
        b.grid(ctx, "long divisor prefixes x dividend alphabet", &[(16383, 16384)], &den, &sig_small(112)[..if t { 20 } else { 6 }]);
        let under: Vec<_> = (0..=117).map(|d| (8000, 8000 + 16383 - 2 + d)).collect();
        let ns: Vec<u32> = (1..=114).collect();
        let den = sig_grid(112, if t { 6 } else { 3 });
        b.matched(ctx, "quotients beside short patterns", &under, &hard_quotients(113, &den, &ns), false);
        b.matched(ctx, "quotients beside rounding boundaries", &[(16383, 16383)], &hard_quotients(113, &sig_grid(112, if t { 16 } else { 13 }), &[113, 114]), false);
        #[cfg(feature = "inc")]
        {
            let go = |name, f: Fmt, imp: &(dyn Fn(u128, u128) -> u128 + Sync), oracle: &(dyn Fn(u128, u128) -> u128 + Sync)| {
                let v = values(&f, &exps_edge(&f, 1), &sig_small(f.sb));
                Bin { name, f, imp, oracle }.pairs(ctx, "", &v, &v);
            };
            go("__aeabi_fdiv", F32, &|a, b| armish::float::div::__aeabi_fdiv(f32::from_bits(a as u32), f32::from_bits(b as u32)).to_bits() as u128, &hw::div32);
            go("__aeabi_ddiv", F64, &|a, b| armish::float::div::__aeabi_ddiv(f64::from_bits(a as u64), f64::from_bits(b as u64)).to_bits() as u128, &hw::div64);
            go("__divkf3", F128, &|a, b| armish::float::div::__divkf3(f128::from_bits(a), f128::from_bits(b)).to_bits(), &|a, b| F128.div(a, b).0);
        }
    })
}
