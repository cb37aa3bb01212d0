//! C12: widening and narrowing between formats.
#![feature(f16, f128)]
use vh::alpha::*;
use vh::fl::*;
use vh::rf::*;
use vh::run;

macro_rules! one {
    ($ctx:ident, $cb:ident, $m:ident, $n:ident, $t:ident, $tb:ident, $f:ident, $g:ident) => {{
        let case = |x: u128| {
            let (r, _) = $f.convert(&$g, x);
            let got = $cb::float::$m::$n($t::from_bits(x as $tb)).to_bits() as u128;
            // Widening a NaN keeps its sign and its payload at the top; narrowing gives a quiet NaN.
            let ok = if $f.is_nan(x) {
                let keep = $f.sb.min($g.sb);
                let src = (x & $f.sigmask()) >> ($f.sb - keep);
                let dst = (got & $g.sigmask()) >> ($g.sb - keep);
                let q = 1u128 << (keep - 1);
                $g.is_nan(got) && if $f.sb < $g.sb { $g.sign(got) == $f.sign(x) && src | q == dst | q } else { dst & q != 0 }
            } else {
                got == r
            };
            if ok { Ok(rounded(&$g, r)) } else { Err((hex(&$g, r), hex(&$g, got))) }
        };
        let u = Un { name: concat!(stringify!($cb), "::", stringify!($n)), f: $f, case: &case };
        let t = $ctx.thorough;
        if $f.sb == 10 || $f.sb == 23 && t && stringify!($cb) == "compiler_builtins" {
            u.all($ctx, 1);
        } else if stringify!($cb) != "compiler_builtins" {
            u.grid($ctx, "", &exps_all(&$f), &sig_small($f.sb));
        } else {
            u.grid($ctx, "all exponents x runs", &exps_all(&$f), &if $f.sb == 112 && !t { sig_small($f.sb) } else { sig_runs($f.sb) });
            // Exponents covering the destination's whole range with margins, where rounding happens.
            let lo = $f.bias() - $g.bias() - $g.sb as i32 - 4;
            let hi = $f.bias() - $g.bias() + 4;
            let mut e: Vec<u32> = (lo..=hi).chain($f.bias() - 2..$f.bias() + 2).chain($f.bias() + $g.bias() - 2..=$f.bias() + $g.bias() + 4).filter(|&x| x >= 0 && x <= $f.emax() as i32).map(|x| x as u32).collect();
            e.extend(exps_edge(&$f, 1));
            e.sort();
            e.dedup();
            u.grid($ctx, "rounding exponents x all runs", &e, &sig_allruns($f.sb));
            u.grid($ctx, "rounding exponents x low weight", &e, &sig_weight($f.sb, if $f.sb > 60 { 2 } else { 3 }));
            // Every combination of the kept top bits with sticky patterns, cut just around the destination's last bit.
            let k = $g.sb.min($f.sb);
            let mut cut = vec![];
            let r = $f.sb - k;
            if r > 1 {
                for top in sig_runs(k) {
                    for tail in [0, 1, (1u128 << (r - 1)) - 1, 1 << (r - 1), (1 << (r - 1)) + 1, (1 << r) - 1] {
                        cut.push(top << r | tail);
                    }
                }
                for sh in 1..=k + 1 {
                    // subnormal results: the cut moves up
                    let r = r + sh;
                    if r > $f.sb { continue; }
                    for top in sig_small($f.sb) {
                        for tail in [0, 1, (1u128 << (r - 1)) - 1, 1 << (r - 1), (1 << (r - 1)) + 1, (1 << r) - 1] {
                            cut.push((top >> r << r | tail) & $f.sigmask());
                        }
                    }
                }
                let cut = dedup(cut);
                u.grid($ctx, "rounding exponents x cut patterns", &e, &cut);
            }
            u.grid($ctx, "rounding exponents x prefixes", &e, &sig_grid($f.sb, if t { 16 } else { 12 }));
        }
    }};
}

fn main() {
    run("C12", "exploration", |ctx| {
        ctx.rule("binary16: all patterns; others: all exponents x run significands, every exponent of the destination's subnormal/normal/overflow edges x all runs, cut patterns at every possible rounding position and prefixes; thorough: all 2^32 binary32 patterns; nontrivial = finite non-zero result");
        one!(ctx, compiler_builtins, extend, __extendhfsf2, f16, u16, F16, F32);
        one!(ctx, compiler_builtins, extend, __gnu_h2f_ieee, f16, u16, F16, F32);
        one!(ctx, compiler_builtins, extend, __extendhfdf2, f16, u16, F16, F64);
        one!(ctx, compiler_builtins, extend, __extendhftf2, f16, u16, F16, F128);
        one!(ctx, compiler_builtins, extend, __extendsfdf2, f32, u32, F32, F64);
        one!(ctx, compiler_builtins, extend, __extendsftf2, f32, u32, F32, F128);
        one!(ctx, compiler_builtins, extend, __extenddftf2, f64, u64, F64, F128);
        one!(ctx, compiler_builtins, trunc, __truncsfhf2, f32, u32, F32, F16);
        one!(ctx, compiler_builtins, trunc, __gnu_f2h_ieee, f32, u32, F32, F16);
        one!(ctx, compiler_builtins, trunc, __truncdfhf2, f64, u64, F64, F16);
        one!(ctx, compiler_builtins, trunc, __truncdfsf2, f64, u64, F64, F32);
        one!(ctx, compiler_builtins, trunc, __trunctfhf2, f128, u128, F128, F16);
        one!(ctx, compiler_builtins, trunc, __trunctfsf2, f128, u128, F128, F32);
        one!(ctx, compiler_builtins, trunc, __trunctfdf2, f128, u128, F128, F64);
        #[cfg(feature = "inc")]
        {
            one!(ctx, armish, extend, __aeabi_h2f, f16, u16, F16, F32);
            one!(ctx, armish, extend, __aeabi_f2d, f32, u32, F32, F64);
            one!(ctx, armish, extend, __extendhfkf2, f16, u16, F16, F128);
            one!(ctx, armish, extend, __extendsfkf2, f32, u32, F32, F128);
            one!(ctx, armish, extend, __extenddfkf2, f64, u64, F64, F128);
            one!(ctx, armish, trunc, __aeabi_f2h, f32, u32, F32, F16);
            one!(ctx, armish, trunc, __aeabi_d2h, f64, u64, F64, F16);
            one!(ctx, armish, trunc, __aeabi_d2f, f64, u64, F64, F32);
            one!(ctx, armish, trunc, __trunckfhf2, f128, u128, F128, F16);
            one!(ctx, armish, trunc, __trunckfsf2, f128, u128, F128, F32);
            one!(ctx, armish, trunc, __trunckfdf2, f128, u128, F128, F64);
        }
    })
}
