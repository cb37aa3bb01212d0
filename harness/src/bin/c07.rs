//! C07: multiplication.
#![feature(f16, f128)]
use vh::alpha::*;
use vh::fl::*;
use vh::rf::*;
use vh::run;

fn main() {
    run("C07", "exploration", |ctx| {
        ctx.rule("binary16: all first operands x all (thorough) or alphabet (quick) second operands; binary32: all exponent pairs x significand alphabet pairs x signs; binary64/128: exponent pairs sweeping every result exponent of the underflow range, the overflow edge and the middle x significand alphabets x signs; pairs whose exact product is a short pattern, a long run of equal bits and a last few bits, at every result exponent of the underflow range; nontrivial = finite non-zero result");
        ctx.assume("the host processor's SSE2 arithmetic is the reference for binary32/64 and cross-checks the big-integer reference used for binary128");
        let t = ctx.thorough;
        selfcheck(ctx, "mul");
        let tab = table16();
        let second = second16(t);
        ctx.par("__mulhf3", 1 << 16, |a, w| {
            let fa = f16::from_bits(a as u16);
            let xa = tab[a as usize];
            for &b in &second {
                w.args([a, b as u64]);
                let g = compiler_builtins::float::mul::__mulhf3(fa, f16::from_bits(b as u16)).to_bits();
                let r = enc16(xa * tab[b]);
                let nan = r & 0x7fff > 0x7c00;
                if !(g == r || (nan && g & 0x7fff > 0x7c00)) {
                    w.fail("__mulhf3", &format!("{a:#06x}, {b:#06x}"), &format!("{r:#06x}"), &format!("{g:#06x}"));
                }
                w.done(!nan && r & 0x7fff != 0 && r & 0x7fff != 0x7c00);
            }
            w.sample(|| format!("__mulhf3: {a:#x} with {} second operands", second.len()));
        });
        let b = Bin { name: "__mulsf3", f: F32, imp: &|a, b| compiler_builtins::float::mul::__mulsf3(f32::from_bits(a as u32), f32::from_bits(b as u32)).to_bits() as u128, oracle: &hw::mul32 };
        let s = if t { sig_runs(23) } else { sig_small(23) };
        b.grid(ctx, "all exponent pairs", &pairs_all(&F32), &s, &sig_small(23));
        let few: Vec<_> = pairs_target(&F32, false, 0);
        let r = sig_runs(23);
        b.grid(ctx, "result exponents, run significands", &few, &r, if t { &r } else { &r[..20] });
        let g = sig_top(23, if t { 11 } else { 9 });
        b.grid(ctx, "prefix significands", &[(127, 127), (60, 55), (1, 120)], &g, &g);

        let norm = [(127, 127), (127, 1), (254, 126)];
        let under: Vec<_> = (0..=28).map(|d| (60, 127 - 60 + 2 - d)).chain(norm).collect();
        b.matched(ctx, "products beside short patterns", &under, &hard_products(24, 23, if t { 3 } else { 6 }), true);

        let b = Bin { name: "__muldf3", f: F64, imp: &|a, b| compiler_builtins::float::mul::__muldf3(f64::from_bits(a as u64), f64::from_bits(b as u64)).to_bits() as u128, oracle: &hw::mul64 };
        b.grid(ctx, "class edges x result exponents", &pairs_target(&F64, false, if t { 3 } else { 1 }), &sig_small(52), &sig_small(52));
        let under: Vec<_> = (0..=58).map(|d| (500, 1023 - 500 + 4 - d)).filter(|p| p.1 > 0).collect();
        let r = sig_runs(52);
        b.grid(ctx, "underflow range, run significands", &under, &r, if t { &r } else { &r[..40] });
        let g = sig_top(52, if t { 10 } else { 8 });
        b.grid(ctx, "prefix significands", &[(1023, 1023), (500, 503)], &g, &g);

        let under: Vec<_> = (0..=57).map(|d| (500, 1023 - 500 + 2 - d)).chain([(1023, 1023), (2046, 1022)]).collect();
        b.matched(ctx, "products beside short patterns", &under, &hard_products(53, if t { 20 } else { 17 }, 5), true);

        let b = Bin { name: "__multf3", f: F128, imp: &|a, b| compiler_builtins::float::mul::__multf3(f128::from_bits(a), f128::from_bits(b)).to_bits(), oracle: &|a, b| F128.mul(a, b).0 };
        b.grid(ctx, "class edges x result exponents", &pairs_target(&F128, false, if t { 2 } else { 0 }), &sig_small(112), &sig_small(112));
        let under: Vec<_> = (0..=120).map(|d| (8000, 16383 - 8000 + 4 - d)).collect();
        let r = sig_runs(112);
        b.grid(ctx, "underflow range, run significands", &under, &r, if t { &r } else { &r[..12] });
        let g = sig_top(112, if t { 8 } else { 6 });
        b.grid(ctx, "prefix significands", &[(16383, 16383), (8000, 8340)], &g, &g);
        let under: Vec<_> = (0..=117).map(|d| (8000, 16383 - 8000 + 2 - d)).chain([(16383, 16383), (32766, 16382)]).collect();
        b.matched(ctx, "products beside short patterns", &under, &hard_products(113, if t { 17 } else { 13 }, 5), true);
        #[cfg(feature = "inc")]
        {
            let go = |name, f: Fmt, imp: &(dyn Fn(u128, u128) -> u128 + Sync), oracle: &(dyn Fn(u128, u128) -> u128 + Sync)| {
                let v = values(&f, &exps_edge(&f, 1), &sig_small(f.sb));
                Bin { name, f, imp, oracle }.pairs(ctx, "", &v, &v);
            };
            go("__aeabi_fmul", F32, &|a, b| armish::float::mul::__aeabi_fmul(f32::from_bits(a as u32), f32::from_bits(b as u32)).to_bits() as u128, &hw::mul32);
            go("__aeabi_dmul", F64, &|a, b| armish::float::mul::__aeabi_dmul(f64::from_bits(a as u64), f64::from_bits(b as u64)).to_bits() as u128, &hw::mul64);
            go("__mulkf3", F128, &|a, b| armish::float::mul::__mulkf3(f128::from_bits(a), f128::from_bits(b)).to_bits(), &|a, b| F128.mul(a, b).0);
        }
    })
}
