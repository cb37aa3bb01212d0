//! C06: addition and subtraction.
#![feature(f16, f128)]
use vh::alpha::*;
use vh::fl::*;
use vh::rf::*;
use vh::run;

macro_rules! imp {
    ($cb:ident, $m:ident, $f:ident, $t:ident, $u:ident) => {
        |a: u128, b: u128| $cb::float::$m::$f($t::from_bits(a as $u), $t::from_bits(b as $u)).to_bits() as u128
    };
}

fn main() {
    run("C06", "exploration", |ctx| {
        ctx.rule("binary16: all first operands x all (thorough) or alphabet (quick) second operands; binary32: all exponent pairs x significand alphabet pairs x signs; binary64/128: every exponent difference at every class edge x significand alphabets x signs; nontrivial = finite non-zero result");
        ctx.assume("the host processor's SSE2 arithmetic is the reference for binary32/64 and cross-checks the big-integer reference used for binary128");
        let t = ctx.thorough;
        selfcheck(ctx, "add");
        let tab = table16();
        let second = second16(t);
        macro_rules! h {
            ($cb:ident, $m:ident, $f:ident, $n:expr, $o:tt) => {
                ctx.par($n, 1 << 16, |a, w| {
                    w.func($n);
                    let fa = f16::from_bits(a as u16);
                    let xa = tab[a as usize];
                    for &b in &second {
                        w.args([a, b as u64]);
                        let g = $cb::float::$m::$f(fa, f16::from_bits(b as u16)).to_bits();
                        let r = enc16(xa $o tab[b]);
                        let nan = r & 0x7fff > 0x7c00;
                        if !(g == r || (nan && g & 0x7fff > 0x7c00)) {
                            w.fail($n, &format!("{a:#06x}, {b:#06x}"), &format!("{r:#06x}"), &format!("{g:#06x}"));
                        }
                        w.done(!nan && r & 0x7fff != 0 && r & 0x7fff != 0x7c00);
                    }
                    w.sample(|| format!("{}: {a:#x} with {} second operands", $n, second.len()));
                });
            };
        }
        h!(compiler_builtins, add, __addhf3, "__addhf3", +);
        h!(compiler_builtins, sub, __subhf3, "__subhf3", -);

        let s32 = if t { sig_runs(23) } else { sig_small(23) };
        let r32 = sig_runs(23);
        for (name, imp, oracle) in [
            ("__addsf3", &imp!(compiler_builtins, add, __addsf3, f32, u32) as &(dyn Fn(u128, u128) -> u128 + Sync), hw::add32 as fn(u128, u128) -> u128),
            ("__subsf3", &imp!(compiler_builtins, sub, __subsf3, f32, u32), hw::sub32),
        ] {
            let b = Bin { name, f: F32, imp, oracle: &oracle };
            b.grid(ctx, "all exponent pairs", &pairs_all(&F32), &s32, &sig_small(23));
            let near: Vec<_> = (0..=28).flat_map(|d| [(100, 100 + d), (100 + d, 100), (1, 1 + d), (1 + d, 0), (254, 254 - d)]).collect();
            b.grid(ctx, "all differences, run significands", &near, &r32, &r32);
            if t {
                let g = sig_top(23, 8);
                b.grid(ctx, "all differences, prefix significands", &near, &g, &g);
            }
        }
        #[cfg(feature = "inc")]
        {
            let go = |name, f: Fmt, imp: &(dyn Fn(u128, u128) -> u128 + Sync), oracle: &(dyn Fn(u128, u128) -> u128 + Sync)| {
                let v = values(&f, &exps_edge(&f, 1), &sig_small(f.sb));
                Bin { name, f, imp, oracle }.pairs(ctx, "", &v, &v);
            };
            go("__aeabi_fadd", F32, &imp!(armish, add, __aeabi_fadd, f32, u32), &hw::add32);
            go("__aeabi_fsub", F32, &imp!(armish, sub, __aeabi_fsub, f32, u32), &hw::sub32);
            go("__aeabi_dadd", F64, &imp!(armish, add, __aeabi_dadd, f64, u64), &hw::add64);
            go("__aeabi_dsub", F64, &imp!(armish, sub, __aeabi_dsub, f64, u64), &hw::sub64);
            go("__addkf3", F128, &imp!(armish, add, __addkf3, f128, u128), &|a, b| F128.add(a, b).0);
            go("__subkf3", F128, &imp!(armish, sub, __subkf3, f128, u128), &|a, b| F128.add(a, F128.neg(b)).0);
        }
        for (name, imp, oracle) in [
            ("__adddf3", &imp!(compiler_builtins, add, __adddf3, f64, u64) as &(dyn Fn(u128, u128) -> u128 + Sync), hw::add64 as fn(u128, u128) -> u128),
            ("__subdf3", &imp!(compiler_builtins, sub, __subdf3, f64, u64), hw::sub64),
        ] {
            let b = Bin { name, f: F64, imp, oracle: &oracle };
            b.grid(ctx, "class edges x all differences", &pairs_diff(&F64, 60, if t { 3 } else { 1 }), &sig_small(52), &sig_small(52));
            let near: Vec<_> = (0..=57).flat_map(|d| [(1000, 1000 + d), (1000 + d, 1000), (1, 1 + d), (d, 0), (2046, 2046 - d)]).collect();
            let r = sig_runs(52);
            b.grid(ctx, "all differences, run significands", &near, if t { &r } else { &r[..r.len() / 3] }, &r);
            if t {
                let g = sig_top(52, 6);
                b.grid(ctx, "all differences, prefix significands", &near, &g, &g);
                let ar = sig_allruns(52);
                b.grid(ctx, "all differences, all runs", &near[..145], &ar, &sig_small(52));
            }
        }
        for (name, imp, oracle) in [
            ("__addtf3", &imp!(compiler_builtins, add, __addtf3, f128, u128) as &(dyn Fn(u128, u128) -> u128 + Sync), (|a, b| F128.add(a, b).0) as fn(u128, u128) -> u128),
            ("__subtf3", &imp!(compiler_builtins, sub, __subtf3, f128, u128), |a, b| F128.add(a, F128.neg(b)).0),
        ] {
            let b = Bin { name, f: F128, imp, oracle: &oracle };
            b.grid(ctx, "class edges x all differences", &pairs_diff(&F128, 120, if t { 2 } else { 0 }), &sig_small(112), &sig_small(112));
            let near: Vec<_> = (0..=117).flat_map(|d| [(9000, 9000 + d), (9000 + d, 9000), (1, 1 + d), (d, 0)]).collect();
            let r = sig_runs(112);
            if t {
                b.grid(ctx, "all differences, run significands", &near, &r, &r[..r.len() / 4]);
            } else {
                b.grid(ctx, "all differences, run significands", &near, &r, &sig_small(112)[..6]);
            }
        }
    })
}
