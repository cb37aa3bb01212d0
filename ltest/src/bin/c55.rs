//! C55: what the test infrastructure accepts as a right result.
#![feature(f16, f128)]
use libm_test::{CheckBasis, CheckCtx, CheckOutput, Float, GeneratorKind, Identifier};
use vh::{Ctx, Worker, run};

const BASES: [CheckBasis; 3] = [CheckBasis::Musl, CheckBasis::Mpfr, CheckBasis::None];
const KINDS: [GeneratorKind; 4] = [GeneratorKind::EdgeCases, GeneratorKind::Spaced, GeneratorKind::Random, GeneratorKind::List];

fn ctx_for(id: Identifier, basis: usize, kind: usize, ulp: u32) -> CheckCtx {
    let mut c = CheckCtx::new(id, BASES[basis].clone(), KINDS[kind]);
    c.ulp = Some(ulp);
    c
}

/// Acceptance by bit patterns alone.
fn accept(a: u128, e: u128, inf: u128, sign: u128, ulp: u32, basis: usize, kind: usize) -> bool {
    let (am, em) = (a & !sign, e & !sign);
    if am > inf || em > inf {
        // against MPFR, and against musl except for listed cases, any NaN will do
        return am > inf && em > inf && (a == e || basis == 1 || (basis == 0 && kind != 3));
    }
    a & sign == e & sign && (am == inf) == (em == inf) && am.abs_diff(em) <= ulp as u128
}

macro_rules! layout {
    ($m:ident, $f:ty, $u:ty, $eb:literal, $sb:literal, $one:ident, $two:ident, $three:ident, $pair:ident, $int:ident) => {
        mod $m {
            use super::*;
            pub const INF: u128 = ((1 << $eb) - 1) << $sb;
            pub const SIGN: u128 = 1 << ($eb + $sb);
            fn f(b: u128) -> $f {
                <$f as Float>::from_bits(b as $u)
            }
            pub fn one(w: &mut Worker, a: u128, e: u128, ulp: u32, basis: usize, kind: usize) {
                w.args([a as u64, e as u64, ulp as u64, basis as u64, kind as u64, (a >> 64) as u64, (e >> 64) as u64]);
                let want = accept(a, e, INF, SIGN, ulp, basis, kind);
                let x = f(1 << $sb);
                let t = [
                    f(a).validate(f(e), (x,), &ctx_for(Identifier::$one, basis, kind, ulp)).is_ok(),
                    f(a).validate(f(e), (x, x), &ctx_for(Identifier::$two, basis, kind, ulp)).is_ok(),
                    f(a).validate(f(e), (x, x, x), &ctx_for(Identifier::$three, basis, kind, ulp)).is_ok(),
                ];
                if t != [want; 3] {
                    w.fail(concat!("validate ", stringify!($f)), &format!("{a:#x} for {e:#x} with {ulp} units, {:?} {:?}", BASES[basis], KINDS[kind]), &format!("accepted: {want}"), &format!("{t:?} for one, two, three arguments"));
                }
                w.done(a != e && want);
            }
            /// Pairs of results are right if both parts are.
            pub fn pairs(w: &mut Worker, v: &[u128], full: bool, e0: u128, ulp: u32, basis: usize, kind: usize) {
                let x = f(1 << $sb);
                let _ = x;
                for (i0, &a0) in v.iter().enumerate() {
                    let first = accept(a0, e0, INF, SIGN, ulp, basis, kind);
                    for (a1, e1) in [(0, 0), (1, 1), (1, 2), (-1, 1), (i32::MIN, i32::MAX), (i32::MAX, i32::MAX)] {
                        w.args([a0 as u64, e0 as u64, a1 as u32 as u64, e1 as u32 as u64, ulp as u64, basis as u64, kind as u64]);
                        let g = (f(a0), a1).validate((f(e0), e1), (x,), &ctx_for(Identifier::$int, basis, kind, ulp)).is_ok();
                        if g != (first && a1 == e1) {
                            w.fail(concat!("validate pair ", stringify!($f)), &format!("({a0:#x}, {a1}) for ({e0:#x}, {e1}) with {ulp} units, {:?} {:?}", BASES[basis], KINDS[kind]), &(first && a1 == e1).to_string(), &g.to_string());
                        }
                        w.done(!g);
                    }
                    for (i1, &a1) in v.iter().enumerate() {
                        if !full && (i0 + i1) % 4 != 0 {
                            continue;
                        }
                        w.args([a0 as u64, e0 as u64, a1 as u64, e0 as u64, ulp as u64, basis as u64, kind as u64]);
                        let want = first && accept(a1, e0, INF, SIGN, ulp, basis, kind);
                        let g = (f(a0), f(a1)).validate((f(e0), f(e0)), (x,), &ctx_for(Identifier::$pair, basis, kind, ulp)).is_ok();
                        if g != want {
                            w.fail(concat!("validate pair ", stringify!($f)), &format!("({a0:#x}, {a1:#x}) for ({e0:#x}, {e0:#x}) with {ulp} units, {:?} {:?}", BASES[basis], KINDS[kind]), &want.to_string(), &g.to_string());
                        }
                        w.done(!g);
                    }
                }
            }
            pub fn edges() -> Vec<u128> {
                let mut v = vec![0, 1, 2, 3, (1 << $sb) - 1, 1 << $sb, (1 << $sb) + 1, INF - 2, INF - 1, INF, INF + 1, INF | 1 << ($sb - 1), INF + (1 << $sb) - 1, INF / 2, INF / 2 + 1, INF / 2 + (1 << $sb)];
                v.extend(v.clone().iter().map(|b| b | SIGN));
                v
            }
            pub fn all(ctx: &Ctx) {
                let t = ctx.thorough;
                let e = edges();
                // Every pair of edges with their neighbours.
                let mut v: Vec<u128> = e.iter().flat_map(|&b| (0..if t { 6 } else { 2 }).flat_map(move |d| [b.wrapping_add(d) & (SIGN | (SIGN - 1)), b.wrapping_sub(d) & (SIGN | (SIGN - 1))])).collect();
                v.sort();
                v.dedup();
                let ulps = [0, 1, 2, 5, u32::MAX - 1, u32::MAX];
                ctx.par(concat!(stringify!($f), " pairs of edges"), (v.len() * v.len()) as u64, |i, w| {
                    w.func(concat!("validate ", stringify!($f)));
                    let (a, e) = (v[i as usize / v.len()], v[i as usize % v.len()]);
                    for ulp in ulps {
                        for basis in 0..3 {
                            for kind in if t { 0..4 } else { 2..4 } {
                                one(w, a, e, ulp, basis, kind);
                            }
                        }
                    }
                });
                // Distances at and beside powers of two and the allowed number.
                let mut d: Vec<u128> = (0..=$eb + $sb).step_by(if t || $sb < 40 { 1 } else { 4 }).flat_map(|k| [(1u128 << k) - 1, 1 << k, (1 << k) + 1]).collect();
                d.sort();
                d.dedup();
                let starts = edges();
                ctx.par(concat!(stringify!($f), " distances"), (starts.len() * d.len()) as u64, |i, w| {
                    w.func(concat!("validate ", stringify!($f)));
                    let (s, d) = (starts[i as usize / d.len()], d[i as usize % d.len()]);
                    for up in [false, true] {
                        let m = if up { (s & !SIGN).wrapping_add(d) } else { (s & !SIGN).wrapping_sub(d) };
                        if m > INF {
                            continue;
                        }
                        let k = u32::try_from(d).unwrap_or(u32::MAX);
                        for ulp in [0, 1, k.saturating_sub(1), k, k.saturating_add(1), u32::MAX / 2, u32::MAX] {
                            for basis in 0..3 {
                                one(w, m | s & SIGN, s, ulp, basis, 3);
                                one(w, s, m | s & SIGN, ulp, basis, 0);
                                one(w, (m | s & SIGN) ^ SIGN, s, ulp, basis, 0);
                            }
                        }
                    }
                });
                ctx.par(concat!(stringify!($f), " results in pairs"), (e.len() * 18) as u64, |i, w| {
                    w.func(concat!("validate pair ", stringify!($f)));
                    let i = i as usize;
                    pairs(w, &e, t, e[i / 18], [0, 1, u32::MAX][i % 3], i / 3 % 3, 2 + i / 9 % 2);
                });
            }
        }
    };
}
layout!(h, f16, u16, 5, 10, Ceilf16, Fdimf16, Fmaf16, Frexpf16, Frexpf16);
layout!(s, f32, u32, 8, 23, Ceilf, Fdimf, Fmaf, Modff, Frexpf);
layout!(d, f64, u64, 11, 52, Ceil, Fdim, Fma, Modf, Frexp);
layout!(q, f128, u128, 15, 112, Ceilf128, Fdimf128, Fmaf128, Frexpf128, Frexpf128);

macro_rules! ints {
    ($ctx:ident, $($t:ty),*) => {$({
        let mut v: Vec<$t> = vec![];
        for k in 0..<$t>::BITS {
            for d in [-1i32, 0, 1] {
                let x = (1 as $t).wrapping_shl(k).wrapping_add(d as $t);
                v.extend([x, !x]);
            }
        }
        v.sort();
        v.dedup();
        $ctx.par(concat!(stringify!($t), " pairs"), v.len() as u64, |i, w| {
            w.func("validate integer");
            let a = v[i as usize];
            for (j, &e) in v.iter().enumerate() {
                for basis in 0..3 {
                    for kind in 0..4 {
                        // unequal values under one setting each in the quick tier
                        if !$ctx.thorough && e != a && (i as usize + j) % 12 != basis * 4 + kind {
                            continue;
                        }
                        w.args([a as u64, e as u64, basis as u64, kind as u64]);
                        let g = a.validate(e, (1.0f32,), &ctx_for(Identifier::Ilogbf, basis, kind, u32::MAX)).is_ok();
                        if g != (a == e) {
                            w.fail("validate integer", &format!("{a} for {e} ({}) {:?} {:?}", stringify!($t), BASES[basis], KINDS[kind]), &(a == e).to_string(), &g.to_string());
                        }
                        w.done(a != e);
                    }
                }
            }
        });
    })*};
}

macro_rules! int_pairs {
    ($ctx:ident, $($t:ty),*) => {$({
        let v: Vec<$t> = vec![0, 1, 2, !0, <$t>::MIN, <$t>::MAX, <$t>::MAX / 2, 1 << (<$t>::BITS - 1)];
        let c = ctx_for(Identifier::Ilogbf, 2, 2, 0);
        $ctx.seq(concat!(stringify!($t), " in pairs"), |w| {
            w.func("validate pair");
            for &a in &v {
                for &b in &v {
                    for &x in &v {
                        for &y in &v {
                            w.args([a as u64, b as u64, x as u64, y as u64]);
                            let g = (a, b).validate((x, y), (1.0f64,), &c).is_ok();
                            if g != (a == x && b == y) {
                                w.fail("validate pair", &format!("({a}, {b}) for ({x}, {y}) {}", stringify!($t)), &(a == x && b == y).to_string(), &g.to_string());
                            }
                            w.done(!g);
                        }
                        for (p, q) in [(false, false), (false, true), (true, false), (true, true)] {
                            let g = (a, p).validate((x, q), (1.0f64,), &c).is_ok();
                            if g != (a == x && p == q) {
                                w.fail("validate pair", &format!("({a}, {p}) for ({x}, {q}) {}", stringify!($t)), &(a == x && p == q).to_string(), &g.to_string());
                            }
                            w.done(!g);
                        }
                    }
                }
            }
        });
    })*};
}

/// Functions whose operation has to be exact never get an allowance from the defaults.
fn defaults(ctx: &Ctx) {
    const EXACT: [&str; 37] = [
        "add", "sub", "mul", "div", "extend", "narrow", "ftoi", "itof", "ceil", "copysign", "fabs", "fdim", "floor", "fma", "fmax", "fmaximum", "fmaximum_num", "fmin", "fminimum", "fminimum_num", "fmod", "frexp", "ldexp", "modf", "nextafter", "remainder", "remquo", "rint", "round", "roundeven", "scalbn", "sqrt", "trunc", "extend_", "ftoi_", "itof_", "narrow_",
    ];
    ctx.seq("default allowance", |w| {
        w.func("default_ulp");
        for &id in Identifier::ALL {
            w.text(id.as_str());
            let b = id.base_name().as_str();
            let op = id.math_op();
            let float = op.rust_sig.returns.iter().any(|t| format!("{t}").starts_with('f'));
            let c = CheckCtx::new(id, CheckBasis::Mpfr, GeneratorKind::Random);
            // integer results have no allowance at all
            if float != c.ulp.is_some() && b != "ftoi" && b != "ftoi_" {
                w.fail("default_ulp", id.as_str(), if float { "an allowance" } else { "none" }, &format!("{:?}", c.ulp));
            }
            if EXACT.contains(&b) && c.ulp.is_some_and(|u| u != 0) {
                w.fail("default_ulp", id.as_str(), "0", &format!("{:?}", c.ulp));
            }
            if (c.fn_name, c.base_name_str, c.fn_ident, c.base_name) != (id.as_str(), b, id, id.base_name()) || c.extensive || c.override_iterations.is_some() {
                w.fail("CheckCtx::new", id.as_str(), "the function's own names", &format!("{c:?}"));
            }
            w.done(EXACT.contains(&b));
        }
    });
}

fn main() {
    run("C55", "exploration", |ctx| {
        ctx.rule("formats 16 to 128 bits: all pairs of class edges and their neighbours, and all distances beside powers of two from each edge, x allowances at and beside the distance x bases x generator kinds, through one, two and three argument inputs; pairs of results; integers at and beside powers of two; defaults of every function; nontrivial = differing but accepted float, or rejected integer or pair");
        ctx.assume("functions without their own override rules");
        h::all(ctx);
        s::all(ctx);
        d::all(ctx);
        q::all(ctx);
        ints!(ctx, u16, i16, u32, i32, u64, i64, u128, i128, usize);
        int_pairs!(ctx, u32, i32, u64, i64, u128, i128);
        defaults(ctx);
    })
}
