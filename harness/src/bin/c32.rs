//! C32: fabs, copysign, fdim, nextafter.
#![feature(f16, f128)]
use vh::alpha::*;
use vh::fl::*;
use vh::lm::*;
use vh::rf::*;
use vh::{Ctx, imps1, imps2, run};

fn bits(f: &Fmt, imps: &Imps2, r: u128, x: u128, y: u128, exact: bool) -> Result<bool, (String, String)> {
    for (b, imp) in imps {
        let g = imp(x, y);
        if !(g == r || !exact && same(f, g, r)) {
            return Err((hex(f, r), format!("{} ({b})", hex(f, g))));
        }
    }
    Ok(true)
}

fn fdim(f: &Fmt, x: u128, y: u128) -> u128 {
    match f.cmp(x, y) {
        None => f.nan(),
        Some(c) if c <= 0 => 0,
        _ => f.add(x, f.neg(y)).0,
    }
}

fn nextafter(f: &Fmt, x: u128, y: u128) -> u128 {
    match f.cmp(x, y) {
        None => f.nan(),
        Some(0) => y,
        Some(c) => {
            // order-preserving integer of a pattern, both zeros at 0
            let k = |x: u128| if f.sign(x) { -((x & f.absmask()) as i128) } else { x as i128 };
            let n = k(x) - c as i128;
            // a step to zero keeps the sign of the starting point
            if n == 0 {
                return f.zero(f.sign(x));
            }
            if n < 0 { f.neg(n.unsigned_abs()) } else { n as u128 }
        }
    }
}

fn plan(ctx: &Ctx, t: &Two) {
    let f = t.f;
    let th = ctx.thorough;
    let s = sig_small(f.sb);
    match f.sb {
        10 => {
            let b: Vec<u128> = second16(th).iter().map(|&x| x as u128).collect();
            t.pairs(ctx, "", &if th { b.clone() } else { b.iter().copied().step_by(7).chain(values(&f, &[0, 1, 15, 30, 31], &s)).collect() }, &b);
        }
        23 => t.grid(ctx, "all exponent pairs", &pairs_all(&f), &s[..if th { s.len() } else { 6 }], &s[..if th { s.len() } else { 6 }]),
        52 => {
            let p: Vec<(u32, u32)> = (0..2048).flat_map(|a| (0..2048).step_by(if th { 1 } else { 11 }).map(move |b| (a, b))).collect();
            t.grid(ctx, "exponent pairs", &p, &s[..4], &s[..3]);
        }
        _ => {
            let p: Vec<(u32, u32)> = (0..32768).step_by(if th { 17 } else { 131 }).flat_map(|a| (0..32768).step_by(if th { 13 } else { 127 }).map(move |b| (a, b))).collect();
            t.grid(ctx, "exponent pairs", &p, &s[..3], &s[..3]);
        }
    }
    let v = values(&f, &exps_edge(&f, 1), &s);
    t.pairs(ctx, "class edges", &v, &v);
    let r = sig_runs(f.sb);
    let near = pairs_diff(&f, f.sb as i32 + 3, 0);
    t.grid(ctx, "exponent differences", &near, &s[..if th { s.len() } else { 10 }], &s[..if th { s.len() } else { 6 }]);
    let lim = if th { 1500 } else { 250 };
    t.grid(ctx, "equal and adjacent exponents", &[(f.bias() as u32, f.bias() as u32), (f.bias() as u32 + 1, f.bias() as u32), (0, 0), (0, 1), (1, 0), (f.emax() - 1, f.emax() - 1), (f.emax(), f.emax()), (f.emax() - 1, f.emax())], &r[..r.len().min(lim)], &r[..r.len().min(if th { 1500 } else { 400 })]);
    // every value with its neighbours, its negation, zeros and infinities
    let m = f.absmask() << 1 | 1;
    let sg = 1u128 << (f.bits() - 1);
    let e: Vec<u32> = if f.sb > 60 { (0..f.emax() + 1).step_by(if th { 7 } else { 61 }).chain(exps_edge(&f, 1)).collect() } else { exps_all(&f) };
    let l: Vec<(u128, u128)> = values(&f, &e, &if th && f.sb < 60 { r } else { s }).into_iter().flat_map(|x| [x, x ^ 1, x.wrapping_add(1) & m, x.wrapping_sub(1) & m, x ^ sg, 0, sg, f.inf(false), f.inf(true), f.nan()].map(|y| (x, y))).collect();
    t.list(ctx, "neighbours and limits", &l);
}

fn main() {
    run("C32", "exploration", |ctx| {
        ctx.rule("every build; fabs: all patterns of binary16/32 (binary32 quick: all exponents x dense sets), all exponents x dense sets otherwise; pairs: exponent pairs x significand alphabets x signs, all class edges, every value with its neighbours, its negation, zeros, infinities and NaN; binary16 thorough: all pairs; sign operations compared bit for bit including NaN payloads");
        macro_rules! f {
            ($f:ident $t:ident $u:ident $abs:ident $cps:ident $dim:ident) => {
                let imps = imps1!($abs, $t, $u);
                let case = |x: u128| {
                    for (b, imp) in &imps {
                        if imp(x) != x & $f.absmask() {
                            return Err((hex(&$f, x & $f.absmask()), format!("{} ({b})", hex(&$f, imp(x)))));
                        }
                    }
                    Ok(true)
                };
                Un { name: stringify!($abs), f: $f, case: &case }.plan(ctx, 2);
                let imps = imps2!($cps, $t, $u);
                let c = |x, y| bits(&$f, &imps, x & $f.absmask() | y & !$f.absmask() & ($f.absmask() << 1 | 1), x, y, true);
                plan(ctx, &Two { name: stringify!($cps), f: $f, case: &c });
                let imps = imps2!($dim, $t, $u);
                let c = |x, y| bits(&$f, &imps, fdim(&$f, x, y), x, y, false);
                plan(ctx, &Two { name: stringify!($dim), f: $f, case: &c });
            };
        }
        f!(F16 f16 u16 fabsf16 copysignf16 fdimf16);
        f!(F32 f32 u32 fabsf copysignf fdimf);
        f!(F64 f64 u64 fabs copysign fdim);
        f!(F128 f128 u128 fabsf128 copysignf128 fdimf128);
        let imps = imps2!(nextafterf, f32, u32);
        let c = |x, y| bits(&F32, &imps, nextafter(&F32, x, y), x, y, false);
        plan(ctx, &Two { name: "nextafterf", f: F32, case: &c });
        let imps = imps2!(nextafter, f64, u64);
        let c = |x, y| bits(&F64, &imps, nextafter(&F64, x, y), x, y, false);
        plan(ctx, &Two { name: "nextafter", f: F64, case: &c });
    })
}
