//! C31: minimum and maximum families.
#![feature(f16, f128)]
use vh::alpha::*;
use vh::fl::*;
use vh::lm::*;
use vh::rf::*;
use vh::{Ctx, imps2, run};

/// Order key of a non-NaN pattern, -0 just below +0.
fn key(f: &Fmt, x: u128) -> i128 {
    let a = (x & f.absmask()) as i128;
    if f.sign(x) { -a - 1 } else { a }
}

#[derive(Clone, Copy, PartialEq)]
enum Nan {
    /// a NaN operand is ignored if the other is a number
    Number,
    /// a NaN operand gives NaN
    Propagate,
}

/// Allowed results: (value, alternative).
fn pick(f: &Fmt, x: u128, y: u128, max: bool, nan: Nan, zeros: bool) -> (u128, u128) {
    match (f.is_nan(x), f.is_nan(y)) {
        (true, true) => return (f.nan(), f.nan()),
        (true, false) | (false, true) => {
            let r = if nan == Nan::Propagate { f.nan() } else if f.is_nan(x) { y } else { x };
            return (r, r);
        }
        _ => {}
    }
    if !zeros && (x | y) & f.absmask() == 0 {
        return (x, y);
    }
    let r = if (key(f, x) > key(f, y)) == max { x } else { y };
    (r, r)
}

fn go(ctx: &Ctx, name: &'static str, f: Fmt, imps: Imps2, max: bool, nan: Nan, zeros: bool) {
    let case = |x, y| {
        let (r, alt) = pick(&f, x, y, max, nan, zeros);
        for (b, imp) in &imps {
            let g = imp(x, y);
            if !same(&f, g, r) && g != alt {
                return Err((hex(&f, r), format!("{} ({b})", hex(&f, g))));
            }
        }
        Ok(true)
    };
    let t = Two { name, f, case: &case };
    let th = ctx.thorough;
    let s = sig_small(f.sb);
    match f.sb {
        10 => {
            let b: Vec<u128> = second16(th).iter().map(|&x| x as u128).collect();
            t.pairs(ctx, "", &if th { b.clone() } else { b.iter().copied().step_by(7).chain(values(&f, &[0, 1, 15, 30, 31], &s)).collect() }, &b);
        }
        23 => {
            t.grid(ctx, "all exponent pairs", &pairs_all(&f), &s[..if th { s.len() } else { 4 }], &s[..if th { s.len() } else { 3 }]);
        }
        52 => {
            let p: Vec<(u32, u32)> = (0..2048).flat_map(|a| (0..2048).step_by(if th { 1 } else { 13 }).map(move |b| (a, b))).collect();
            t.grid(ctx, "exponent pairs", &p, &s[..3], &s[..3]);
        }
        _ => {
            let p: Vec<(u32, u32)> = (0..32768).step_by(if th { 17 } else { 131 }).flat_map(|a| (0..32768).step_by(if th { 13 } else { 127 }).map(move |b| (a, b))).collect();
            t.grid(ctx, "exponent pairs", &p, &s[..3], &s[..3]);
        }
    }
    let mut v = values(&f, &exps_edge(&f, 1), &if th { sig_runs(f.sb) } else { s.clone() });
    if th && v.len() > 9000 {
        v = v.into_iter().step_by(5).collect();
        v.extend(values(&f, &exps_edge(&f, 1), &s));
    }
    t.pairs(ctx, "class edges", &v, &v);
    // same exponent: run significands against each other
    let r = sig_runs(f.sb);
    t.grid(ctx, "equal exponents", &[(f.bias() as u32, f.bias() as u32), (0, 0), (f.emax(), f.emax())], &r[..r.len().min(if th { 2000 } else { 300 })], &r[..r.len().min(2000)]);
    // neighbours
    let r: Vec<(u128, u128)> = values(&f, &exps_edge(&f, 1), &r).into_iter().flat_map(|x| [(x, x), (x, x ^ 1), (x, x.wrapping_add(1) & (f.absmask() << 1 | 1)), (x, x ^ 1 << (f.bits() - 1))]).collect();
    t.list(ctx, "neighbours", &r);
}

fn main() {
    run("C31", "exploration", |ctx| {
        ctx.rule("every build; binary16: all patterns x all patterns (thorough) or a dense subset; other formats: exponent pairs x significand alphabets x signs, class edges (zeros, subnormals, infinities, quiet and signalling NaNs) against each other, equal exponents x run significands, every value with its neighbours; every case counts as nontrivial");
        ctx.assume("fmin and fmax may return either zero when both operands are zeros");
        macro_rules! f {
            ($n16:ident $n32:ident $n64:ident $n128:ident $m:expr, $n:expr, $z:expr) => {
                go(ctx, stringify!($n16), F16, imps2!($n16, f16, u16), $m, $n, $z);
                go(ctx, stringify!($n32), F32, imps2!($n32, f32, u32), $m, $n, $z);
                go(ctx, stringify!($n64), F64, imps2!($n64, f64, u64), $m, $n, $z);
                go(ctx, stringify!($n128), F128, imps2!($n128, f128, u128), $m, $n, $z);
            };
        }
        f!(fminf16 fminf fmin fminf128 false, Nan::Number, false);
        f!(fmaxf16 fmaxf fmax fmaxf128 true, Nan::Number, false);
        f!(fminimumf16 fminimumf fminimum fminimumf128 false, Nan::Propagate, true);
        f!(fmaximumf16 fmaximumf fmaximum fmaximumf128 true, Nan::Propagate, true);
        f!(fminimum_numf16 fminimum_numf fminimum_num fminimum_numf128 false, Nan::Number, true);
        f!(fmaximum_numf16 fmaximum_numf fmaximum_num fmaximum_numf128 true, Nan::Number, true);
    })
}
