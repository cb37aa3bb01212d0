//! C41: error and gamma functions.
use vh::hp::*;
use vh::rf::*;
use vh::{builds, run, spec};

/// Near its zeros on the negative axis lgamma is a difference of large terms: the bound is four units in
/// the last place of those.
fn near_zero(lo: f64, eps: f64) -> impl Fn(u128, u128, &Ref) -> bool + Sync + Copy {
    move |x, g, r| {
        let (x, g) = if eps > 1e-10 { (f32::from_bits(x as u32) as f64, f32::from_bits(g as u32) as f64) } else { (f64::from_bits(x as u64), f64::from_bits(g as u64)) };
        let (e, near) = (r.f64(), (x - x.round()).abs() < 0.02);
        x > lo && x < -2.0 && (e.abs() < 1.0 || near) && (g - e).abs() <= 4.0 * eps * (x.abs() * x.abs().ln() - x.abs() + e.abs() + 2.0)
    }
}

fn main() {
    run("C41", "exploration", |ctx| {
        ctx.rule("every build; binary32: all 2^32 patterns (thorough), every 17th or 31st pattern plus all exponents x run significands (quick); binary64: all exponents x run and prefix significands, exponents of the approximation intervals x all long prefixes, neighbours of branch limits, of poles, of zeros and of overflow and underflow points; factorials; sign of gamma from the reentrant forms on every unit interval; nontrivial = finite non-zero result");
        ctx.assume("bounds count representable values from the correctly rounded result, zero or infinite results are accepted only where a true value within that relative error rounds to them; reference: the system's math library one format wider, GNU MPFR on any disagreement");
        ctx.assume("near the zeros of lgamma on the negative axis (binary32 -13.0625 to -2, binary64 -32 to -2) the bound is absolute");
        let p = vec![0.0, 0.84375, 1.25, 1.0 / 0.35, 6.0, 28.0, 0.25, 2f64.powi(-28), 2f64.powi(-56), 9.194549560546875, 10.054, 26.543258454250983, 27.226017111108366, 27.0, f64::MIN_POSITIVE, f32::MIN_POSITIVE as f64, 3.5, 4.0, -6.0, -0.84375, -1.25, -1.0 / 0.35, -0.25, 5.9, 3.92, -28.0];
        let r = Fun1::new("erf", "erf");
        spec!(erff, f32, u32, F32, 1, 1, &r, Some(true), (-29, 3), p.clone()).run(ctx);
        spec!(erf, f64, u64, F64, 1, 1, &r, Some(true), (-57, 3), p.clone()).run(ctx);
        let r = Fun1::new("erfc", "erfc");
        spec!(erfcf, f32, u32, F32, 4, 4, &r, None, (-29, 4), p.clone()).allow(|_, g, r| steps(&F32, g, r.round(&F32)).is_some_and(|k| k <= 4)).run(ctx);
        spec!(erfc, f64, u64, F64, 4, 4, &r, None, (-57, 5), p).allow(|_, g, r| steps(&F64, g, r.round(&F64)).is_some_and(|k| k <= 4)).run(ctx);

        let mut p = vec![0.23164, 0.73163, 0.9, 1.23164, 1.73163, 1.46163214496836, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 1.0, 2f64.powi(58), 2f64.powi(-70), 2f64.powi(52), 2.556348e305, 4.0850034e36, f64::MIN_POSITIVE, f32::MIN_POSITIVE as f64, f64::MAX, f32::MAX as f64, 0.0, -0.0];
        p.extend((1..40).flat_map(|k| [-k as f64, -k as f64 - 0.5]));
        p.extend([-2.4570247382208006, -2.7476826467274126, -3.1435808883499799, -3.9552942848585978, -4.0393618397404827, -4.9915446381478, -5.0082181683, -5.9985808]);
        let r = Fun1::new("lgamma", "lgamma");
        macro_rules! lg {
            ($n:ident $t:ident $u:ident $f:ident $e:expr, $allow:expr) => {{
                let allow = $allow;
                spec!($n, $t, $u, $f, 4, 4, &r, None, $e, p.clone()).step(31, 1).allow(allow).run(ctx);
            }};
        }
        let a32 = near_zero(-13.0625, 2f64.powi(-23));
        lg!(lgammaf f32 u32 F32 (-25, 24), move |x, g, r: &Ref| x == 0x7c44af8e && g >= 0x7f7fffff || a32(x, g, r));
        lg!(lgamma f64 u64 F64 (-20, 55), near_zero(-32.0, 2f64.powi(-52)));
        macro_rules! lgr {
            ($n:ident $m:ident $t:ident $u:ident $sb:expr) => {
                let fs = builds!($n, fn($t) -> ($t, i32));
                let gs = builds!($m, fn($t) -> $t);
                let n = if ctx.thorough { 1u64 << 28 } else { 1 << 22 };
                ctx.par(concat!(stringify!($n), " value and sign"), 1 << 10, |i, w| {
                    w.func(stringify!($n));
                    for k in (i..n).step_by(1 << 10) {
                        let x = $t::from_bits((k as $u) << ($u::BITS - n.trailing_zeros()));
                        for x in [x, $t::from_bits(x.to_bits() | (1 << ($sb - 7)) - 1), -((k as $t) / 4096.0 + 1.0 / 8192.0), -(k as $t) - 0.5] {
                            w.args([x.to_bits() as u64]);
                            for j in 0..fs.len() {
                                let ((g, s), h) = (fs[j].1(x), gs[j].1(x));
                                if g.to_bits() != h.to_bits() && !(g.is_nan() && h.is_nan()) {
                                    w.fail(stringify!($n), &format!("{x:e}"), &format!("{h:e} as without sign"), &format!("{g:e} ({})", fs[j].0));
                                }
                                let e = if x > 0.0 {
                                    1
                                } else if x < 0.0 && x.is_finite() && x.fract() != 0.0 {
                                    if (x.floor() / 2.0).fract() != 0.0 { -1 } else { 1 }
                                } else {
                                    s
                                };
                                if s != e {
                                    w.fail(stringify!($n), &format!("{x:e}"), &format!("sign {e}"), &format!("sign {s} ({})", fs[j].0));
                                }
                            }
                            w.done(x < 0.0);
                        }
                    }
                });
            };
        }
        lgr!(lgammaf_r lgammaf f32 u32 23);
        lgr!(lgamma_r lgamma f64 u64 52);

        let mut p = vec![171.6243769563027, -170.5674972726612, -182.5, -183.5, -184.0, 35.040096282958984, -37.5, -40.0, -41.5, -43.0, 2f64.powi(-54), 2f64.powi(-1022), 5.56e-309, 2.9e-39, 0.0, -0.0, 23.0, 24.0, 0.5, 1.0, 1.4616321449683622, 2.0, -1.0, 12.0, -12.0, 0.25, 33.0, 140.0, -0.5];
        p.extend((1..184).flat_map(|k| [-k as f64, -k as f64 - 0.5]));
        p.extend((1..175).map(|k| k as f64));
        let r = Fun1::new("tgamma", "gamma");
        spec!(tgammaf, f32, u32, F32, 1, 1, &r, None, (-25, 6), p.clone()).step(31, 1).run(ctx);
        spec!(tgamma, f64, u64, F64, 20, 20, &r, None, (-54, 8), p).run(ctx);
        ctx.seq("factorials", |w| {
            let mut v = 1u128;
            for k in 1..=23u64 {
                w.args([k]);
                for (b, f) in builds!(tgamma, fn(f64) -> f64) {
                    if f(k as f64) != v as f64 {
                        w.fail("tgamma", &k.to_string(), &v.to_string(), &format!("{} ({b})", f(k as f64)));
                    }
                }
                w.done(true);
                v *= k as u128;
            }
        });
    })
}
