//! C36: logarithms.
use vh::hp::*;
use vh::{run, spec};

fn main() {
    run("C36", "exploration", |ctx| {
        ctx.rule("every build; binary32: all 2^32 patterns (thorough), every 17th pattern plus all exponents x run significands (quick); binary64: all exponents x run and prefix significands, exponents around 1 x all long prefixes, neighbours of 1, of the reduction limits and of powers of two and ten; nontrivial = finite non-zero result");
        ctx.assume("bounds count representable values from the correctly rounded result, zero or infinite results are accepted only where a true value within that relative error rounds to them; reference: the system's math library one format wider, GNU MPFR on any disagreement");
        let s = std::f64::consts::SQRT_2;
        let mut p = vec![1.0, 2.0, 0.5, s, s / 2.0, 2.0 * s, s / 4.0, 10.0, 100.0, 1000.0, 0.1, 0.01, 1.0 + 2f64.powi(-4), 1.0 - 2f64.powi(-4), 1.109375, 0.9375, 1.0 + 2f64.powi(-20), 1.0 - 2f64.powi(-20), f64::MIN_POSITIVE, 2f64.powi(-1074), f64::MAX, f32::MAX as f64, f32::MIN_POSITIVE as f64, std::f64::consts::E, 0.0, -0.0, -1.0];
        p.extend((0..23).map(|k| 10f64.powi(k)));
        let r = Fun1::new("log", "log");
        spec!(logf, f32, u32, F32, 1, 1, &r, None, (-4, 4), p.clone()).run(ctx);
        spec!(log, f64, u64, F64, 1, 1, &r, None, (-3, 3), p.clone()).run(ctx);
        let r = Fun1::new("log2", "log2");
        spec!(log2f, f32, u32, F32, 1, 1, &r, None, (-4, 4), p.clone()).run(ctx);
        spec!(log2, f64, u64, F64, 1, 1, &r, None, (-3, 3), p.clone()).run(ctx);
        let r = Fun1::new("log10", "log10");
        spec!(log10f, f32, u32, F32, 1, 1, &r, None, (-4, 4), p.clone()).run(ctx);
        spec!(log10, f64, u64, F64, 1, 1, &r, None, (-3, 3), p.clone()).run(ctx);
        let r = Fun1::new("log1p", "log1p");
        let mut p = vec![0.0, -1.0, s - 1.0, s / 2.0 - 1.0, 2f64.powi(-53), 2f64.powi(-54), 2f64.powi(-29), 2f64.powi(-24), 2f64.powi(53), 2f64.powi(54), f64::MAX, f32::MAX as f64, -0.5, 1.0, 2.0 * s - 1.0, -2f64.powi(-24), -2f64.powi(-54), f64::MIN_POSITIVE, f32::MIN_POSITIVE as f64];
        p.extend((1..60).flat_map(|k| [2f64.powi(k) - 1.0, 2f64.powi(-k) - 1.0, 2f64.powi(k) * s - 1.0]));
        spec!(log1pf, f32, u32, F32, 1, 1, &r, None, (-27, 25), p.clone()).run(ctx);
        spec!(log1p, f64, u64, F64, 1, 1, &r, None, (-56, 56), p).run(ctx);
        // Exact results.
        ctx.seq("exact powers", |w| {
            for k in -1074i32..1024 {
                let x = f64::from_bits(if k < -1022 { 1 << (k + 1074) } else { ((k + 1023) as u64) << 52 });
                for (b, f) in vh::builds!(log2, fn(f64) -> f64) {
                    let g = f(x);
                    w.args([x.to_bits()]);
                    if g != k as f64 {
                        w.fail("log2", &format!("2^{k}"), &k.to_string(), &format!("{g} ({b})"));
                    }
                    w.done(true);
                }
                if (-149..128).contains(&k) {
                    for (b, f) in vh::builds!(log2f, fn(f32) -> f32) {
                        let g = f(x as f32);
                        w.args([x.to_bits()]);
                        if g != k as f32 {
                            w.fail("log2f", &format!("2^{k}"), &k.to_string(), &format!("{g} ({b})"));
                        }
                        w.done(true);
                    }
                }
            }
        });
    })
}
