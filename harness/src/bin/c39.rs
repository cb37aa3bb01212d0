//! C39: hyperbolic functions and their inverses.
use vh::hp::*;
use vh::{run, spec};

fn main() {
    run("C39", "exploration", |ctx| {
        ctx.rule("every build; binary32: all 2^32 patterns (thorough), every 17th pattern plus all exponents x run significands (quick); binary64: all exponents x run and prefix significands, exponents between the smallest effect and saturation x all long prefixes, neighbours of branch, overflow and domain limits; nontrivial = finite non-zero result");
        ctx.assume("bounds count representable values from the correctly rounded result, zero or infinite results are accepted only where a true value within that relative error rounds to them; reference: the system's math library one format wider, GNU MPFR on any disagreement");
        let l2 = std::f64::consts::LN_2;
        let p = vec![0.0, l2, 0.5 * l2, l2 / 2.0 * 3.0, 2f64.powi(-26), 2f64.powi(-12), 2f64.powi(-28), 1.0, 22.0, 709.782712893384, 710.4758600739439, 711.0, 88.72283905206835, 89.41598629223294, 89.5, 9.0, 20.0, 10.0, 0.5493061443340548, 0.2554128118829953, 0.22, f64::MIN_POSITIVE, f32::MIN_POSITIVE as f64, 2f64.powi(-57), 1.1 * 2f64.powi(-5)];
        let r = Fun1::new("sinh", "sinh");
        spec!(sinhf, f32, u32, F32, 2, 2, &r, Some(true), (-14, 7), p.clone()).run(ctx);
        spec!(sinh, f64, u64, F64, 2, 2, &r, Some(true), (-28, 10), p.clone()).run(ctx);
        let r = Fun1::new("cosh", "cosh");
        spec!(coshf, f32, u32, F32, 1, 1, &r, Some(false), (-14, 7), p.clone()).run(ctx);
        spec!(cosh, f64, u64, F64, 1, 1, &r, Some(false), (-28, 10), p.clone()).run(ctx);
        let r = Fun1::new("tanh", "tanh");
        spec!(tanhf, f32, u32, F32, 2, 2, &r, Some(true), (-14, 5), p.clone()).run(ctx);
        spec!(tanh, f64, u64, F64, 2, 2, &r, Some(true), (-29, 6), p).run(ctx);
        let q = vec![0.0, 1.0, 2.0, 2f64.powi(-26), 2f64.powi(26), 2f64.powi(12), 2f64.powi(-12), 2f64.powi(28), 0.5, 0.25, 2f64.powi(-28), 2f64.powi(-32), f64::MAX, f32::MAX as f64, 1.5, 1.0 - 2f64.powi(-20), f64::MIN_POSITIVE, f32::MIN_POSITIVE as f64, 1.5430806348152437, 1e154, 1.8e19];
        let r = Fun1::new("asinh", "asinh");
        spec!(asinhf, f32, u32, F32, 2, 2, &r, Some(true), (-14, 14), q.clone()).run(ctx);
        spec!(asinh, f64, u64, F64, 2, 2, &r, Some(true), (-28, 28), q.clone()).run(ctx);
        let r = Fun1::new("acosh", "acosh");
        spec!(acoshf, f32, u32, F32, 4, 4, &r, None, (-1, 14), q.clone()).run(ctx);
        spec!(acosh, f64, u64, F64, 4, 4, &r, None, (-1, 28), q.clone()).run(ctx);
        let r = Fun1::new("atanh", "atanh");
        spec!(atanhf, f32, u32, F32, 2, 2, &r, Some(true), (-33, 0), q.clone()).run(ctx);
        spec!(atanh, f64, u64, F64, 2, 2, &r, Some(true), (-33, 0), q).run(ctx);
    })
}
