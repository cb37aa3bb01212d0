//! C35: exponential functions.
use vh::hp::*;
use vh::{run, spec};

fn main() {
    run("C35", "exploration", |ctx| {
        ctx.rule("every build; binary32: all 2^32 patterns (thorough), every 17th pattern plus all exponents x run significands (quick), one in four of those for the x87 routines; binary64: all exponents x run and prefix significands, the exponents between the smallest effect and overflow x all long prefixes, neighbours of overflow, underflow, reduction and branch limits; nontrivial = finite non-zero result");
        ctx.assume("bounds count representable values from the correctly rounded result, zero or infinite results are accepted only where a true value within that relative error rounds to them; reference: the system's math library one format wider, GNU MPFR on any disagreement");
        let l2 = std::f64::consts::LN_2;
        let red: Vec<f64> = (-20..=20).map(|k| (k as f64 + 0.5) * l2).chain([1.0, -1.0, 0.5 * l2, -0.5 * l2, 1e-300, 2f64.powi(-28), 2f64.powi(-54), 2f64.powi(-27), 2f64.powi(-12), 0.25, -0.25, 0.75, 128.0, -128.0, 1024.0]).collect();
        let with = |v: &[f64]| red.iter().chain(v).copied().collect::<Vec<f64>>();
        let r = Fun1::new("exp", "exp");
        let p = with(&[709.782712893384, -745.1332191019411, -708.3964185322641, 88.72283905206835, -103.97207708399179, -87.33654475055310, 710.0, -746.0, 88.0, -104.0, 350.0, -350.0]);
        spec!(expf, f32, u32, F32, 1, 0, &r, None, (-27, 7), p.clone()).run(ctx);
        spec!(exp, f64, u64, F64, 1, 1, &r, None, (-56, 10), p).run(ctx);
        let r = Fun1::new("exp2", "exp2");
        let mut p = with(&[1024.0, -1075.0, -1074.0, -1022.0, -1021.0, 128.0, -150.0, -149.0, -126.0, -125.0]);
        p.extend((-64..=64).map(|k| k as f64 / 32.0 + 1.0 / 64.0));
        spec!(exp2f, f32, u32, F32, 1, 0, &r, None, (-27, 8), p.clone()).run(ctx);
        spec!(exp2, f64, u64, F64, 1, 1, &r, None, (-56, 11), p).run(ctx);
        let r = Fun1::new("exp10", "exp10");
        let p = with(&[308.25471555991674, -323.60724533877976, -307.6526555685887, 38.53183944498959, -45.15449934959718, -37.92977945366162, 309.0, -324.0]).into_iter().chain((-60..=60).map(|k| k as f64)).collect::<Vec<_>>();
        spec!(exp10f, f32, u32, F32, 6, 0, &r, None, (-27, 6), p.clone()).run(ctx);
        spec!(exp10, f64, u64, F64, 6, 1, &r, None, (-56, 9), p).run(ctx);
        let r = Fun1::new("expm1", "expm1");
        let p = with(&[709.782712893384, 88.72283905206835, -36.7368005696771, 56.0 * l2, 1.5 * l2, -1.5 * l2, -0.25, -27.0 * l2, 27.0 * l2, 710.0, -40.0, -17.5]);
        spec!(expm1f, f32, u32, F32, 1, 1, &r, None, (-27, 7), p.clone()).run(ctx);
        spec!(expm1, f64, u64, F64, 1, 1, &r, None, (-56, 10), p).run(ctx);
    })
}
