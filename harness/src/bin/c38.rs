//! C38: inverse trigonometric functions.
use vh::alpha::*;
use vh::fl::pairs_diff;
use vh::hp::*;
use vh::rf::*;
use vh::{imps2, run, spec};

fn uniq<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v.dedup();
    v
}

fn main() {
    run("C38", "exploration", |ctx| {
        ctx.rule("every build; one argument: binary32 all 2^32 patterns (thorough), every 17th pattern plus all exponents x run significands (quick); binary64 all exponents x run and prefix significands, the exponents inside the domain x all long prefixes, neighbours of branch and domain limits; atan2: exponent differences x significand alphabets x all signs, ratios beside the branch limits, all pairs of class edges; nontrivial = finite non-zero result");
        ctx.assume("bounds count representable values from the correctly rounded result, zero or infinite results are accepted only where a true value within that relative error rounds to them; reference: the system's math library one format wider, GNU MPFR on any disagreement");
        let t = ctx.thorough;
        let p = vec![0.0, 1.0, 0.5, 0.975, 0.7071067811865476, 2f64.powi(-26), 2f64.powi(-27), 2f64.powi(-12), 2f64.powi(-57), 2f64.powi(-26), -1.0, -0.5, 0.25, 0.875, f64::MIN_POSITIVE, f32::MIN_POSITIVE as f64];
        let r = Fun1::new("asin", "asin");
        spec!(asinf, f32, u32, F32, 1, 1, &r, Some(true), (-14, 0), p.clone()).run(ctx);
        spec!(asin, f64, u64, F64, 1, 1, &r, Some(true), (-28, 0), p.clone()).run(ctx);
        let r = Fun1::new("acos", "acos");
        spec!(acosf, f32, u32, F32, 1, 1, &r, None, (-27, 0), p.clone()).run(ctx);
        spec!(acos, f64, u64, F64, 1, 1, &r, None, (-58, 0), p).run(ctx);
        let r = Fun1::new("atan", "atan");
        let p = vec![0.0, 7.0 / 16.0, 11.0 / 16.0, 19.0 / 16.0, 39.0 / 16.0, 2f64.powi(66), 2f64.powi(26), 2f64.powi(-27), 2f64.powi(-12), 0.5, 1.0, 1.5, 2f64.powi(-29), f64::MAX, f32::MAX as f64, f64::MIN_POSITIVE, f32::MIN_POSITIVE as f64];
        spec!(atanf, f32, u32, F32, 1, 1, &r, Some(true), (-14, 27), p.clone()).run(ctx);
        spec!(atan, f64, u64, F64, 1, 1, &r, Some(true), (-29, 67), p).run(ctx);

        let r = Fun2::new("atan2", "atan2");
        let sp = [
            Spec2 { name: "atan2f", f: F32, imps: imps2!(atan2f, f32, u32), tol: 2, r: &r },
            Spec2 { name: "atan2", f: F64, imps: imps2!(atan2, f64, u64), tol: 2, r: &r },
        ];
        for s in &sp {
            s.with(|c| {
                let f = s.f;
                let (small, b) = (sig_small(f.sb), f.bias());
                let far = f.sb as i32 + 20;
                let w = [-2 * b + 2, -b, -f.emin().abs(), -70, -64, -63, -62, -61, -60, -27, -26, -25, 25, 26, 27, 60, 61, 62, 63, 64, 65, 70, b, 2 * b - 2];
                let mut p = vec![];
                for d in (-far..=far).chain(w) {
                    p.extend(pairs_diff(&f, d, if t { 60 } else { 12 }));
                }
                c.grid(ctx, "exponent differences", &uniq(p), &small, &small);
                let near: Vec<(u32, u32)> = (-5..=5).flat_map(|d| [(b, b + d), (3, 5 + d), (0, 7 + d), (2 * b - 8, 2 * b - 6 + d)]).filter(|&(x, y)| x >= 0 && y >= 0 && y < 2 * b + 1).map(|(x, y)| (x as u32, y as u32)).collect();
                let g = sig_grid(f.sb, if t { 9 } else { 6 });
                c.grid(ctx, "close exponents x prefixes", &uniq(near), &g, &g);
                // y = x * limit, rounded, with neighbours
                let mut l = vec![];
                let sg = 1u128 << (f.bits() - 1);
                for x in values(&f, &[0, 1, b as u32 - 1, b as u32, b as u32 + 9, 2 * b as u32 - 70], &sig_runs(f.sb)) {
                    for (n, k) in [(7u32, 4i32), (11, 4), (19, 4), (39, 4), (1, 0), (1, 64), (1, 66), (1, -64), (1, 26), (1, -26), (1, 60), (3, 1), (1, 1), (1, 27), (1, 62)] {
                        if let V::Fin(s, m, e) = f.unpack(x) {
                            let y = f.round128(s, m as u128 * n as u128, e - k);
                            for d in -2i128..=2 {
                                let y = (y & f.absmask()).saturating_add_signed(d).min(f.inf(false));
                                l.push((y | x & sg, x));
                                l.push((y, x | sg));
                                l.push((y | sg, x & !sg));
                            }
                        }
                    }
                }
                c.list(ctx, "ratios beside branch limits", &uniq(l));
                let v = values(&f, &exps_edge(&f, 2), &small);
                c.pairs(ctx, "class edges", &v, &v);
            });
        }
    })
}
