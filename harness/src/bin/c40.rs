//! C40: power function.
use vh::alpha::*;
use vh::ctx::Ctx;
use vh::hp::*;
use vh::rf::*;
use vh::{builds, imps2, run};

fn to(f: &Fmt, x: f64) -> u128 {
    if f.sb == 23 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 }
}

fn from(f: &Fmt, x: u128) -> f64 {
    if f.sb == 23 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) }
}

fn go(ctx: &Ctx, s: &Spec2) {
    let (f, t) = (s.f, ctx.thorough);
    let sg = 1u128 << (f.bits() - 1);
    let (b, small) = (f.bias() as u32, sig_small(f.sb));
    s.with(|c| {
        // Special classes and integers of every size and parity.
        let mut sp = values(&f, &exps_edge(&f, 2), &small[..8]);
        for k in 0..f.sb + 4 {
            for m in [1u128, 3, 5, (1 << f.sb) | 1, (2 << f.sb) - 1, (1 << f.sb) | 1 << (f.sb / 2)] {
                for h in [0, 1] {
                    let w = 127 - m.leading_zeros();
                    let x = f.round128(false, m, k as i32 - w as i32 - h);
                    sp.push(x);
                    sp.push(x | sg);
                }
            }
        }
        let sp = dedup(sp);
        c.pairs(ctx, "special classes and integers", &sp, &sp);

        // Result exponents: for every base, exponents that lead to each target, with neighbours.
        let e: Vec<u32> = if f.sb == 23 || t { (1..f.emax()).step_by(if f.sb == 23 { 1 } else { 3 }).collect() } else { (1..f.emax()).step_by(13).chain(b - 9..b + 9).collect() };
        let mut bases = values(&f, &e, &small[..if t { small.len() } else { 7 }]);
        bases.extend(values(&f, &[b - 1, b], &sig_grid(f.sb, if t { 9 } else { 7 })));
        bases.extend(values(&f, &[b - 2, b - 1, b, b + 1], &sig_runs(f.sb)));
        bases.extend((1..=1000).map(|k| to(&f, k as f64)));
        bases.extend((0..400u32).flat_map(|k| [to(&f, 1.0) + k as u128, to(&f, 1.0) - k as u128]));
        let bases: Vec<u128> = dedup(bases.into_iter().map(|x| x & f.absmask()).collect());
        let lim = if f.sb == 23 { [128.0, 127.0, 64.0, 1.0, 0.5, -1.0, -125.0, -126.0, -127.0, -148.0, -149.0, -150.0, -152.0] } else { [1024.0, 1023.0, 512.0, 1.0, 0.5, -1.0, -1021.0, -1022.0, -1023.0, -1073.0, -1074.0, -1075.0, -1077.0] };
        const C: usize = 64;
        ctx.par(&format!("{} bases x result limits", c.name), bases.len().div_ceil(C) as u64, |i, w| {
            w.func(c.name);
            for &x in &bases[i as usize * C..bases.len().min((i as usize + 1) * C)] {
                let l = from(&f, x).log2();
                for g in lim {
                    let y = to(&f, g / l);
                    for d in 0..if t { 40 } else { 20 } {
                        c.one(w, x, y.wrapping_add(d) & (f.absmask() | sg));
                        c.one(w, x, y.saturating_sub(d));
                        c.one(w, x | sg, y.wrapping_add(d) & (f.absmask() | sg));
                    }
                    // negative bases: nearest integers
                    let n = (g / l).round();
                    for d in -2..=2 {
                        c.one(w, x | sg, to(&f, n + d as f64));
                        c.one(w, x, to(&f, n + d as f64));
                    }
                }
            }
        });
        // Small exponents and fractions.
        let mut ys: Vec<u128> = (0..=64).flat_map(|k| [k as f64, k as f64 / 2.0 + 0.25, 1.0 / (k as f64 + 1.0), k as f64 * 0.37]).flat_map(|y| [to(&f, y), to(&f, -y)]).collect();
        ys.extend(values(&f, &(b - f.sb - 12..b + f.sb + 8).step_by(if t { 1 } else { 2 }).collect::<Vec<_>>(), &small[..if t { 6 } else { 4 }]));
        let ys = dedup(ys);
        let mut xs: Vec<u128> = bases.iter().copied().step_by(if t { 1 } else { 2 }).collect();
        xs.extend(values(&f, &[0], &sig_runs(f.sb)));
        xs.extend(bases.iter().step_by(if t { 7 } else { 23 }).map(|x| x | sg));
        c.pairs(ctx, "bases x small exponents", &xs, &ys);
        // Dense bases against a few exponents.
        let ys: Vec<u128> = [2.0, 3.0, 0.5, -0.5, 1.0 / 3.0, -1.0, 1.5, -7.25, 12.5, 31.0, -0.001, 88.125].iter().map(|&y| to(&f, y)).collect();
        let xs: Vec<u128> = if f.sb == 23 { (0..1u128 << 31).step_by(if t { 211 } else { 1009 }).collect() } else { values(&f, &[b - 1, b], &sig_grid(52, if t { 18 } else { 15 })) };
        c.pairs(ctx, "dense bases", &xs, &ys);
        // Bases beside one with exponents of every size.
        let one = to(&f, 1.0);
        let xs: Vec<u128> = (0..if t { 4000u128 } else { 1500 }).flat_map(|k| [one + k * k * k, one - k * k * k]).collect();
        let ys = values(&f, &(b..b + if f.sb == 23 { 32 } else { 66 }).collect::<Vec<_>>(), &small[..if t { 12 } else { 5 }]);
        c.pairs(ctx, "bases beside one", &xs, &ys);
        // Mantissas against mantissas near one.
        let g = sig_grid(f.sb, if t { 11 } else { 9 });
        c.grid(ctx, "prefixes near one", &[(b, b), (b - 1, b), (b, b + 3), (b, b + 6), (b - 1, b + 5), (b + 1, b - 2)], &g, &g);
    });
}

fn main() {
    run("C40", "exploration", |ctx| {
        ctx.rule("every build; all pairs of class edges and integers of every size and parity, both signs; bases over exponents x significand alphabets and beside 1, each with the exponents that bring the result to overflow, to the subnormal range, to underflow and to 1, with neighbours and nearest integers; bases x small and fractional exponents; prefix significands against each other; integer powers that are exact; nontrivial = finite non-zero result");
        ctx.assume("bounds count representable values from the correctly rounded result, zero or infinite results are accepted only where a true value within that relative error rounds to them; reference: the system's math library one format wider, GNU MPFR on any disagreement");
        let r = Fun2::new("pow", "pow");
        go(ctx, &Spec2 { name: "powf", f: F32, imps: imps2!(powf, f32, u32), tol: 1, r: &r });
        go(ctx, &Spec2 { name: "pow", f: F64, imps: imps2!(pow, f64, u64), tol: 1, r: &r });
        // Integer powers of integers that fit the significand are exact.
        ctx.par("exact integer powers", 1 << 12, |i, w| {
            for x in (i + 2..1 << 27).step_by(1 << 12) {
                let (mut p, mut n) = (x as u128, 1);
                while p < 1 << 53 && (n < 4 || p > x as u128) && n < 60 {
                    w.args([x, n as u64]);
                    for (b, g) in builds!(pow, fn(f64, f64) -> f64) {
                        let v = g(x as f64, n as f64);
                        if v != p as f64 {
                            w.fail("pow", &format!("{x}, {n}"), &p.to_string(), &format!("{v} ({b})"));
                        }
                    }
                    if p < 1 << 24 {
                        for (b, g) in builds!(powf, fn(f32, f32) -> f32) {
                            let v = g(x as f32, n as f32);
                            if v != p as f32 {
                                w.fail("powf", &format!("{x}, {n}"), &p.to_string(), &format!("{v} ({b})"));
                            }
                        }
                    }
                    w.done(true);
                    p *= x as u128;
                    n += 1;
                }
                if !ctx.thorough && x > 1 << 20 {
                    break;
                }
            }
        });
    })
}
