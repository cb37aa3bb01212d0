//! C29: fused multiply-add.
#![feature(f16, f128)]
use vh::alpha::*;
use vh::fl::*;
use vh::imps3;
use vh::lm::*;
use vh::rf::*;
use vh::{Ctx, Worker, run};

struct T<'a> {
    name: &'static str,
    f: Fmt,
    imps: &'a Imps3,
}

impl T<'_> {
    #[inline]
    fn case(&self, w: &mut Worker, x: u128, y: u128, z: u128) {
        let f = &self.f;
        w.args([x as u64, (x >> 64) as u64, y as u64, (y >> 64) as u64, z as u64, (z >> 64) as u64]);
        let (r, _) = f.fma(x, y, z);
        for (b, imp) in self.imps {
            let g = imp(x, y, z);
            if !same(f, g, r) {
                w.fail(self.name, &format!("{}, {}, {}", hex(f, x), hex(f, y), hex(f, z)), &hex(f, r), &format!("{} ({b})", hex(f, g)));
                break;
            }
        }
        w.done(rounded(f, r));
    }

    /// Exponents (of x, y) x exponents of z x significand sets, all relevant signs.
    fn grid(&self, ctx: &Ctx, what: &str, exy: &[(u32, u32)], ez: &(dyn Fn(u32, u32) -> Vec<u32> + Sync), sx: &[u128], sz: &[u128]) {
        ctx.par(&format!("{} {what}", self.name), exy.len() as u64, |i, w| {
            w.func(self.name);
            let (ex, ey) = exy[i as usize];
            for ez in ez(ex, ey) {
                for &mx in sx {
                    for &my in sx {
                        for &mz in sz {
                            for s in 0..4 {
                                self.case(w, self.f.make(s & 1 == 1, ex, mx), self.f.make(false, ey, my), self.f.make(s & 2 == 2, ez, mz));
                            }
                        }
                    }
                }
            }
        });
    }
}

fn sigs(sb: u32, n: usize) -> Vec<u128> {
    let m = (1u128 << sb) - 1;
    let h = sb / 2;
    // products of these give exact rounding midpoints, and patterns just beside them
    let mut v = vec![0, m, 1, 1 << h, 1 << (h - 1), 1 << (sb - 1), m - 1, (1 << h) - 1, 1 << (h + 1), m ^ 1 << (sb - 1), m / 3, 3 << (h - 1), m & !((1 << h) - 1), 2, (1 << (sb - 1)) | 1, 5];
    v.truncate(n);
    dedup(v)
}

/// k * 2^n / x, by long division.
fn quot(k: u128, n: u32, x: u128) -> u128 {
    let (mut q, mut r) = (0, k);
    for _ in 0..n {
        r <<= 1;
        q <<= 1;
        if r >= x {
            r -= x;
            q |= 1;
        }
    }
    q
}

fn go(ctx: &Ctx, name: &'static str, f: Fmt, imps: Imps3) {
    let t = T { name, f, imps: &imps };
    let th = ctx.thorough;
    let (p, b, mx) = (f.sb as i32 + 1, f.bias(), f.emax() as i32);
    let clip = |e: i32| e.clamp(0, mx) as u32;
    // Targets for the (biased) exponent of the product.
    let mut targets: Vec<i32> = vec![b, b + 1, b - 1];
    targets.extend(-2 * p - 3..=4); // product below, at and just above the smallest normal
    targets.extend(mx - 4..=mx + 2);
    targets.extend([b / 2, b + b / 2, -b / 2, mx + p, mx + b / 2]);
    let mut exy = vec![];
    for &tg in &targets {
        // x and y of similar size; very different sizes; one of them subnormal
        let s = tg + b;
        for ex in [s / 2, s - b - 1, s - mx + 1, 1, 0, mx - 1, s / 2 - p] {
            let ey = s - ex;
            if (0..mx).contains(&ex) && (0..mx).contains(&ey) {
                exy.push((ex as u32, ey as u32));
            }
        }
    }
    exy.sort();
    exy.dedup();
    let window = |ex: u32, ey: u32| {
        let tg = ex as i32 + ey as i32 - b;
        let mut v: Vec<u32> = (tg - 2 * p - 4..=tg + p + 4).filter(|e| (0..mx).contains(e)).map(|e| e as u32).collect();
        v.extend([0, 1, clip(mx - 1), clip(mx - 2)]);
        v.sort();
        v.dedup();
        v
    };
    let near = |ex: u32, ey: u32| {
        let tg = ex as i32 + ey as i32 - b;
        let mut v = vec![];
        for c in [tg - 2 * p, tg - p, tg, tg + p, 0] {
            for d in -2..=2 {
                if (0..mx).contains(&(c + d)) {
                    v.push((c + d) as u32);
                }
            }
        }
        v.sort();
        v.dedup();
        v
    };
    if f.sb == 10 {
        t.grid(ctx, "all exponents", &(0..=31u32).flat_map(|x| (0..=31u32).map(move |y| (x, y))).collect::<Vec<_>>(), &|_, _| (0..=31).collect(), &sigs(10, if th { 10 } else { 5 }), &sigs(10, if th { 12 } else { 5 }));
    }
    let k = if f.sb > 60 { 5 } else { 6 };
    t.grid(ctx, "product exponents x wide window", &exy, &window, &sigs(f.sb, if th { 9 } else { k }), &sigs(f.sb, if th { 9 } else { 4 }));
    t.grid(ctx, "product exponents x close window", &exy, &near, &sigs(f.sb, if th { 16 } else { 9 }), &sigs(f.sb, if th { 16 } else { 9 }));
    // Cancellation: z is the negated rounded product, or a neighbour of it.
    let s = if th && f.sb < 30 { sig_runs(f.sb) } else if th { dedup(sigs(f.sb, 16).into_iter().chain(sig_small(f.sb)).chain((0..f.sb).flat_map(|i| [1 << i, (1 << i) - 1])).collect()) } else { dedup(sigs(f.sb, 16).into_iter().chain(sig_small(f.sb)).chain((0..f.sb).step_by(3).map(|i| 1 << i)).collect()) };
    ctx.par(&format!("{name} cancellation"), exy.len() as u64, |i, w| {
        w.func(name);
        let (ex, ey) = exy[i as usize];
        for &x in &s {
            for &y in &s {
                let (x, y) = (f.make(false, ex, x), f.make(true, ey, y));
                let (r, _) = f.mul(x, y);
                if f.exp_field(r) == f.emax() {
                    continue;
                }
                let a = r & f.absmask();
                for d in [0u128, 1, 2, 3] {
                    t.case(w, x, y, a + d);
                    t.case(w, x, y, a.saturating_sub(d));
                }
                // half of the product
                t.case(w, x, y, a.saturating_sub(1 << f.sb));
            }
        }
    });
    // Products just above or below a short bit pattern, so that everything hinges on their last bits.
    let mut xy: Vec<(u128, u128)> = vec![];
    let (top, full) = (1u128 << f.sb, 2u128 << f.sb);
    for c in 1..=if th { 400u128 } else { 60 } {
        // (2^(p-1) + u) (2^p - 2u + c) = 2^(2p-1) + c 2^(p-1) - 2u^2 + uc
        let u = (c << (f.sb - 1)).isqrt() + c / 4;
        for d in 0..9 {
            let u = (u + d).saturating_sub(4);
            if u < top && 2 * u >= c {
                xy.push((top + u, full - 2 * u + c));
            }
        }
    }
    for x in sig_grid(f.sb, if th { 14 } else { 12 }) {
        let x = x | top;
        // pattern / x rounded both ways, for patterns 2^(2p-1) * {1, 5/4, 3/2, 7/4}
        for k in 4..8u128 {
            let q = quot(k, 2 * f.sb - 1, x);
            for y in [q, q + 1] {
                let b = 128 - y.leading_zeros();
                let y = if b > f.sb + 1 { y >> (b - f.sb - 1) } else { y };
                if y >= top && y < full {
                    xy.push((x, y));
                }
            }
        }
    }
    xy.retain(|&(x, y)| x >= top && x < full && y >= top && y < full);
    ctx.par(&format!("{name} products beside short patterns"), xy.len() as u64, |i, w| {
        w.func(name);
        let (x, y) = xy[i as usize];
        let ex = b as u32 + 1;
        for ez in [b + p - 3, b + p - 2, b + p - 1, b + p, b + p + 1, b + p + 2, b + p + 3, b, b + 1, b + 2] {
            for mz in [0, 1, f.sigmask(), f.sigmask() - 1] {
                if ez < mx {
                    for s in 0..4 {
                        t.case(w, f.make(s & 1 == 1, ex, x & f.sigmask()), f.make(false, b as u32, y & f.sigmask()), f.make(s & 2 == 2, ez as u32, mz));
                    }
                }
            }
        }
        // the same in the subnormal range: product around half the smallest subnormal and above
        for tg in (-p - 3..=2).step_by(if i < 400 { 1 } else if th { 3 } else { 7 }) {
            let ey = b / 2;
            let ex = tg + b - ey;
            for (ez, mz) in [(0, 0), (0, 1), (0, 2), (0, f.sigmask()), (0, f.sigmask() - 1), (1, 0), (1, 1), (1, f.sigmask()), (2, 0), (2, 1)] {
                for s in 0..4 {
                    t.case(w, f.make(s & 1 == 1, ex.max(1) as u32, x & f.sigmask()), f.make(false, ey as u32, y & f.sigmask()), f.make(s & 2 == 2, ez as u32, mz));
                }
            }
        }
    });
    // Products that are a short pattern and a last few bits far below, against addends of every size.
    let hard = hard_products(f.sb + 1, if th { 12 } else { 9 }, 6);
    ctx.par(&format!("{name} products with a far last bit"), hard.len() as u64, |i, w| {
        w.func(name);
        let (x, y) = (hard[i as usize].0 & f.sigmask(), hard[i as usize].1 & f.sigmask());
        for tg in [b, 2 - p / 2, 2 - p, -2 * p + 2] {
            let ex = b / 2;
            let ey = tg + b - ex;
            if !(0..mx).contains(&ey) {
                continue;
            }
            for ez in (tg - 2 * p - 2..=tg + p + 2).filter(|e| (0..mx).contains(e)).step_by(if th { 1 } else { 1 + (i % 3) as usize }) {
                for mz in [0, 1, f.sigmask()] {
                    for s in [false, true] {
                        t.case(w, f.make(false, ex as u32, x), f.make(false, ey as u32, y), f.make(s, ez as u32, mz));
                    }
                }
            }
        }
    });
    // All triples of class-edge values: specials, signed zeros, limits.
    let mut v = vec![];
    for e in [0, 1, b as u32 - 1, b as u32, f.emax() - 1, f.emax()] {
        for m in [0, 1, f.sigmask(), 1 << (f.sb - 1)] {
            v.push(f.make(false, e, m));
            v.push(f.make(true, e, m));
        }
    }
    ctx.par(&format!("{name} specials"), v.len() as u64, |i, w| {
        w.func(name);
        for &y in &v {
            for &z in &v {
                t.case(w, v[i as usize], y, z);
            }
        }
    });
}

fn main() {
    run("C29", "exploration", |ctx| {
        ctx.rule("every build of the library; operand exponents chosen so that the product runs through the subnormal, normal and overflow edges x every exponent of the addend from far below to far above x significand sets whose products hit rounding midpoints; cancellation with every neighbour of the rounded product; all triples of class-edge values; nontrivial = finite non-zero result");
        ctx.assume("reference: exact big-integer product and sum rounded once, compared with the processor's instruction on a subset");
        go(ctx, "fmaf16", F16, imps3!(fmaf16, f16, u16));
        go(ctx, "fmaf", F32, imps3!(fmaf, f32, u32));
        go(ctx, "fma", F64, imps3!(fma, f64, u64));
        go(ctx, "fmaf128", F128, imps3!(fmaf128, f128, u128));
        if std::arch::is_x86_feature_detected!("fma") {
            let hwf: Imps3 = vec![("processor", Box::new(|x, y, z| hw_fma(f64::from_bits(x as u64), f64::from_bits(y as u64), f64::from_bits(z as u64)).to_bits() as u128))];
            let t = T { name: "reference self-check", f: F64, imps: &hwf };
            let e: Vec<(u32, u32)> = [(1, 1000), (500, 530), (1023, 1023), (0, 1023), (2046, 1023), (1, 970)].to_vec();
            t.grid(ctx, "", &e, &|_, _| (0..2047).step_by(7).collect(), &sigs(52, 5), &sigs(52, 5));
        }
    })
}

fn hw_fma(a: f64, b: f64, c: f64) -> f64 {
    #[target_feature(enable = "fma")]
    unsafe fn go(a: f64, b: f64, c: f64) -> f64 {
        use std::arch::x86_64::*;
        _mm_cvtsd_f64(_mm_fmadd_sd(_mm_set_sd(a), _mm_set_sd(b), _mm_set_sd(c)))
    }
    unsafe { go(a, b, c) }
}
