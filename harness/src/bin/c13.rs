//! C13: integer powers.
#![feature(f16, f128)]
use vh::alpha::*;
use vh::bf::BF;
use vh::fl::*;
use vh::rf::*;
use vh::{Ctx, run};
use std::cmp::Ordering;

/// Largest finite value of a format, as a BF.
fn maxv(f: &Fmt) -> BF {
    BF::of(f, f.inf(false) - 1)
}
fn two(e: i64) -> BF {
    BF::new(false, U::from(1), e)
}

/// Judge `got` = powi(a, n) for finite non-zero a and n != 0.
fn judge(f: &Fmt, a: u128, n: i32, got: u128) -> Result<(), String> {
    let k = n.unsigned_abs();
    let V::Fin(s, m, e) = f.unpack(a) else { unreachable!() };
    let neg = s && k & 1 == 1;
    if f.is_nan(got) || f.sign(got) != neg {
        return Err(format!("sign {} and not NaN", if neg { '-' } else { '+' }));
    }
    // Exact positive power?
    let tz = m.trailing_zeros();
    let (odd, oe) = (m >> tz, e as i64 + tz as i64);
    let mut exact: Option<(u128, i64)> = Some((1, 0));
    if odd == 1 {
        exact = Some((1, oe * k as i64));
    } else if k as u64 * (127 - odd.leading_zeros()) as u64 > 120 {
        exact = None;
    } else {
        for _ in 0..k {
            exact = exact.map(|(p, q)| (p * odd, q + oe));
        }
        exact = exact.filter(|p| p.0 >> (f.sb + 1) == 0);
    }
    if let Some((p, q)) = exact {
        // representable without rounding?
        let top = q + (127 - p.leading_zeros()) as i64;
        if q >= f.emin() as i64 && top <= f.bias() as i64 {
            let pos = f.round128(neg, p, q as i32);
            let want = if n > 0 { pos } else { f.div(f.one(), pos).0 };
            return if want == got { Ok(()) } else { Err(hex(f, want)) };
        }
    }
    let p = BF::of(f, a & f.absmask()).powi(k);
    let max = maxv(f);
    // relative error of the positive power: every one of the at most 2*32 roundings is amplified at most k-fold
    // in total, (1+u)^(2k) - 1 < 2k u (1 + ..) ; below we use 3k u.
    let rel = (k as f64) * 3.0 * 2f64.powi(-(f.sb as i32) - 1);
    if rel > 0.25 {
        return Ok(());
    }
    let relb = |r: f64, x: &BF| {
        // r * |x| as BF (r > 0)
        let b = r.to_bits();
        x.mul(&BF::new(false, U::from((b & ((1 << 52) - 1) | 1 << 52) as u128), (b >> 52) as i64 - 1075))
    };
    let minsub = two(f.emin() as i64);
    let g = BF::of(f, got);
    let lp = p.log2();
    if n > 0 {
        let hi = lp + (1.0 + rel).log2();
        let lo = lp + (1.0 - rel).log2();
        let lmax = f.bias() as f64 + 1.0;
        if f.is_inf(got) {
            return if hi >= lmax - 2f64.powi(-(f.sb as i32).min(40)) { Ok(()) } else { Err(format!("finite, about 2^{lp}")) };
        }
        if lo > lmax + 1e-9 {
            return Err("infinity".into());
        }
        let tol = relb(rel, &p);
        let d = g.dist_abs(&p);
        let tol2 = minsub.mul(&BF::new(false, U::from(64), 0));
        if d.cmp_abs(&tol) == Ordering::Greater && d.cmp_abs(&tol2) == Ordering::Greater {
            return Err(format!("about 2^{lp}, relative error at most {rel:e}"));
        }
        return Ok(());
    }
    // negative exponent: reciprocal of the positive power
    if lp + (1.0 + rel).log2() >= f.bias() as f64 + 1.0 - 2f64.powi(-(f.sb as i32).min(40)) {
        // the positive power may overflow: 0 is its reciprocal; otherwise tiny
        if got & f.absmask() == 0 {
            return Ok(());
        }
        if lp + (1.0 - rel).log2() > f.bias() as f64 + 1.0 + 1e-9 {
            return Err("zero".into());
        }
    }
    // subnormal intermediate results lose up to 64 least subnormals
    let rel = rel + 64.0 * 2f64.powf((f.emin() as f64 - lp).clamp(-1000.0, 100.0)) + 2f64.powi(-(f.sb as i32));
    if rel > 0.25 {
        return Ok(());
    }
    let r = p.recip();
    if f.is_inf(got) {
        return if -lp + rel * 1.5 >= f.bias() as f64 + 1.0 - 1e-9 { Ok(()) } else { Err(format!("finite, about 2^{}", -lp)) };
    }
    if -lp - rel * 2.0 > f.bias() as f64 + 1.0 + 1e-9 {
        return Err("infinity".into());
    }
    let d = g.dist_abs(&r);
    if d.cmp_abs(&relb(rel * 1.5, &r)) == Ordering::Greater && d.cmp_abs(&minsub) == Ordering::Greater {
        return Err(format!("about 2^{}, relative error at most {rel:e}", -lp));
    }
    let _ = max;
    Ok(())
}

fn check(ctx: &Ctx, name: &'static str, f: Fmt, imp: &(dyn Fn(u128, i32) -> u128 + Sync), bases: &[u128], exps: &[i32]) {
    ctx.par(name, bases.len() as u64, |i, w| {
        w.func(name);
        let a = bases[i as usize];
        for &n in exps {
            w.args([a as u64, (a >> 64) as u64, n as i64 as u64]);
            let g = imp(a, n);
            let odd = n & 1 == 1;
            let special = |want: u128| if same(&f, want, g) { Ok(()) } else { Err(hex(&f, want)) };
            let r = match f.unpack(a) {
                _ if n == 0 => special(f.one()),
                V::Nan => special(f.nan()),
                V::Inf(s) => special(if n > 0 { f.inf(s && odd) } else { f.zero(s && odd) }),
                V::Zero(s) => special(if n > 0 { f.zero(s && odd) } else { f.inf(s && odd) }),
                _ => judge(&f, a, n, g),
            };
            if let Err(want) = r {
                w.fail(name, &format!("{}, {n}", hex(&f, a)), &want, &hex(&f, g));
            }
            w.done(n != 0 && rounded(&f, g));
        }
        w.sample(|| format!("{name}: {} with {} exponents", hex(&f, a), exps.len()));
    });
}

fn bases(f: &Fmt, t: bool) -> Vec<u128> {
    let b = f.bias() as u32;
    let mut e = exps_edge(f, 1);
    e.extend(b - 5..b + 6);
    let mut v = values(f, &e, &sig_small(f.sb));
    if t {
        v.extend(values(f, &[b - 1, b], &sig_runs(f.sb)));
    }
    // neighbours of one
    for d in 0..(if t { 200 } else { 20 }) {
        v.push(f.one() + d);
        v.push(f.one() - d);
    }
    for k in 1..f.sb {
        v.push(f.one() + (1 << k));
        v.push(f.one() - (1 << k));
    }
    // small integers and their halves
    for i in 1..64u128 {
        for e in [0, -1, -3] {
            v.push(f.round128(i & 1 == 1, i, e));
            v.push(f.round128(false, i, e));
        }
    }
    dedup(v)
}

fn main() {
    run("C13", "exploration", |ctx| {
        ctx.rule("bases: class-edge exponents x significand alphabet x signs, neighbours of 1, small integers; exponents: all of -N..N plus powers of two, neighbours, run patterns and the extremes; the routine must be exact where the power is exact, otherwise within the repeated-multiplication error of a 256-bit reference; nontrivial = finite non-zero result");
        let t = ctx.thorough;
        let n = if t { 2100 } else { 300 };
        let mut e: Vec<i32> = (-n..=n).collect();
        for i in 0..31 {
            for d in [-1i32, 0, 1] {
                e.push((1i32 << i) + d);
                e.push(-((1i32 << i) + d));
            }
        }
        e.extend([i32::MIN, i32::MIN + 1, i32::MIN + 2, i32::MAX, i32::MAX - 1, 0x5555_5555, -0x5555_5555, 0x2aaa_aaaa, 1000, -1000, 1074, -1074, 1075, -1075, 16494, -16494, 16383, 16384, -16383, -16384]);
        e.extend(ints_runs(32).into_iter().map(|x| x as u32 as i32));
        e.sort();
        e.dedup();
        use compiler_builtins::float::pow::*;
        let i32_ = |a: u128, n: i32| __powisf2(f32::from_bits(a as u32), n).to_bits() as u128;
        let i64_ = |a: u128, n: i32| __powidf2(f64::from_bits(a as u64), n).to_bits() as u128;
        let i128_ = |a: u128, n: i32| __powitf2(f128::from_bits(a), n).to_bits();
        check(ctx, "__powisf2", F32, &i32_, &bases(&F32, t), &e);
        check(ctx, "__powidf2", F64, &i64_, &bases(&F64, t), &e);
        check(ctx, "__powitf2", F128, &i128_, &bases(&F128, t), &e);
        #[cfg(feature = "inc")]
        check(ctx, "armish::__powikf2", F128, &|a, n| armish::float::pow::__powikf2(f128::from_bits(a), n).to_bits(), &bases(&F128, false)[..200], &e[..200]);
    })
}
