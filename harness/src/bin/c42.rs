//! C42: Bessel functions.
use vh::alpha::*;
use vh::ctx::Ctx;
use vh::fl::{Un, hex};
use vh::hp::*;
use vh::rf::*;
use vh::{imps1, lm, run};

const TOL01: f64 = 4.0;

fn val(f: &Fmt, x: u128) -> f64 {
    if f.sb == 23 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) }
}

/// Is `g` within `tol` units of the last place of the envelope?
fn within(f: &Fmt, g: f64, t: f64, other: f64, x: f64, n: f64, tol: f64) -> bool {
    let (eps, tiny, max) = if f.sb == 23 { (f32::EPSILON as f64, 2f64.powi(-149), f32::MAX as f64) } else { (f64::EPSILON, 2f64.powi(-1074), f64::MAX) };
    if t.is_nan() || g.is_nan() {
        return t.is_nan() && g.is_nan();
    }
    if g.is_infinite() || t.abs() > max {
        // overflow happens within the bound of the largest number
        return g * t > 0.0 && g.abs() >= max * (1.0 - tol * eps) && t.abs() >= max * (1.0 - tol * eps);
    }
    let env = if x.abs() > n.max(0.5) && other.is_finite() { t.hypot(other) } else { t.abs() };
    (g - t).abs() <= tol * eps * env + 2.0 * tiny
}

struct B<'a> {
    f: Fmt,
    n: i32,
    /// reference for this function and for the other kind
    r: &'a dyn Fn(u128) -> (f64, f64),
    slow: &'a dyn Fn(f64) -> (f64, f64),
    second: bool,
}

/// Judges one result; None if it is right.
fn judge(b: &B, x: u128, g: u128) -> Option<(String, String)> {
    let f = &b.f;
    let (xv, gv) = (val(f, x), val(f, g));
    let n = b.n.unsigned_abs() as f64;
    let tol = if n < 2.0 { TOL01 } else { 16.0 + n };
    if xv.is_nan() {
        return (!gv.is_nan()).then(|| ("NaN".into(), hex(f, g)));
    }
    if b.second && xv < 0.0 {
        return (!gv.is_nan()).then(|| ("NaN".into(), hex(f, g)));
    }
    if b.second && xv == 0.0 {
        let e = if b.n < 0 && b.n % 2 != 0 { f64::INFINITY } else { f64::NEG_INFINITY };
        return (gv != e).then(|| (format!("{e}"), hex(f, g)));
    }
    if xv.is_infinite() {
        return (gv != 0.0).then(|| ("0".into(), hex(f, g)));
    }
    let (t, o) = (b.r)(x);
    if within(f, gv, t, o, xv, n, tol) {
        return None;
    }
    let (t, o) = (b.slow)(xv);
    (!within(f, gv, t, o, xv, n, tol)).then(|| (format!("{t:e} within {tol} units of the envelope"), format!("{gv:e}")))
}

fn order01(ctx: &Ctx, name: &'static str, f: Fmt, imps: lm::Imps, n: i32, second: bool, r: &Fun1, other: &Fun1) {
    let t = ctx.thorough;
    let sg = 1u128 << (f.bits() - 1);
    let case = |x: u128| {
        let fast = |x: u128| {
            let x = val(&f, x).to_bits() as u128;
            (f64::from_bits(r.fast(&F64, x) as u64), f64::from_bits(other.fast(&F64, x & F64.absmask()) as u64))
        };
        let slow = |x: f64| (r.slow(x).f64(), other.slow(x.abs()).f64());
        let b = B { f, n, r: &fast, slow: &slow, second };
        let mut last = None;
        for (build, imp) in &imps {
            let g = imp(x);
            if last != Some(g) {
                if let Some((e, g)) = judge(&b, x, g) {
                    return Err((e, format!("{g} ({build})")));
                }
            }
            if !second {
                let h = imp(x ^ sg);
                let e = if n == 1 { g ^ sg } else { g };
                if h != e && !(f.is_nan(h) && f.is_nan(e)) && f.exp_field(x) != f.emax() {
                    return Err((format!("{} by parity", hex(&f, e)), format!("{} at the negative ({build})", hex(&f, h))));
                }
            }
            last = Some(g);
        }
        Ok(x & sg == 0 || !second)
    };
    let u = Un { name, f, case: &case };
    if f.sb == 23 {
        u.below(ctx, "all non-negative bit patterns", 1 << 31, if t { 5 } else { 211 });
        u.list(ctx, "negative numbers", &exps_all(&f).into_iter().flat_map(|e| sig_runs(23).into_iter().map(move |s| F32.make(true, e, s))).collect::<Vec<_>>());
    }
    u.grid(ctx, "all exponents x runs", &exps_all(&f), &if t && f.sb == 23 { sig_allruns(f.sb) } else { sig_runs(f.sb) });
    if f.sb == 52 {
        let b = f.bias() as u32;
        u.grid(ctx, "moderate exponents x prefixes", &(b - 30..b + 20).collect::<Vec<_>>(), &sig_grid(52, if t { 17 } else { 11 }));
        u.grid(ctx, "all exponents x short prefixes", &exps_all(&f), &sig_grid(52, if t { 9 } else { 3 }));
    }
    // Zeros, extrema and branch limits.
    let mut v = vec![];
    let p = std::f64::consts::PI;
    for k in 1..if t { 20_000 } else { 1000 } {
        for h in 0..4 {
            v.push((k as f64 + h as f64 / 4.0) * p);
        }
    }
    let n0 = v.len();
    v.extend([2.0, 8.0, 4.5454545454, 2.857142857, 2.404825557695773, 5.520078110286311, 0.8935769662791675, 2.197141326031017, 3.831705970207512, 2f64.powi(-13), 2f64.powi(-27), 2f64.powi(-54), 2f64.powi(129), 2f64.powi(28), 1.0, 2f64.powi(-127), f64::MIN_POSITIVE, f32::MIN_POSITIVE as f64, f64::MAX, f32::MAX as f64]);
    let mut l = vec![];
    for (i, &x) in v.iter().enumerate() {
        let x = if f.sb == 23 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 };
        for d in 0..if i < n0 { 3 } else { 1000 } {
            l.push((x + d).min(f.inf(false)));
            l.push(x.saturating_sub(d));
        }
    }
    u.list(ctx, "neighbours of special points", &dedup(l));
}

type ImpN = Vec<(&'static str, Box<dyn Fn(i32, u128) -> u128 + Sync>)>;

fn order_n(ctx: &Ctx, name: &'static str, f: Fmt, imps: ImpN, second: bool, r: &FunN, other: &FunN) {
    let t = ctx.thorough;
    let sg = 1u128 << (f.bits() - 1);
    let b = f.bias() as u32;
    let mut orders: Vec<i32> = if t { (0..=200).collect() } else { (0..=40).chain([50, 64, 79, 80, 81, 100, 139, 140, 200]).collect() };
    let big = orders.len();
    orders.extend([300, 500, 1000]);
    let sigs = sig_grid(f.sb, if t { 9 } else { 6 });
    let edge = values(&f, &exps_edge(&f, 2), &sig_small(f.sb)[..6]);
    ctx.par(&format!("{name} orders x exponents x prefixes"), (orders.len() * 64) as u64, |i, w| {
        w.func(name);
        let n = orders[i as usize / 64];
        let part = i as usize % 64;
        let fast = |x: u128| (r.fast(&f, n, x), other.fast(&f, n, x & f.absmask()));
        let slow = |x: f64| (r.slow(n, x).f64(), other.slow(n, x.abs()).f64());
        let jb = B { f, n, r: &fast, slow: &slow, second };
        let mut one = |x: u128| {
            w.args([n as u64, x as u64]);
            let mut last = None;
            for (build, imp) in &imps {
                let g = imp(n, x);
                if last != Some(g) {
                    if let Some((e, g)) = judge(&jb, x, g) {
                        w.fail(name, &format!("{n}, {}", hex(&f, x)), &e, &format!("{g} ({build})"));
                    }
                }
                last = Some(g);
                // negative order
                let flip = n % 2 != 0;
                let h = imp(-n, x);
                let e = if flip { g ^ sg } else { g };
                let zero = g & f.absmask() == 0 && h & f.absmask() == 0;
                if n != 0 && h != e && !(f.is_nan(h) && f.is_nan(e)) && !zero {
                    w.fail(name, &format!("{}, {}", -n, hex(&f, x)), &format!("{} by parity", hex(&f, e)), &format!("{} ({build})", hex(&f, h)));
                }
                if !second {
                    let h = imp(n, x ^ sg);
                    let zero = g & f.absmask() == 0 && h & f.absmask() == 0;
                    if h != e && !(f.is_nan(h) && f.is_nan(e)) && !zero {
                        w.fail(name, &format!("{n}, {}", hex(&f, x ^ sg)), &format!("{} by parity", hex(&f, e)), &format!("{} ({build})", hex(&f, h)));
                    }
                }
            }
            w.done(x & f.absmask() != 0 && x & sg == 0);
        };
        for e in (b - 40..b + 60).skip(part).step_by(64) {
            // orders beyond the tested range only where nothing overflows or underflows
            if i as usize / 64 >= big && e < b + 11 {
                continue;
            }
            for &s in &sigs {
                one(f.make(false, e, s));
            }
        }
        if (i as usize / 64) < big {
            for x in edge.iter().skip(part).step_by(64) {
                one(*x);
            }
            // around the order, where the recurrence changes direction
            let x = if f.sb == 23 { (n as f32).to_bits() as u128 } else { (n as f64).to_bits() as u128 };
            if n > 0 {
                for d in (0..600).skip(part).step_by(64) {
                    one(x + d);
                    one(x - d);
                    let d = d << (f.sb - 12);
                    one(x + d);
                    one(x - d);
                }
            }
        }
    });
}

macro_rules! impsn {
    (@ $c:ident $n:ident $t:ident $u:ident) => {
        Box::new(|n: i32, x: u128| $c::$n(n, $t::from_bits(x as $u)).to_bits() as u128)
    };
    ($n:ident, $t:ident, $u:ident) => {{
        let v: ImpN = vec![
            ("default build", impsn!(@ libm $n $t $u)),
            ("generic build", impsn!(@ libm_gen $n $t $u)),
        ];
        v
    }};
}

fn main() {
    run("C42", "exploration", |ctx| {
        ctx.rule("every build; orders 0 and 1: binary32 every fifth non-negative pattern (thorough) or every 211th, with its negative; both formats all exponents x run significands, binary64 moderate exponents x long prefixes, neighbours of multiples of pi/4 and of branch limits; orders 0 to 200 (a subset in the quick tier), 300, 500, 1000 and their negatives x exponents x prefix significands, class edges, neighbours of the order; nontrivial = positive operand");
        ctx.assume("the envelope is the modulus sqrt(J^2+Y^2) beyond the order and the true value below it; bound 4 units for orders 0 and 1, 16+n for order n");
        ctx.assume("the sign of a zero result is free");
        let (j0, j1, y0, y1) = (Fun1::new("j0", "j0"), Fun1::new("j1", "j1"), Fun1::new("y0", "y0"), Fun1::new("y1", "y1"));
        order01(ctx, "j0f", F32, imps1!(j0f, f32, u32), 0, false, &j0, &y0);
        order01(ctx, "j1f", F32, imps1!(j1f, f32, u32), 1, false, &j1, &y1);
        order01(ctx, "y0f", F32, imps1!(y0f, f32, u32), 0, true, &y0, &j0);
        order01(ctx, "y1f", F32, imps1!(y1f, f32, u32), 1, true, &y1, &j1);
        order01(ctx, "j0", F64, imps1!(j0, f64, u64), 0, false, &j0, &y0);
        order01(ctx, "j1", F64, imps1!(j1, f64, u64), 1, false, &j1, &y1);
        order01(ctx, "y0", F64, imps1!(y0, f64, u64), 0, true, &y0, &j0);
        order01(ctx, "y1", F64, imps1!(y1, f64, u64), 1, true, &y1, &j1);
        let (jn, yn) = (FunN::new("jn"), FunN::new("yn"));
        order_n(ctx, "jnf", F32, impsn!(jnf, f32, u32), false, &jn, &yn);
        order_n(ctx, "ynf", F32, impsn!(ynf, f32, u32), true, &yn, &jn);
        order_n(ctx, "jn", F64, impsn!(jn, f64, u64), false, &jn, &yn);
        order_n(ctx, "yn", F64, impsn!(yn, f64, u64), true, &yn, &jn);
    })
}
