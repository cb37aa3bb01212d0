//! C37: trigonometric functions.
use vh::alpha::*;
use vh::ctx::Ctx;
use vh::hp::*;
use vh::rf::*;
use vh::{builds, pio2, run, spec};

/// Multiples of pi/4 with their nearest neighbours.
fn multiples(f: &Fmt, n: u64, around: i64) -> Vec<u128> {
    let mut v = vec![];
    for k in 1..=n {
        let p = k as f64 * std::f64::consts::FRAC_PI_4;
        let x = if f.sb == 23 { (p as f32).to_bits() as i64 } else { p.to_bits() as i64 };
        for d in -around..=around {
            v.push((x + d) as u128);
        }
    }
    v
}

/// The hardest operands of every exponent, with their neighbours and their halves and doubles.
fn hardest(f: &Fmt, around: i64) -> Vec<u128> {
    let t = if f.sb == 23 { pio2::F32 } else { pio2::F64 };
    let sg = 1u128 << (f.bits() - 1);
    let mut v = vec![];
    for &(m, e) in t {
        for s in -3..=3 {
            let x = f.round128(false, m as u128, e + s);
            if x >= f.inf(false) {
                continue;
            }
            for d in -around..=around {
                let y = ((x as i64 + d).max(0) as u128).min(f.inf(false));
                v.push(y);
                v.push(y | sg);
            }
        }
    }
    dedup(v)
}

fn go(ctx: &Ctx, s: &Spec) {
    let t = ctx.thorough;
    s.with(|u| {
        s.standard(ctx, u);
        if s.f.sb == 52 || !t {
            u.list(ctx, "nearest to multiples of pi/2, every exponent", &hardest(&s.f, if t { 40 } else { 4 }));
            u.list(ctx, "multiples of pi/4", &multiples(&s.f, if t { 1 << 22 } else { 1 << 17 }, 2));
        }
        if s.f.sb == 52 {
            // The whole range of the large-argument reduction with many quadrants.
            u.grid(ctx, "large exponents x prefixes", &exps_all(&s.f)[1023 + 18..], &sig_grid(52, if t { 13 } else { 9 }));
        }
    });
}

/// The reduction of large arguments with the table of digits used where pointers have 32 bits: same quadrant, same
/// remainder as with the longer table.
#[cfg(feature = "bare")]
fn narrow(ctx: &Ctx) {
    use cb_bare::pio2::{p32, p64};
    let t = ctx.thorough;
    let s = dedup([sig_runs(52), sig_grid(52, if t { 13 } else { 9 })].concat());
    let mut v: Vec<u128> = vec![];
    for e in 1023 + 18..2047u128 {
        v.extend(s.iter().map(|s| e << 52 | s));
    }
    v.extend(hardest(&F64, if t { 40 } else { 4 }).into_iter().filter(|x| x >> 63 == 0 && (x >> 52) >= 1023 + 18 && x >> 52 < 2047));
    let name = "sin, cos, tan (digits of 2/pi for 32-bit pointers)";
    ctx.par(name, v.len().div_ceil(4096) as u64, |i, w| {
        w.func(name);
        for &x in v.iter().skip(i as usize * 4096).take(4096) {
            w.args([x as u64]);
            let e0 = (x >> 52) as i32 - (0x3ff + 23);
            let mut z = f64::from_bits((x as u64 & (1 << 52) - 1) | (0x3ff + 23) << 52);
            let mut d = [0f64; 3];
            for d in &mut d {
                *d = z.trunc();
                z = (z - *d) * 16777216.0;
            }
            let n = d.iter().rposition(|&d| d != 0.0).unwrap() + 1;
            for prec in 0..=1 {
                let (mut a, mut b) = ([0f64; 3], [0f64; 3]);
                let p = p32::rem_pio2_large(&d[..n], &mut a, e0, prec);
                let q = p64::rem_pio2_large(&d[..n], &mut b, e0, prec);
                let (a, b) = (a.map(f64::to_bits), b.map(f64::to_bits));
                if (p, a) != (q, b) {
                    w.fail(name, &format!("{:#x} (precision {prec})", x), &format!("quadrant {q}, remainder {b:x?} as with the longer table"), &format!("quadrant {p}, remainder {a:x?}"));
                }
            }
            w.done(true);
        }
    });
}

fn main() {
    run("C37", "exploration", |ctx| {
        ctx.rule("every build; binary32: all 2^32 patterns, every third for sincosf (thorough), every 31st or 61st pattern plus all exponents x run significands (quick); binary64: all exponents x run and prefix significands, exponents near 1 x all long prefixes, per exponent the operands nearest to a multiple of pi/2 (continued fractions) with neighbours and scaled forms, the first multiples of pi/4 with neighbours, neighbours of branch limits; sincos judged as two functions; the table of digits of 2/pi for 32-bit pointers against the longer one for all large exponents x prefixes and the hardest operands; nontrivial = finite non-zero result");
        ctx.assume("bounds count representable values from the correctly rounded result, zero or infinite results are accepted only where a true value within that relative error rounds to them; reference: the system's math library one format wider, GNU MPFR on any disagreement");
        let pi = std::f64::consts::PI;
        let mut p: Vec<f64> = (1..=40).map(|k| k as f64 * pi / 4.0).collect();
        p.extend([0.0, 2f64.powi(-26), 2f64.powi(-27), 2f64.powi(-28), 2f64.powi(-12), 2f64.powi(-13), 0.3, 0.78125, 0.6744, 0.67434, 1.0, (1u64 << 20) as f64 * pi / 2.0, 2f64.powi(28) * pi / 2.0, 2f64.powi(28), f32::MAX as f64, f64::MAX, 8388608.0, 9007199254740992.0]);
        let (sin, cos, tan) = (Fun1::new("sin", "sin"), Fun1::new("cos", "cos"), Fun1::new("tan", "tan"));
        let (e32, e64) = ((-14, 10), (-28, 12));
        go(ctx, &spec!(sinf, f32, u32, F32, 1, 1, &sin, Some(true), e32, p.clone()).step(31, 1));
        go(ctx, &spec!(sin, f64, u64, F64, 1, 1, &sin, Some(true), e64, p.clone()).step(31, 1));
        go(ctx, &spec!(cosf, f32, u32, F32, 1, 1, &cos, Some(false), e32, p.clone()).step(31, 1));
        go(ctx, &spec!(cos, f64, u64, F64, 1, 1, &cos, Some(false), e64, p.clone()).step(31, 1));
        go(ctx, &spec!(tanf, f32, u32, F32, 1, 1, &tan, Some(true), e32, p.clone()).step(31, 1));
        go(ctx, &spec!(tan, f64, u64, F64, 1, 1, &tan, Some(true), e64, p.clone()).step(31, 1));
        macro_rules! half {
            ($n:ident $t:ident $u:ident $f:ident $what:literal $i:tt $r:expr, $odd:expr, $e:expr) => {{
                let mut imps: Vec<(&'static str, Box<dyn Fn(u128) -> u128 + Sync>, u128)> = vec![];
                for (b, g) in builds!($n, fn($t) -> ($t, $t)) {
                    imps.push((b, Box::new(move |x| g($t::from_bits(x as $u)).$i.to_bits() as u128), 1));
                }
                go(ctx, &Spec { name: $what, f: $f, imps, r: $r, odd: Some($odd), dense: $e, points: p.clone(), step: (61, 3), allow: None });
            }};
        }
        half!(sincosf f32 u32 F32 "sincosf.0" 0 &sin, true, e32);
        half!(sincosf f32 u32 F32 "sincosf.1" 1 &cos, false, e32);
        half!(sincos f64 u64 F64 "sincos.0" 0 &sin, true, e64);
        half!(sincos f64 u64 F64 "sincos.1" 1 &cos, false, e64);
        #[cfg(feature = "bare")]
        narrow(ctx);
    })
}
