//! C33: frexp, modf, ilogb, scalbn, ldexp.
#![feature(f16, f128)]
use vh::alpha::*;
use vh::fl::*;
use vh::lm::*;
use vh::rf::*;
use vh::{Ctx, builds, run};

/// x = m * 2^e with m in [1/2, 1): (pattern of m, e). Zero, infinity, NaN: unchanged.
fn frexp(f: &Fmt, x: u128) -> (u128, Option<i32>) {
    let a = x & f.absmask();
    if a == 0 {
        return (x, Some(0));
    }
    if f.exp_field(x) == f.emax() {
        return (x, None);
    }
    let V::Fin(s, m, e) = f.unpack(x) else { unreachable!() };
    let n = 128 - m.leading_zeros() as i32;
    (f.round128(s, m, -n), Some(e + n))
}

fn scalbn(f: &Fmt, x: u128, n: i32) -> u128 {
    match f.unpack(x) {
        V::Fin(s, m, e) => f.round128(s, m, (e as i64 + n as i64).clamp(-100_000, 100_000) as i32),
        V::Nan => f.nan(),
        _ => x,
    }
}

/// Exponents n: everything that can reach a different regime, then a ladder to the ends of i32.
fn ns(f: &Fmt, th: bool) -> Vec<i32> {
    let r = 2 * f.emax() as i32 + 3 * f.sb as i32;
    let mut v: Vec<i32> = match f.sb {
        10 | 23 => (-r..=r).collect(),
        52 => (-r..=r).step_by(if th { 1 } else { 5 }).collect(),
        _ => (-r..=r).step_by(if th { 61 } else { 331 }).collect(),
    };
    let (mx, p) = (f.bias(), f.sb as i32 + 1);
    for k in -5..=5 {
        for c in [mx, p, 2 * mx, mx + p, 2 * mx + p, 3 * mx, 3 * mx + p, mx - p, 2 * (mx - p), 3 * (mx - p), 4 * mx] {
            v.push(c + k);
            v.push(-c + k);
        }
    }
    for b in 4..31 {
        for d in -1..=1 {
            v.push((1 << b) + d);
            v.push(-(1 << b) + d);
        }
    }
    v.extend([i32::MAX, i32::MAX - 1, i32::MIN, i32::MIN + 1, i32::MIN + 2]);
    v.extend((0..40).map(|k| i32::MAX - k * f.bias()).chain((0..40).map(|k| i32::MIN + k * f.bias())));
    v.sort();
    v.dedup();
    v
}

fn scale(ctx: &Ctx, name: &'static str, f: Fmt, imps: &[(&'static str, Box<dyn Fn(u128, i32) -> u128 + Sync>)]) {
    let th = ctx.thorough;
    let ns = ns(&f, th);
    let one = |w: &mut vh::Worker, x: u128, n: i32| {
        w.args([x as u64, (x >> 64) as u64, n as u64]);
        let r = scalbn(&f, x, n);
        for (b, imp) in imps {
            let g = imp(x, n);
            if !same(&f, g, r) {
                w.fail(name, &format!("{}, {n}", hex(&f, x)), &hex(&f, r), &format!("{} ({b})", hex(&f, g)));
                break;
            }
        }
        w.done(rounded(&f, r));
    };
    let vals: Vec<u128> = match f.sb {
        10 => (0..1 << 16).collect(),
        23 => values(&f, &exps_all(&f), &if th { sig_runs(23) } else { sig_small(23)[..7].to_vec() }),
        52 => values(&f, &if th { exps_all(&f) } else { exps_all(&f).into_iter().step_by(17).chain(exps_edge(&f, 2)).collect() }, &sig_small(52)[..if th { 7 } else { 6 }]),
        _ => values(&f, &(0..32768).step_by(if th { 83 } else { 709 }).chain(exps_edge(&f, 2)).collect::<Vec<_>>(), &sig_small(112)[..6]),
    };
    let vals: Vec<u128> = if f.sb == 10 && !th { vals.into_iter().filter(|x| x >> 15 == 0 || x % 9 == 0).collect() } else { vals };
    ctx.par(&format!("{name} values x exponents"), vals.len() as u64, |i, w| {
        w.func(name);
        for &n in &ns {
            one(w, vals[i as usize], n);
        }
    });
    // into the subnormal range: every target position x dense significands, from several starting exponents
    let dense = match f.sb {
        10 => (0..1024).collect(),
        23 => sig_allruns(23),
        _ if th => sig_allruns(f.sb),
        _ => sig_runs(f.sb),
    };
    let starts: Vec<u32> = exps_edge(&f, 0).into_iter().chain([f.emax() / 3, f.emax() * 2 / 3, f.sb, 2 * f.sb]).filter(|&e| e < f.emax()).collect();
    let mut tg: Vec<(u32, i32)> = starts.iter().flat_map(|&e| (-(f.sb as i32) - 4..=3).map(move |t| (e, t - e as i32))).collect();
    // the same with every scale factor next to the least exponent and to twice that, where scaling goes in steps
    let emin = 2 - (f.emax() / 2 + 1) as i32;
    for c in [emin, 2 * emin + f.sb as i32, 2 * emin] {
        for n in c - 4..=c + 4 {
            tg.extend((-(f.sb as i32) - 4..=3).map(|t| (t - n, n)).filter(|&(e, _)| e > 0 && e < f.emax() as i32).map(|(e, n)| (e as u32, n)));
        }
    }
    ctx.par(&format!("{name} into the subnormal range"), tg.len() as u64, |i, w| {
        w.func(name);
        let (e, n) = tg[i as usize];
        for &m in &dense {
            one(w, f.make(false, e, m), n);
            one(w, f.make(true, e, m), n);
        }
    });
}

fn main() {
    run("C33", "exploration", |ctx| {
        ctx.rule("every build; one-argument functions: all patterns of binary16, of binary32 in the thorough tier, all exponents x significand alphabets otherwise; scaling: values over all or a ladder of exponents x every scale factor of the range that matters (binary16/32) or a ladder (binary64/128) plus the neighbourhood of every regime change and the ends of the 32-bit range; every position of the subnormal range x dense significands; nontrivial = finite non-zero result");
        macro_rules! f {
            ($f:ident $t:ident $u:ident $fr:ident $il:ident $sc:ident $ld:ident) => {
                let fr = builds!($fr, fn($t) -> ($t, i32));
                let case = |x: u128| {
                    let (r, e) = frexp(&$f, x);
                    for (b, imp) in fr {
                        let (g, n) = imp($t::from_bits(x as $u));
                        let g = g.to_bits() as u128;
                        if !same(&$f, g, r) || e.is_some_and(|e| e != n) {
                            return Err((format!("{}, {e:?}", hex(&$f, r)), format!("{}, {n} ({b})", hex(&$f, g))));
                        }
                    }
                    Ok(rounded(&$f, r))
                };
                Un { name: stringify!($fr), f: $f, case: &case }.plan(ctx, 2);
                let il = builds!($il, fn($t) -> i32);
                let case = |x: u128| {
                    let r = match $f.unpack(x) {
                        V::Nan | V::Zero(_) => i32::MIN,
                        V::Inf(_) => i32::MAX,
                        V::Fin(..) => frexp(&$f, x).1.unwrap() - 1,
                    };
                    for (b, imp) in il {
                        let g = imp($t::from_bits(x as $u));
                        if g != r {
                            return Err((r.to_string(), format!("{g} ({b})")));
                        }
                    }
                    Ok(true)
                };
                Un { name: stringify!($il), f: $f, case: &case }.plan(ctx, 2);
                macro_rules! go {
                    ($n:ident) => {
                        let imps: Vec<(&'static str, Box<dyn Fn(u128, i32) -> u128 + Sync>)> = builds!($n, fn($t, i32) -> $t).into_iter().map(|(b, i)| (b, Box::new(move |x: u128, n: i32| i($t::from_bits(x as $u), n).to_bits() as u128) as Box<dyn Fn(u128, i32) -> u128 + Sync>)).collect();
                        scale(ctx, stringify!($n), $f, &imps);
                    };
                }
                go!($sc);
                go!($ld);
            };
        }
        f!(F16 f16 u16 frexpf16 ilogbf16 scalbnf16 ldexpf16);
        f!(F32 f32 u32 frexpf ilogbf scalbnf ldexpf);
        f!(F64 f64 u64 frexp ilogb scalbn ldexp);
        f!(F128 f128 u128 frexpf128 ilogbf128 scalbnf128 ldexpf128);
        macro_rules! m {
            ($n:ident $f:ident $t:ident $u:ident) => {
                let imps = builds!($n, fn($t) -> ($t, $t));
                let case = |x: u128| {
                    let i = to_int(&$f, x, Mode::Trunc);
                    let s = $f.sign(x);
                    let fr = match $f.unpack(x) {
                        V::Nan => $f.nan(),
                        V::Inf(_) => $f.zero(s),
                        _ => {
                            // exact difference; a zero keeps the sign of x
                            let d = $f.add(x, $f.neg(i)).0;
                            if d & $f.absmask() == 0 { $f.zero(s) } else { d }
                        }
                    };
                    for (b, imp) in imps {
                        let (g, h) = imp($t::from_bits(x as $u));
                        let (g, h) = (g.to_bits() as u128, h.to_bits() as u128);
                        if !same(&$f, g, fr) || !same(&$f, h, i) {
                            return Err((format!("{}, {}", hex(&$f, fr), hex(&$f, i)), format!("{}, {} ({b})", hex(&$f, g), hex(&$f, h))));
                        }
                    }
                    Ok(rounded(&$f, fr))
                };
                Un { name: stringify!($n), f: $f, case: &case }.plan(ctx, 1);
            };
        }
        m!(modff F32 f32 u32);
        m!(modf F64 f64 u64);
    })
}
