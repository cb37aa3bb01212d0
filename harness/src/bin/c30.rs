//! C30: exact remainders.
#![feature(f16, f128)]
use vh::alpha::*;
use vh::fl::*;
use vh::lm::*;
use vh::rf::*;
use vh::{Ctx, builds, imps2, run};

/// (significand, exponent) of a finite non-zero pattern, in units of the last place.
fn parts(f: &Fmt, a: u128) -> (u128, i32) {
    match f.exp_field(a) {
        0 => (a & f.sigmask(), 1),
        e => (a & f.sigmask() | 1 << f.sb, e as i32),
    }
}

/// |x| mod 8|y| in units of y's last place, for |x| >= |y|'s unit.
fn mod8(f: &Fmt, (mx, ex): (u128, i32), (my, ey): (u128, i32)) -> u128 {
    let m8 = my << 3;
    let mut r = mx % m8;
    let mut n = ex - ey;
    let step = 127 - (f.sb as i32 + 4);
    while n > 0 {
        let s = n.min(step);
        r = (r << s) % m8;
        n -= s;
    }
    r
}

fn fmod(f: &Fmt, x: u128, y: u128) -> u128 {
    let (ax, ay) = (x & f.absmask(), y & f.absmask());
    let inf = f.inf(false);
    if ax >= inf || ay > inf || ay == 0 {
        return f.nan();
    }
    if ax < ay {
        return x;
    }
    let (px, py) = (parts(f, ax), parts(f, ay));
    let r = mod8(f, px, py) % py.0;
    // r * 2^(ey), exactly
    let e = py.1 - f.bias() - f.sb as i32;
    f.round128(f.sign(x), r, e)
}

/// IEEE remainder and the low three bits of the quotient's magnitude.
fn remquo(f: &Fmt, x: u128, y: u128) -> (u128, u32) {
    let (ax, ay) = (x & f.absmask(), y & f.absmask());
    let inf = f.inf(false);
    if ax >= inf || ay > inf || ay == 0 {
        return (f.nan(), 0);
    }
    if ax == 0 || ay == inf {
        return (x, 0);
    }
    let (px, py) = (parts(f, ax), parts(f, ay));
    // in units of the smaller exponent
    let u = px.1.min(py.1);
    let (r, y, q) = if px.1 >= py.1 {
        let r8 = mod8(f, px, py);
        (r8 % py.0, py.0, (r8 / py.0) as u32)
    } else {
        if py.1 - px.1 > f.sb as i32 + 2 {
            return (x, 0);
        }
        let y = py.0 << (py.1 - px.1);
        (px.0 % y, y, (px.0 / y) as u32)
    };
    let e = u - f.bias() - f.sb as i32;
    let s = f.sign(x);
    if 2 * r > y || 2 * r == y && q & 1 == 1 {
        (f.round128(!s, y - r, e), q + 1 & 7)
    } else {
        (f.round128(s, r, e), q & 7)
    }
}

fn plan(ctx: &Ctx, t: &Two, slow: u32) {
    let f = t.f;
    let th = ctx.thorough;
    let s = sig_small(f.sb);
    let p = f.sb as i32;
    match f.sb {
        10 => {
            let b = second16(th);
            let v: Vec<u128> = b.iter().map(|&x| x as u128).collect();
            if th {
                t.pairs(ctx, "all patterns x all non-negative patterns", &v, &(0..1 << 15).collect::<Vec<u128>>());
            } else {
                t.pairs(ctx, "all patterns x divisors", &(0..1 << 16).step_by(3).collect::<Vec<u128>>(), &v.iter().copied().filter(|x| x >> 15 == 0).step_by(2).collect::<Vec<_>>());
            }
        }
        23 => {
            t.grid(ctx, "all exponent pairs", &pairs_all(&f), if th { &s } else { &s[..8] }, if th { &s } else { &s[..8] });
            let r = sig_runs(23);
            t.grid(ctx, "close exponents, run significands", &(0..=26).map(|d| (100 + d, 100)).chain((0..4).map(|d| (d, 0))).chain([(100, 102), (100, 101)]).collect::<Vec<_>>(), &r, if th { &r } else { &r[..60] });
        }
        52 => {
            t.grid(ctx, "exponent differences at class edges", &pairs_diff(&f, if th { 130 } else { 70 }, 1), &s, &s);
            let far: Vec<(u32, u32)> = (0..2047).step_by(if th { 3 } else { 7 }).flat_map(|a| (0..=a).step_by(if th { 41 } else { 53 }).map(move |b| (a, b))).collect();
            t.grid(ctx, "far exponents", &far, &s[..6], &s[..if th { 10 } else { 5 }]);
            let r = sig_runs(52);
            t.grid(ctx, "close exponents, run significands", &(0..=3).map(|d| (1000 + d, 1000)).chain([(1000, 1001), (1054, 1000), (3, 0), (0, 0)]).collect::<Vec<_>>(), &r, if th { &r[..] } else { &r[..200] });
        }
        _ => {
            let mut e: Vec<(u32, u32)> = vec![];
            for a in [0i32, 1, 2, 113, 16383, 32766 - 114, 32766] {
                for d in (-3..=p + 3).chain([2 * p, 3 * p, 126, 128, 255, 512]) {
                    if a + d >= 0 && a + d < 32768 {
                        e.push(((a + d) as u32, a as u32));
                    }
                }
            }
            t.grid(ctx, "exponent differences at class edges", &e, &s[..18], &s[..if th { 19 } else { 16 }]);
            let far: Vec<(u32, u32)> = (0..32767).step_by(if th { 211 } else { 1009 }).flat_map(|a| (0..=a).step_by(if th { 509 } else { 1511 }).map(move |b| (a, b))).collect();
            t.grid(ctx, "far exponents", &far, &s[..4], &s[..5]);
        }
    }
    // half-way quotients: y and multiples (2k+1) y / 2, and their neighbours
    let ms: Vec<u128> = if th { sig_runs(f.sb) } else { s.clone() };
    let mut v = vec![];
    for &m in &ms {
        for e in [f.bias() as u32, 1, 2, f.emax() / 3, f.emax() - 6] {
            let y = f.make(false, e, m);
            for k in 1..(if th { 40u128 } else { 18 }) {
                let (n, d) = (k * (m | 1 << f.sb), e as i32 - f.bias() - f.sb as i32 - 1);
                let x = f.round128(false, n, d);
                for d in [0u128, 1, 2] {
                    v.push((x + d, y));
                    v.push((x.saturating_sub(d), y));
                    v.push((x + d | 1 << (f.bits() - 1), y));
                }
            }
        }
    }
    t.list(ctx, "multiples of half the divisor", &v);
    let e: Vec<u128> = values(&f, &exps_edge(&f, 0), &s[..(16 >> slow).min(s.len())]);
    let far = f.sb > 60 && !th;
    t.pairs(ctx, "class edges", &e, &if far { e.iter().copied().step_by(3).collect::<Vec<_>>() } else { e.clone() });
}

fn main() {
    run("C30", "exploration", |ctx| {
        ctx.rule("every build; all exponent pairs (binary16/32) or every small and a ladder of large exponent differences (binary64/128) x significand alphabets x signs; every multiple of half the divisor and its neighbours; class edges against each other; binary16 thorough: all dividends x all divisors; nontrivial = finite non-zero remainder");
        ctx.assume("reference: integer arithmetic on significands, powers of two reduced modulo eight times the divisor");
        macro_rules! fm {
            ($n:ident $f:ident $t:ident $u:ident $s:expr) => {{
                let imps = imps2!($n, $t, $u);
                let o = |x, y| fmod(&$f, x, y);
                let c = binary($f, &imps, &o);
                plan(ctx, &Two { name: stringify!($n), f: $f, case: &c }, $s);
            }};
        }
        fm!(fmodf16 F16 f16 u16 0);
        fm!(fmodf F32 f32 u32 0);
        fm!(fmod F64 f64 u64 0);
        fm!(fmodf128 F128 f128 u128 2);
        macro_rules! rq {
            ($n:ident $r:ident $f:ident $t:ident $u:ident) => {{
                let imps = imps2!($r, $t, $u);
                let q = builds!($n, fn($t, $t) -> ($t, i32));
                let c = |x: u128, y: u128| {
                    let (r, q8) = remquo(&$f, x, y);
                    for (b, imp) in &imps {
                        let g = imp(x, y);
                        if !same(&$f, g, r) {
                            return Err((hex(&$f, r), format!("{} ({}, {b})", hex(&$f, g), stringify!($r))));
                        }
                    }
                    for (b, imp) in q {
                        let (g, n) = imp($t::from_bits(x as $u), $t::from_bits(y as $u));
                        let g = g.to_bits() as u128;
                        let neg = $f.sign(x) != $f.sign(y);
                        if !same(&$f, g, r) || !$f.is_nan(r) && (n.unsigned_abs() & 7 != q8 || n != 0 && (n < 0) != neg) {
                            return Err((format!("{} and quotient {}{} mod 8", hex(&$f, r), if neg { "-" } else { "" }, q8), format!("{}, {n} ({b})", hex(&$f, g))));
                        }
                    }
                    Ok(rounded(&$f, r))
                };
                plan(ctx, &Two { name: stringify!($n), f: $f, case: &c }, 1);
            }};
        }
        rq!(remquof remainderf F32 f32 u32);
        rq!(remquo remainder F64 f64 u64);
    })
}
