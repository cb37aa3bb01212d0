//! C34: cube root and hypotenuse.
#![feature(f16, f128)]
use std::cmp::Ordering;
use vh::alpha::*;
use vh::fl::*;
use vh::lm::*;
use vh::rf::*;
use vh::{Ctx, imps1, imps2, run};

fn cmp3(a: (U, i32), b: (U, i32)) -> Ordering {
    let lo = a.1.min(b.1);
    a.0.shl((a.1 - lo) as u32).cmp(&b.0.shl((b.1 - lo) as u32))
}

/// Compares (m * 2^e)^3 with the value of x.
fn cmp_cube(f: &Fmt, x: u128, m: u128, e: i32) -> Ordering {
    let V::Fin(_, mx, ex) = f.unpack(x) else { unreachable!() };
    if f.sb == 23 {
        // at most 25 bits cubed
        let (a, ea) = (m * m * m, 3 * e);
        let lo = ea.min(ex);
        return (a << (ea - lo)).cmp(&(mx << (ex - lo)));
    }
    let m2 = m * m; // at most 110 bits
    let lo = U::mul(m2, m);
    cmp3((lo, 3 * e), (U::from(mx), ex))
}

/// Is the positive real, ordered against m * 2^e by `cmp`, within `n` units of r?
fn within(f: &Fmt, n: u128, r: u128, cmp: impl Fn(u128, i32) -> Ordering) -> bool {
    match f.unpack(r) {
        V::Fin(false, m, e) => cmp(m.saturating_sub(n), e) != Ordering::Greater && cmp(m + n, e) != Ordering::Less,
        V::Inf(false) => cmp((2 << f.sb) - n, f.bias() - f.sb as i32) == Ordering::Less,
        _ => false,
    }
}

fn cbrt_ok(f: &Fmt, x: u128, r: u128, units: u128) -> bool {
    if f.is_nan(x) {
        return f.is_nan(r);
    }
    let a = x & f.absmask();
    if a == 0 || a == f.inf(false) {
        return x == r;
    }
    if f.sign(x) != f.sign(r) {
        return false;
    }
    let r = r & f.absmask();
    let c = |m, e| cmp_cube(f, a, m, e);
    if units > 0 { within(f, units, r, c) } else { f.is_nearest(r, c) }
}

fn hypot_ok(f: &Fmt, x: u128, y: u128, r: u128, units: u128) -> bool {
    let (a, b) = (x & f.absmask(), y & f.absmask());
    let inf = f.inf(false);
    if a == inf || b == inf {
        return r == inf;
    }
    if a > inf || b > inf {
        return f.is_nan(r);
    }
    let (a, b) = (a.max(b), a.min(b));
    if b == 0 {
        return r == a;
    }
    let (V::Fin(_, ma, ea), V::Fin(_, mb, eb)) = (f.unpack(a), f.unpack(b)) else { unreachable!() };
    // with b below a quarter of the root of a's last place, the sum rounds to a
    if ea - eb > 2 * f.sb as i32 + 8 || ma >> f.sb == 1 && ea - eb > f.sb as i32 + 2 {
        return r >= a && r <= a + units;
    }
    let lo = 2 * eb;
    let sum = U::mul(ma, ma).shl((2 * (ea - eb)) as u32).add(&U::mul(mb, mb));
    let c = |m: u128, e: i32| cmp3((U::mul(m, m), 2 * e), (sum, lo));
    if units > 0 { within(f, units, r, c) } else { f.is_nearest(r, c) }
}

fn cbrt(ctx: &Ctx, name: &'static str, f: Fmt, imps: Imps, units: u128) {
    let case = |x: u128| {
        let mut last = None;
        for (b, imp) in &imps {
            let g = imp(x);
            if last != Some(g) && !cbrt_ok(&f, x, g, units) {
                return Err((if units > 0 { format!("within {units} units of the root") } else { "the correctly rounded root".to_string() }, format!("{} ({b})", hex(&f, g))));
            }
            last = Some(g);
        }
        Ok(x & f.absmask() != 0 && f.exp_field(x) != f.emax())
    };
    let u = Un { name, f, case: &case };
    let t = ctx.thorough;
    if f.sb == 23 && t {
        u.all(ctx, 1);
        return;
    }
    let b = f.bias() as u32;
    u.grid(ctx, "all exponent residues x prefixes", &[b, b + 1, b + 2], &sig_grid(f.sb, if f.sb == 23 { 23 } else if t { 24 } else { 21 }));
    u.grid(ctx, "all exponents x short prefixes", &exps_all(&f), &sig_grid(f.sb, if t { 11 } else { 8 }));
    u.grid(ctx, "all exponents x runs", &exps_all(&f), &if t { sig_allruns(f.sb) } else { sig_runs(f.sb) });
    u.grid(ctx, "edge exponents x low weight", &exps_edge(&f, 1), &sig_weight(f.sb, if f.sb == 23 || t { 3 } else { 2 }));
    let mut sub = vec![];
    for i in 0..f.sb {
        for p in sig_small(f.sb.min(i + 1).max(8)) {
            sub.push((1u128 << i | p & ((1 << i) - 1)) & f.sigmask());
        }
    }
    u.grid(ctx, "subnormal operands", &[0], &dedup(sub));
    // operands beside exact cubes and beside cubes of midpoints: 2q and 2q + 1
    let mut v = vec![];
    let mut beside = |q: u128| {
        let c = U::mul(q * q, q);
        let n = c.bits();
        let m = if n > f.sb + 1 { c.shr(n - f.sb - 1).lo128() } else { c.lo128() << (f.sb + 1 - n) };
        for d in -1i128..=2 {
            let m = (m as i128 + d) as u128;
            if m >> f.sb == 1 {
                for e in [(n - 1) % 3 + b, (n - 1) % 3 + b % 3 + 3, f.emax() - 4 - (f.emax() - 4 - b - (n - 1) % 3) % 3] {
                    v.push(f.make(false, e, m & f.sigmask()));
                }
            }
        }
    };
    let roots: Vec<u128> = sig_allruns(f.sb).into_iter().chain(sig_grid(f.sb, if t { 15 } else { 12 })).chain(0..3000).map(|m| m | 1 << f.sb).collect();
    for q in roots {
        beside(2 * q);
        beside(2 * q + 1);
    }
    for q in 1..3000 {
        beside(q);
    }
    // scan runs of consecutive midpoints for those whose cube lies closest to an operand
    if f.sb == 52 {
        let win = if t { 1u128 << 21 } else { 1 << 16 };
        for s in sig_grid(53, if t { 8 } else { 6 }) {
            let q0 = (s | 1 << 53) & !1;
            for k in 0..win {
                let q = q0 + 2 * k + 1;
                if q >> 53 != 1 {
                    break;
                }
                // cube is 160..162 bits; the operand keeps the top 53
                let q2 = q * q;
                let (lo, hi) = ((q2 as u64 as u128) * q, (q2 >> 64) * q + ((q2 as u64 as u128 * q) >> 64));
                let nb = 64 + 128 - hi.leading_zeros();
                // the first 40 bits below the operand's last place
                let below = (hi >> (nb - 53 - 64 - 40)) & ((1 << 40) - 1);
                let _ = lo;
                let thr = 1u128 << (40 - if t { 19 } else { 14 });
                if below < thr || below > (1 << 40) - thr {
                    beside(q);
                }
            }
        }
        for x in [0x9b78223aa307c, 0xa202bfc89ddff] {
            for e in 0..9 {
                v.push(f.make(false, b + e, x));
            }
        }
    }
    u.list(ctx, "beside exact cubes and cubes of midpoints", &dedup(v));
}

fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}

fn inverse(a: i128, n: i128) -> i128 {
    let (mut r0, mut r1, mut s0, mut s1) = (n, a.rem_euclid(n), 0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (s0, s1) = (s1, s0 - q * s1);
    }
    s0.rem_euclid(n)
}

/// Legs of p bits whose hypotenuse is as close as it gets to a midpoint (2r + 1)/2 of p-bit numbers
/// without being one: x^2 + y^2 = r^2 + r + c for small c. With k = 4c - 1 and a = 2r + 1 this is
/// (a - 2x)(a + 2x) = 4y^2 - k, so y is a root of k/4 modulo some d, known for d = u^2 - k v^2.
fn near_midpoint(p: u32, us: &[i128]) -> Vec<(u128, u128)> {
    let (lo, hi) = (1i128 << p, 2i128 << p);
    let mut out = vec![];
    for k in [-1i128, 3, -5, 7, -9, 11, -13, 19] {
        for (n, &u) in us.iter().enumerate() {
            for v in [1, 2, 3, 4, 5, 8, u >> 3 | 1, u / 3, u / 2 + 1, u - 1, us[(n * 7 + 1) % us.len()]] {
                let d = (u * u - k * v * v).abs();
                if v == 0 || d < 5 || d & 1 == 0 || d >= hi || gcd(u, v) != 1 || gcd(v, d) != 1 {
                    continue;
                }
                let t = u * inverse(v, d) % d;
                let y0 = t * inverse(2, d) % d;
                // how many times d, to bring a = (d + (4y^2 - k)/d)/2 into its binade and beside its ends
                let j = ((lo as f64 / 2.0 / d as f64).sqrt()) as i128;
                let l = ((lo as f64 / d as f64).sqrt()) as i128;
                let mut js = vec![0, 1, j - 1, j, j + 1, (j + l) / 2, l - 2, l - 1, l];
                js.dedup();
                for j in js {
                    for y in [y0 + j * d, (j + 1) * d - y0] {
                        if !(1..lo).contains(&y) {
                            continue;
                        }
                        let e = (4 * y * y - k) / d;
                        let (a, x) = ((d + e) / 2, (e - d) / 4);
                        if (lo..hi).contains(&a) && (1..lo).contains(&x) {
                            assert!(a * a == 4 * (x * x + y * y) - k);
                            out.push((x as u128, y as u128));
                        }
                    }
                }
            }
        }
    }
    // 3.25 below the square of the last midpoint of a binade
    if p == 53 {
        out.extend([(7112170734961030, 5526903821432987), (7257057255224062, 5335237427613365), (8444857748879675, 3132732994653962), (8525411381249237, 2906372170777970)]);
    }
    out
}

/// Legs with different exponents whose hypotenuse is next to a midpoint: with the smaller leg y in
/// units 2^-g of the larger one's, 4^g x^2 + y^2 = 4^g (a/2)^2 + c. So y^2 = c modulo 4^(g-1), and
/// (y^2 - c) / 4^(g-1) = (a - 2x)(a + 2x) is split by a small or structured factor.
fn near_midpoint_shifted(p: u32, t: bool) -> Vec<(u128, u128, u32)> {
    let (lo, hi) = (1u128 << p, 2u128 << p);
    let mut out = vec![];
    let mut ds: Vec<u128> = (1..if t { 600 } else { 200 }).map(|k| 2 * k - 1).collect();
    ds.extend((8..p - 5).flat_map(|b| [1u128 << b | 1, (1 << b) - 1, 1 << b | 3, 5 << (b - 2) | 1, 3 << (b - 1) | 1, (3 << (b - 1)) - 1]));
    for g in 2..=p / 2 {
        let (q, bits) = (1u128 << (2 * g - 2), 2 * g - 2);
        for c in [1i128, 9, 17, 25, 49, 33, -7, -15, -23] {
            // roots of c modulo 2^bits
            let mut r2: Vec<u128> = (0..1u128 << bits.min(6)).filter(|r| ((r * r) as i128 - c) & ((1 << bits.min(6)) - 1) == 0).collect();
            for b in 7..=bits {
                let m = (1i128 << b) - 1;
                r2 = r2.iter().flat_map(|r| [*r, r | 1 << (b - 1)]).filter(|r| ((r * r) as i128 - c) & m == 0).collect();
                r2 = dedup(r2);
            }
            for &d in &ds {
                // roots of c modulo d
                let sq = (c.unsigned_abs() as f64).sqrt() as u128;
                let rd: Vec<u128> = if d < 1500 {
                    (0..d).filter(|r| ((r * r) as i128 - c).rem_euclid(d as i128) == 0).take(4).collect()
                } else if c > 0 && sq * sq == c as u128 && d > sq {
                    vec![sq, d - sq]
                } else {
                    vec![]
                };
                if rd.is_empty() || d * q >= 2 * lo {
                    continue;
                }
                let iq = inverse(q as i128, d as i128) as u128;
                for &a2 in r2.iter().take(6) {
                    for &b2 in &rd {
                        // congruent to a2 modulo q and b2 modulo d
                        let k = (b2 + d - a2 % d) % d * (iq % d) % d;
                        let y0 = a2 + q * k;
                        let m = q * d;
                        // (a is about y^2 / (2 d q)) in its binade
                        let first = ((2.0 * d as f64 * q as f64 * lo as f64).sqrt()) as u128;
                        for s in [first, first + first / 5, lo / 2, lo / 8 * 7] {
                            let y = y0 + m * (s.saturating_sub(y0) / m);
                            for y in [y, y + m] {
                                let n = ((y * y) as i128 - c) as u128 / q;
                                if y < 2 || y >= lo || n % d != 0 {
                                    continue;
                                }
                                let e = n / d;
                                if e <= d || (e - d) % 4 != 0 {
                                    continue;
                                }
                                let (a, x) = ((d + e) / 2, (e - d) / 4);
                                if a & 1 == 1 && (lo..hi).contains(&a) && (1..lo).contains(&x) {
                                    out.push((x, y, g));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

fn hypot(ctx: &Ctx, name: &'static str, f: Fmt, imps: Imps2, units: u128) {
    let case = |x: u128, y: u128| {
        let mut last = None;
        for (b, imp) in &imps {
            let g = imp(x, y);
            if last != Some(g) && !hypot_ok(&f, x, y, g, units) {
                return Err((if units > 0 { format!("within {units} units of the root") } else { "the correctly rounded root".to_string() }, format!("{} ({b})", hex(&f, g))));
            }
            last = Some(g);
        }
        Ok(x & f.absmask() != 0 && y & f.absmask() != 0 && f.exp_field(x) != f.emax() && f.exp_field(y) != f.emax())
    };
    let t = ctx.thorough;
    let u = Two { name, f, case: &case };
    let s = sig_small(f.sb);
    if f.sb == 23 {
        u.grid(ctx, "all exponent pairs", &pairs_all(&f), &s[..if t { s.len() } else { 5 }], &s[..if t { s.len() } else { 5 }]);
    } else {
        u.grid(ctx, "exponent differences", &pairs_diff(&f, 60, 1), &s[..if t { s.len() } else { 12 }], &s[..if t { s.len() } else { 8 }]);
        let far: Vec<(u32, u32)> = (0..2047).step_by(if t { 5 } else { 23 }).flat_map(|a| (0..2047).step_by(if t { 7 } else { 31 }).map(move |b| (a, b))).collect();
        u.grid(ctx, "all exponents", &far, &s[..4], &s[..4]);
    }
    let b = f.bias() as u32;
    let near: Vec<(u32, u32)> = (0..=f.sb / 2 + 4).map(|d| (b, b - d)).collect();
    let r = sig_runs(f.sb);
    u.grid(ctx, "close exponents x runs", &near, &r[..r.len().min(if t { 600 } else { 120 })], &r[..r.len().min(if t { 600 } else { 100 })]);
    let g = sig_top(f.sb, if t { 10 } else { 7 });
    u.grid(ctx, "close exponents x prefixes", &near[..8], &g, &g);
    // both subnormal, and around the subnormal limit
    let subs: Vec<(u32, u32)> = vec![(0, 0), (0, 1), (1, 1), (1, 2), (0, 2), (0, f.sb / 2), (1, f.sb / 2 + 2), (0, 27), (0, 3)];
    let mut sg = sig_runs(f.sb);
    sg.truncate(if t { 900 } else { 250 });
    u.grid(ctx, "subnormal range x runs", &subs, &sg, &sg);
    // around overflow
    let m = f.emax();
    let gr = sig_grid(f.sb, if t { 11 } else { 8 });
    u.grid(ctx, "overflow edge", &[(m - 1, m - 1), (m - 1, m - 2), (m - 2, m - 2), (m - 1, m - 3), (m - 1, m - 1 - f.sb / 2), (m - 2, m - 3)], &gr, &gr);
    // consecutive operands
    let w = if t { 1u128 << 16 } else { 1 << 14 };
    let base: Vec<(u128, u128, u32)> = sig_small(f.sb).into_iter().flat_map(|a| [0u32, 1, 2, 5, 11, f.sb / 4, f.sb / 2].map(|d| (a, f.sigmask() / 7 * 3 ^ a >> 3, d))).collect();
    ctx.par(&format!("{name} runs of consecutive operands"), base.len() as u64, |i, k| {
        k.func(name);
        let (a, c, d) = base[i as usize];
        for j in 0..w {
            u.one(k, f.make(false, b, a.wrapping_add(j) & f.sigmask()), f.make(true, b - d, c));
            u.one(k, f.make(false, b - d, c.wrapping_add(j) & f.sigmask()), f.make(false, b, a));
        }
    });
    // Pythagorean triples: exact results and exact ties
    let mut v = vec![];
    let h = (f.sb + 2) / 2;
    let top = 1u128 << h;
    let mut put = |a: u128, b: u128| {
        for (a, b) in [(a, b), (b, a)] {
            // representable?
            let fits = |x: u128| x != 0 && x >> (x.trailing_zeros()) < 2 << f.sb;
            if fits(a) && fits(b) {
                let (x, y) = (f.round128(false, a, -20), f.round128(false, b, -20));
                v.push((x, y));
                v.push((x + 1, y));
                v.push((x, y + 1));
                v.push((x - 1, y));
                v.push((f.round128(false, a, f.emin() + 1), f.round128(true, b, f.emin() + 1)));
                v.push((f.round128(false, a, f.emin()), f.round128(true, b, f.emin())));
            }
        }
    };
    for i in 0..if t { 3000u128 } else { 500 } {
        for j in 0..if t { 300u128 } else { 60 } {
            for (p, q) in [(top - 1 - i, 2 * j + 1 - (i & 1) % 2), (top * 7 / 10 + i, 1 + j + top / 8), (3 + i, 1 + j)] {
                if p > q {
                    put(p * p - q * q, 2 * p * q);
                }
            }
        }
    }
    // multiples: ties on either side of an even neighbour
    for g in [3u128, 5, 7, 9, 11, 19, 23, 27, 31, 43, 47, 59, 127, 1023, 4095] {
        let top = ((2u128 << f.sb) as f64 * 2.0 / g as f64).sqrt() as u128;
        for i in 0..if t { 200u128 } else { 40 } {
            for j in 0..if t { 200u128 } else { 40 } {
                for (p, q) in [(top - 1 - i, 2 * j + 2 - (top - i) % 2), (top * 9 / 10 - i, 1 + j + top / 8), (top * 8 / 10 - i, top / 2 - j)] {
                    if p > q && q > 0 {
                        put(g * (p * p - q * q), g * 2 * p * q);
                    }
                }
            }
        }
    }
    u.list(ctx, "Pythagorean triples and neighbours", &v);
    let mut us: Vec<i128> = (2..if t { 3000 } else { 600 }).collect();
    us.extend((1..=f.sb / 2 + 1).flat_map(|b| sig_grid(b, b.min(if t { 9 } else { 7 })).into_iter().map(move |g| (g | 1 << b) as i128)));
    let mut v = vec![];
    for (x, y) in near_midpoint(f.sb + 1, &us) {
        v.push((f.round128(false, x, -20), f.round128(true, y, -20)));
        v.push((f.round128(true, y, f.emin()), f.round128(false, x, f.emin())));
    }
    for (x, y, g) in near_midpoint_shifted(f.sb + 1, t) {
        v.push((f.round128(false, x, 20), f.round128(false, y, 20 - g as i32)));
        v.push((f.round128(false, y, -20 - g as i32), f.round128(false, x, -20)));
    }
    u.list(ctx, "hypotenuses beside midpoints", &v);
    let e: Vec<u128> = values(&f, &exps_edge(&f, 1), &s);
    u.pairs(ctx, "class edges", &e, &e);
}

fn main() {
    run("C34", "exploration", |ctx| {
        ctx.rule("every build; cbrtf complete in the thorough tier; cbrt: all exponent residues x all prefixes, all exponents x short prefixes and runs, operands beside exact cubes and beside cubes of rounding midpoints (runs of consecutive midpoints scanned for the closest); hypot: exponent differences x significand alphabets, subnormal and overflow edges, runs of consecutive operands, Pythagorean triples giving exact results and exact ties with their neighbours, legs solved for so that the hypotenuse is next to a rounding midpoint; nontrivial = finite non-zero operands");
        ctx.assume("results are judged by exact integer cubes and squares");
        cbrt(ctx, "cbrtf", F32, imps1!(cbrtf, f32, u32), 0);
        cbrt(ctx, "cbrt", F64, imps1!(cbrt, f64, u64), 0);
        hypot(ctx, "hypotf", F32, imps2!(hypotf, f32, u32), 1);
        hypot(ctx, "hypot", F64, imps2!(hypot, f64, u64), 0);
        let v: Imps = vec![("default build", Box::new(|x: u128| libm::relaxed::cbrtf64(f64::from_bits(x as u64)).to_bits() as u128)), ("x87 build", Box::new(|x: u128| libm_x87::relaxed::cbrtf64(f64::from_bits(x as u64)).to_bits() as u128))];
        cbrt(ctx, "relaxed::cbrtf64", F64, v, 2);
        let v: Imps2 = vec![("default build", Box::new(|x: u128, y: u128| libm::relaxed::hypotf64(f64::from_bits(x as u64), f64::from_bits(y as u64)).to_bits() as u128)), ("generic build", Box::new(|x: u128, y: u128| libm_gen::relaxed::hypotf64(f64::from_bits(x as u64), f64::from_bits(y as u64)).to_bits() as u128))];
        hypot(ctx, "relaxed::hypotf64", F64, v, 2);
    })
}
