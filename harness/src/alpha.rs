//! Structured finite alphabets.

use crate::rf::Fmt;

pub fn dedup(mut v: Vec<u128>) -> Vec<u128> {
    v.sort_unstable();
    v.dedup();
    v
}

/// Small set of significands: ends, single bits next to the ends, half-way patterns, alternating.
pub fn sig_small(sb: u32) -> Vec<u128> {
    let m = (1u128 << sb) - 1;
    let h = 1u128 << (sb - 1);
    dedup(
        vec![0, 1, 2, 3, h, h - 1, h + 1, h | h >> 1, m, m - 1, m - 2, m ^ h, m / 3, (m / 3) << 1 & m, m & !7 | 4, 5, 7, 1 << (sb / 2), (1 << (sb / 2)) - 1, m & !((1 << (sb / 2)) - 1)]
            .into_iter()
            .map(|x| x & m)
            .collect(),
    )
}

/// All prefixes and suffixes of ones, single bits, and their +-1 neighbours.
pub fn sig_runs(sb: u32) -> Vec<u128> {
    let m = (1u128 << sb) - 1;
    let mut v = sig_small(sb);
    for i in 0..=sb {
        let p = if i == 128 { 0 } else { 1u128 << i };
        for x in [p, p.wrapping_sub(1), m & !(p.wrapping_sub(1)), p | 1, p.wrapping_add(p >> 1), m ^ p] {
            for y in [x.wrapping_sub(1), x, x.wrapping_add(1)] {
                v.push(y & m);
            }
        }
    }
    dedup(v)
}

/// Every run of ones [i, j) inside the significand, and its complement.
pub fn sig_allruns(sb: u32) -> Vec<u128> {
    let m = (1u128 << sb) - 1;
    let mut v = vec![0, m];
    for i in 0..sb {
        for j in i + 1..=sb {
            let x = ((1u128 << j) - 1) & !((1u128 << i) - 1);
            v.push(x);
            v.push(m ^ x);
        }
    }
    dedup(v)
}

/// All combinations of the top `k` bits with a few low patterns.
pub fn sig_top(sb: u32, k: u32) -> Vec<u128> {
    let k = k.min(sb);
    let r = sb - k;
    let lm = if r == 0 { 0 } else { (1u128 << r) - 1 };
    let lows = dedup(vec![0, 1 & lm, lm, lm >> 1, (lm >> 1) + (r > 0) as u128 & lm, lm / 3, lm / 5 & lm]);
    let mut v = vec![];
    for t in 0..1u128 << k {
        for &l in &lows {
            v.push(t << r | l);
        }
    }
    dedup(v)
}

/// All combinations of the top `k` bits with the low bits zero or all ones.
pub fn sig_grid(sb: u32, k: u32) -> Vec<u128> {
    let k = k.min(sb);
    let r = sb - k;
    let lm = if r == 0 { 0 } else { (1u128 << r) - 1 };
    let mut v = vec![];
    for t in 0..1u128 << k {
        v.push(t << r);
        v.push(t << r | lm);
    }
    dedup(v)
}

/// Every exponent field.
pub fn exps_all(f: &Fmt) -> Vec<u32> {
    (0..=f.emax()).collect()
}

/// Exponent fields around every class boundary of the format: `w` values on each side.
pub fn exps_edge(f: &Fmt, w: u32) -> Vec<u32> {
    let (b, m, s) = (f.bias() as u32, f.emax(), f.sb);
    let mut v = vec![];
    for c in [0, b, m, b + s, b.saturating_sub(s), b / 2, b + b / 2, b + 2 * s, s] {
        for d in 0..=2 * w {
            let x = (c + d) as i64 - w as i64;
            if x >= 0 && x <= m as i64 {
                v.push(x as u32);
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Cartesian product sign x exponent x significand as bit patterns.
pub fn values(f: &Fmt, exps: &[u32], sigs: &[u128]) -> Vec<u128> {
    let mut v = Vec::with_capacity(exps.len() * sigs.len() * 2);
    for s in [false, true] {
        for &e in exps {
            for &m in sigs {
                v.push(f.make(s, e, m));
            }
        }
    }
    v
}

/// Integer alphabet for `bits`-wide values: runs of ones, single bits, neighbours, complements.
pub fn ints_runs(bits: u32) -> Vec<u128> {
    let m = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let mut v = vec![];
    for i in 0..=bits {
        let p = if i >= 128 { 0 } else { 1u128 << i };
        for x in [p, m & !p.wrapping_sub(1), m ^ p] {
            for d in [0, 1, 2, 3] {
                v.push(x.wrapping_add(d) & m);
                v.push(x.wrapping_sub(d) & m);
            }
        }
    }
    for x in [m / 3, m / 3 * 2, m / 5, m / 7, m / 10] {
        v.push(x);
        v.push(m - x);
    }
    dedup(v)
}

/// Every single run of ones [i,j) and its complement.
pub fn ints_allruns(bits: u32) -> Vec<u128> {
    let m = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let mut v = vec![0, m];
    for i in 0..bits {
        for j in i + 1..=bits {
            let hi = if j == 128 { u128::MAX } else { (1u128 << j) - 1 };
            let x = hi & !((1u128 << i) - 1);
            v.push(x);
            v.push(m ^ x);
        }
    }
    dedup(v)
}

/// Values whose limbs (of `lw` bits) are all drawn from a boundary alphabet.
pub fn ints_limbs(bits: u32, lw: u32, alphabet: &[u128]) -> Vec<u128> {
    let n = bits / lw;
    let mut v = vec![0u128];
    for _ in 0..n {
        let mut w = Vec::with_capacity(v.len() * alphabet.len());
        for x in &v {
            for a in alphabet {
                w.push(if lw == 128 { *a } else { x << lw | a });
            }
        }
        v = w;
    }
    dedup(v)
}

/// Multi-byte limb alphabet: extremes and neighbours.
pub fn limb_edges(lw: u32) -> Vec<u128> {
    let m = if lw == 128 { u128::MAX } else { (1u128 << lw) - 1 };
    let h = 1u128 << (lw - 1);
    dedup(vec![0, 1, 2, h - 1, h, h + 1, m - 1, m])
}

pub fn sext(x: u128, bits: u32) -> i128 {
    ((x << (128 - bits)) as i128) >> (128 - bits)
}

/// All `sb`-bit patterns with at most `k` bits set, and their complements.
pub fn sig_weight(sb: u32, k: u32) -> Vec<u128> {
    let m = (1u128 << sb) - 1;
    let mut v = vec![0u128];
    let mut last = vec![(0u128, 0u32)];
    for _ in 0..k {
        let mut next = vec![];
        for &(x, from) in &last {
            for i in from..sb {
                next.push((x | 1 << i, i + 1));
            }
        }
        v.extend(next.iter().map(|p| p.0));
        last = next;
    }
    let c: Vec<u128> = v.iter().map(|x| m ^ x).collect();
    v.extend(c);
    dedup(v)
}

/// Inverse of an odd number modulo 2^128.
pub fn inv_odd(a: u128) -> u128 {
    let mut x = a;
    for _ in 0..7 {
        x = x.wrapping_mul(2u128.wrapping_sub(a.wrapping_mul(x)));
    }
    x
}

fn low(k: u32) -> u128 {
    if k >= 128 { u128::MAX } else { (1 << k) - 1 }
}

/// Shifts a nonzero integer of at most `p` bits until it has `p` bits.
pub fn fill(x: u128, p: u32) -> u128 {
    x << (x.leading_zeros() - (128 - p))
}

/// Pairs of `p`-bit significands whose exact product is a short bit pattern, a long run of equal
/// bits and a last few bits: only those decide how a result rounded within the run comes out. `scan` and `more` say how
/// many first factors are tried and how much longer than a factor the run must be.
pub fn hard_products(p: u32, scan: u32, more: u32) -> Vec<(u128, u128)> {
    let mut v = vec![];
    // factorings of 2^k +- 1
    for j in 1..=p {
        let (x, one) = (1u128 << j, 1);
        v.push((x - one, x + one));
        if 2 * j <= p {
            let y = x * x;
            v.push((x + one, y - x + one));
            v.push((x - one, y + x + one));
            v.push((x + one, y + one));
            v.push((x - one, y + one));
        }
        if 4 * j <= p {
            let y = x * x;
            v.push((x + one, y * y - y * x + y - x + one));
            v.push((x - one, y * y + y * x + y + x + one));
        }
        if j % 2 == 1 && j > 1 {
            let h = 1u128 << j.div_ceil(2);
            v.push((x - h + one, x + h + one));
        }
    }
    // the second factor is the quotient of a short pattern and the first modulo a power of two
    let runs: Vec<u128> = sig_runs(p - 1).into_iter().map(|m| m | 1 << (p - 1) | 1).collect();
    for &a in &dedup(runs) {
        let inv = inv_odd(a);
        for k in [p - 1, p, p + 1] {
            for d in [1u128, 3, 1u128.wrapping_neg(), 3u128.wrapping_neg()] {
                for r in [d, d.wrapping_add(1 << (k - 1)), d.wrapping_add(1 << (k - 2))] {
                    v.push((a, r.wrapping_mul(inv) & low(k)));
                }
            }
        }
    }
    // and those where it is short enough although the power is high
    for i in 0..1u128 << scan {
        for a in [2 * i + 3, (1u128 << p) - 1 - 2 * i] {
            if a >> p != 0 || a < 3 {
                continue;
            }
            let inv = inv_odd(a);
            for d in [1u128, 1u128.wrapping_neg()] {
                let b = d.wrapping_mul(inv);
                if b & low(128.min(p + more)) <= low(p) {
                    v.push((a, b & low(p)));
                }
            }
        }
    }
    v.retain(|&(a, b)| a != 0 && b != 0 && a >> p == 0 && b >> p == 0);
    let mut v: Vec<_> = v.into_iter().map(|(a, b)| (fill(a, p), fill(b, p))).collect();
    v.sort_unstable();
    v.dedup();
    v
}

/// Pairs of `p`-bit significands whose quotient is `n` bits followed by a long run of equal bits,
/// for the given divisors and every `n` up to p + 1.
pub fn hard_quotients(p: u32, divisors: &[u128], ns: &[u32]) -> Vec<(u128, u128)> {
    let mut v = vec![];
    for &b in divisors {
        let b = b | 1 << (p - 1) | 1;
        let inv = inv_odd(b);
        for &n in ns {
            for r in [1u128, 1u128.wrapping_neg(), 3, 3u128.wrapping_neg()] {
                // a 2^n = q b + r
                let q = r.wrapping_neg().wrapping_mul(inv) & low(n);
                let a = crate::rf::U::mul(q, b);
                let a = if r >> 127 == 0 {
                    a.add(&crate::rf::U::from(r))
                } else {
                    let m = crate::rf::U::from(r.wrapping_neg());
                    if a.cmp(&m) == std::cmp::Ordering::Less {
                        continue;
                    }
                    a.sub(&m)
                };
                let a = a.shr(n).lo128();
                if a != 0 && a >> p == 0 {
                    v.push((fill(a, p), b));
                }
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Integers x of `p` bits such that the root, with one of the two exponent parities, is extremely
/// close to a rounding midpoint: (2q+1)^2 - c = x 2^n for a small c.
pub fn hard_squares(p: u32, cs: i128) -> Vec<u128> {
    let mut v = vec![];
    for j in -cs..=cs {
        let c = (1 + 8 * j) as u128;
        for n in [p + 1, p + 2] {
            // root of c modulo 2^n, one bit at a time
            let mut r = 1u128;
            for k in 3..n {
                if r.wrapping_mul(r).wrapping_sub(c) & low(k + 1) != 0 {
                    r = r.wrapping_add(1 << (k - 1));
                }
            }
            for s in [r, r.wrapping_neg(), r.wrapping_add(1 << (n - 1)), r.wrapping_neg().wrapping_add(1 << (n - 1))] {
                let s = s & low(n);
                for s in [s, s & low(p + 1), s & low(p + 1) | 1 << p] {
                    if s >> p != 1 {
                        continue;
                    }
                    let sq = crate::rf::U::mul(s, s);
                    let d = 1 + 8 * j;
                    let x = if d < 0 { sq.add(&crate::rf::U::from(d.unsigned_abs())) } else { sq.sub(&crate::rf::U::from(d as u128)) };
                    if x.low_any(n) {
                        continue;
                    }
                    let x = x.shr(n).lo128();
                    if x >> (p - 1) == 1 {
                        v.push(x);
                    }
                }
            }
        }
    }
    dedup(v)
}
