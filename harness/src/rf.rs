//! Reference floating-point arithmetic: exact integer arithmetic, then one rounding.
//! Deliberately simple and independent of the code under test.

/// Unsigned 512-bit integer, little-endian limbs.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct U(pub [u64; 8]);

impl U {
    pub const ZERO: U = U([0; 8]);
    #[inline]
    pub fn from(x: u128) -> U {
        let mut r = [0; 8];
        r[0] = x as u64;
        r[1] = (x >> 64) as u64;
        U(r)
    }
    #[inline]
    pub fn mul(a: u128, b: u128) -> U {
        let (al, ah, bl, bh) = (a as u64 as u128, a >> 64, b as u64 as u128, b >> 64);
        let (ll, lh, hl, hh) = (al * bl, al * bh, ah * bl, ah * bh);
        let mid = (ll >> 64) + (lh as u64 as u128) + (hl as u64 as u128);
        let hi = hh + (lh >> 64) + (hl >> 64) + (mid >> 64);
        let mut r = [0; 8];
        r[0] = ll as u64;
        r[1] = mid as u64;
        r[2] = hi as u64;
        r[3] = (hi >> 64) as u64;
        U(r)
    }
    /// Full product; panics if it does not fit.
    pub fn mulu(&self, o: &U) -> U {
        let mut r = [0u64; 16];
        for i in 0..8 {
            let mut c = 0u128;
            for j in 0..8 {
                let t = self.0[i] as u128 * o.0[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + 8] = c as u64;
        }
        assert!(r[8..].iter().all(|&x| x == 0));
        let mut u = [0; 8];
        u.copy_from_slice(&r[..8]);
        U(u)
    }
    #[inline]
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 8]
    }
    #[inline]
    pub fn bits(&self) -> u32 {
        for i in (0..8).rev() {
            if self.0[i] != 0 {
                return i as u32 * 64 + 64 - self.0[i].leading_zeros();
            }
        }
        0
    }
    #[inline]
    pub fn bit(&self, i: u32) -> bool {
        i < 512 && (self.0[(i / 64) as usize] >> (i % 64)) & 1 == 1
    }
    #[inline]
    pub fn shl(&self, n: u32) -> U {
        debug_assert!(self.is_zero() || self.bits() + n <= 512, "reference overflow");
        let (w, b) = ((n / 64) as usize, n % 64);
        let mut r = [0; 8];
        for i in w..8 {
            r[i] = self.0[i - w] << b;
            if b != 0 && i > w {
                r[i] |= self.0[i - w - 1] >> (64 - b);
            }
        }
        U(r)
    }
    #[inline]
    pub fn shr(&self, n: u32) -> U {
        if n >= 512 {
            return U::ZERO;
        }
        let (w, b) = ((n / 64) as usize, n % 64);
        let mut r = [0; 8];
        for i in 0..8 - w {
            r[i] = self.0[i + w] >> b;
            if b != 0 && i + w + 1 < 8 {
                r[i] |= self.0[i + w + 1] << (64 - b);
            }
        }
        U(r)
    }
    /// Any bit set below position n.
    #[inline]
    pub fn low_any(&self, n: u32) -> bool {
        if n >= 512 {
            return !self.is_zero();
        }
        let (w, b) = ((n / 64) as usize, n % 64);
        self.0[..w].iter().any(|&x| x != 0) || (b != 0 && self.0[w] & ((1u64 << b) - 1) != 0)
    }
    #[inline]
    pub fn add(&self, o: &U) -> U {
        let mut r = [0; 8];
        let mut c = false;
        for i in 0..8 {
            let (a, c1) = self.0[i].overflowing_add(o.0[i]);
            let (a, c2) = a.overflowing_add(c as u64);
            r[i] = a;
            c = c1 | c2;
        }
        U(r)
    }
    #[inline]
    pub fn sub(&self, o: &U) -> U {
        let mut r = [0; 8];
        let mut c = false;
        for i in 0..8 {
            let (a, c1) = self.0[i].overflowing_sub(o.0[i]);
            let (a, c2) = a.overflowing_sub(c as u64);
            r[i] = a;
            c = c1 | c2;
        }
        U(r)
    }
    #[inline]
    pub fn cmp(&self, o: &U) -> std::cmp::Ordering {
        for i in (0..8).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        std::cmp::Ordering::Equal
    }
    #[inline]
    pub fn lo128(&self) -> u128 {
        self.0[0] as u128 | (self.0[1] as u128) << 64
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fmt {
    pub eb: u32,
    pub sb: u32,
}
pub const F16: Fmt = Fmt { eb: 5, sb: 10 };
pub const F32: Fmt = Fmt { eb: 8, sb: 23 };
pub const F64: Fmt = Fmt { eb: 11, sb: 52 };
pub const F128: Fmt = Fmt { eb: 15, sb: 112 };

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum V {
    Nan,
    Inf(bool),
    Zero(bool),
    /// (-1)^s * m * 2^e, m != 0
    Fin(bool, u128, i32),
}

impl Fmt {
    pub const fn bits(&self) -> u32 {
        1 + self.eb + self.sb
    }
    pub const fn bias(&self) -> i32 {
        (1 << (self.eb - 1)) - 1
    }
    pub const fn emax(&self) -> u32 {
        (1 << self.eb) - 1
    }
    /// Exponent of the least significant bit of subnormals.
    pub const fn emin(&self) -> i32 {
        1 - self.bias() - self.sb as i32
    }
    pub const fn sign(&self, b: u128) -> bool {
        b >> (self.bits() - 1) & 1 == 1
    }
    pub const fn make(&self, s: bool, e: u32, m: u128) -> u128 {
        (s as u128) << (self.bits() - 1) | (e as u128) << self.sb | m
    }
    pub const fn inf(&self, s: bool) -> u128 {
        self.make(s, self.emax(), 0)
    }
    pub const fn zero(&self, s: bool) -> u128 {
        self.make(s, 0, 0)
    }
    pub const fn nan(&self) -> u128 {
        self.make(false, self.emax(), 1 << (self.sb - 1))
    }
    pub const fn one(&self) -> u128 {
        self.make(false, self.bias() as u32, 0)
    }
    pub const fn sigmask(&self) -> u128 {
        (1 << self.sb) - 1
    }
    pub const fn absmask(&self) -> u128 {
        (1 << (self.bits() - 1)) - 1
    }
    #[inline]
    pub const fn exp_field(&self, b: u128) -> u32 {
        (b >> self.sb) as u32 & self.emax()
    }
    #[inline]
    pub fn is_nan(&self, b: u128) -> bool {
        b & self.absmask() > self.inf(false)
    }
    #[inline]
    pub fn is_inf(&self, b: u128) -> bool {
        b & self.absmask() == self.inf(false)
    }
    #[inline]
    pub fn unpack(&self, b: u128) -> V {
        let s = self.sign(b);
        let e = self.exp_field(b);
        let m = b & self.sigmask();
        if e == self.emax() {
            return if m == 0 { V::Inf(s) } else { V::Nan };
        }
        if e == 0 {
            return if m == 0 { V::Zero(s) } else { V::Fin(s, m, self.emin()) };
        }
        V::Fin(s, m | 1 << self.sb, e as i32 - 1 + self.emin())
    }
    /// Round (-1)^s * (m + tiny if sticky) * 2^e to nearest even. Returns (bits, inexact).
    #[inline]
    pub fn round(&self, s: bool, m: &U, e: i32, sticky: bool) -> (u128, bool) {
        if m.is_zero() {
            // `sticky` alone: a positive value far below the smallest subnormal.
            return (self.zero(s), sticky);
        }
        let n = m.bits() as i32;
        // Exponent of the result's lsb.
        let mut le = (e + n - 1 - self.sb as i32).max(self.emin());
        let sh = le - e;
        let (mut q, inexact);
        if sh <= 0 {
            assert!(!sticky || sh < -1, "reference: sticky without guard bits");
            q = m.shl((-sh) as u32).lo128();
            inexact = sticky;
        } else {
            let sh = sh as u32;
            q = m.shr(sh).lo128();
            let half = m.bit(sh - 1);
            let rest = m.low_any(sh - 1) || sticky;
            inexact = half || rest;
            if half && (rest || q & 1 == 1) {
                q += 1;
            }
        }
        if q >> (self.sb + 1) != 0 {
            q >>= 1;
            le += 1;
        }
        if q >> self.sb == 0 {
            return (self.make(s, 0, q), inexact); // subnormal or zero
        }
        let ef = le - self.emin() + 1;
        if ef >= self.emax() as i32 {
            return (self.inf(s), true);
        }
        (self.make(s, ef as u32, q & self.sigmask()), inexact)
    }
    pub fn round128(&self, s: bool, m: u128, e: i32) -> u128 {
        self.round(s, &U::from(m), e, false).0
    }
    pub fn neg(&self, a: u128) -> u128 {
        a ^ 1 << (self.bits() - 1)
    }
    pub fn add(&self, a: u128, b: u128) -> (u128, bool) {
        use V::*;
        let (sa, ma, ea, sb, mb, eb) = match (self.unpack(a), self.unpack(b)) {
            (Nan, _) | (_, Nan) => return (self.nan(), false),
            (Inf(s), Inf(t)) => return (if s == t { a } else { self.nan() }, false),
            (Inf(_), _) => return (a, false),
            (_, Inf(_)) => return (b, false),
            (Zero(s), Zero(t)) => return (self.zero(s && t), false),
            (Zero(_), _) => return (b, false),
            (_, Zero(_)) => return (a, false),
            (Fin(sa, ma, ea), Fin(sb, mb, eb)) => (sa, ma, ea, sb, mb, eb),
        };
        self.addx(sa, U::from(ma), ea, sb, U::from(mb), eb)
    }
    /// Exact sum of two nonzero values, rounded once.
    #[inline]
    pub fn addx(&self, sa: bool, ma: U, ea: i32, sb: bool, mb: U, eb: i32) -> (u128, bool) {
        let (s, m, e, sticky) = self.addx_exact(sa, ma, ea, sb, mb, eb);
        if m.is_zero() && !sticky { (self.zero(false), false) } else { self.round(s, &m, e, sticky) }
    }
    /// Sign, significand, exponent and whether a remainder below the last bit follows.
    #[inline]
    pub fn addx_exact(&self, sa: bool, ma: U, ea: i32, sb: bool, mb: U, eb: i32) -> (bool, U, i32, bool) {
        // Order by magnitude of the leading bit so only the lower one may be truncated to sticky.
        let (ta, tb) = (ea + ma.bits() as i32, eb + mb.bits() as i32);
        if ta < tb {
            return self.addx_exact(sb, mb, eb, sa, ma, ea);
        }
        // Give the larger operand plenty of guard bits.
        let guard = 2 * self.sb as i32 + 8;
        let lowest = ea - guard;
        let (b2, be, sticky) = if eb < lowest {
            let d = (lowest - eb) as u32;
            (mb.shr(d), lowest, mb.low_any(d))
        } else {
            (mb, eb, false)
        };
        let e = ea.min(be);
        let big = ma.shl((ea - e) as u32);
        let small = b2.shl((be - e) as u32);
        if sa == sb {
            (sa, big.add(&small), e, sticky)
        } else {
            match big.cmp(&small) {
                std::cmp::Ordering::Equal => {
                    assert!(!sticky);
                    (false, U::ZERO, e, false)
                }
                std::cmp::Ordering::Greater => {
                    let mut d = big.sub(&small);
                    if sticky {
                        // big - (small + tiny) = (d - 1) + (1 - tiny)
                        d = d.sub(&U::from(1));
                    }
                    (sa, d, e, sticky)
                }
                std::cmp::Ordering::Less => {
                    assert!(!sticky);
                    (sb, small.sub(&big), e, false)
                }
            }
        }
    }
    pub fn mul(&self, a: u128, b: u128) -> (u128, bool) {
        use V::*;
        let s = self.sign(a) ^ self.sign(b);
        match (self.unpack(a), self.unpack(b)) {
            (Nan, _) | (_, Nan) => (self.nan(), false),
            (Inf(_), Zero(_)) | (Zero(_), Inf(_)) => (self.nan(), false),
            (Inf(_), _) | (_, Inf(_)) => (self.inf(s), false),
            (Zero(_), _) | (_, Zero(_)) => (self.zero(s), false),
            (Fin(_, ma, ea), Fin(_, mb, eb)) => self.round(s, &U::mul(ma, mb), ea + eb, false),
        }
    }
    pub fn div(&self, a: u128, b: u128) -> (u128, bool) {
        use V::*;
        let s = self.sign(a) ^ self.sign(b);
        match (self.unpack(a), self.unpack(b)) {
            (Nan, _) | (_, Nan) => (self.nan(), false),
            (Inf(_), Inf(_)) | (Zero(_), Zero(_)) => (self.nan(), false),
            (Inf(_), _) | (_, Zero(_)) => (self.inf(s), false),
            (Zero(_), _) | (_, Inf(_)) => (self.zero(s), false),
            (Fin(_, ma, ea), Fin(_, mb, eb)) => {
                // Normalise both, then binary long division with sb+3 quotient bits.
                let (la, lb) = (ma.leading_zeros() - 2, mb.leading_zeros() - 2);
                let (mut r, d) = (ma << la, mb << lb);
                let mut e = (ea - la as i32) - (eb - lb as i32);
                let mut q = 0u128;
                for i in 0..self.sb + 4 {
                    if i > 0 {
                        r <<= 1;
                        e -= 1;
                    }
                    q <<= 1;
                    if r >= d {
                        r -= d;
                        q |= 1;
                    }
                }
                self.round(s, &U::from(q).shl(2), e - 2, r != 0)
            }
        }
    }
    /// Position of the leading bit of an exact nonzero product-and-sum of finite values.
    pub fn fma_top(&self, x: u128, y: u128, z: u128) -> Option<i32> {
        use V::*;
        let s = self.sign(x) ^ self.sign(y);
        let (m, e) = match (self.unpack(x), self.unpack(y), self.unpack(z)) {
            (Fin(_, mx, ex), Fin(_, my, ey), Zero(_)) => (U::mul(mx, my), ex + ey),
            (Fin(_, mx, ex), Fin(_, my, ey), Fin(t, mz, ez)) => {
                let (_, m, e, _) = self.addx_exact(s, U::mul(mx, my), ex + ey, t, U::from(mz), ez);
                (m, e)
            }
            (Zero(_), Zero(_) | Fin(..), Fin(_, m, e)) | (Fin(..), Zero(_), Fin(_, m, e)) => (U::from(m), e),
            _ => return None,
        };
        if m.is_zero() { None } else { Some(m.bits() as i32 - 1 + e) }
    }
    pub fn fma(&self, x: u128, y: u128, z: u128) -> (u128, bool) {
        use V::*;
        let s = self.sign(x) ^ self.sign(y);
        let (vx, vy, vz) = (self.unpack(x), self.unpack(y), self.unpack(z));
        if vx == Nan || vy == Nan || vz == Nan {
            return (self.nan(), false);
        }
        match (vx, vy, vz) {
            (Inf(_), Zero(_), _) | (Zero(_), Inf(_), _) => (self.nan(), false),
            (Inf(_), _, Inf(t)) | (_, Inf(_), Inf(t)) => (if s == t { z } else { self.nan() }, false),
            (Inf(_), _, _) | (_, Inf(_), _) => (self.inf(s), false),
            (_, _, Inf(_)) => (z, false),
            (Zero(_), _, Zero(t)) | (_, Zero(_), Zero(t)) => (self.zero(s && t), false),
            (Zero(_), _, _) | (_, Zero(_), _) => (z, false),
            (Fin(_, mx, ex), Fin(_, my, ey), Zero(_)) => self.round(s, &U::mul(mx, my), ex + ey, false),
            (Fin(_, mx, ex), Fin(_, my, ey), Fin(t, mz, ez)) => {
                self.addx(s, U::mul(mx, my), ex + ey, t, U::from(mz), ez)
            }
            _ => unreachable!(),
        }
    }
    /// -1, 0, 1 or None if unordered.
    #[inline]
    pub fn cmp(&self, a: u128, b: u128) -> Option<i32> {
        if self.is_nan(a) || self.is_nan(b) {
            return None;
        }
        let key = |x: u128| {
            let m = (x & self.absmask()) as i128;
            if self.sign(x) { -m } else { m }
        };
        Some((key(a) > key(b)) as i32 - (key(a) < key(b)) as i32)
    }
    /// Convert to another format.
    pub fn convert(&self, to: &Fmt, b: u128) -> (u128, bool) {
        match self.unpack(b) {
            V::Nan => (to.nan() | (self.sign(b) as u128) << (to.bits() - 1), false),
            V::Inf(s) => (to.inf(s), false),
            V::Zero(s) => (to.zero(s), false),
            V::Fin(s, m, e) => to.round(s, &U::from(m), e, false),
        }
    }
    /// Is `r` the correctly rounded value of a positive real whose ordering against any candidate
    /// m * 2^e is given by `cmp(m, e)` = (candidate cmp real)?
    pub fn is_nearest(&self, r: u128, cmp: impl Fn(u128, i32) -> std::cmp::Ordering) -> bool {
        use std::cmp::Ordering::*;
        let (m, e) = match self.unpack(r) {
            V::Fin(false, m, e) => (m, e),
            V::Zero(false) => (0, self.emin()),
            V::Inf(false) => {
                // Real must be at or above the overflow midpoint.
                let top = (1u128 << (self.sb + 1)) - 1;
                let e = self.emax() as i32 - 2 + self.emin();
                return cmp(2 * top + 1, e - 1) != Greater;
            }
            _ => return false,
        };
        let even = m & 1 == 0;
        let up = cmp(2 * m + 1, e - 1);
        if !(up == Greater || (up == Equal && even)) {
            return false;
        }
        if m == 0 {
            return true;
        }
        // Lower midpoint is closer when r is a power of two above the subnormal range.
        let lo = if m == 1 << self.sb && self.exp_field(r) > 1 { cmp(4 * m - 1, e - 2) } else { cmp(2 * m - 1, e - 1) };
        lo == Less || (lo == Equal && even)
    }
}
