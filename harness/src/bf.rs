//! Floating values with a 256-bit significand, used as a high-precision reference.

use crate::rf::{Fmt, U, V};
use std::cmp::Ordering;

/// (-1)^neg * m * 2^e, m normalised to exactly 256 bits (or zero). Operations truncate.
#[derive(Clone, Copy)]
pub struct BF {
    pub neg: bool,
    pub m: U,
    pub e: i64,
}

const W: u32 = 256;

impl BF {
    pub const ZERO: BF = BF { neg: false, m: U::ZERO, e: 0 };

    pub fn new(neg: bool, m: U, e: i64) -> BF {
        let b = m.bits();
        if b == 0 {
            return BF { neg, ..BF::ZERO };
        }
        if b > W { BF { neg, m: m.shr(b - W), e: e + (b - W) as i64 } } else { BF { neg, m: m.shl(W - b), e: e - (W - b) as i64 } }
    }

    pub fn one() -> BF {
        BF::new(false, U::from(1), 0)
    }

    /// From a finite bit pattern.
    pub fn of(f: &Fmt, x: u128) -> BF {
        match f.unpack(x) {
            V::Fin(s, m, e) => BF::new(s, U::from(m), e as i64),
            _ => BF { neg: f.sign(x), ..BF::ZERO },
        }
    }

    pub fn is_zero(&self) -> bool {
        self.m.is_zero()
    }

    pub fn mul(&self, o: &BF) -> BF {
        BF::new(self.neg ^ o.neg, self.m.mulu(&o.m), self.e + o.e)
    }

    pub fn recip(&self) -> BF {
        // 2^511 / m by long division; m has 256 bits, the quotient 255 or 256.
        let mut q = U::ZERO;
        let mut r = U::from(1).shl(255);
        for _ in 0..=256 {
            q = q.shl(1);
            if r.cmp(&self.m) != Ordering::Less {
                r = r.sub(&self.m);
                q.0[0] |= 1;
            }
            r = r.shl(1);
        }
        // after k steps q = floor(2^(255 + k - 1) / m)
        BF::new(self.neg, q, -self.e - 511)
    }

    pub fn powi(&self, n: u32) -> BF {
        let mut r = BF::one();
        for i in (0..32).rev() {
            r = r.mul(&r);
            if n >> i & 1 == 1 {
                r = r.mul(self);
            }
        }
        r
    }

    /// log2 |self| to about 2^-50 relative to its magnitude.
    pub fn log2(&self) -> f64 {
        let top = self.m.shr(W - 64).0[0] as f64;
        top.log2() + (self.e + (W - 64) as i64) as f64
    }

    /// |self| compared with |o|.
    pub fn cmp_abs(&self, o: &BF) -> Ordering {
        match (self.is_zero(), o.is_zero()) {
            (true, true) => Ordering::Equal,
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            _ => self.e.cmp(&o.e).then_with(|| self.m.cmp(&o.m)),
        }
    }

    /// | |self| - |o| | as a value.
    pub fn dist_abs(&self, o: &BF) -> BF {
        let (a, b) = if self.cmp_abs(o) == Ordering::Less { (o, self) } else { (self, o) };
        if b.is_zero() {
            return BF { neg: false, ..*a };
        }
        let d = a.e - b.e;
        if d > 255 {
            return BF { neg: false, ..*a };
        }
        // keep both exact: shift the larger up (256 + 255 bits fit in 512)
        BF::new(false, a.m.shl(d as u32).sub(&b.m), b.e)
    }
}
