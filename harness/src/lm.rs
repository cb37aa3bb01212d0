//! The builds of the math library that are compared, and drivers over all of them at once.

use crate::ctx::Ctx;
use crate::fl::{Un, hex, rounded, same};
use crate::rf::*;

/// The same function from every build of the library, as pointers of the given type.
#[macro_export]
macro_rules! builds {
    ($n:ident, $t:ty) => {
        [("default build", libm::$n as $t), ("generic build", libm_gen::$n as $t), ("intrinsics build", libm_intr::$n as $t), ("x87 build", libm_x87::$n as $t)]
    };
}

/// One-argument function against an oracle on bit patterns.
pub fn unary<'a>(f: Fmt, imps: &'a [(&'static str, Box<dyn Fn(u128) -> u128 + Sync>)], oracle: &'a (dyn Fn(u128) -> u128 + Sync)) -> impl Fn(u128) -> Result<bool, (String, String)> + Sync + 'a {
    move |x| {
        let r = oracle(x);
        for (b, imp) in imps {
            let g = imp(x);
            if !same(&f, g, r) {
                return Err((hex(&f, r), format!("{} ({b})", hex(&f, g))));
            }
        }
        Ok(rounded(&f, r))
    }
}

pub type Imps = Vec<(&'static str, Box<dyn Fn(u128) -> u128 + Sync>)>;
pub type Imps2 = Vec<(&'static str, Box<dyn Fn(u128, u128) -> u128 + Sync>)>;

#[macro_export]
macro_rules! imps1 {
    (@ $c:ident $n:ident $t:ident $u:ident) => {
        Box::new(|x: u128| $c::$n($t::from_bits(x as $u)).to_bits() as u128)
    };
    ($n:ident, $t:ident, $u:ident) => {{
        let v: $crate::lm::Imps = vec![
            ("default build", $crate::imps1!(@ libm $n $t $u)),
            ("generic build", $crate::imps1!(@ libm_gen $n $t $u)),
            ("intrinsics build", $crate::imps1!(@ libm_intr $n $t $u)),
            ("x87 build", $crate::imps1!(@ libm_x87 $n $t $u)),
        ];
        v
    }};
}
#[macro_export]
macro_rules! imps2 {
    (@ $c:ident $n:ident $t:ident $u:ident) => {
        Box::new(|x: u128, y: u128| $c::$n($t::from_bits(x as $u), $t::from_bits(y as $u)).to_bits() as u128)
    };
    ($n:ident, $t:ident, $u:ident) => {{
        let v: $crate::lm::Imps2 = vec![
            ("default build", $crate::imps2!(@ libm $n $t $u)),
            ("generic build", $crate::imps2!(@ libm_gen $n $t $u)),
            ("intrinsics build", $crate::imps2!(@ libm_intr $n $t $u)),
            ("x87 build", $crate::imps2!(@ libm_x87 $n $t $u)),
        ];
        v
    }};
}

pub fn run1(ctx: &Ctx, name: &'static str, f: Fmt, imps: Imps, oracle: &(dyn Fn(u128) -> u128 + Sync), scale: u32) {
    let case = unary(f, &imps, oracle);
    Un { name, f, case: &case }.plan(ctx, scale);
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Ceil,
    Floor,
    Trunc,
    Away,
    Even,
}

/// Rounding to an integral value, on bit patterns.
pub fn to_int(f: &Fmt, x: u128, mode: Mode) -> u128 {
    let a = x & f.absmask();
    let s = f.sign(x);
    let e = f.exp_field(x) as i32 - f.bias();
    if a > f.inf(false) {
        return f.nan();
    }
    if e >= f.sb as i32 || a == 0 {
        return x;
    }
    // number of fraction bits; everything below 1/2 behaves alike
    let fb = (f.sb as i32 - e).min(f.sb as i32 + 2) as u32;
    let (int, frac) = if e < -1 {
        (0, 1u128)
    } else {
        let m = a & f.sigmask() | 1 << f.sb;
        (m >> fb, m & ((1 << fb) - 1))
    };
    let half = 1u128 << (fb - 1);
    let up = match mode {
        Mode::Ceil => !s && frac != 0,
        Mode::Floor => s && frac != 0,
        Mode::Trunc => false,
        Mode::Away => frac >= half,
        Mode::Even => frac > half || frac == half && int & 1 == 1,
    };
    f.round128(s, int + up as u128, 0)
}

pub type Imps3 = Vec<(&'static str, Box<dyn Fn(u128, u128, u128) -> u128 + Sync>)>;
#[macro_export]
macro_rules! imps3 {
    (@ $c:ident $n:ident $t:ident $u:ident) => {
        Box::new(|x: u128, y: u128, z: u128| $c::$n($t::from_bits(x as $u), $t::from_bits(y as $u), $t::from_bits(z as $u)).to_bits() as u128)
    };
    ($n:ident, $t:ident, $u:ident) => {{
        let v: $crate::lm::Imps3 = vec![
            ("default build", $crate::imps3!(@ libm $n $t $u)),
            ("generic build", $crate::imps3!(@ libm_gen $n $t $u)),
            ("intrinsics build", $crate::imps3!(@ libm_intr $n $t $u)),
            ("x87 build", $crate::imps3!(@ libm_x87 $n $t $u)),
        ];
        v
    }};
}

/// Two-argument function against an oracle on bit patterns, over all builds.
pub fn binary<'a>(f: Fmt, imps: &'a Imps2, oracle: &'a (dyn Fn(u128, u128) -> u128 + Sync)) -> impl Fn(u128, u128) -> Result<bool, (String, String)> + Sync + 'a {
    move |x, y| {
        let r = oracle(x, y);
        for (b, imp) in imps {
            let g = imp(x, y);
            if !same(&f, g, r) {
                return Err((hex(&f, r), format!("{} ({b})", hex(&f, g))));
            }
        }
        Ok(rounded(&f, r))
    }
}
