//! C50: float and integer trait helpers.
#![feature(f16, f128)]
use libm::support::{CastFrom, CastInto, DInt, Float, MinInt, NarrowFloat, WideFloat};
use vh::alpha::*;
use vh::fl::*;
use vh::rf::*;
use vh::{Ctx, run};

macro_rules! bad {
    ($what:expr, $e:expr, $g:expr) => {
        return Err((format!("{} = {:x?}", $what, $e), format!("{:x?}", $g)))
    };
}

/// Everything that can be asked about one value; fields and classes from the bit pattern alone.
macro_rules! unary {
    ($ctx:expr, $f:ident, $t:ty, $u:ty, $i:ty, $name:expr) => {{
        let f = $f;
        let case = |x: u128| -> Result<bool, (String, String)> {
            let v = <$t as Float>::from_bits(x as $u);
            let (s, e, m) = (f.sign(x), f.exp_field(x), x & f.sigmask());
            macro_rules! eq {
                ($g:expr, $e:expr) => {
                    if $g != $e {
                        bad!(stringify!($g), $e, $g)
                    }
                };
            }
            let nan = e == f.emax() && m != 0;
            let quiet = nan && m >> (f.sb - 1) == 1;
            eq!(Float::to_bits(v) as u128, x);
            eq!(Float::to_bits_signed(v), x as $u as $i);
            eq!(Float::ex(v), e);
            eq!(Float::exp_unbiased(v), e as i32 - f.bias());
            eq!(Float::frac(v) as u128, m);
            eq!(Float::is_nan(v), nan);
            eq!(Float::is_qnan(v), quiet);
            eq!(Float::is_snan(v), nan && !quiet);
            eq!(Float::is_infinite(v), e == f.emax() && m == 0);
            eq!(Float::is_sign_negative(v), s);
            eq!(Float::is_sign_positive(v), !s);
            if e != 0 || m != 0 {
                eq!(Float::is_subnormal(v), e == 0);
            }
            // surplus bits of the parts are ignored
            for hi in [0, 1, !0 as u32] {
                let ex = e | hi.checked_shl(f.eb).unwrap_or(0);
                let sig = (m | (hi as u128) << f.sb) as $u;
                eq!(Float::to_bits(<$t as Float>::from_parts(s, ex, sig)) as u128, x);
            }
            eq!(Float::to_bits(Float::abs(v)) as u128, x & f.absmask());
            for (y, ys) in [(0.0, false), (-0.0, true), (<$t>::INFINITY, false), (-1.0, true), (<$t as Float>::NEG_NAN, true), (<$t as Float>::NAN, false)] {
                eq!(Float::to_bits(Float::copysign(v, y)) as u128, x & f.absmask() | (ys as u128) << (f.bits() - 1));
            }
            let sg = Float::to_bits(Float::signum(v)) as u128;
            if nan { eq!(f.is_nan(sg), true) } else { eq!(sg, f.one() | (s as u128) << (f.bits() - 1)) }
            let c = Float::to_bits(Float::canonicalize(v)) as u128;
            if nan { eq!(f.is_nan(c), true) } else { eq!(c, x) }
            eq!(Float::biteq(v, v), true);
            eq!(Float::eq_repr(v, v), true);
            for y in [x ^ 1, x ^ 1 << (f.bits() - 1), x ^ 1 << f.sb, x ^ 1 << (f.sb - 1)] {
                let o = <$t as Float>::from_bits(y as $u);
                eq!(Float::biteq(v, o), false);
                eq!(Float::eq_repr(v, o), nan && f.is_nan(y));
            }
            // a significand below the implicit bit moved up to it
            if m != 0 {
                let up = m.leading_zeros() - (127 - f.sb);
                eq!(<$t as Float>::normalize(m as $u), (1 - up as i32, (m << up) as $u));
            }
            Ok(!nan)
        };
        Un { name: $name, f, case: &case }.plan($ctx, 2);
    }};
}

macro_rules! consts {
    ($w:expr, $f:ident, $t:ty, $u:ty) => {{
        let f = $f;
        let all: &[(&str, u128, u128)] = &[
            ("BITS", <$t as Float>::BITS as u128, f.bits() as u128),
            ("SIG_BITS", <$t as Float>::SIG_BITS as u128, f.sb as u128),
            ("EXP_BITS", <$t as Float>::EXP_BITS as u128, f.eb as u128),
            ("EXP_SAT", <$t as Float>::EXP_SAT as u128, (1 << f.eb) - 1),
            ("EXP_BIAS", <$t as Float>::EXP_BIAS as u128, (1 << (f.eb - 1)) - 1),
            ("EXP_MAX", <$t as Float>::EXP_MAX as u128, (1 << (f.eb - 1)) - 1),
            ("EXP_MIN", <$t as Float>::EXP_MIN as u128, (1 - f.bias()) as u128),
            ("EXP_MIN_SUBNORM", <$t as Float>::EXP_MIN_SUBNORM as u128, (1 - f.bias() - f.sb as i32) as u128),
            ("SIGN_MASK", <$t as Float>::SIGN_MASK as u128, 1 << (f.bits() - 1)),
            ("SIG_MASK", <$t as Float>::SIG_MASK as u128, f.sigmask()),
            ("EXP_MASK", <$t as Float>::EXP_MASK as u128, f.inf(false)),
            ("IMPLICIT_BIT", <$t as Float>::IMPLICIT_BIT as u128, 1 << f.sb),
            ("SIG_TOP_BIT", <$t as Float>::SIG_TOP_BIT as u128, 1 << (f.sb - 1)),
            ("ZERO", <$t as Float>::ZERO.to_bits() as u128, 0),
            ("NEG_ZERO", <$t as Float>::NEG_ZERO.to_bits() as u128, f.zero(true)),
            ("ONE", <$t as Float>::ONE.to_bits() as u128, f.one()),
            ("NEG_ONE", <$t as Float>::NEG_ONE.to_bits() as u128, f.neg(f.one())),
            ("INFINITY", <$t as Float>::INFINITY.to_bits() as u128, f.inf(false)),
            ("NEG_INFINITY", <$t as Float>::NEG_INFINITY.to_bits() as u128, f.inf(true)),
            ("MAX", <$t as Float>::MAX.to_bits() as u128, f.inf(false) - 1),
            ("MIN", <$t as Float>::MIN.to_bits() as u128, f.inf(true) - 1),
            ("EPSILON", <$t as Float>::EPSILON.to_bits() as u128, f.make(false, (f.bias() - f.sb as i32) as u32, 0)),
            ("MIN_POSITIVE_NORMAL", <$t as Float>::MIN_POSITIVE_NORMAL.to_bits() as u128, 1 << f.sb),
            ("MIN_POSITIVE_SUBNORMAL", <$t as Float>::MIN_POSITIVE_SUBNORMAL.to_bits() as u128, 1),
            ("NAN is quiet", <$t as Float>::NAN.to_bits() as u128 & (f.inf(false) | 1 << (f.sb - 1)), f.inf(false) | 1 << (f.sb - 1)),
            ("NEG_NAN", <$t as Float>::NEG_NAN.to_bits() as u128, <$t as Float>::NAN.to_bits() as u128 | 1 << (f.bits() - 1)),
            ("SNAN is signaling", (f.is_nan(<$t as Float>::SNAN.to_bits() as u128) && <$t as Float>::SNAN.to_bits() as u128 >> (f.sb - 1) & 1 == 0) as u128, 1),
            ("NEG_SNAN", <$t as Float>::NEG_SNAN.to_bits() as u128, <$t as Float>::SNAN.to_bits() as u128 | 1 << (f.bits() - 1)),
            // pi to 128 bits after the leading two
            ("PI", <$t as Float>::PI.to_bits() as u128, f.round(false, &U::from(0xc90f_daa2_2168_c234_c4c6_628b_80dc_1cd1), -126, true).0),
            ("NEG_PI", <$t as Float>::NEG_PI.to_bits() as u128, f.round(true, &U::from(0xc90f_daa2_2168_c234_c4c6_628b_80dc_1cd1), -126, true).0),
            ("FRAC_PI_2", <$t as Float>::FRAC_PI_2.to_bits() as u128, f.round(false, &U::from(0xc90f_daa2_2168_c234_c4c6_628b_80dc_1cd1), -127, true).0),
        ];
        for (n, g, e) in all {
            $w.args([f.bits() as u64, *g as u64]);
            if g != e {
                $w.fail(concat!(stringify!($t), " constants"), n, &format!("{e:#x}"), &format!("{g:#x}"));
            }
            $w.done(true);
        }
    }};
}

/// Operand alphabet of an integer type, sign-extended to 128 bits.
fn ints(bits: u32) -> Vec<u128> {
    if bits <= 16 { (0..1u128 << bits).collect() } else { dedup(ints_runs(bits).into_iter().chain(ints_allruns(bits)).collect()) }
}

macro_rules! casts {
    ($ctx:expr; $($t:ident $tb:literal)*) => {
        $(casts!(@ $ctx, $t, $tb; usize isize u8 i8 u16 i16 u32 i32 u64 i64 u128 i128);)*
    };
    (@ $ctx:expr, $t:ident, $tb:literal; $($to:ident)*) => {{
        let v = ints($tb);
        $ctx.par(concat!("casts from ", stringify!($t)), v.len().div_ceil(64) as u64, |i, w| {
            w.func("cast");
            for &x in &v[i as usize * 64..v.len().min((i as usize + 1) * 64)] {
                let x = x as $t;
                w.args([x as u64, (x as u128 >> 64) as u64]);
                // sign and magnitude, so that every value of every type has one representation
                let neg = x < (0 as $t);
                #[allow(unused_comparisons)]
                let mag = if neg { (x as u128).wrapping_neg() } else { x as u128 };
                $(
                    let bits = <$to as MinInt>::BITS;
                    let fits = if <$to as MinInt>::SIGNED { mag < 1 << (bits - 1) || neg && mag == 1 << (bits - 1) } else { !neg && (bits == 128 || mag >> bits == 0) };
                    let low = (if neg { mag.wrapping_neg() } else { mag }) << (128 - bits) >> (128 - bits);
                    let g: $to = x.cast_lossy();
                    let g2 = <$to as CastFrom<$t>>::cast_from_lossy(x);
                    if g as u128 & (u128::MAX >> (128 - bits)) != low || g2 != g {
                        w.fail(concat!("cast_lossy ", stringify!($t), " -> ", stringify!($to)), &format!("{x:#x}"), &format!("{low:#x}"), &format!("{g:#x} {g2:#x}"));
                    }
                    if fits {
                        let g: $to = x.cast();
                        let g2 = <$to as CastFrom<$t>>::cast_from(x);
                        if g as u128 & (u128::MAX >> (128 - bits)) != low || g2 != g {
                            w.fail(concat!("cast ", stringify!($t), " -> ", stringify!($to)), &format!("{x:#x}"), &format!("{low:#x}"), &format!("{g:#x} {g2:#x}"));
                        }
                    }
                )*
                w.done(neg || mag != 0);
            }
        });
    }};
}

macro_rules! to_float {
    ($ctx:expr; $($t:ident $tb:literal)*) => {
        $(to_float!(@ $ctx, $t, $tb; f16 F16, f32 F32, f64 F64, f128 F128);)*
    };
    (@ $ctx:expr, $t:ident, $tb:literal; $($to:ident $f:ident),*) => {{
        let v = ints($tb);
        $ctx.par(concat!("casts from ", stringify!($t), " to floats"), v.len().div_ceil(64) as u64, |i, w| {
            w.func("cast");
            for &x in &v[i as usize * 64..v.len().min((i as usize + 1) * 64)] {
                let x = x as $t;
                w.args([x as u64, (x as u128 >> 64) as u64]);
                let (neg, mag) = (x < 0, (x as i128).unsigned_abs());
                $(
                    let (e, inexact) = if mag == 0 { (0, false) } else { $f.round(neg, &U::from(mag), 0, false) };
                    let g: $to = x.cast_lossy();
                    if g.to_bits() as u128 != e {
                        w.fail(concat!("cast_lossy ", stringify!($t), " -> ", stringify!($to)), &format!("{x:#x}"), &hex(&$f, e), &hex(&$f, g.to_bits() as u128));
                    }
                    if !inexact {
                        let g: $to = x.cast();
                        if g.to_bits() as u128 != e {
                            w.fail(concat!("cast ", stringify!($t), " -> ", stringify!($to)), &format!("{x:#x}"), &hex(&$f, e), &hex(&$f, g.to_bits() as u128));
                        }
                    }
                )*
                w.done(mag != 0);
            }
        });
    }};
}

macro_rules! widths {
    ($ctx:expr, $n:ident $nf:ident $nu:ty, $d:ident $df:ident $du:ty) => {{
        let up = eqcase($df, |x| NarrowFloat::widen($n::from_bits(x as $nu)).to_bits() as u128, |x| $nf.convert(&$df, x).0);
        let case = |x: u128| if $nf.is_nan(x) { Ok(false) } else { up(x) };
        Un { name: concat!(stringify!($n), " widen"), f: $nf, case: &case }.plan($ctx, 3);
        let down = eqcase($nf, |x| WideFloat::narrow($d::from_bits(x as $du)).to_bits() as u128, |x| $df.convert(&$nf, x).0);
        Un { name: concat!(stringify!($d), " narrow"), f: $df, case: &down }.plan($ctx, 3);
    }};
}

fn main() {
    run("C50", "exploration", |ctx: &Ctx| {
        ctx.rule("fields, classes and constants computed from the bit pattern by the definition of each format; casts judged on sign and magnitude; a case counts unless the operand is a NaN or zero");
        ctx.seq("constants", |w| {
            w.func("constants");
            consts!(w, F16, f16, u16);
            consts!(w, F32, f32, u32);
            consts!(w, F64, f64, u64);
            consts!(w, F128, f128, u128);
        });
        unary!(ctx, F16, f16, u16, i16, "Float for f16");
        unary!(ctx, F32, f32, u32, i32, "Float for f32");
        unary!(ctx, F64, f64, u64, i64, "Float for f64");
        unary!(ctx, F128, f128, u128, i128, "Float for f128");
        widths!(ctx, f16 F16 u16, f32 F32 u32);
        widths!(ctx, f32 F32 u32, f64 F64 u64);
        widths!(ctx, f64 F64 u64, f128 F128 u128);
        casts!(ctx; usize 64 isize 64 u8 8 i8 8 u16 16 i16 16 u32 32 i32 32 u64 64 i64 64 u128 128 i128 128);
        to_float!(ctx; i8 8 i16 16 i32 32 i64 64 i128 128);
        // halves of the integer representation
        ctx.par("halves of bit patterns", 1 << 16, |i, w| {
            w.func("DInt");
            w.args([i]);
            let x = i as u16;
            if x.lo_hi() != (x as u8, (i >> 8) as u8) || u16::from_lo_hi(x as u8, (i >> 8) as u8) != x {
                w.fail("u16 halves", &format!("{i:#x}"), "low and high byte", &format!("{:x?}", x.lo_hi()));
            }
            w.done(true);
        });
    });
}
