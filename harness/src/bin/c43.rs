//! Entry points of the same computation agree: wrappers with the functions they name, and companions that
//! return parts of each other's result.
#![feature(f16, f128)]

#[cfg(feature = "bare")]
use cb_bare::math as bare;
use compiler_builtins::math as cb;
use libm::Libm;
use vh::alpha::*;
use vh::fl::{hex, same};
use vh::rf::*;
use vh::{Ctx, run};

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    F(Fmt),
    I,
    None,
}
use Kind::*;

trait Arg: Copy {
    const KIND: Kind;
    fn of(x: u128) -> Self;
    fn bits(self) -> u128;
}
macro_rules! arg {
    ($($t:ident $u:ident $f:ident),*) => {$(
        impl Arg for $t {
            const KIND: Kind = F($f);
            fn of(x: u128) -> Self { $t::from_bits(x as $u) }
            fn bits(self) -> u128 { self.to_bits() as u128 }
        }
    )*};
}
arg!(f16 u16 F16, f32 u32 F32, f64 u64 F64, f128 u128 F128);
impl Arg for i32 {
    const KIND: Kind = I;
    fn of(x: u128) -> Self {
        x as i32
    }
    fn bits(self) -> u128 {
        self as u32 as u128
    }
}
trait Ret {
    const KINDS: [Kind; 2];
    fn all(self) -> [u128; 2];
}
impl<T: Arg> Ret for T {
    const KINDS: [Kind; 2] = [T::KIND, None];
    fn all(self) -> [u128; 2] {
        [self.bits(), 0]
    }
}
impl<T: Arg, S: Arg> Ret for (T, S) {
    const KINDS: [Kind; 2] = [T::KIND, S::KIND];
    fn all(self) -> [u128; 2] {
        [self.0.bits(), self.1.bits()]
    }
}
fn kinds<R: Ret>(_: fn([u128; 3]) -> R) -> [Kind; 2] {
    R::KINDS
}

struct Pair {
    name: &'static str,
    args: Vec<Kind>,
    ret: [Kind; 2],
    f: fn([u128; 3]) -> ([u128; 2], [u128; 2]),
    /// Cheap relations between separate computations, which get the larger domains.
    deep: bool,
}

macro_rules! p1 {
    ($v:ident, $n:literal, $a:expr, $b:expr, $t:ty) => {
        $v.push(Pair {
            name: $n,
            args: vec![<$t as Arg>::KIND],
            ret: kinds(|x| $b(<$t as Arg>::of(x[0]))),
            f: |x| ($a(<$t as Arg>::of(x[0])).all(), $b(<$t as Arg>::of(x[0])).all()),
            deep: false,
        })
    };
}
macro_rules! p2 {
    ($v:ident, $n:literal, $a:expr, $b:expr, $t:ty, $s:ty) => {
        $v.push(Pair {
            name: $n,
            args: vec![<$t as Arg>::KIND, <$s as Arg>::KIND],
            ret: kinds(|x| $b(<$t as Arg>::of(x[0]), <$s as Arg>::of(x[1]))),
            f: |x| ($a(<$t as Arg>::of(x[0]), <$s as Arg>::of(x[1])).all(), $b(<$t as Arg>::of(x[0]), <$s as Arg>::of(x[1])).all()),
            deep: false,
        })
    };
}
macro_rules! p3 {
    ($v:ident, $n:literal, $a:expr, $b:expr, $t:ty, $s:ty, $r:ty) => {
        $v.push(Pair {
            name: $n,
            args: vec![<$t as Arg>::KIND, <$s as Arg>::KIND, <$r as Arg>::KIND],
            ret: kinds(|x| $b(<$t as Arg>::of(x[0]), <$s as Arg>::of(x[1]), <$r as Arg>::of(x[2]))),
            f: |x| {
                let (a, b, c) = (<$t as Arg>::of(x[0]), <$s as Arg>::of(x[1]), <$r as Arg>::of(x[2]));
                ($a(a, b, c).all(), $b(a, b, c).all())
            },
            deep: false,
        })
    };
}

/// Method-style wrappers, each with the library function its name and type stand for.
fn wrappers() -> Vec<Pair> {
    let mut v = Vec::new();
    p1!(v, "Libm::<f32>::acos", Libm::<f32>::acos, libm::acosf, f32);
    p1!(v, "Libm::<f32>::acosh", Libm::<f32>::acosh, libm::acoshf, f32);
    p1!(v, "Libm::<f32>::asin", Libm::<f32>::asin, libm::asinf, f32);
    p1!(v, "Libm::<f32>::asinh", Libm::<f32>::asinh, libm::asinhf, f32);
    p1!(v, "Libm::<f32>::atan", Libm::<f32>::atan, libm::atanf, f32);
    p2!(v, "Libm::<f32>::atan2", Libm::<f32>::atan2, libm::atan2f, f32, f32);
    p1!(v, "Libm::<f32>::atanh", Libm::<f32>::atanh, libm::atanhf, f32);
    p1!(v, "Libm::<f32>::cbrt", Libm::<f32>::cbrt, libm::cbrtf, f32);
    p1!(v, "Libm::<f32>::ceil", Libm::<f32>::ceil, libm::ceilf, f32);
    p2!(v, "Libm::<f32>::copysign", Libm::<f32>::copysign, libm::copysignf, f32, f32);
    p1!(v, "Libm::<f32>::cos", Libm::<f32>::cos, libm::cosf, f32);
    p1!(v, "Libm::<f32>::cosh", Libm::<f32>::cosh, libm::coshf, f32);
    p1!(v, "Libm::<f32>::erf", Libm::<f32>::erf, libm::erff, f32);
    p1!(v, "Libm::<f32>::erfc", Libm::<f32>::erfc, libm::erfcf, f32);
    p1!(v, "Libm::<f32>::exp", Libm::<f32>::exp, libm::expf, f32);
    p1!(v, "Libm::<f32>::exp10", Libm::<f32>::exp10, libm::exp10f, f32);
    p1!(v, "Libm::<f32>::exp2", Libm::<f32>::exp2, libm::exp2f, f32);
    p1!(v, "Libm::<f32>::expm1", Libm::<f32>::expm1, libm::expm1f, f32);
    p1!(v, "Libm::<f32>::fabs", Libm::<f32>::fabs, libm::fabsf, f32);
    p2!(v, "Libm::<f32>::fdim", Libm::<f32>::fdim, libm::fdimf, f32, f32);
    p1!(v, "Libm::<f32>::floor", Libm::<f32>::floor, libm::floorf, f32);
    p3!(v, "Libm::<f32>::fma", Libm::<f32>::fma, libm::fmaf, f32, f32, f32);
    p2!(v, "Libm::<f32>::fmax", Libm::<f32>::fmax, libm::fmaxf, f32, f32);
    p2!(v, "Libm::<f32>::fmin", Libm::<f32>::fmin, libm::fminf, f32, f32);
    p2!(v, "Libm::<f32>::fmod", Libm::<f32>::fmod, libm::fmodf, f32, f32);
    p1!(v, "Libm::<f32>::frexp", Libm::<f32>::frexp, libm::frexpf, f32);
    p2!(v, "Libm::<f32>::hypot", Libm::<f32>::hypot, libm::hypotf, f32, f32);
    p1!(v, "Libm::<f32>::ilogb", Libm::<f32>::ilogb, libm::ilogbf, f32);
    p1!(v, "Libm::<f32>::j0", Libm::<f32>::j0, libm::j0f, f32);
    p1!(v, "Libm::<f32>::j1", Libm::<f32>::j1, libm::j1f, f32);
    p2!(v, "Libm::<f32>::jn", Libm::<f32>::jn, libm::jnf, i32, f32);
    p2!(v, "Libm::<f32>::ldexp", Libm::<f32>::ldexp, libm::ldexpf, f32, i32);
    p1!(v, "Libm::<f32>::lgamma", Libm::<f32>::lgamma, libm::lgammaf, f32);
    p1!(v, "Libm::<f32>::lgamma_r", Libm::<f32>::lgamma_r, libm::lgammaf_r, f32);
    p1!(v, "Libm::<f32>::log", Libm::<f32>::log, libm::logf, f32);
    p1!(v, "Libm::<f32>::log10", Libm::<f32>::log10, libm::log10f, f32);
    p1!(v, "Libm::<f32>::log1p", Libm::<f32>::log1p, libm::log1pf, f32);
    p1!(v, "Libm::<f32>::log2", Libm::<f32>::log2, libm::log2f, f32);
    p1!(v, "Libm::<f32>::modf", Libm::<f32>::modf, libm::modff, f32);
    p2!(v, "Libm::<f32>::nextafter", Libm::<f32>::nextafter, libm::nextafterf, f32, f32);
    p2!(v, "Libm::<f32>::pow", Libm::<f32>::pow, libm::powf, f32, f32);
    p2!(v, "Libm::<f32>::remainder", Libm::<f32>::remainder, libm::remainderf, f32, f32);
    p2!(v, "Libm::<f32>::remquo", Libm::<f32>::remquo, libm::remquof, f32, f32);
    p1!(v, "Libm::<f32>::rint", Libm::<f32>::rint, libm::rintf, f32);
    p1!(v, "Libm::<f32>::round", Libm::<f32>::round, libm::roundf, f32);
    p1!(v, "Libm::<f32>::roundeven", Libm::<f32>::roundeven, libm::roundevenf, f32);
    p2!(v, "Libm::<f32>::scalbn", Libm::<f32>::scalbn, libm::scalbnf, f32, i32);
    p1!(v, "Libm::<f32>::sin", Libm::<f32>::sin, libm::sinf, f32);
    p1!(v, "Libm::<f32>::sincos", Libm::<f32>::sincos, libm::sincosf, f32);
    p1!(v, "Libm::<f32>::sinh", Libm::<f32>::sinh, libm::sinhf, f32);
    p1!(v, "Libm::<f32>::sqrt", Libm::<f32>::sqrt, libm::sqrtf, f32);
    p1!(v, "Libm::<f32>::tan", Libm::<f32>::tan, libm::tanf, f32);
    p1!(v, "Libm::<f32>::tanh", Libm::<f32>::tanh, libm::tanhf, f32);
    p1!(v, "Libm::<f32>::tgamma", Libm::<f32>::tgamma, libm::tgammaf, f32);
    p1!(v, "Libm::<f32>::trunc", Libm::<f32>::trunc, libm::truncf, f32);
    p1!(v, "Libm::<f32>::y0", Libm::<f32>::y0, libm::y0f, f32);
    p1!(v, "Libm::<f32>::y1", Libm::<f32>::y1, libm::y1f, f32);
    p2!(v, "Libm::<f32>::yn", Libm::<f32>::yn, libm::ynf, i32, f32);
    p1!(v, "Libm::<f64>::acos", Libm::<f64>::acos, libm::acos, f64);
    p1!(v, "Libm::<f64>::acosh", Libm::<f64>::acosh, libm::acosh, f64);
    p1!(v, "Libm::<f64>::asin", Libm::<f64>::asin, libm::asin, f64);
    p1!(v, "Libm::<f64>::asinh", Libm::<f64>::asinh, libm::asinh, f64);
    p1!(v, "Libm::<f64>::atan", Libm::<f64>::atan, libm::atan, f64);
    p2!(v, "Libm::<f64>::atan2", Libm::<f64>::atan2, libm::atan2, f64, f64);
    p1!(v, "Libm::<f64>::atanh", Libm::<f64>::atanh, libm::atanh, f64);
    p1!(v, "Libm::<f64>::cbrt", Libm::<f64>::cbrt, libm::cbrt, f64);
    p1!(v, "Libm::<f64>::ceil", Libm::<f64>::ceil, libm::ceil, f64);
    p2!(v, "Libm::<f64>::copysign", Libm::<f64>::copysign, libm::copysign, f64, f64);
    p1!(v, "Libm::<f64>::cos", Libm::<f64>::cos, libm::cos, f64);
    p1!(v, "Libm::<f64>::cosh", Libm::<f64>::cosh, libm::cosh, f64);
    p1!(v, "Libm::<f64>::erf", Libm::<f64>::erf, libm::erf, f64);
    p1!(v, "Libm::<f64>::erfc", Libm::<f64>::erfc, libm::erfc, f64);
    p1!(v, "Libm::<f64>::exp", Libm::<f64>::exp, libm::exp, f64);
    p1!(v, "Libm::<f64>::exp10", Libm::<f64>::exp10, libm::exp10, f64);
    p1!(v, "Libm::<f64>::exp2", Libm::<f64>::exp2, libm::exp2, f64);
    p1!(v, "Libm::<f64>::expm1", Libm::<f64>::expm1, libm::expm1, f64);
    p1!(v, "Libm::<f64>::fabs", Libm::<f64>::fabs, libm::fabs, f64);
    p2!(v, "Libm::<f64>::fdim", Libm::<f64>::fdim, libm::fdim, f64, f64);
    p1!(v, "Libm::<f64>::floor", Libm::<f64>::floor, libm::floor, f64);
    p3!(v, "Libm::<f64>::fma", Libm::<f64>::fma, libm::fma, f64, f64, f64);
    p2!(v, "Libm::<f64>::fmax", Libm::<f64>::fmax, libm::fmax, f64, f64);
    p2!(v, "Libm::<f64>::fmaximum", Libm::<f64>::fmaximum, libm::fmaximum, f64, f64);
    p2!(v, "Libm::<f64>::fmaximum_num", Libm::<f64>::fmaximum_num, libm::fmaximum_num, f64, f64);
    p2!(v, "Libm::<f64>::fmaximum_numf", Libm::<f64>::fmaximum_numf, libm::fmaximum_numf, f32, f32);
    p2!(v, "Libm::<f64>::fmaximumf", Libm::<f64>::fmaximumf, libm::fmaximumf, f32, f32);
    p2!(v, "Libm::<f64>::fmin", Libm::<f64>::fmin, libm::fmin, f64, f64);
    p2!(v, "Libm::<f64>::fminimum", Libm::<f64>::fminimum, libm::fminimum, f64, f64);
    p2!(v, "Libm::<f64>::fminimum_num", Libm::<f64>::fminimum_num, libm::fminimum_num, f64, f64);
    p2!(v, "Libm::<f64>::fminimum_numf", Libm::<f64>::fminimum_numf, libm::fminimum_numf, f32, f32);
    p2!(v, "Libm::<f64>::fminimumf", Libm::<f64>::fminimumf, libm::fminimumf, f32, f32);
    p2!(v, "Libm::<f64>::fmod", Libm::<f64>::fmod, libm::fmod, f64, f64);
    p1!(v, "Libm::<f64>::frexp", Libm::<f64>::frexp, libm::frexp, f64);
    p2!(v, "Libm::<f64>::hypot", Libm::<f64>::hypot, libm::hypot, f64, f64);
    p1!(v, "Libm::<f64>::ilogb", Libm::<f64>::ilogb, libm::ilogb, f64);
    p1!(v, "Libm::<f64>::j0", Libm::<f64>::j0, libm::j0, f64);
    p1!(v, "Libm::<f64>::j1", Libm::<f64>::j1, libm::j1, f64);
    p2!(v, "Libm::<f64>::jn", Libm::<f64>::jn, libm::jn, i32, f64);
    p2!(v, "Libm::<f64>::ldexp", Libm::<f64>::ldexp, libm::ldexp, f64, i32);
    p1!(v, "Libm::<f64>::lgamma", Libm::<f64>::lgamma, libm::lgamma, f64);
    p1!(v, "Libm::<f64>::lgamma_r", Libm::<f64>::lgamma_r, libm::lgamma_r, f64);
    p1!(v, "Libm::<f64>::log", Libm::<f64>::log, libm::log, f64);
    p1!(v, "Libm::<f64>::log10", Libm::<f64>::log10, libm::log10, f64);
    p1!(v, "Libm::<f64>::log1p", Libm::<f64>::log1p, libm::log1p, f64);
    p1!(v, "Libm::<f64>::log2", Libm::<f64>::log2, libm::log2, f64);
    p1!(v, "Libm::<f64>::modf", Libm::<f64>::modf, libm::modf, f64);
    p2!(v, "Libm::<f64>::nextafter", Libm::<f64>::nextafter, libm::nextafter, f64, f64);
    p2!(v, "Libm::<f64>::pow", Libm::<f64>::pow, libm::pow, f64, f64);
    p2!(v, "Libm::<f64>::remainder", Libm::<f64>::remainder, libm::remainder, f64, f64);
    p2!(v, "Libm::<f64>::remquo", Libm::<f64>::remquo, libm::remquo, f64, f64);
    p1!(v, "Libm::<f64>::rint", Libm::<f64>::rint, libm::rint, f64);
    p1!(v, "Libm::<f64>::round", Libm::<f64>::round, libm::round, f64);
    p1!(v, "Libm::<f64>::roundeven", Libm::<f64>::roundeven, libm::roundeven, f64);
    p2!(v, "Libm::<f64>::scalbn", Libm::<f64>::scalbn, libm::scalbn, f64, i32);
    p1!(v, "Libm::<f64>::sin", Libm::<f64>::sin, libm::sin, f64);
    p1!(v, "Libm::<f64>::sincos", Libm::<f64>::sincos, libm::sincos, f64);
    p1!(v, "Libm::<f64>::sinh", Libm::<f64>::sinh, libm::sinh, f64);
    p1!(v, "Libm::<f64>::sqrt", Libm::<f64>::sqrt, libm::sqrt, f64);
    p1!(v, "Libm::<f64>::tan", Libm::<f64>::tan, libm::tan, f64);
    p1!(v, "Libm::<f64>::tanh", Libm::<f64>::tanh, libm::tanh, f64);
    p1!(v, "Libm::<f64>::tgamma", Libm::<f64>::tgamma, libm::tgamma, f64);
    p1!(v, "Libm::<f64>::trunc", Libm::<f64>::trunc, libm::trunc, f64);
    p1!(v, "Libm::<f64>::y0", Libm::<f64>::y0, libm::y0, f64);
    p1!(v, "Libm::<f64>::y1", Libm::<f64>::y1, libm::y1, f64);
    p2!(v, "Libm::<f64>::yn", Libm::<f64>::yn, libm::yn, i32, f64);
    p1!(v, "Libm::<f16>::ceil", Libm::<f16>::ceil, libm::ceilf16, f16);
    p2!(v, "Libm::<f16>::copysign", Libm::<f16>::copysign, libm::copysignf16, f16, f16);
    p1!(v, "Libm::<f16>::fabs", Libm::<f16>::fabs, libm::fabsf16, f16);
    p2!(v, "Libm::<f16>::fdim", Libm::<f16>::fdim, libm::fdimf16, f16, f16);
    p1!(v, "Libm::<f16>::floor", Libm::<f16>::floor, libm::floorf16, f16);
    p3!(v, "Libm::<f16>::fma", Libm::<f16>::fma, libm::fmaf16, f16, f16, f16);
    p2!(v, "Libm::<f16>::fmax", Libm::<f16>::fmax, libm::fmaxf16, f16, f16);
    p2!(v, "Libm::<f16>::fmaximum_num", Libm::<f16>::fmaximum_num, libm::fmaximum_numf16, f16, f16);
    p2!(v, "Libm::<f16>::fmaximumf16", Libm::<f16>::fmaximumf16, libm::fmaximumf16, f16, f16);
    p2!(v, "Libm::<f16>::fmin", Libm::<f16>::fmin, libm::fminf16, f16, f16);
    p2!(v, "Libm::<f16>::fminimum", Libm::<f16>::fminimum, libm::fminimumf16, f16, f16);
    p2!(v, "Libm::<f16>::fminimum_num", Libm::<f16>::fminimum_num, libm::fminimum_numf16, f16, f16);
    p2!(v, "Libm::<f16>::fmod", Libm::<f16>::fmod, libm::fmodf16, f16, f16);
    p1!(v, "Libm::<f16>::frexp", Libm::<f16>::frexp, libm::frexpf16, f16);
    p1!(v, "Libm::<f16>::ilogb", Libm::<f16>::ilogb, libm::ilogbf16, f16);
    p2!(v, "Libm::<f16>::ldexp", Libm::<f16>::ldexp, libm::ldexpf16, f16, i32);
    p1!(v, "Libm::<f16>::rint", Libm::<f16>::rint, libm::rintf16, f16);
    p1!(v, "Libm::<f16>::round", Libm::<f16>::round, libm::roundf16, f16);
    p1!(v, "Libm::<f16>::roundeven", Libm::<f16>::roundeven, libm::roundevenf16, f16);
    p2!(v, "Libm::<f16>::scalbn", Libm::<f16>::scalbn, libm::scalbnf16, f16, i32);
    p1!(v, "Libm::<f16>::sqrtf", Libm::<f16>::sqrtf, libm::sqrtf16, f16);
    p1!(v, "Libm::<f16>::truncf", Libm::<f16>::truncf, libm::truncf16, f16);
    p1!(v, "Libm::<f128>::ceil", Libm::<f128>::ceil, libm::ceilf128, f128);
    p2!(v, "Libm::<f128>::copysign", Libm::<f128>::copysign, libm::copysignf128, f128, f128);
    p1!(v, "Libm::<f128>::fabs", Libm::<f128>::fabs, libm::fabsf128, f128);
    p2!(v, "Libm::<f128>::fdim", Libm::<f128>::fdim, libm::fdimf128, f128, f128);
    p1!(v, "Libm::<f128>::floor", Libm::<f128>::floor, libm::floorf128, f128);
    p3!(v, "Libm::<f128>::fma", Libm::<f128>::fma, libm::fmaf128, f128, f128, f128);
    p2!(v, "Libm::<f128>::fmax", Libm::<f128>::fmax, libm::fmaxf128, f128, f128);
    p2!(v, "Libm::<f128>::fmaximum", Libm::<f128>::fmaximum, libm::fmaximumf128, f128, f128);
    p2!(v, "Libm::<f128>::fmaximum_num", Libm::<f128>::fmaximum_num, libm::fmaximum_numf128, f128, f128);
    p2!(v, "Libm::<f128>::fmin", Libm::<f128>::fmin, libm::fminf128, f128, f128);
    p2!(v, "Libm::<f128>::fminimum", Libm::<f128>::fminimum, libm::fminimumf128, f128, f128);
    p2!(v, "Libm::<f128>::fminimum_num", Libm::<f128>::fminimum_num, libm::fminimum_numf128, f128, f128);
    p2!(v, "Libm::<f128>::fmod", Libm::<f128>::fmod, libm::fmodf128, f128, f128);
    p1!(v, "Libm::<f128>::frexp", Libm::<f128>::frexp, libm::frexpf128, f128);
    p1!(v, "Libm::<f128>::ilogb", Libm::<f128>::ilogb, libm::ilogbf128, f128);
    p2!(v, "Libm::<f128>::ldexp", Libm::<f128>::ldexp, libm::ldexpf128, f128, i32);
    p1!(v, "Libm::<f128>::rint", Libm::<f128>::rint, libm::rintf128, f128);
    p1!(v, "Libm::<f128>::round", Libm::<f128>::round, libm::roundf128, f128);
    p1!(v, "Libm::<f128>::roundeven", Libm::<f128>::roundeven, libm::roundevenf128, f128);
    p2!(v, "Libm::<f128>::scalbn", Libm::<f128>::scalbn, libm::scalbnf128, f128, i32);
    p1!(v, "Libm::<f128>::sqrt", Libm::<f128>::sqrt, libm::sqrtf128, f128);
    p1!(v, "Libm::<f128>::trunc", Libm::<f128>::trunc, libm::truncf128, f128);
    v
}

/// Entry points of the runtime crate on this machine.
fn runtime() -> Vec<Pair> {
    let mut v = Vec::new();
    p1!(v, "compiler_builtins::ceilf16", cb::full_availability::ceilf16, libm::ceilf16, f16);
    p2!(v, "compiler_builtins::copysignf16", cb::full_availability::copysignf16, libm::copysignf16, f16, f16);
    p1!(v, "compiler_builtins::fabsf16", cb::full_availability::fabsf16, libm::fabsf16, f16);
    p2!(v, "compiler_builtins::fdimf16", cb::full_availability::fdimf16, libm::fdimf16, f16, f16);
    p1!(v, "compiler_builtins::floorf16", cb::full_availability::floorf16, libm::floorf16, f16);
    p2!(v, "compiler_builtins::fmaxf16", cb::full_availability::fmaxf16, libm::fmaxf16, f16, f16);
    p2!(v, "compiler_builtins::fmaximum_numf16", cb::full_availability::fmaximum_numf16, libm::fmaximum_numf16, f16, f16);
    p2!(v, "compiler_builtins::fmaximumf16", cb::full_availability::fmaximumf16, libm::fmaximumf16, f16, f16);
    p2!(v, "compiler_builtins::fminf16", cb::full_availability::fminf16, libm::fminf16, f16, f16);
    p2!(v, "compiler_builtins::fminimum_numf16", cb::full_availability::fminimum_numf16, libm::fminimum_numf16, f16, f16);
    p2!(v, "compiler_builtins::fminimumf16", cb::full_availability::fminimumf16, libm::fminimumf16, f16, f16);
    p2!(v, "compiler_builtins::fmodf16", cb::full_availability::fmodf16, libm::fmodf16, f16, f16);
    p1!(v, "compiler_builtins::rintf16", cb::full_availability::rintf16, libm::rintf16, f16);
    p1!(v, "compiler_builtins::roundevenf16", cb::full_availability::roundevenf16, libm::roundevenf16, f16);
    p1!(v, "compiler_builtins::roundf16", cb::full_availability::roundf16, libm::roundf16, f16);
    p1!(v, "compiler_builtins::sqrtf16", cb::full_availability::sqrtf16, libm::sqrtf16, f16);
    p1!(v, "compiler_builtins::truncf16", cb::full_availability::truncf16, libm::truncf16, f16);
    p1!(v, "compiler_builtins::cbrtf", cb::full_availability::cbrtf, libm::cbrtf, f32);
    p1!(v, "compiler_builtins::ceilf", cb::full_availability::ceilf, libm::ceilf, f32);
    p2!(v, "compiler_builtins::copysignf", cb::full_availability::copysignf, libm::copysignf, f32, f32);
    p1!(v, "compiler_builtins::fabsf", cb::full_availability::fabsf, libm::fabsf, f32);
    p2!(v, "compiler_builtins::fdimf", cb::full_availability::fdimf, libm::fdimf, f32, f32);
    p1!(v, "compiler_builtins::floorf", cb::full_availability::floorf, libm::floorf, f32);
    p3!(v, "compiler_builtins::fmaf", cb::full_availability::fmaf, libm::fmaf, f32, f32, f32);
    p2!(v, "compiler_builtins::fmaxf", cb::full_availability::fmaxf, libm::fmaxf, f32, f32);
    p2!(v, "compiler_builtins::fminf", cb::full_availability::fminf, libm::fminf, f32, f32);
    p2!(v, "compiler_builtins::fmodf", cb::full_availability::fmodf, libm::fmodf, f32, f32);
    p1!(v, "compiler_builtins::rintf", cb::full_availability::rintf, libm::rintf, f32);
    p1!(v, "compiler_builtins::roundf", cb::full_availability::roundf, libm::roundf, f32);
    p1!(v, "compiler_builtins::sqrtf", cb::full_availability::sqrtf, libm::sqrtf, f32);
    p1!(v, "compiler_builtins::truncf", cb::full_availability::truncf, libm::truncf, f32);
    p1!(v, "compiler_builtins::cbrt", cb::full_availability::cbrt, libm::cbrt, f64);
    p1!(v, "compiler_builtins::ceil", cb::full_availability::ceil, libm::ceil, f64);
    p2!(v, "compiler_builtins::copysign", cb::full_availability::copysign, libm::copysign, f64, f64);
    p1!(v, "compiler_builtins::fabs", cb::full_availability::fabs, libm::fabs, f64);
    p2!(v, "compiler_builtins::fdim", cb::full_availability::fdim, libm::fdim, f64, f64);
    p1!(v, "compiler_builtins::floor", cb::full_availability::floor, libm::floor, f64);
    p3!(v, "compiler_builtins::fma", cb::full_availability::fma, libm::fma, f64, f64, f64);
    p2!(v, "compiler_builtins::fmax", cb::full_availability::fmax, libm::fmax, f64, f64);
    p2!(v, "compiler_builtins::fmin", cb::full_availability::fmin, libm::fmin, f64, f64);
    p2!(v, "compiler_builtins::fmod", cb::full_availability::fmod, libm::fmod, f64, f64);
    p1!(v, "compiler_builtins::rint", cb::full_availability::rint, libm::rint, f64);
    p1!(v, "compiler_builtins::round", cb::full_availability::round, libm::round, f64);
    p1!(v, "compiler_builtins::sqrt", cb::full_availability::sqrt, libm::sqrt, f64);
    p1!(v, "compiler_builtins::trunc", cb::full_availability::trunc, libm::trunc, f64);
    p2!(v, "compiler_builtins::fmaximum", cb::full_availability::fmaximum, libm::fmaximum, f64, f64);
    p2!(v, "compiler_builtins::fmaximum_num", cb::full_availability::fmaximum_num, libm::fmaximum_num, f64, f64);
    p2!(v, "compiler_builtins::fmaximum_numf", cb::full_availability::fmaximum_numf, libm::fmaximum_numf, f32, f32);
    p2!(v, "compiler_builtins::fmaximumf", cb::full_availability::fmaximumf, libm::fmaximumf, f32, f32);
    p2!(v, "compiler_builtins::fminimum", cb::full_availability::fminimum, libm::fminimum, f64, f64);
    p2!(v, "compiler_builtins::fminimum_num", cb::full_availability::fminimum_num, libm::fminimum_num, f64, f64);
    p2!(v, "compiler_builtins::fminimum_numf", cb::full_availability::fminimum_numf, libm::fminimum_numf, f32, f32);
    p2!(v, "compiler_builtins::fminimumf", cb::full_availability::fminimumf, libm::fminimumf, f32, f32);
    p1!(v, "compiler_builtins::roundeven", cb::full_availability::roundeven, libm::roundeven, f64);
    p1!(v, "compiler_builtins::roundevenf", cb::full_availability::roundevenf, libm::roundevenf, f32);
    p1!(v, "compiler_builtins::ceilf128", cb::full_availability::ceilf128, libm::ceilf128, f128);
    p2!(v, "compiler_builtins::copysignf128", cb::full_availability::copysignf128, libm::copysignf128, f128, f128);
    p1!(v, "compiler_builtins::fabsf128", cb::full_availability::fabsf128, libm::fabsf128, f128);
    p2!(v, "compiler_builtins::fdimf128", cb::full_availability::fdimf128, libm::fdimf128, f128, f128);
    p1!(v, "compiler_builtins::floorf128", cb::full_availability::floorf128, libm::floorf128, f128);
    p3!(v, "compiler_builtins::fmaf128", cb::full_availability::fmaf128, libm::fmaf128, f128, f128, f128);
    p2!(v, "compiler_builtins::fmaxf128", cb::full_availability::fmaxf128, libm::fmaxf128, f128, f128);
    p2!(v, "compiler_builtins::fmaximum_numf128", cb::full_availability::fmaximum_numf128, libm::fmaximum_numf128, f128, f128);
    p2!(v, "compiler_builtins::fmaximumf128", cb::full_availability::fmaximumf128, libm::fmaximumf128, f128, f128);
    p2!(v, "compiler_builtins::fminf128", cb::full_availability::fminf128, libm::fminf128, f128, f128);
    p2!(v, "compiler_builtins::fminimum_numf128", cb::full_availability::fminimum_numf128, libm::fminimum_numf128, f128, f128);
    p2!(v, "compiler_builtins::fminimumf128", cb::full_availability::fminimumf128, libm::fminimumf128, f128, f128);
    p2!(v, "compiler_builtins::fmodf128", cb::full_availability::fmodf128, libm::fmodf128, f128, f128);
    p1!(v, "compiler_builtins::rintf128", cb::full_availability::rintf128, libm::rintf128, f128);
    p1!(v, "compiler_builtins::roundevenf128", cb::full_availability::roundevenf128, libm::roundevenf128, f128);
    p1!(v, "compiler_builtins::roundf128", cb::full_availability::roundf128, libm::roundf128, f128);
    p1!(v, "compiler_builtins::sqrtf128", cb::full_availability::sqrtf128, libm::sqrtf128, f128);
    p1!(v, "compiler_builtins::truncf128", cb::full_availability::truncf128, libm::truncf128, f128);
    v
}

/// Entry points of the runtime crate on machines without a system math library.
#[cfg(feature = "bare")]
fn runtime_bare() -> Vec<Pair> {
    let mut v = Vec::new();
    p1!(v, "compiler_builtins (bare)::acos", bare::partial_availability::acos, libm::acos, f64);
    p1!(v, "compiler_builtins (bare)::acosf", bare::partial_availability::acosf, libm::acosf, f32);
    p1!(v, "compiler_builtins (bare)::acosh", bare::partial_availability::acosh, libm::acosh, f64);
    p1!(v, "compiler_builtins (bare)::acoshf", bare::partial_availability::acoshf, libm::acoshf, f32);
    p1!(v, "compiler_builtins (bare)::asin", bare::partial_availability::asin, libm::asin, f64);
    p1!(v, "compiler_builtins (bare)::asinf", bare::partial_availability::asinf, libm::asinf, f32);
    p1!(v, "compiler_builtins (bare)::asinh", bare::partial_availability::asinh, libm::asinh, f64);
    p1!(v, "compiler_builtins (bare)::asinhf", bare::partial_availability::asinhf, libm::asinhf, f32);
    p1!(v, "compiler_builtins (bare)::atan", bare::partial_availability::atan, libm::atan, f64);
    p2!(v, "compiler_builtins (bare)::atan2", bare::partial_availability::atan2, libm::atan2, f64, f64);
    p2!(v, "compiler_builtins (bare)::atan2f", bare::partial_availability::atan2f, libm::atan2f, f32, f32);
    p1!(v, "compiler_builtins (bare)::atanf", bare::partial_availability::atanf, libm::atanf, f32);
    p1!(v, "compiler_builtins (bare)::cos", bare::partial_availability::cos, libm::cos, f64);
    p1!(v, "compiler_builtins (bare)::cosf", bare::partial_availability::cosf, libm::cosf, f32);
    p1!(v, "compiler_builtins (bare)::cosh", bare::partial_availability::cosh, libm::cosh, f64);
    p1!(v, "compiler_builtins (bare)::coshf", bare::partial_availability::coshf, libm::coshf, f32);
    p1!(v, "compiler_builtins (bare)::erf", bare::partial_availability::erf, libm::erf, f64);
    p1!(v, "compiler_builtins (bare)::erfc", bare::partial_availability::erfc, libm::erfc, f64);
    p1!(v, "compiler_builtins (bare)::erfcf", bare::partial_availability::erfcf, libm::erfcf, f32);
    p1!(v, "compiler_builtins (bare)::erff", bare::partial_availability::erff, libm::erff, f32);
    p1!(v, "compiler_builtins (bare)::exp", bare::partial_availability::exp, libm::exp, f64);
    p1!(v, "compiler_builtins (bare)::exp2", bare::partial_availability::exp2, libm::exp2, f64);
    p1!(v, "compiler_builtins (bare)::exp2f", bare::partial_availability::exp2f, libm::exp2f, f32);
    p1!(v, "compiler_builtins (bare)::expf", bare::partial_availability::expf, libm::expf, f32);
    p1!(v, "compiler_builtins (bare)::expm1", bare::partial_availability::expm1, libm::expm1, f64);
    p1!(v, "compiler_builtins (bare)::expm1f", bare::partial_availability::expm1f, libm::expm1f, f32);
    p2!(v, "compiler_builtins (bare)::hypot", bare::partial_availability::hypot, libm::hypot, f64, f64);
    p2!(v, "compiler_builtins (bare)::hypotf", bare::partial_availability::hypotf, libm::hypotf, f32, f32);
    p2!(v, "compiler_builtins (bare)::ldexp", bare::partial_availability::ldexp, libm::ldexp, f64, i32);
    p2!(v, "compiler_builtins (bare)::ldexpf", bare::partial_availability::ldexpf, libm::ldexpf, f32, i32);
    p1!(v, "compiler_builtins (bare)::log", bare::partial_availability::log, libm::log, f64);
    p1!(v, "compiler_builtins (bare)::log10", bare::partial_availability::log10, libm::log10, f64);
    p1!(v, "compiler_builtins (bare)::log10f", bare::partial_availability::log10f, libm::log10f, f32);
    p1!(v, "compiler_builtins (bare)::log1p", bare::partial_availability::log1p, libm::log1p, f64);
    p1!(v, "compiler_builtins (bare)::log1pf", bare::partial_availability::log1pf, libm::log1pf, f32);
    p1!(v, "compiler_builtins (bare)::log2", bare::partial_availability::log2, libm::log2, f64);
    p1!(v, "compiler_builtins (bare)::log2f", bare::partial_availability::log2f, libm::log2f, f32);
    p1!(v, "compiler_builtins (bare)::logf", bare::partial_availability::logf, libm::logf, f32);
    p2!(v, "compiler_builtins (bare)::pow", bare::partial_availability::pow, libm::pow, f64, f64);
    p2!(v, "compiler_builtins (bare)::powf", bare::partial_availability::powf, libm::powf, f32, f32);
    p1!(v, "compiler_builtins (bare)::sin", bare::partial_availability::sin, libm::sin, f64);
    p1!(v, "compiler_builtins (bare)::sinf", bare::partial_availability::sinf, libm::sinf, f32);
    p1!(v, "compiler_builtins (bare)::sinh", bare::partial_availability::sinh, libm::sinh, f64);
    p1!(v, "compiler_builtins (bare)::sinhf", bare::partial_availability::sinhf, libm::sinhf, f32);
    p1!(v, "compiler_builtins (bare)::tan", bare::partial_availability::tan, libm::tan, f64);
    p1!(v, "compiler_builtins (bare)::tanf", bare::partial_availability::tanf, libm::tanf, f32);
    p1!(v, "compiler_builtins (bare)::tanh", bare::partial_availability::tanh, libm::tanh, f64);
    p1!(v, "compiler_builtins (bare)::tanhf", bare::partial_availability::tanhf, libm::tanhf, f32);
    p1!(v, "compiler_builtins (bare)::tgamma", bare::partial_availability::tgamma, libm::tgamma, f64);
    p1!(v, "compiler_builtins (bare)::tgammaf", bare::partial_availability::tgammaf, libm::tgammaf, f32);
    p1!(v, "compiler_builtins (bare)::lgamma_r", |x| { let mut s = 77; (bare::partial_availability::lgamma_r(x, &mut s), s) }, libm::lgamma_r, f64);
    p1!(v, "compiler_builtins (bare)::lgammaf_r", |x| { let mut s = 77; (bare::partial_availability::lgammaf_r(x, &mut s), s) }, libm::lgammaf_r, f32);
    v
}
#[cfg(not(feature = "bare"))]
fn runtime_bare() -> Vec<Pair> {
    Vec::new()
}

/// Companion functions that share a result.
fn companions() -> Vec<Pair> {
    let mut v = Vec::new();
    p1!(v, "sincosf = (sinf, cosf)", libm::sincosf, |x| (libm::sinf(x), libm::cosf(x)), f32);
    p1!(v, "sincos = (sin, cos)", libm::sincos, |x| (libm::sin(x), libm::cos(x)), f64);
    p1!(v, "lgammaf = lgammaf_r", libm::lgammaf, |x| libm::lgammaf_r(x).0, f32);
    p1!(v, "lgamma = lgamma_r", libm::lgamma, |x| libm::lgamma_r(x).0, f64);
    p2!(v, "ldexpf16 = scalbnf16", libm::ldexpf16, libm::scalbnf16, f16, i32);
    p2!(v, "ldexpf = scalbnf", libm::ldexpf, libm::scalbnf, f32, i32);
    p2!(v, "ldexp = scalbn", libm::ldexp, libm::scalbn, f64, i32);
    p2!(v, "ldexpf128 = scalbnf128", libm::ldexpf128, libm::scalbnf128, f128, i32);
    p2!(v, "remquof value = remainderf", |x, y| libm::remquof(x, y).0, libm::remainderf, f32, f32);
    p2!(v, "remquo value = remainder", |x, y| libm::remquo(x, y).0, libm::remainder, f64, f64);
    p1!(v, "scalbnf16 of frexpf16", |x| { let (m, e) = libm::frexpf16(x); libm::scalbnf16(m, e) }, |x: f16| x, f16);
    p1!(v, "scalbnf of frexpf", |x| { let (m, e) = libm::frexpf(x); libm::scalbnf(m, e) }, |x: f32| x, f32);
    p1!(v, "scalbn of frexp", |x| { let (m, e) = libm::frexp(x); libm::scalbn(m, e) }, |x: f64| x, f64);
    p1!(v, "scalbnf128 of frexpf128", |x| { let (m, e) = libm::frexpf128(x); libm::scalbnf128(m, e) }, |x: f128| x, f128);
    p1!(v, "sum of modff", |x: f32| { let (a, b) = libm::modff(x); if x.is_infinite() { b } else { libm::copysignf(a + b, x) } }, |x: f32| x, f32);
    p1!(v, "sum of modf", |x: f64| { let (a, b) = libm::modf(x); if x.is_infinite() { b } else { libm::copysign(a + b, x) } }, |x: f64| x, f64);
    p1!(v, "modff integer part = truncf", |x| libm::modff(x).1, libm::truncf, f32);
    p1!(v, "modf integer part = trunc", |x| libm::modf(x).1, libm::trunc, f64);
    p1!(v, "ilogbf16 = frexpf16 - 1", |x: f16| if finite(x == x && x - x == x - x, x != 0.0) { libm::ilogbf16(x) } else { 0 }, |x: f16| if finite(x == x && x - x == x - x, x != 0.0) { libm::frexpf16(x).1 - 1 } else { 0 }, f16);
    p1!(v, "ilogbf = frexpf - 1", |x: f32| if finite(x.is_finite(), x != 0.0) { libm::ilogbf(x) } else { 0 }, |x: f32| if finite(x.is_finite(), x != 0.0) { libm::frexpf(x).1 - 1 } else { 0 }, f32);
    p1!(v, "ilogb = frexp - 1", |x: f64| if finite(x.is_finite(), x != 0.0) { libm::ilogb(x) } else { 0 }, |x: f64| if finite(x.is_finite(), x != 0.0) { libm::frexp(x).1 - 1 } else { 0 }, f64);
    p1!(v, "ilogbf128 = frexpf128 - 1", |x: f128| if finite(x - x == x - x, x != 0.0) { libm::ilogbf128(x) } else { 0 }, |x: f128| if finite(x - x == x - x, x != 0.0) { libm::frexpf128(x).1 - 1 } else { 0 }, f128);
    p1!(v, "rintf16 = roundevenf16", libm::rintf16, libm::roundevenf16, f16);
    p1!(v, "rintf = roundevenf", libm::rintf, libm::roundevenf, f32);
    p1!(v, "rint = roundeven", libm::rint, libm::roundeven, f64);
    p1!(v, "rintf128 = roundevenf128", libm::rintf128, libm::roundevenf128, f128);
    p1!(v, "jnf(0) = j0f", |x| libm::jnf(0, x), libm::j0f, f32);
    p1!(v, "jn(0) = j0", |x| libm::jn(0, x), libm::j0, f64);
    p1!(v, "jnf(1) = j1f", |x| libm::jnf(1, x), libm::j1f, f32);
    p1!(v, "jn(1) = j1", |x| libm::jn(1, x), libm::j1, f64);
    p1!(v, "ynf(0) = y0f", |x| libm::ynf(0, x), libm::y0f, f32);
    p1!(v, "yn(0) = y0", |x| libm::yn(0, x), libm::y0, f64);
    p1!(v, "ynf(1) = y1f", |x| libm::ynf(1, x), libm::y1f, f32);
    p1!(v, "yn(1) = y1", |x| libm::yn(1, x), libm::y1, f64);
    for p in &mut v {
        p.deep = true;
    }
    v
}
fn finite(f: bool, nonzero: bool) -> bool {
    f && nonzero
}

fn show(k: Kind, x: u128) -> String {
    match k {
        F(f) => hex(&f, x),
        I => format!("{}", x as i32),
        None => String::new(),
    }
}
fn agree(k: Kind, a: u128, b: u128) -> bool {
    match k {
        F(f) => same(&f, a, b),
        _ => a == b,
    }
}

/// Integer arguments: all small, and around every format's exponent limits and the type's own limits.
fn ints(thorough: bool) -> Vec<u128> {
    let (w, c) = if thorough { (400, 80) } else { (20, 6) };
    let mut v: Vec<i64> = (-w..=w).collect();
    for e in [24i64, 40, 126, 149, 300, 1022, 1074, 2100, 16382, 16494, 33000, 1 << 20, i32::MAX as i64] {
        v.extend(-e - c..=-e + c);
        v.extend(e - c..=e + c);
    }
    dedup(v.into_iter().filter(|x| *x >= i32::MIN as i64 && *x <= i32::MAX as i64).map(|x| x as i32 as u32 as u128).collect())
}

/// Exponents at the ends, around one and at a few spots between; `n` of significands.
fn edges(f: &Fmt, w: u32, sigs: &[u128]) -> Vec<u128> {
    values(f, &exps_edge(f, w), sigs)
}

fn domain(k: Kind, arity: usize, deep: bool, thorough: bool) -> Vec<u128> {
    match k {
        I => ints(thorough),
        None => vec![0],
        F(f) => match (arity, f == F16) {
            (1, true) => (0..1 << 16).collect(),
            (1, false) if thorough && f == F128 => values(&f, &exps_all(&f).into_iter().step_by(37).chain(exps_edge(&f, 6)).collect::<Vec<_>>(), &if deep { sig_allruns(f.sb) } else { sig_runs(f.sb) }),
            (1, false) if thorough && deep => values(&f, &exps_all(&f), &sig_allruns(f.sb)),
            (1, false) if thorough || f == F32 => values(&f, &exps_all(&f), &sig_runs(f.sb)),
            (1, false) => values(&f, &exps_edge(&f, if deep { 40 } else { 6 }), &sig_runs(f.sb)),
            (2, _) if thorough => edges(&f, 4, &sig_runs(f.sb).into_iter().step_by(if f.sb > 23 { f.sb as usize / 4 } else { 3 }).chain(sig_small(f.sb)).collect::<Vec<_>>()),
            (2, _) => edges(&f, 2, &sig_small(f.sb)),
            (_, _) => edges(&f, 1, &if thorough { sig_small(f.sb) } else { sig_small(f.sb).into_iter().step_by(5).collect() }),
        },
    }
}

fn group(ctx: &Ctx, title: &str, v: Vec<Pair>) {
    println!("  {title}: {} pairs", v.len());
    for p in &v {
        let mut d: Vec<Vec<u128>> = p.args.iter().map(|k| domain(*k, p.args.len(), p.deep, ctx.thorough)).collect();
        if p.args[0] == I {
            // The order of a Bessel function: the time taken is proportional to it.
            d[0] = (-40i32..=40).chain([-1000, -101, 101, 1000]).map(|n| n as u32 as u128).collect();
        }
        let d = [std::mem::take(&mut d[0]), d.get(1).cloned().unwrap_or(vec![0]), d.get(2).cloned().unwrap_or(vec![0])];
        let case = |x: [u128; 3], w: &mut vh::Worker| {
            w.args([x[0] as u64, x[1] as u64, x[2] as u64, (x[0] >> 64) as u64]);
            let (a, b) = (p.f)(x);
            let ok = agree(p.ret[0], a[0], b[0]) && agree(p.ret[1], a[1], b[1]);
            if !ok {
                let i: Vec<String> = p.args.iter().zip(x).map(|(k, x)| show(*k, x)).collect();
                let o = |r: [u128; 2]| format!("{} {}", show(p.ret[0], r[0]), show(p.ret[1], r[1]));
                w.fail(p.name, &i.join(", "), &o(b), &o(a));
            }
            w.done(b != [0, 0]);
        };
        let step = if p.args.len() == 1 { 1024 } else { 1 };
        ctx.par(p.name, d[0].len().div_ceil(step) as u64, |i, w| {
            w.func(p.name);
            let at = i as usize * step;
            for &x in &d[0][at..d[0].len().min(at + step)] {
                for &y in &d[1] {
                    for &z in &d[2] {
                        case([x, y, z], w);
                    }
                }
            }
        });
        if p.args.len() == 1 && p.args[0] == F(F32) {
            // Every value of the upper bits, more of them for relations.
            let low = if !ctx.thorough { 14 } else if p.deep { 3 } else { 8 };
            let chunk = 16 - low.min(12);
            ctx.par(p.name, 1 << (32 - low - chunk), |i, w| {
                w.func(p.name);
                for j in 0..1u64 << chunk {
                    let x = (i << chunk | j) << low;
                    case([x as u128, 0, 0], w);
                }
            });
        }
        if p.args.len() == 1 && p.args[0] == F(F64) {
            let low = if ctx.thorough { 64 - 24 } else { 64 - 17 };
            ctx.par(p.name, 1 << (64 - low - 8), |i, w| {
                w.func(p.name);
                for j in 0..256u64 {
                    let x = (i << 8 | j) << low;
                    case([x as u128, 0, 0], w);
                    case([(x | (1 << low) - 1) as u128, 0, 0], w);
                }
            });
        }
    }
}

fn main() {
    run("C43", "exploration", |ctx| {
        ctx.rule("NaN results are equal whatever their payload and sign");
        group(ctx, "method-style wrappers", wrappers());
        group(ctx, "runtime entry points", runtime());
        group(ctx, "runtime entry points without a system library", runtime_bare());
        group(ctx, "companions", companions());
    });
}
