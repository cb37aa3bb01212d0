//! Every public routine as an entry that takes and returns bit patterns, with the domains they are run on.

use crate::alpha::*;
use crate::rf::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    F(Fmt),
    /// Integer of a width.
    I(u32),
    Nonzero(u32),
    /// Shift amount below a width.
    Below(u32),
    /// Power of two to scale by, or exponent of an integer power.
    Scale,
    /// Order of a Bessel function; the time taken is proportional to it.
    Order,
    None,
}

pub trait Arg: Copy {
    const KIND: Kind;
    fn of(x: u128) -> Self;
    fn bits(self) -> u128;
}
macro_rules! float {
    ($($t:ident $u:ident $f:ident),*) => {$(
        impl Arg for $t {
            const KIND: Kind = Kind::F($f);
            fn of(x: u128) -> Self { $t::from_bits(x as $u) }
            fn bits(self) -> u128 { self.to_bits() as u128 }
        }
    )*};
}
float!(f16 u16 F16, f32 u32 F32, f64 u64 F64, f128 u128 F128);
macro_rules! int {
    ($($t:ident $u:ident $w:literal),*) => {$(
        impl Arg for $t {
            const KIND: Kind = Kind::I($w);
            fn of(x: u128) -> Self { x as $t }
            fn bits(self) -> u128 { self as $u as u128 }
        }
    )*};
}
int!(u32 u32 32, i32 u32 32, u64 u64 64, i64 u64 64, usize u64 64, u128 u128 128, i128 u128 128);

pub trait Ret {
    const KINDS: [Kind; 2];
    fn all(self) -> [u128; 2];
}
impl<T: Arg> Ret for T {
    const KINDS: [Kind; 2] = [T::KIND, Kind::None];
    fn all(self) -> [u128; 2] {
        [self.bits(), 0]
    }
}
impl<T: Arg, S: Arg> Ret for (T, S) {
    const KINDS: [Kind; 2] = [T::KIND, S::KIND];
    fn all(self) -> [u128; 2] {
        [self.0.bits(), self.1.bits()]
    }
}
pub fn kinds<R: Ret>(_: fn([u128; 3]) -> R) -> [Kind; 2] {
    R::KINDS
}

pub struct Entry {
    pub name: &'static str,
    /// The result is defined to the last bit.
    pub exact: bool,
    pub args: Vec<Kind>,
    pub ret: [Kind; 2],
    pub f: fn([u128; 3]) -> [u128; 2],
}

#[macro_export]
macro_rules! entry {
    ($v:ident, $n:literal, $x:literal, $f:expr, ($t:ty, $k:expr)) => {
        $v.push(Entry {
            name: $n,
            exact: $x,
            args: vec![$k],
            ret: kinds(|x| $f(<$t as Arg>::of(x[0]))),
            f: |x| $f(<$t as Arg>::of(x[0])).all(),
        })
    };
    ($v:ident, $n:literal, $x:literal, $f:expr, ($t:ty, $k:expr), ($s:ty, $l:expr)) => {
        $v.push(Entry {
            name: $n,
            exact: $x,
            args: vec![$k, $l],
            ret: kinds(|x| $f(<$t as Arg>::of(x[0]), <$s as Arg>::of(x[1]))),
            f: |x| $f(<$t as Arg>::of(x[0]), <$s as Arg>::of(x[1])).all(),
        })
    };
    ($v:ident, $n:literal, $x:literal, $f:expr, ($t:ty, $k:expr), ($s:ty, $l:expr), ($r:ty, $m:expr)) => {
        $v.push(Entry {
            name: $n,
            exact: $x,
            args: vec![$k, $l, $m],
            ret: kinds(|x| $f(<$t as Arg>::of(x[0]), <$s as Arg>::of(x[1]), <$r as Arg>::of(x[2]))),
            f: |x| $f(<$t as Arg>::of(x[0]), <$s as Arg>::of(x[1]), <$r as Arg>::of(x[2])).all(),
        })
    };
}

/// All functions of a build of the math library.
#[macro_export]
macro_rules! math_table {
    ($lib:ident) => {
        (|| {
            use Kind::*;
            let mut v: Vec<Entry> = Vec::new();
            $crate::entry!(v, "acos", false, $lib::acos, (f64, F(F64)));
            $crate::entry!(v, "acosf", false, $lib::acosf, (f32, F(F32)));
            $crate::entry!(v, "acosh", false, $lib::acosh, (f64, F(F64)));
            $crate::entry!(v, "acoshf", false, $lib::acoshf, (f32, F(F32)));
            $crate::entry!(v, "asin", false, $lib::asin, (f64, F(F64)));
            $crate::entry!(v, "asinf", false, $lib::asinf, (f32, F(F32)));
            $crate::entry!(v, "asinh", false, $lib::asinh, (f64, F(F64)));
            $crate::entry!(v, "asinhf", false, $lib::asinhf, (f32, F(F32)));
            $crate::entry!(v, "atan", false, $lib::atan, (f64, F(F64)));
            $crate::entry!(v, "atan2", false, $lib::atan2, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "atan2f", false, $lib::atan2f, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "atanf", false, $lib::atanf, (f32, F(F32)));
            $crate::entry!(v, "atanh", false, $lib::atanh, (f64, F(F64)));
            $crate::entry!(v, "atanhf", false, $lib::atanhf, (f32, F(F32)));
            $crate::entry!(v, "cbrt", true, $lib::cbrt, (f64, F(F64)));
            $crate::entry!(v, "cbrtf", true, $lib::cbrtf, (f32, F(F32)));
            $crate::entry!(v, "ceil", true, $lib::ceil, (f64, F(F64)));
            $crate::entry!(v, "ceilf", true, $lib::ceilf, (f32, F(F32)));
            $crate::entry!(v, "ceilf128", true, $lib::ceilf128, (f128, F(F128)));
            $crate::entry!(v, "ceilf16", true, $lib::ceilf16, (f16, F(F16)));
            $crate::entry!(v, "copysign", true, $lib::copysign, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "copysignf", true, $lib::copysignf, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "copysignf128", true, $lib::copysignf128, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "copysignf16", true, $lib::copysignf16, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "cos", false, $lib::cos, (f64, F(F64)));
            $crate::entry!(v, "cosf", false, $lib::cosf, (f32, F(F32)));
            $crate::entry!(v, "cosh", false, $lib::cosh, (f64, F(F64)));
            $crate::entry!(v, "coshf", false, $lib::coshf, (f32, F(F32)));
            $crate::entry!(v, "erf", false, $lib::erf, (f64, F(F64)));
            $crate::entry!(v, "erfc", false, $lib::erfc, (f64, F(F64)));
            $crate::entry!(v, "erfcf", false, $lib::erfcf, (f32, F(F32)));
            $crate::entry!(v, "erff", false, $lib::erff, (f32, F(F32)));
            $crate::entry!(v, "exp", false, $lib::exp, (f64, F(F64)));
            $crate::entry!(v, "exp10", false, $lib::exp10, (f64, F(F64)));
            $crate::entry!(v, "exp10f", false, $lib::exp10f, (f32, F(F32)));
            $crate::entry!(v, "exp2", false, $lib::exp2, (f64, F(F64)));
            $crate::entry!(v, "exp2f", false, $lib::exp2f, (f32, F(F32)));
            $crate::entry!(v, "expf", false, $lib::expf, (f32, F(F32)));
            $crate::entry!(v, "expm1", false, $lib::expm1, (f64, F(F64)));
            $crate::entry!(v, "expm1f", false, $lib::expm1f, (f32, F(F32)));
            $crate::entry!(v, "fabs", true, $lib::fabs, (f64, F(F64)));
            $crate::entry!(v, "fabsf", true, $lib::fabsf, (f32, F(F32)));
            $crate::entry!(v, "fabsf128", true, $lib::fabsf128, (f128, F(F128)));
            $crate::entry!(v, "fabsf16", true, $lib::fabsf16, (f16, F(F16)));
            $crate::entry!(v, "fdim", true, $lib::fdim, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "fdimf", true, $lib::fdimf, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "fdimf128", true, $lib::fdimf128, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "fdimf16", true, $lib::fdimf16, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "floor", true, $lib::floor, (f64, F(F64)));
            $crate::entry!(v, "floorf", true, $lib::floorf, (f32, F(F32)));
            $crate::entry!(v, "floorf128", true, $lib::floorf128, (f128, F(F128)));
            $crate::entry!(v, "floorf16", true, $lib::floorf16, (f16, F(F16)));
            $crate::entry!(v, "fma", true, $lib::fma, (f64, F(F64)), (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "fmaf", true, $lib::fmaf, (f32, F(F32)), (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "fmaf128", true, $lib::fmaf128, (f128, F(F128)), (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "fmaf16", true, $lib::fmaf16, (f16, F(F16)), (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "fmax", true, $lib::fmax, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "fmaxf", true, $lib::fmaxf, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "fmaxf128", true, $lib::fmaxf128, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "fmaxf16", true, $lib::fmaxf16, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "fmaximum", true, $lib::fmaximum, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "fmaximum_num", true, $lib::fmaximum_num, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "fmaximum_numf", true, $lib::fmaximum_numf, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "fmaximum_numf128", true, $lib::fmaximum_numf128, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "fmaximum_numf16", true, $lib::fmaximum_numf16, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "fmaximumf", true, $lib::fmaximumf, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "fmaximumf128", true, $lib::fmaximumf128, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "fmaximumf16", true, $lib::fmaximumf16, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "fmin", true, $lib::fmin, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "fminf", true, $lib::fminf, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "fminf128", true, $lib::fminf128, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "fminf16", true, $lib::fminf16, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "fminimum", true, $lib::fminimum, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "fminimum_num", true, $lib::fminimum_num, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "fminimum_numf", true, $lib::fminimum_numf, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "fminimum_numf128", true, $lib::fminimum_numf128, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "fminimum_numf16", true, $lib::fminimum_numf16, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "fminimumf", true, $lib::fminimumf, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "fminimumf128", true, $lib::fminimumf128, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "fminimumf16", true, $lib::fminimumf16, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "fmod", true, $lib::fmod, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "fmodf", true, $lib::fmodf, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "fmodf128", true, $lib::fmodf128, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "fmodf16", true, $lib::fmodf16, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "frexp", true, $lib::frexp, (f64, F(F64)));
            $crate::entry!(v, "frexpf", true, $lib::frexpf, (f32, F(F32)));
            $crate::entry!(v, "frexpf128", true, $lib::frexpf128, (f128, F(F128)));
            $crate::entry!(v, "frexpf16", true, $lib::frexpf16, (f16, F(F16)));
            $crate::entry!(v, "hypot", false, $lib::hypot, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "hypotf", false, $lib::hypotf, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "ilogb", true, $lib::ilogb, (f64, F(F64)));
            $crate::entry!(v, "ilogbf", true, $lib::ilogbf, (f32, F(F32)));
            $crate::entry!(v, "ilogbf128", true, $lib::ilogbf128, (f128, F(F128)));
            $crate::entry!(v, "ilogbf16", true, $lib::ilogbf16, (f16, F(F16)));
            $crate::entry!(v, "j0", false, $lib::j0, (f64, F(F64)));
            $crate::entry!(v, "j0f", false, $lib::j0f, (f32, F(F32)));
            $crate::entry!(v, "j1", false, $lib::j1, (f64, F(F64)));
            $crate::entry!(v, "j1f", false, $lib::j1f, (f32, F(F32)));
            $crate::entry!(v, "jn", false, $lib::jn, (i32, Order), (f64, F(F64)));
            $crate::entry!(v, "jnf", false, $lib::jnf, (i32, Order), (f32, F(F32)));
            $crate::entry!(v, "ldexp", true, $lib::ldexp, (f64, F(F64)), (i32, Scale));
            $crate::entry!(v, "ldexpf", true, $lib::ldexpf, (f32, F(F32)), (i32, Scale));
            $crate::entry!(v, "ldexpf128", true, $lib::ldexpf128, (f128, F(F128)), (i32, Scale));
            $crate::entry!(v, "ldexpf16", true, $lib::ldexpf16, (f16, F(F16)), (i32, Scale));
            $crate::entry!(v, "lgamma", false, $lib::lgamma, (f64, F(F64)));
            $crate::entry!(v, "lgamma_r", false, $lib::lgamma_r, (f64, F(F64)));
            $crate::entry!(v, "lgammaf", false, $lib::lgammaf, (f32, F(F32)));
            $crate::entry!(v, "lgammaf_r", false, $lib::lgammaf_r, (f32, F(F32)));
            $crate::entry!(v, "log", false, $lib::log, (f64, F(F64)));
            $crate::entry!(v, "log10", false, $lib::log10, (f64, F(F64)));
            $crate::entry!(v, "log10f", false, $lib::log10f, (f32, F(F32)));
            $crate::entry!(v, "log1p", false, $lib::log1p, (f64, F(F64)));
            $crate::entry!(v, "log1pf", false, $lib::log1pf, (f32, F(F32)));
            $crate::entry!(v, "log2", false, $lib::log2, (f64, F(F64)));
            $crate::entry!(v, "log2f", false, $lib::log2f, (f32, F(F32)));
            $crate::entry!(v, "logf", false, $lib::logf, (f32, F(F32)));
            $crate::entry!(v, "modf", true, $lib::modf, (f64, F(F64)));
            $crate::entry!(v, "modff", true, $lib::modff, (f32, F(F32)));
            $crate::entry!(v, "nextafter", true, $lib::nextafter, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "nextafterf", true, $lib::nextafterf, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "pow", false, $lib::pow, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "powf", false, $lib::powf, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "remainder", true, $lib::remainder, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "remainderf", true, $lib::remainderf, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "remquo", true, $lib::remquo, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "remquof", true, $lib::remquof, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "rint", true, $lib::rint, (f64, F(F64)));
            $crate::entry!(v, "rintf", true, $lib::rintf, (f32, F(F32)));
            $crate::entry!(v, "rintf128", true, $lib::rintf128, (f128, F(F128)));
            $crate::entry!(v, "rintf16", true, $lib::rintf16, (f16, F(F16)));
            $crate::entry!(v, "round", true, $lib::round, (f64, F(F64)));
            $crate::entry!(v, "roundeven", true, $lib::roundeven, (f64, F(F64)));
            $crate::entry!(v, "roundevenf", true, $lib::roundevenf, (f32, F(F32)));
            $crate::entry!(v, "roundevenf128", true, $lib::roundevenf128, (f128, F(F128)));
            $crate::entry!(v, "roundevenf16", true, $lib::roundevenf16, (f16, F(F16)));
            $crate::entry!(v, "roundf", true, $lib::roundf, (f32, F(F32)));
            $crate::entry!(v, "roundf128", true, $lib::roundf128, (f128, F(F128)));
            $crate::entry!(v, "roundf16", true, $lib::roundf16, (f16, F(F16)));
            $crate::entry!(v, "scalbn", true, $lib::scalbn, (f64, F(F64)), (i32, Scale));
            $crate::entry!(v, "scalbnf", true, $lib::scalbnf, (f32, F(F32)), (i32, Scale));
            $crate::entry!(v, "scalbnf128", true, $lib::scalbnf128, (f128, F(F128)), (i32, Scale));
            $crate::entry!(v, "scalbnf16", true, $lib::scalbnf16, (f16, F(F16)), (i32, Scale));
            $crate::entry!(v, "sin", false, $lib::sin, (f64, F(F64)));
            $crate::entry!(v, "sincos", false, $lib::sincos, (f64, F(F64)));
            $crate::entry!(v, "sincosf", false, $lib::sincosf, (f32, F(F32)));
            $crate::entry!(v, "sinf", false, $lib::sinf, (f32, F(F32)));
            $crate::entry!(v, "sinh", false, $lib::sinh, (f64, F(F64)));
            $crate::entry!(v, "sinhf", false, $lib::sinhf, (f32, F(F32)));
            $crate::entry!(v, "sqrt", true, $lib::sqrt, (f64, F(F64)));
            $crate::entry!(v, "sqrtf", true, $lib::sqrtf, (f32, F(F32)));
            $crate::entry!(v, "sqrtf128", true, $lib::sqrtf128, (f128, F(F128)));
            $crate::entry!(v, "sqrtf16", true, $lib::sqrtf16, (f16, F(F16)));
            $crate::entry!(v, "tan", false, $lib::tan, (f64, F(F64)));
            $crate::entry!(v, "tanf", false, $lib::tanf, (f32, F(F32)));
            $crate::entry!(v, "tanh", false, $lib::tanh, (f64, F(F64)));
            $crate::entry!(v, "tanhf", false, $lib::tanhf, (f32, F(F32)));
            $crate::entry!(v, "tgamma", false, $lib::tgamma, (f64, F(F64)));
            $crate::entry!(v, "tgammaf", false, $lib::tgammaf, (f32, F(F32)));
            $crate::entry!(v, "trunc", true, $lib::trunc, (f64, F(F64)));
            $crate::entry!(v, "truncf", true, $lib::truncf, (f32, F(F32)));
            $crate::entry!(v, "truncf128", true, $lib::truncf128, (f128, F(F128)));
            $crate::entry!(v, "truncf16", true, $lib::truncf16, (f16, F(F16)));
            $crate::entry!(v, "y0", false, $lib::y0, (f64, F(F64)));
            $crate::entry!(v, "y0f", false, $lib::y0f, (f32, F(F32)));
            $crate::entry!(v, "y1", false, $lib::y1, (f64, F(F64)));
            $crate::entry!(v, "y1f", false, $lib::y1f, (f32, F(F32)));
            $crate::entry!(v, "yn", false, $lib::yn, (i32, Order), (f64, F(F64)));
            $crate::entry!(v, "ynf", false, $lib::ynf, (i32, Order), (f32, F(F32)));
            v
        })()
    };
}

/// All arithmetic routines of a build of the runtime library.
#[macro_export]
macro_rules! runtime_table {
    ($lib:ident) => {
        (|| {
            use Kind::*;
            let mut v: Vec<Entry> = Vec::new();
            $crate::entry!(v, "__addhf3", true, $lib::float::add::__addhf3, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "__addsf3", true, $lib::float::add::__addsf3, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "__adddf3", true, $lib::float::add::__adddf3, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "__addtf3", true, $lib::float::add::__addtf3, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "__subhf3", true, $lib::float::sub::__subhf3, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "__subsf3", true, $lib::float::sub::__subsf3, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "__subdf3", true, $lib::float::sub::__subdf3, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "__subtf3", true, $lib::float::sub::__subtf3, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "__mulhf3", true, $lib::float::mul::__mulhf3, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "__mulsf3", true, $lib::float::mul::__mulsf3, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "__muldf3", true, $lib::float::mul::__muldf3, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "__multf3", true, $lib::float::mul::__multf3, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "__divsf3", true, $lib::float::div::__divsf3, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "__divdf3", true, $lib::float::div::__divdf3, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "__divtf3", true, $lib::float::div::__divtf3, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "__lehf2", true, |a, b| $lib::float::cmp::__lehf2(a, b) as i32, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "__gehf2", true, |a, b| $lib::float::cmp::__gehf2(a, b) as i32, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "__unordhf2", true, |a, b| $lib::float::cmp::__unordhf2(a, b) as i32, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "__eqhf2", true, |a, b| $lib::float::cmp::__eqhf2(a, b) as i32, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "__lthf2", true, |a, b| $lib::float::cmp::__lthf2(a, b) as i32, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "__nehf2", true, |a, b| $lib::float::cmp::__nehf2(a, b) as i32, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "__gthf2", true, |a, b| $lib::float::cmp::__gthf2(a, b) as i32, (f16, F(F16)), (f16, F(F16)));
            $crate::entry!(v, "__lesf2", true, |a, b| $lib::float::cmp::__lesf2(a, b) as i32, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "__gesf2", true, |a, b| $lib::float::cmp::__gesf2(a, b) as i32, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "__unordsf2", true, |a, b| $lib::float::cmp::__unordsf2(a, b) as i32, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "__eqsf2", true, |a, b| $lib::float::cmp::__eqsf2(a, b) as i32, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "__ltsf2", true, |a, b| $lib::float::cmp::__ltsf2(a, b) as i32, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "__nesf2", true, |a, b| $lib::float::cmp::__nesf2(a, b) as i32, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "__gtsf2", true, |a, b| $lib::float::cmp::__gtsf2(a, b) as i32, (f32, F(F32)), (f32, F(F32)));
            $crate::entry!(v, "__ledf2", true, |a, b| $lib::float::cmp::__ledf2(a, b) as i32, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "__gedf2", true, |a, b| $lib::float::cmp::__gedf2(a, b) as i32, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "__unorddf2", true, |a, b| $lib::float::cmp::__unorddf2(a, b) as i32, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "__eqdf2", true, |a, b| $lib::float::cmp::__eqdf2(a, b) as i32, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "__ltdf2", true, |a, b| $lib::float::cmp::__ltdf2(a, b) as i32, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "__nedf2", true, |a, b| $lib::float::cmp::__nedf2(a, b) as i32, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "__gtdf2", true, |a, b| $lib::float::cmp::__gtdf2(a, b) as i32, (f64, F(F64)), (f64, F(F64)));
            $crate::entry!(v, "__letf2", true, |a, b| $lib::float::cmp::__letf2(a, b) as i32, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "__getf2", true, |a, b| $lib::float::cmp::__getf2(a, b) as i32, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "__unordtf2", true, |a, b| $lib::float::cmp::__unordtf2(a, b) as i32, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "__eqtf2", true, |a, b| $lib::float::cmp::__eqtf2(a, b) as i32, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "__lttf2", true, |a, b| $lib::float::cmp::__lttf2(a, b) as i32, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "__netf2", true, |a, b| $lib::float::cmp::__netf2(a, b) as i32, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "__gttf2", true, |a, b| $lib::float::cmp::__gttf2(a, b) as i32, (f128, F(F128)), (f128, F(F128)));
            $crate::entry!(v, "__truncdfsf2", true, $lib::float::trunc::__truncdfsf2, (f64, F(F64)));
            $crate::entry!(v, "__extendsfdf2", true, $lib::float::extend::__extendsfdf2, (f32, F(F32)));
            $crate::entry!(v, "__truncsfhf2", true, $lib::float::trunc::__truncsfhf2, (f32, F(F32)));
            $crate::entry!(v, "__extendhfsf2", true, $lib::float::extend::__extendhfsf2, (f16, F(F16)));
            $crate::entry!(v, "__truncdfhf2", true, $lib::float::trunc::__truncdfhf2, (f64, F(F64)));
            $crate::entry!(v, "__extendhfdf2", true, $lib::float::extend::__extendhfdf2, (f16, F(F16)));
            $crate::entry!(v, "__trunctfhf2", true, $lib::float::trunc::__trunctfhf2, (f128, F(F128)));
            $crate::entry!(v, "__extendhftf2", true, $lib::float::extend::__extendhftf2, (f16, F(F16)));
            $crate::entry!(v, "__trunctfsf2", true, $lib::float::trunc::__trunctfsf2, (f128, F(F128)));
            $crate::entry!(v, "__extendsftf2", true, $lib::float::extend::__extendsftf2, (f32, F(F32)));
            $crate::entry!(v, "__trunctfdf2", true, $lib::float::trunc::__trunctfdf2, (f128, F(F128)));
            $crate::entry!(v, "__extenddftf2", true, $lib::float::extend::__extenddftf2, (f64, F(F64)));
            $crate::entry!(v, "__gnu_f2h_ieee", true, $lib::float::trunc::__gnu_f2h_ieee, (f32, F(F32)));
            $crate::entry!(v, "__gnu_h2f_ieee", true, $lib::float::extend::__gnu_h2f_ieee, (f16, F(F16)));
            $crate::entry!(v, "__floatunsisf", true, $lib::float::conv::__floatunsisf, (u32, I(32)));
            $crate::entry!(v, "__floatsisf", true, $lib::float::conv::__floatsisf, (i32, I(32)));
            $crate::entry!(v, "__fixunssfsi", true, $lib::float::conv::__fixunssfsi, (f32, F(F32)));
            $crate::entry!(v, "__fixsfsi", true, $lib::float::conv::__fixsfsi, (f32, F(F32)));
            $crate::entry!(v, "__floatundisf", true, $lib::float::conv::__floatundisf, (u64, I(64)));
            $crate::entry!(v, "__floatdisf", true, $lib::float::conv::__floatdisf, (i64, I(64)));
            $crate::entry!(v, "__fixunssfdi", true, $lib::float::conv::__fixunssfdi, (f32, F(F32)));
            $crate::entry!(v, "__fixsfdi", true, $lib::float::conv::__fixsfdi, (f32, F(F32)));
            $crate::entry!(v, "__floatuntisf", true, $lib::float::conv::__floatuntisf, (u128, I(128)));
            $crate::entry!(v, "__floattisf", true, $lib::float::conv::__floattisf, (i128, I(128)));
            $crate::entry!(v, "__fixunssfti", true, $lib::float::conv::__fixunssfti, (f32, F(F32)));
            $crate::entry!(v, "__fixsfti", true, $lib::float::conv::__fixsfti, (f32, F(F32)));
            $crate::entry!(v, "__powisf2", true, $lib::float::pow::__powisf2, (f32, F(F32)), (i32, Scale));
            $crate::entry!(v, "__floatunsidf", true, $lib::float::conv::__floatunsidf, (u32, I(32)));
            $crate::entry!(v, "__floatsidf", true, $lib::float::conv::__floatsidf, (i32, I(32)));
            $crate::entry!(v, "__fixunsdfsi", true, $lib::float::conv::__fixunsdfsi, (f64, F(F64)));
            $crate::entry!(v, "__fixdfsi", true, $lib::float::conv::__fixdfsi, (f64, F(F64)));
            $crate::entry!(v, "__floatundidf", true, $lib::float::conv::__floatundidf, (u64, I(64)));
            $crate::entry!(v, "__floatdidf", true, $lib::float::conv::__floatdidf, (i64, I(64)));
            $crate::entry!(v, "__fixunsdfdi", true, $lib::float::conv::__fixunsdfdi, (f64, F(F64)));
            $crate::entry!(v, "__fixdfdi", true, $lib::float::conv::__fixdfdi, (f64, F(F64)));
            $crate::entry!(v, "__floatuntidf", true, $lib::float::conv::__floatuntidf, (u128, I(128)));
            $crate::entry!(v, "__floattidf", true, $lib::float::conv::__floattidf, (i128, I(128)));
            $crate::entry!(v, "__fixunsdfti", true, $lib::float::conv::__fixunsdfti, (f64, F(F64)));
            $crate::entry!(v, "__fixdfti", true, $lib::float::conv::__fixdfti, (f64, F(F64)));
            $crate::entry!(v, "__powidf2", true, $lib::float::pow::__powidf2, (f64, F(F64)), (i32, Scale));
            $crate::entry!(v, "__floatunsitf", true, $lib::float::conv::__floatunsitf, (u32, I(32)));
            $crate::entry!(v, "__floatsitf", true, $lib::float::conv::__floatsitf, (i32, I(32)));
            $crate::entry!(v, "__fixunstfsi", true, $lib::float::conv::__fixunstfsi, (f128, F(F128)));
            $crate::entry!(v, "__fixtfsi", true, $lib::float::conv::__fixtfsi, (f128, F(F128)));
            $crate::entry!(v, "__floatunditf", true, $lib::float::conv::__floatunditf, (u64, I(64)));
            $crate::entry!(v, "__floatditf", true, $lib::float::conv::__floatditf, (i64, I(64)));
            $crate::entry!(v, "__fixunstfdi", true, $lib::float::conv::__fixunstfdi, (f128, F(F128)));
            $crate::entry!(v, "__fixtfdi", true, $lib::float::conv::__fixtfdi, (f128, F(F128)));
            $crate::entry!(v, "__floatuntitf", true, $lib::float::conv::__floatuntitf, (u128, I(128)));
            $crate::entry!(v, "__floattitf", true, $lib::float::conv::__floattitf, (i128, I(128)));
            $crate::entry!(v, "__fixunstfti", true, $lib::float::conv::__fixunstfti, (f128, F(F128)));
            $crate::entry!(v, "__fixtfti", true, $lib::float::conv::__fixtfti, (f128, F(F128)));
            $crate::entry!(v, "__powitf2", true, $lib::float::pow::__powitf2, (f128, F(F128)), (i32, Scale));
            $crate::entry!(v, "__ctzsi2", true, $lib::int::trailing_zeros::__ctzsi2, (u32, I(32)));
            $crate::entry!(v, "__clzsi2", true, $lib::int::leading_zeros::__clzsi2, (u32, I(32)));
            $crate::entry!(v, "__bswapsi2", true, $lib::int::bswap::__bswapsi2, (u32, I(32)));
            $crate::entry!(v, "__ashlsi3", true, $lib::int::shift::__ashlsi3, (u32, I(32)), (u32, Below(32)));
            $crate::entry!(v, "__ashrsi3", true, $lib::int::shift::__ashrsi3, (i32, I(32)), (u32, Below(32)));
            $crate::entry!(v, "__lshrsi3", true, $lib::int::shift::__lshrsi3, (u32, I(32)), (u32, Below(32)));
            $crate::entry!(v, "__udivsi3", true, $lib::int::udiv::__udivsi3, (u32, I(32)), (u32, Nonzero(32)));
            $crate::entry!(v, "__umodsi3", true, $lib::int::udiv::__umodsi3, (u32, I(32)), (u32, Nonzero(32)));
            $crate::entry!(v, "__udivmodsi4", true, |a, b| { let mut r = 77; let q = $lib::int::udiv::__udivmodsi4(a, b, Some(&mut r)); (q, r) }, (u32, I(32)), (u32, Nonzero(32)));
            $crate::entry!(v, "__divsi3", true, $lib::int::sdiv::__divsi3, (i32, I(32)), (i32, Nonzero(32)));
            $crate::entry!(v, "__modsi3", true, $lib::int::sdiv::__modsi3, (i32, I(32)), (i32, Nonzero(32)));
            $crate::entry!(v, "__divmodsi4", true, |a, b| { let mut r = 77; let q = $lib::int::sdiv::__divmodsi4(a, b, &mut r); (q, r) }, (i32, I(32)), (i32, Nonzero(32)));
            $crate::entry!(v, "__mulosi4", true, |a, b| { let mut o = 77; let p = $lib::int::mul::__mulosi4(a, b, &mut o); (p, o) }, (i32, I(32)), (i32, I(32)));
            $crate::entry!(v, "__ctzdi2", true, $lib::int::trailing_zeros::__ctzdi2, (u64, I(64)));
            $crate::entry!(v, "__clzdi2", true, $lib::int::leading_zeros::__clzdi2, (u64, I(64)));
            $crate::entry!(v, "__bswapdi2", true, $lib::int::bswap::__bswapdi2, (u64, I(64)));
            $crate::entry!(v, "__ashldi3", true, $lib::int::shift::__ashldi3, (u64, I(64)), (u32, Below(64)));
            $crate::entry!(v, "__ashrdi3", true, $lib::int::shift::__ashrdi3, (i64, I(64)), (u32, Below(64)));
            $crate::entry!(v, "__lshrdi3", true, $lib::int::shift::__lshrdi3, (u64, I(64)), (u32, Below(64)));
            $crate::entry!(v, "__udivdi3", true, $lib::int::udiv::__udivdi3, (u64, I(64)), (u64, Nonzero(64)));
            $crate::entry!(v, "__umoddi3", true, $lib::int::udiv::__umoddi3, (u64, I(64)), (u64, Nonzero(64)));
            $crate::entry!(v, "__udivmoddi4", true, |a, b| { let mut r = 77; let q = $lib::int::udiv::__udivmoddi4(a, b, Some(&mut r)); (q, r) }, (u64, I(64)), (u64, Nonzero(64)));
            $crate::entry!(v, "__divdi3", true, $lib::int::sdiv::__divdi3, (i64, I(64)), (i64, Nonzero(64)));
            $crate::entry!(v, "__moddi3", true, $lib::int::sdiv::__moddi3, (i64, I(64)), (i64, Nonzero(64)));
            $crate::entry!(v, "__divmoddi4", true, |a, b| { let mut r = 77; let q = $lib::int::sdiv::__divmoddi4(a, b, &mut r); (q, r) }, (i64, I(64)), (i64, Nonzero(64)));
            $crate::entry!(v, "__muldi3", true, $lib::int::mul::__muldi3, (u64, I(64)), (u64, I(64)));
            $crate::entry!(v, "__mulodi4", true, |a, b| { let mut o = 77; let p = $lib::int::mul::__mulodi4(a, b, &mut o); (p, o) }, (i64, I(64)), (i64, I(64)));
            $crate::entry!(v, "__ctzti2", true, $lib::int::trailing_zeros::__ctzti2, (u128, I(128)));
            $crate::entry!(v, "__clzti2", true, $lib::int::leading_zeros::__clzti2, (u128, I(128)));
            $crate::entry!(v, "__bswapti2", true, $lib::int::bswap::__bswapti2, (u128, I(128)));
            $crate::entry!(v, "__ashlti3", true, $lib::int::shift::__ashlti3, (u128, I(128)), (u32, Below(128)));
            $crate::entry!(v, "__ashrti3", true, $lib::int::shift::__ashrti3, (i128, I(128)), (u32, Below(128)));
            $crate::entry!(v, "__lshrti3", true, $lib::int::shift::__lshrti3, (u128, I(128)), (u32, Below(128)));
            $crate::entry!(v, "__udivti3", true, $lib::int::udiv::__udivti3, (u128, I(128)), (u128, Nonzero(128)));
            $crate::entry!(v, "__umodti3", true, $lib::int::udiv::__umodti3, (u128, I(128)), (u128, Nonzero(128)));
            $crate::entry!(v, "__udivmodti4", true, |a, b| { let mut r = 77; let q = $lib::int::udiv::__udivmodti4(a, b, Some(&mut r)); (q, r) }, (u128, I(128)), (u128, Nonzero(128)));
            $crate::entry!(v, "__divti3", true, $lib::int::sdiv::__divti3, (i128, I(128)), (i128, Nonzero(128)));
            $crate::entry!(v, "__modti3", true, $lib::int::sdiv::__modti3, (i128, I(128)), (i128, Nonzero(128)));
            $crate::entry!(v, "__divmodti4", true, |a, b| { let mut r = 77; let q = $lib::int::sdiv::__divmodti4(a, b, &mut r); (q, r) }, (i128, I(128)), (i128, Nonzero(128)));
            $crate::entry!(v, "__multi3", true, $lib::int::mul::__multi3, (i128, I(128)), (i128, I(128)));
            $crate::entry!(v, "__muloti4", true, |a, b| { let mut o = 77; let p = $lib::int::mul::__muloti4(a, b, &mut o); (p, o) }, (i128, I(128)), (i128, I(128)));
            $crate::entry!(v, "__rust_i128_add", true, $lib::int::addsub::__rust_i128_add, (i128, I(128)), (i128, I(128)));
            $crate::entry!(v, "__rust_i128_addo", true, |a, b| { let mut o = 77; let p = $lib::int::addsub::__rust_i128_addo(a, b, &mut o); (p, o) }, (i128, I(128)), (i128, I(128)));
            $crate::entry!(v, "__rust_i128_sub", true, $lib::int::addsub::__rust_i128_sub, (i128, I(128)), (i128, I(128)));
            $crate::entry!(v, "__rust_i128_subo", true, |a, b| { let mut o = 77; let p = $lib::int::addsub::__rust_i128_subo(a, b, &mut o); (p, o) }, (i128, I(128)), (i128, I(128)));
            $crate::entry!(v, "__rust_i128_mulo", true, |a, b| { let mut o = 77; let p = $lib::int::mul::__rust_i128_mulo(a, b, &mut o); (p, o) }, (i128, I(128)), (i128, I(128)));
            $crate::entry!(v, "__rust_u128_add", true, $lib::int::addsub::__rust_u128_add, (u128, I(128)), (u128, I(128)));
            $crate::entry!(v, "__rust_u128_addo", true, |a, b| { let mut o = 77; let p = $lib::int::addsub::__rust_u128_addo(a, b, &mut o); (p, o) }, (u128, I(128)), (u128, I(128)));
            $crate::entry!(v, "__rust_u128_sub", true, $lib::int::addsub::__rust_u128_sub, (u128, I(128)), (u128, I(128)));
            $crate::entry!(v, "__rust_u128_subo", true, |a, b| { let mut o = 77; let p = $lib::int::addsub::__rust_u128_subo(a, b, &mut o); (p, o) }, (u128, I(128)), (u128, I(128)));
            $crate::entry!(v, "__rust_u128_mulo", true, |a, b| { let mut o = 77; let p = $lib::int::mul::__rust_u128_mulo(a, b, &mut o); (p, o) }, (u128, I(128)), (u128, I(128)));
            v
        })()
    };
}

/// Integers around zero, the exponent limits of every format and the limits of the type.
fn scales(c: i64) -> Vec<u128> {
    let mut v: Vec<i64> = (-4 * c..=4 * c).collect();
    for e in [24i64, 40, 126, 149, 300, 1022, 1074, 2100, 16382, 16494, 33000, 1 << 20, i32::MAX as i64] {
        v.extend(-e - c..=-e + c);
        v.extend(e - c..=e + c);
    }
    dedup(v.into_iter().filter(|x| *x >= i32::MIN as i64 && *x <= i32::MAX as i64).map(|x| x as i32 as u32 as u128).collect())
}

/// Values for one argument; `size` grows the lists, which shrink with the number of arguments.
pub fn domain(k: Kind, arity: usize, size: u32) -> Vec<u128> {
    use Kind::*;
    let every = |v: Vec<u128>, n: usize| -> Vec<u128> { v.into_iter().step_by(n).collect() };
    match k {
        None => vec![0],
        Order => (-12i32..=12).chain([-200, -33, 33, 200]).map(|n| n as u32 as u128).collect(),
        Scale => scales(2 + size as i64),
        Below(w) => (0..w as u128).collect(),
        Nonzero(w) => domain(I(w), arity, size).into_iter().filter(|x| *x != 0).collect(),
        I(w) => match (arity, size) {
            (1, _) => ints_allruns(w),
            (_, 0) => every(ints_runs(w), 2),
            _ => ints_runs(w),
        },
        F(f) => match (arity, size) {
            (1, _) if f == F16 => (0..1 << 16).collect(),
            (1, 0) => values(&f, &exps_edge(&f, 10), &sig_small(f.sb)),
            (1, 1) => values(&f, &if f.eb > 11 { exps_edge(&f, 40) } else { exps_all(&f) }, &sig_runs(f.sb)),
            (1, _) => values(&f, &exps_all(&f), &if f.eb > 11 { sig_runs(f.sb) } else { sig_allruns(f.sb) }),
            (2, 0) => values(&f, &exps_edge(&f, 1), &every(sig_small(f.sb), 2)),
            (2, 1) => values(&f, &exps_edge(&f, 3), &sig_small(f.sb)),
            (2, _) => values(&f, &exps_edge(&f, 6), &sig_runs(f.sb)),
            (_, 0) => values(&f, &exps_edge(&f, 0), &every(sig_small(f.sb), 7)),
            (_, 1) => values(&f, &exps_edge(&f, 1), &every(sig_small(f.sb), 3)),
            _ => values(&f, &exps_edge(&f, 2), &sig_small(f.sb)),
        },
    }
}

/// The lists of `domain`, each made once.
#[derive(Default)]
pub struct Domains(std::cell::RefCell<std::collections::HashMap<String, std::sync::Arc<Vec<u128>>>>);

impl Domains {
    pub fn get(&self, k: Kind, arity: usize, size: u32) -> std::sync::Arc<Vec<u128>> {
        self.0.borrow_mut().entry(format!("{k:?} {arity} {size}")).or_insert_with(|| std::sync::Arc::new(domain(k, arity, size))).clone()
    }
    pub fn of(&self, e: &Entry, size: u32) -> Vec<std::sync::Arc<Vec<u128>>> {
        (0..3).map(|i| self.get(e.args.get(i).copied().unwrap_or(Kind::None), e.args.len(), size)).collect()
    }
}

/// NaNs count as one value.
pub fn agree(k: Kind, a: u128, b: u128) -> bool {
    canon(k, a) == canon(k, b)
}
pub fn canon(k: Kind, a: u128) -> u128 {
    match k {
        Kind::F(f) => {
            let inf = ((1u128 << f.eb) - 1) << f.sb;
            if a & ((1u128 << (f.eb + f.sb)) - 1) > inf { inf | 1 } else { a }
        }
        _ => a,
    }
}
