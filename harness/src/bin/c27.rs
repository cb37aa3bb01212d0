//! C27: rounding to integral values.
#![feature(f16, f128)]
use vh::imps1;
use vh::lm::*;
use vh::rf::*;
use vh::run;

fn main() {
    run("C27", "exploration", |ctx| {
        ctx.rule("every build of the library; binary16: all patterns; binary32: thorough all 2^32 patterns, quick all exponents x prefix, run and low-weight significands; binary64/128: all exponents x run and prefix significands, exponents of the integer range x dense sets; nontrivial = finite non-zero result");
        macro_rules! f {
            ($n16:ident $n32:ident $n64:ident $n128:ident $m:ident) => {
                run1(ctx, stringify!($n16), F16, imps1!($n16, f16, u16), &|x| to_int(&F16, x, Mode::$m), 0);
                run1(ctx, stringify!($n32), F32, imps1!($n32, f32, u32), &|x| to_int(&F32, x, Mode::$m), 1);
                run1(ctx, stringify!($n64), F64, imps1!($n64, f64, u64), &|x| to_int(&F64, x, Mode::$m), 2);
                run1(ctx, stringify!($n128), F128, imps1!($n128, f128, u128), &|x| to_int(&F128, x, Mode::$m), 2);
            };
        }
        f!(ceilf16 ceilf ceil ceilf128 Ceil);
        f!(floorf16 floorf floor floorf128 Floor);
        f!(truncf16 truncf trunc truncf128 Trunc);
        f!(roundf16 roundf round roundf128 Away);
        f!(roundevenf16 roundevenf roundeven roundevenf128 Even);
        f!(rintf16 rintf rint rintf128 Even);
    })
}
