//! C56: math routines written for AArch64, LoongArch and WebAssembly.
#![feature(f16)]

#[cfg(feature = "arch")]
fn main() {
    use archasm::*;
    use fake_core::co;
    use vh::alpha::*;
    use vh::asmi::fp_asm;
    use vh::rf::{F16, F32, F64, Fmt};
    use vh::{Ctx, Worker, run};

    fn f(x: u64) -> f32 {
        f32::from_bits(x as u32)
    }
    fn d(x: u64) -> f64 {
        f64::from_bits(x)
    }
    fn h(x: u64) -> f16 {
        f16::from_bits(x as u16)
    }
    type U = fn(u64) -> u64;
    type T = fn(u64, u64, u64) -> u64;

    fn judge(w: &mut Worker, fmt: &Fmt, name: &str, input: impl Fn() -> String, want: u64, got: u64) {
        let same = got == want || (fmt.is_nan(got as u128) && fmt.is_nan(want as u128));
        if !same {
            w.fail(name, &input(), &format!("{want:#x}"), &format!("{got:#x}"));
        }
        w.done(!fmt.is_nan(want as u128));
    }
    fn unary(ctx: &Ctx, fmt: &Fmt, name: &'static str, v: &[u128], imp: U, want: U) {
        ctx.par(name, v.len().div_ceil(1024) as u64, |i, w| {
            co::set_asm(fp_asm);
            w.func(name);
            for &x in v.iter().skip(i as usize * 1024).take(1024) {
                w.args([x as u64]);
                judge(w, fmt, name, || format!("{x:#x}"), want(x as u64), imp(x as u64));
            }
        });
    }
    fn triple(ctx: &Ctx, fmt: &Fmt, name: &'static str, v: &[u128], imp: T, want: T) {
        ctx.par(name, v.len() as u64, |i, w| {
            co::set_asm(fp_asm);
            w.func(name);
            let x = v[i as usize] as u64;
            for &y in v {
                for &z in v {
                    let (y, z) = (y as u64, z as u64);
                    w.args([x, y, z]);
                    judge(w, fmt, name, || format!("{x:#x}, {y:#x}, {z:#x}"), want(x, y, z), imp(x, y, z));
                }
            }
        });
    }

    run("C56", "exploration", |ctx| {
        ctx.rule("binary16: all patterns; binary32/64 rounding, root and absolute value: all exponents x significand runs and the exponents of the integer range x all runs; fused multiply-add: all triples of class-edge values; nontrivial = result not NaN");
        ctx.assume("the meaning of one float instruction is taken from harness/src/asmi.rs (fp_asm) and, for WebAssembly, from shims/fake_core: each is the host's IEEE operation of that name");
        let vals = |fmt: &Fmt, all: &[u128]| {
            let mut v = values(fmt, &exps_all(fmt), &sig_small(fmt.sb));
            let b = fmt.bias() as u32;
            v.extend(values(fmt, &(b - 3..b + fmt.sb + 3).collect::<Vec<_>>(), all));
            dedup(v)
        };
        let v16: Vec<u128> = (0..1 << 16).collect();
        let t = ctx.thorough;
        let sigs = |f: &Fmt| if t { sig_allruns(f.sb) } else { sig_runs(f.sb) };
        let (v32, v64) = (vals(&F32, &sigs(&F32)), vals(&F64, &sigs(&F64)));
        macro_rules! u {
            ($fmt:ident, $v:ident, $c:ident, $($m:ident :: $n:ident = $r:expr),* $(,)?) => {$(
                unary(ctx, &$fmt, concat!(stringify!($m), "::", stringify!($n)), &$v, |x| $m::$n($c(x)).to_bits() as u64, |x| { let x = std::hint::black_box($c(x)); $r(x).to_bits() as u64 });
            )*};
        }
        u!(F16, v16, h, aarch64_rounding::rintf16 = |x: f16| (x as f64).round_ties_even() as f16, aarch64_sqrt::sqrtf16 = |x: f16| (x as f64).sqrt() as f16);
        u!(F32, v32, f,
            aarch64_rounding::rintf = f32::round_ties_even, aarch64_sqrt::sqrtf = f32::sqrt,
            loongarch_rounding::rintf = f32::round_ties_even, loongarch_sqrt::sqrtf = f32::sqrt,
            wasm32_rounding::rintf = f32::round_ties_even, wasm32_rounding::ceilf = f32::ceil, wasm32_rounding::floorf = f32::floor,
            wasm32_rounding::truncf = f32::trunc, wasm32_sqrt::sqrtf = f32::sqrt, wasm32_fabs::fabsf = f32::abs);
        u!(F64, v64, d,
            aarch64_rounding::rint = f64::round_ties_even, aarch64_sqrt::sqrt = f64::sqrt,
            loongarch_rounding::rint = f64::round_ties_even, loongarch_sqrt::sqrt = f64::sqrt,
            wasm32_rounding::rint = f64::round_ties_even, wasm32_rounding::ceil = f64::ceil, wasm32_rounding::floor = f64::floor,
            wasm32_rounding::trunc = f64::trunc, wasm32_sqrt::sqrt = f64::sqrt, wasm32_fabs::fabs = f64::abs);
        let edge = |f: &Fmt| {
            let s = sig_small(f.sb);
            let (b, m) = (f.bias() as u32, f.emax());
            let e = if t { vec![0, 1, b - f.sb, b - 1, b, b + 1, b + f.sb, m - 1, m] } else { vec![0, 1, b - 1, b, b + f.sb, m - 1, m] };
            dedup(values(f, &e, &s.iter().copied().step_by(if t { 1 } else { s.len().div_ceil(8) }).collect::<Vec<_>>()))
        };
        let (e32, e64) = (edge(&F32), edge(&F64));
        macro_rules! t {
            ($fmt:ident, $v:ident, $c:ident, $($m:ident :: $n:ident),*) => {$(
                triple(ctx, &$fmt, concat!(stringify!($m), "::", stringify!($n)), &$v, |x, y, z| $m::$n($c(x), $c(y), $c(z)).to_bits() as u64, |x, y, z| $c(x).mul_add($c(y), $c(z)).to_bits() as u64);
            )*};
        }
        t!(F32, e32, f, aarch64_fma::fmaf, loongarch_fma::fmaf);
        t!(F64, e64, d, aarch64_fma::fma, loongarch_fma::fma);
    })
}

#[cfg(not(feature = "arch"))]
fn main() {
    println!("the machine-specific files do not build");
    std::process::exit(2)
}
