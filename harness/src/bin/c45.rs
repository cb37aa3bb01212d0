//! C45: with overflow checks and internal assertions, every routine returns for every operand. A panic inside the
//! code under test or a missing return is reported by the driver.
#![feature(f16, f128)]
use vh::rf::*;
use vh::table::*;
use vh::{Ctx, math_table, run, runtime_table};

fn go(ctx: &Ctx, dom: &Domains, build: &str, v: Vec<Entry>, size: u32, full: bool) {
    println!("  {build}: {} routines", v.len());
    for e in &v {
        let d = dom.of(e, size);
        let label = format!("{} ({build})", e.name);
        let step = if e.args.len() == 1 { 1024 } else { 1 };
        ctx.par(&label, d[0].len().div_ceil(step) as u64, |i, w| {
            w.func(e.name);
            let at = i as usize * step;
            for (&x, &y) in d[0][at..d[0].len().min(at + step)].iter().flat_map(|x| d[1].iter().map(move |y| (x, y))) {
                for &z in d[2].iter() {
                    let x = [x, y, z];
                    w.args([x[0] as u64, x[1] as u64, x[2] as u64, (x[0] >> 64) as u64, (x[1] >> 64) as u64]);
                    let r = std::hint::black_box((e.f)(x));
                    w.done(canon(e.ret[0], r[0]) != 0);
                }
                w.beat();
            }
        });
        if e.args == [Kind::F(F32)] {
            let low = if full { 0 } else if ctx.thorough { 6 } else { 12 };
            let chunk = 16 - low;
            ctx.par(&label, 1 << 16, |i, w| {
                w.func(e.name);
                for j in 0..1u64 << chunk {
                    let x = (i << chunk | j) << low;
                    w.args([x]);
                    let r = std::hint::black_box((e.f)([x as u128, 0, 0]));
                    w.done(canon(e.ret[0], r[0]) != 0);
                }
            });
        }
        if e.args == [Kind::F(F64)] {
            // Every value of the upper bits, with the lower bits all zero and all one.
            let up = if ctx.thorough { 26 } else { 20 };
            ctx.par(&label, 1 << (up - 8), |i, w| {
                w.func(e.name);
                for j in 0..256u64 {
                    let x = (i << 8 | j) << (64 - up);
                    for x in [x, x | ((1 << (64 - up)) - 1)] {
                        w.args([x]);
                        let r = std::hint::black_box((e.f)([x as u128, 0, 0]));
                        w.done(canon(e.ret[0], r[0]) != 0);
                    }
                }
            });
        }
    }
}

fn main() {
    run("C45", "exploration", |ctx| {
        ctx.rule("every routine returns for every operand in its domain: any float, any integer, nonzero divisors, shift amounts below the width");
        ctx.assume("Bessel functions of order beyond 200 are left out: their running time grows with the order");
        let dom = Domains::default();
        let s = if ctx.thorough { 2 } else { 1 };
        go(ctx, &dom, "default build", math_table!(libm), s, ctx.thorough);
        go(ctx, &dom, "generic build", math_table!(libm_gen), s, false);
        go(ctx, &dom, "intrinsics build", math_table!(libm_intr), s - 1, false);
        go(ctx, &dom, "x87 build", math_table!(libm_x87), s - 1, false);
        go(ctx, &dom, "runtime", runtime_table!(compiler_builtins), s, ctx.thorough);
        go(ctx, &dom, "runtime, generic", runtime_table!(cb_gen), s, false);
    });
}
