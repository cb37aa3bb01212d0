//! C05: bit counting and byte swapping.
use vh::alpha::*;
use vh::{Worker, run};

fn clz(x: u128, bits: u32) -> usize {
    (0..bits).rev().take_while(|&i| x >> i & 1 == 0).count()
}
fn ctz(x: u128, bits: u32) -> usize {
    (0..bits).take_while(|&i| x >> i & 1 == 0).count()
}
fn swap(x: u128, bytes: u32) -> u128 {
    (0..bytes).fold(0, |a, i| a << 8 | (x >> (8 * i) & 0xff))
}

fn eq(w: &mut Worker, name: &'static str, x: u128, want: u128, got: u128) {
    if want != got {
        w.fail(name, &format!("{x:#x}"), &format!("{want:#x}"), &format!("{got:#x}"));
    }
    w.done(x != 0);
}

macro_rules! all {
    ($w:ident, $cb:ident, $x:ident) => {{
        use $cb::int::{bswap::*, leading_zeros::*, trailing_zeros::*};
        macro_rules! one {
            ($f:ident, $t:ty, $want:expr) => {{
                $w.func(stringify!($f));
                let y = $x as $t;
                let g = $f(y) as u128;
                eq($w, concat!(stringify!($cb), "::", stringify!($f), " ", stringify!($t)), y as u128, ($want)(y as u128) as u128, g);
            }};
        }
        $w.args([$x as u64, ($x >> 64) as u64]);
        one!(__bswapsi2, u32, |y| swap(y, 4));
        one!(__bswapdi2, u64, |y| swap(y, 8));
        one!(__bswapti2, u128, |y| swap(y, 16));
        if $x as u16 != 0 {
            one!(leading_zeros_default, u16, |y| clz(y, 16));
            one!(leading_zeros_condset, u16, |y| clz(y, 16));
            one!(trailing_zeros, u16, |y| ctz(y, 16));
        }
        if $x as u32 != 0 {
            one!(__clzsi2, u32, |y| clz(y, 32));
            one!(leading_zeros_default, u32, |y| clz(y, 32));
            one!(leading_zeros_condset, u32, |y| clz(y, 32));
            one!(__ctzsi2, u32, |y| ctz(y, 32));
            one!(trailing_zeros, u32, |y| ctz(y, 32));
        }
        if $x as u64 != 0 {
            one!(__clzdi2, u64, |y| clz(y, 64));
            one!(leading_zeros_default, u64, |y| clz(y, 64));
            one!(leading_zeros_condset, u64, |y| clz(y, 64));
            one!(__ctzdi2, u64, |y| ctz(y, 64));
            one!(trailing_zeros, u64, |y| ctz(y, 64));
        }
        if $x != 0 {
            one!(__clzti2, u128, |y| clz(y, 128));
            one!(__ctzti2, u128, |y| ctz(y, 128));
        }
    }};
}

fn main() {
    run("C05", "exploration", |ctx| {
        ctx.rule("every alphabet value (all runs of ones, limb edges, all 16-bit patterns at several positions) through every routine and algorithm variant of three builds; nontrivial = non-zero value");
        let mut v = ints_allruns(128);
        v.extend(ints_allruns(64).iter().flat_map(|x| [*x, x << 64, x << 64 | x]));
        v.extend(ints_allruns(32));
        v.extend(ints_limbs(128, 32, &limb_edges(32)));
        v.extend((0..1u128 << 16).flat_map(|x| [x, x << 16, x << 32, x << 48, x << 60, x << 112]));
        let v = dedup(v);
        ctx.par("alphabet values", v.len() as u64, |i, w| {
            let x = v[i as usize];
            all!(w, compiler_builtins, x);
            all!(w, cb_gen, x);
            all!(w, cb_rv, x);
            w.sample(|| format!("{x:#x}"));
        });
        ctx.par("every 32-bit value, counting routines", 1 << 16, |c, w| {
            use compiler_builtins::int::{bswap::*, leading_zeros::*, trailing_zeros::*};
            w.func("32-bit counting");
            for l in (0..1u32 << 16).step_by(if ctx.thorough { 1 } else { 31 }) {
                let x = (c as u32) << 16 | l;
                if x == 0 {
                    continue;
                }
                w.args([x as u64]);
                // hardware instructions as the reference
                let (lz, tz) = (x.leading_zeros() as usize, x.trailing_zeros() as usize);
                let g = (__clzsi2(x), leading_zeros_condset(x), __ctzsi2(x), __clzdi2(x as u64) - 32, __ctzdi2((x as u64) << 32) - 32, __bswapsi2(__bswapsi2(x)));
                if g != (lz, lz, tz, lz, tz, x) {
                    w.fail("32-bit counting", &format!("{x:#x}"), &format!("clz {lz} ctz {tz}"), &format!("{g:?}"));
                }
                w.done(true);
            }
        });
    })
}
