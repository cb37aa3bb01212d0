//! C03: 128-bit addition and subtraction.
use vh::alpha::*;
use vh::{Worker, run};

/// Exact reference on 192-bit two's complement limbs.
#[inline]
fn wide(a: u128, b: u128, signed: bool, sub: bool) -> (u128, bool) {
    let ext = |x: u128| if signed && (x as i128) < 0 { u64::MAX } else { 0 };
    let la = [a as u64, (a >> 64) as u64, ext(a)];
    let mut lb = [b as u64, (b >> 64) as u64, ext(b)];
    let mut c = 0u128;
    if sub {
        lb = lb.map(|x| !x);
        c = 1;
    }
    let mut r = [0u64; 3];
    for i in 0..3 {
        let s = la[i] as u128 + lb[i] as u128 + c;
        r[i] = s as u64;
        c = s >> 64;
    }
    let lo = r[0] as u128 | (r[1] as u128) << 64;
    (lo, r[2] != ext(lo))
}

macro_rules! all {
    ($w:ident, $cb:ident, $a:ident, $b:ident) => {{
        use $cb::int::addsub::*;
        macro_rules! one {
            ($plain:ident, $ofl:ident, $ty:ty, $signed:expr, $sub:expr) => {{
                let (v, o) = wide($a, $b, $signed, $sub);
                $w.func(stringify!($plain));
                let g = $plain($a as $ty, $b as $ty) as u128;
                if g != v {
                    $w.fail(concat!(stringify!($cb), "::", stringify!($plain)), &format!("{:#x}, {:#x}", $a, $b), &format!("{v:#x}"), &format!("{g:#x}"));
                }
                $w.done(o);
                let mut f = 77;
                $w.func(stringify!($ofl));
                let g = $ofl($a as $ty, $b as $ty, &mut f) as u128;
                if g != v || f != o as i32 {
                    $w.fail(concat!(stringify!($cb), "::", stringify!($ofl)), &format!("{:#x}, {:#x}", $a, $b), &format!("{v:#x} overflow {o}"), &format!("{g:#x} flag {f}"));
                }
                $w.done(o);
            }};
        }
        $w.args([$a as u64, ($a >> 64) as u64, $b as u64, ($b >> 64) as u64]);
        one!(__rust_i128_add, __rust_i128_addo, i128, true, false);
        one!(__rust_u128_add, __rust_u128_addo, u128, false, false);
        one!(__rust_i128_sub, __rust_i128_subo, i128, true, true);
        one!(__rust_u128_sub, __rust_u128_subo, u128, false, true);
    }};
}

fn main() {
    run("C03", "exploration", |ctx| {
        ctx.rule("all ordered pairs of each alphabet for the eight routines in both builds; nontrivial = the result overflows the type");
        let t = ctx.thorough;
        let pairs = |name: &str, v: &[u128], u: &[u128]| {
            ctx.par(name, v.len() as u64, |i, w: &mut Worker| {
                let a = v[i as usize];
                for &b in u {
                    all!(w, compiler_builtins, a, b);
                    all!(w, cb_gen, a, b);
                }
                w.sample(|| format!("{a:#x} and {:#x}", u[u.len() / 2]));
            })
        };
        let r = ints_runs(128);
        pairs("runs of ones", &r, &r);
        let e = ints_limbs(128, 32, &limb_edges(32));
        let f = ints_limbs(128, 32, &[0, 1, 1 << 31, (1 << 32) - 1]);
        pairs("32-bit limb edges", &e, if t { &e } else { &f });
        let g = ints_limbs(128, 64, &ints_runs(64));
        let h = ints_limbs(128, 64, &limb_edges(64));
        pairs("64-bit limb runs", &g, &h);
        // pairs summing to within two of a type limit
        let all = ints_allruns(128);
        ctx.par("sums and differences at the limits", all.len() as u64, |i, w| {
            let a = all[i as usize];
            for lim in [0u128, 1 << 127] {
                for d in 0..5u128 {
                    let s = lim.wrapping_add(d).wrapping_sub(2);
                    for b in [s.wrapping_sub(a), a.wrapping_sub(s), a.wrapping_add(s)] {
                        all!(w, compiler_builtins, a, b);
                        all!(w, cb_gen, a, b);
                    }
                }
            }
        });
        if t {
            pairs("all runs of ones", &all, &r);
        }
    })
}
