//! C01: integer division and remainder.
use vh::alpha::*;
use vh::rf::U;
use vh::{Ctx, Worker, run};

/// Per-target algorithm variants instantiated from the macros in /repo, at full and at small widths.
#[cfg(feature = "inc")]
#[allow(dead_code, unused)]
mod variants {
    #[macro_use]
    #[path = "/repo/compiler-builtins/src/int/specialized_div_rem/norm_shift.rs"]
    mod norm_shift;
    #[macro_use]
    #[path = "/repo/compiler-builtins/src/int/specialized_div_rem/binary_long.rs"]
    mod binary_long;
    #[macro_use]
    #[path = "/repo/compiler-builtins/src/int/specialized_div_rem/delegate.rs"]
    mod delegate;
    #[macro_use]
    #[path = "/repo/compiler-builtins/src/int/specialized_div_rem/trifecta.rs"]
    mod trifecta;
    #[macro_use]
    #[path = "/repo/compiler-builtins/src/int/specialized_div_rem/asymmetric.rs"]
    mod asymmetric;

    pub fn zero_div_fn() -> ! {
        panic!("zero divisor branch reached")
    }
    const USE_LZ: bool = true;
    const NO_LZ: bool = false;
    macro_rules! half {
        ($n:ident, $u:ident) => {
            pub fn $n(a: $u, b: $u) -> ($u, $u) {
                (a / b, a % b)
            }
        };
    }
    half!(u8_by_u8_div_rem, u8);
    half!(u16_by_u16_div_rem, u16);
    half!(u32_by_u32_div_rem, u32);
    half!(u64_by_u64_div_rem, u64);
    macro_rules! asym {
        ($n:ident, $uD:ident, $uX:ident, $bits:expr) => {
            /// Stand-in for the hardware wide division; it traps when the quotient does not fit.
            pub unsafe fn $n(duo: $uD, div: $uX) -> ($uX, $uX) {
                let q = duo / div as $uD;
                assert!(q >> $bits == 0, "wide hardware division would trap");
                (q as $uX, (duo % div as $uD) as $uX)
            }
        };
    }
    asym!(u16_by_u8_div_rem, u16, u8, 8);
    asym!(u32_by_u16_div_rem, u32, u16, 16);
    asym!(u64_by_u32_div_rem, u64, u32, 32);
    asym!(u128_by_u64_div_rem, u128, u64, 64);

    impl_normalization_shift!(n8, USE_LZ, 8, u8, i8, allow(dead_code));
    impl_normalization_shift!(n16, USE_LZ, 16, u16, i16, allow(dead_code));
    impl_normalization_shift!(n32, USE_LZ, 32, u32, i32, allow(dead_code));
    impl_normalization_shift!(u64_normalization_shift, USE_LZ, 64, u64, i64, allow(dead_code));
    impl_normalization_shift!(n128, USE_LZ, 128, u128, i128, allow(dead_code));
    impl_normalization_shift!(b8, NO_LZ, 8, u8, i8, allow(dead_code));
    impl_normalization_shift!(b16, NO_LZ, 16, u16, i16, allow(dead_code));
    impl_normalization_shift!(b32, NO_LZ, 32, u32, i32, allow(dead_code));
    impl_normalization_shift!(b64, NO_LZ, 64, u64, i64, allow(dead_code));
    impl_normalization_shift!(b128, NO_LZ, 128, u128, i128, allow(dead_code));

    impl_binary_long!(bl8, zero_div_fn, n8, 8, u8, i8);
    impl_binary_long!(bl16, zero_div_fn, n16, 16, u16, i16);
    impl_binary_long!(bl32, zero_div_fn, n32, 32, u32, i32);
    impl_binary_long!(bl64, zero_div_fn, u64_normalization_shift, 64, u64, i64);
    impl_binary_long!(bl128, zero_div_fn, n128, 128, u128, i128);
    impl_binary_long!(bb8, zero_div_fn, b8, 8, u8, i8);
    impl_binary_long!(bb16, zero_div_fn, b16, 16, u16, i16);
    impl_binary_long!(bb32, zero_div_fn, b32, 32, u32, i32);
    impl_binary_long!(bb64, zero_div_fn, b64, 64, u64, i64);
    impl_binary_long!(bb128, zero_div_fn, b128, 128, u128, i128);

    impl_delegate!(de32, zero_div_fn, n16, u16_by_u16_div_rem, 8, u8, u16, u32, i32);
    impl_delegate!(de64, zero_div_fn, n32, u32_by_u32_div_rem, 16, u16, u32, u64, i64);
    impl_delegate!(de128, zero_div_fn, u64_normalization_shift, u64_by_u64_div_rem, 32, u32, u64, u128, i128);
    impl_delegate!(df32, zero_div_fn, b16, u16_by_u16_div_rem, 8, u8, u16, u32, i32);
    impl_delegate!(df64, zero_div_fn, b32, u32_by_u32_div_rem, 16, u16, u32, u64, i64);
    impl_delegate!(df128, zero_div_fn, b64, u64_by_u64_div_rem, 32, u32, u64, u128, i128);

    impl_trifecta!(tr32, zero_div_fn, u16_by_u16_div_rem, 8, u8, u16, u32);
    impl_trifecta!(tr64, zero_div_fn, u32_by_u32_div_rem, 16, u16, u32, u64);
    impl_trifecta!(tr128, zero_div_fn, u64_by_u64_div_rem, 32, u32, u64, u128);

    impl_asymmetric!(as32, zero_div_fn, u16_by_u16_div_rem, u32_by_u16_div_rem, 8, u8, u16, u32);
    impl_asymmetric!(as64, zero_div_fn, u32_by_u32_div_rem, u64_by_u32_div_rem, 16, u16, u32, u64);
    impl_asymmetric!(as128, zero_div_fn, u64_by_u64_div_rem, u128_by_u64_div_rem, 32, u32, u64, u128);
}

type F128 = (&'static str, fn(u128, u128) -> (u128, u128));

/// Exact check without division: n = q*d + r, r < d.
#[inline]
fn ok(n: u128, d: u128, q: u128, r: u128) -> bool {
    let mut p = U::mul(q, d);
    p = p.add(&U::from(r));
    r < d && p == U::from(n)
}

#[inline]
fn check(w: &mut Worker, name: &'static str, f: fn(u128, u128) -> (u128, u128), n: u128, d: u128) {
    w.func(name);
    w.args([n as u64, (n >> 64) as u64, d as u64, (d >> 64) as u64]);
    let (q, r) = f(n, d);
    if !ok(n, d, q, r) {
        w.fail(name, &format!("{n:#x}, {d:#x}"), "n = q*d + r with r < d", &format!("q={q:#x} r={r:#x}"));
    }
    w.done(q > 1);
}

macro_rules! entry_points {
    ($cb:ident) => {{
        use $cb::int::{sdiv::*, udiv::*};
        (
            vec![
                (concat!(stringify!($cb), "::__udivmodti4"), (|n, d| { let mut r = 7; (__udivmodti4(n, d, Some(&mut r)), r) }) as fn(u128, u128) -> (u128, u128)),
                (concat!(stringify!($cb), "::__udivti3/__umodti3"), |n, d| (__udivti3(n, d), __umodti3(n, d))),
                (concat!(stringify!($cb), "::__udivmodti4 without remainder"), |n, d| (__udivmodti4(n, d, None), __umodti3(n, d))),
            ],
            vec![
                (concat!(stringify!($cb), "::__udivmoddi4"), (|n, d| { let mut r = 7; (__udivmoddi4(n as u64, d as u64, Some(&mut r)) as u128, r as u128) }) as fn(u128, u128) -> (u128, u128)),
                (concat!(stringify!($cb), "::__udivdi3/__umoddi3"), |n, d| (__udivdi3(n as u64, d as u64) as u128, __umoddi3(n as u64, d as u64) as u128)),
                (concat!(stringify!($cb), "::__udivmoddi4 without remainder"), |n, d| (__udivmoddi4(n as u64, d as u64, None) as u128, __umoddi3(n as u64, d as u64) as u128)),
            ],
            vec![
                (concat!(stringify!($cb), "::__udivmodsi4"), (|n, d| { let mut r = 7; (__udivmodsi4(n as u32, d as u32, Some(&mut r)) as u128, r as u128) }) as fn(u128, u128) -> (u128, u128)),
                (concat!(stringify!($cb), "::__udivsi3/__umodsi3"), |n, d| (__udivsi3(n as u32, d as u32) as u128, __umodsi3(n as u32, d as u32) as u128)),
                (concat!(stringify!($cb), "::__udivmodsi4 without remainder"), |n, d| (__udivmodsi4(n as u32, d as u32, None) as u128, __umodsi3(n as u32, d as u32) as u128)),
            ],
            // signed: (quotient, remainder) as i128
            vec![
                (concat!(stringify!($cb), "::__divmodti4"), (|n, d| { let mut r = 7; (__divmodti4(n, d, &mut r), r) }) as fn(i128, i128) -> (i128, i128)),
                (concat!(stringify!($cb), "::__divti3/__modti3"), |n, d| (__divti3(n, d), __modti3(n, d))),
            ],
            vec![
                (concat!(stringify!($cb), "::__divmoddi4"), (|n, d| { let mut r = -7; (__divmoddi4(n as i64, d as i64, &mut r) as i128, r as i128) }) as fn(i128, i128) -> (i128, i128)),
                (concat!(stringify!($cb), "::__divdi3/__moddi3"), |n, d| (__divdi3(n as i64, d as i64) as i128, __moddi3(n as i64, d as i64) as i128)),
            ],
            vec![
                (concat!(stringify!($cb), "::__divmodsi4"), (|n, d| { let mut r = -7; (__divmodsi4(n as i32, d as i32, &mut r) as i128, r as i128) }) as fn(i128, i128) -> (i128, i128)),
                (concat!(stringify!($cb), "::__divsi3/__modsi3"), |n, d| (__divsi3(n as i32, d as i32) as i128, __modsi3(n as i32, d as i32) as i128)),
            ],
        )
    }};
}

fn pairs(ctx: &Ctx, name: &str, ns: &[u128], ds: &[u128], fs: &[F128]) {
    ctx.par(name, ns.len() as u64, |i, w| {
        let n = ns[i as usize];
        for &d in ds {
            if d != 0 {
                for f in fs {
                    check(w, f.0, f.1, n, d);
                }
            }
        }
        w.sample(|| format!("{name}: {n:#x} by {:#x}", ds[ds.len() / 2]));
    });
}

/// Dividends built from quotient and divisor: q*d-1, q*d, q*d+1, q*d+d-1.
fn built(ctx: &Ctx, name: &str, bits: u32, qs: &[u128], ds: &[u128], fs: &[F128]) {
    ctx.par(name, qs.len() as u64, |i, w| {
        let q = qs[i as usize];
        for &d in ds {
            let p = U::mul(q, d);
            if d == 0 || p.bits() > bits {
                continue;
            }
            let n = p.lo128();
            let max = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
            for x in [n.checked_sub(1), Some(n), n.checked_add(1), n.checked_add(d - 1), n.checked_add(d)] {
                if let Some(x) = x
                    && x <= max
                {
                    for f in fs {
                        check(w, f.0, f.1, x, d);
                    }
                }
            }
        }
        w.sample(|| format!("{name}: quotient {q:#x} divisor {:#x}", ds[ds.len() / 3]));
    });
}

fn signed(ctx: &Ctx, name: &str, bits: u32, v: &[u128], fs: &[(&'static str, fn(i128, i128) -> (i128, i128))]) {
    let min = sext(1 << (bits - 1), bits);
    ctx.par(name, v.len() as u64, |i, w| {
        let n = sext(v[i as usize], bits);
        for &d in v {
            let d = sext(d, bits);
            if d == 0 || (n == min && d == -1) {
                continue;
            }
            for &(name, f) in fs {
                w.func(name);
                w.args([n as u64, (n >> 64) as u64, d as u64, (d >> 64) as u64]);
                let (q, r) = f(n, d);
                let good = ok(n.unsigned_abs(), d.unsigned_abs(), q.unsigned_abs(), r.unsigned_abs())
                    && (r == 0 || (r < 0) == (n < 0))
                    && (q == 0 || (q < 0) == ((n < 0) != (d < 0)));
                if !good {
                    w.fail(name, &format!("{n:#x}, {d:#x}"), "truncated quotient and remainder with the dividend's sign", &format!("q={q} r={r}"));
                }
                w.done(n < 0 || d < 0);
            }
        }
        w.sample(|| format!("{name}: {n} by {}", sext(v[v.len() / 3], bits)));
    });
}

/// `div` of a 32-bit x86: edx:eax by a register; a quotient that does not fit traps, here it leaves junk.
#[cfg(feature = "arch")]
fn x86_div(t: &fake_core::co::Tmpl, o: &mut fake_core::co::Ops) {
    let l: Vec<&str> = t.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
    let bad = || -> ! {
        println!("assembly not known: {l:?}");
        std::process::exit(2)
    };
    let [l0] = l[..] else { bad() };
    let Some(n) = l0.strip_prefix("div").map(|x| x.trim().trim_matches(['{', '}'])).and_then(|x| x.split(':').next()) else { bad() };
    let at = |names: &[&str]| o.v[..o.n].iter().position(|p| names.contains(&p.name.trim_matches('"')));
    let div = n.parse().ok().or_else(|| at(&[n]));
    let (Some(d), Some(a), Some(h)) = (div, at(&["eax", "rax"]), at(&["edx", "rdx"])) else { bad() };
    let (duo, div) = (o.v[h].val << 32 | o.v[a].val as u32 as u64, o.v[d].val as u32 as u64);
    if div == 0 || duo / div >> 32 != 0 {
        (o.v[a].val, o.v[h].val) = (0xdead_dead, 0xffff_ffff);
    } else {
        (o.v[a].val, o.v[h].val) = (duo / div, duo % div);
    }
}

/// AVR entry points: the packed 32-bit forms and the assembly routines.
#[cfg(feature = "arch")]
fn avr(ctx: &Ctx) {
    use archasm::{sdiv_avr as s, udiv_avr as u};
    use fake_core::co::{self, Out};
    use vh::asmi::Avr;
    let f32_: Vec<F128> = vec![("__udivmodsi4 (AVR)", |n, d| {
        let x = u::__udivmodsi4(n as u32, d as u32);
        (x as u32 as u128, (x >> 32) as u128)
    })];
    let s32: Vec<(&'static str, fn(i128, i128) -> (i128, i128))> = vec![("__divmodsi4 (AVR)", |n, d| {
        let x = s::__divmodsi4(n as i32, d as i32);
        (x as i32 as i128, (x >> 32) as i32 as i128)
    })];
    let r32 = ints_allruns(32);
    pairs(ctx, "AVR 32-bit", &r32, &r32, &f32_);
    signed(ctx, "AVR signed 32-bit", 32, &r32, &s32);
    let text = |name: &str, f: unsafe extern "C" fn()| match co::run(&[], &|| unsafe {
        f();
        0
    }) {
        Out::Naked(l, _) => Avr::new(&l),
        _ => {
            println!("{name} is not an assembly routine");
            std::process::exit(2)
        }
    };
    let (q, h) = (text("__udivmodqi4", u::__udivmodqi4), text("__udivmodhi4", u::__udivmodhi4));
    let one = |w: &mut Worker, wide: bool, n: u16, d: u16| {
        let name = if wide { "__udivmodhi4" } else { "__udivmodqi4" };
        w.func(name);
        w.args([n as u64, d as u64]);
        let mut r: [u8; 32] = std::array::from_fn(|i| 0xb1 ^ (i as u8 * 37));
        r[24] = n as u8;
        r[22] = d as u8;
        if wide {
            r[25] = (n >> 8) as u8;
            r[23] = (d >> 8) as u8;
        }
        let before = r;
        let ok = if wide { h.run(&mut r) } else { q.run(&mut r) };
        let (g, free): (_, &[usize]) = if wide {
            ((u16::from_le_bytes([r[22], r[23]]), u16::from_le_bytes([r[24], r[25]])), &[21, 22, 23, 24, 25, 26, 27])
        } else {
            ((r[24] as u16, r[25] as u16), &[23, 24, 25])
        };
        let kept = (0..32).all(|i| free.contains(&i) || r[i] == before[i]);
        if !ok || !kept || g != (n / d, n % d) {
            w.fail(name, &format!("{n:#x}, {d:#x}"), &format!("{:x?}, other registers kept", (n / d, n % d)), &format!("{g:x?} returned {ok} kept {kept}"));
        }
        w.done(n > d);
    };
    ctx.par("AVR 8-bit assembly, all pairs", 256, |n, w| {
        for d in 1..256 {
            one(w, false, n as u16, d);
        }
    });
    let r16 = ints_allruns(16);
    ctx.par("AVR 16-bit assembly", 1 << 16, |n, w| {
        for &d in r16.iter().step_by(if ctx.thorough { 1 } else { 5 }) {
            if d != 0 {
                one(w, true, n as u16, d as u16);
            }
            if n != 0 {
                one(w, true, d as u16, n as u16);
            }
        }
    });
}

fn main() {
    run("C01", "exploration", |ctx| {
        #[cfg(feature = "inc")]
        ctx.seq("ARM names", |w| {
            let v = ints_runs(32);
            for &a in &v {
                for &b in &v {
                    let (a, b) = (a as u32, b as u32);
                    if b == 0 || (a, b) == (1 << 31, u32::MAX) {
                        continue;
                    }
                    w.args([a as u64, b as u64]);
                    let g = (armish::int::udiv::__aeabi_uidiv(a, b), armish::int::sdiv::__aeabi_idiv(a as i32, b as i32));
                    let r = (a / b, a as i32 / b as i32);
                    if g != r {
                        w.fail("__aeabi_uidiv/idiv", &format!("{a:#x}, {b:#x}"), &format!("{r:x?}"), &format!("{g:x?}"));
                    }
                    w.done(b > 1 && a > b);
                }
            }
        });
        ctx.rule("all ordered pairs of each listed alphabet (and dividends q*d-1..q*d+d built from alphabet pairs), every entry point and algorithm variant; nontrivial = quotient above 1 (unsigned) or a negative operand (signed)");
        ctx.assume("the wide hardware division instruction of other targets is replaced by a stand-in that traps when the quotient does not fit");
        let t = ctx.thorough;
        #[allow(unused_mut)]
        let (mut f128, mut f64_, mut f32_, s128, s64, s32) = entry_points!(compiler_builtins);
        {
            let (a, b, c, sa, sb, sc) = entry_points!(cb_gen);
            f128.extend(a);
            f64_.extend(b);
            f32_.extend(c);
            f128.push(("u128_divide_sparc", |n, d| {
                let mut r = 0;
                (cb_gen::int::udiv::u128_divide_sparc(n, d, &mut r), r)
            }));
            let small = ints_runs(64);
            signed(ctx, "signed 128-bit generic", 128, &ints_runs(128), &sa);
            signed(ctx, "signed 64-bit generic", 64, &small, &sb);
            signed(ctx, "signed 32-bit generic", 32, &ints_allruns(32), &sc);
        }
        #[cfg(feature = "inc")]
        {
            use variants::*;
            macro_rules! var {
                ($v:ident, $u:ident, $($f:ident),*) => {
                    $($v.push((concat!("variant ", stringify!($f)), (|n, d| { let (q, r) = $f(n as $u, d as $u); (q as u128, r as u128) }) as fn(u128, u128) -> (u128, u128)));)*
                };
            }
            var!(f128, u128, bl128, bb128, de128, df128, tr128, as128);
            var!(f64_, u64, bl64, bb64, de64, df64, tr64, as64);
            var!(f32_, u32, bl32, bb32, de32, df32, tr32, as32);
            let all8: Vec<u128> = (0..256).collect();
            let mut f8: Vec<F128> = vec![];
            var!(f8, u8, bl8, bb8);
            pairs(ctx, "8-bit binary long division, all pairs", &all8, &all8, &f8);
            let mut f16: Vec<F128> = vec![];
            var!(f16, u16, bl16, bb16);
            let all16: Vec<u128> = (0..1 << 16).collect();
            if t {
                pairs(ctx, "16-bit binary long division, all pairs", &all16, &all16, &f16);
            } else {
                pairs(ctx, "16-bit binary long division, all dividends", &all16, &ints_allruns(16), &f16);
            }
        }
        #[cfg(feature = "arch")]
        {
            use archasm::*;
            macro_rules! var {
                ($v:ident, $u:ident, $($m:ident::$f:ident),*) => {
                    $($v.push((concat!(stringify!($m), "::", stringify!($f)), (|n, d| { let (q, r) = $m::$f(n as $u, d as $u); (q as u128, r as u128) }) as fn(u128, u128) -> (u128, u128)));)*
                };
            }
            var!(f128, u128, sdr_p32::u128_div_rem, sdr_wasm::u128_div_rem, sdr_rv::u128_div_rem);
            var!(f64_, u64, sdr_p32::u64_div_rem, sdr_rv::u64_div_rem);
            var!(f32_, u32, sdr_p32::u32_div_rem, sdr_rv::u32_div_rem);
            f128.push(("__udivmodti4 (SPARC)", |n, d| { let mut r = 7; (udiv_sparc::__udivmodti4(n, d, Some(&mut r)), r) }));
            f128.push(("__udivti3/__umodti3 (SPARC)", |n, d| (udiv_sparc::__udivti3(n, d), udiv_sparc::__umodti3(n, d))));
            f128.push(("__udivmodti4 (SPARC) without remainder", |n, d| (udiv_sparc::__udivmodti4(n, d, None), n % d)));
            avr(ctx);
            let v = ints_runs(64);
            let x86: Vec<F128> = vec![("u64_div_rem (x86)", |n, d| {
                fake_core::co::set_asm(x86_div);
                let (q, r) = sdr_x86::u64_div_rem(n as u64, d as u64);
                (q as u128, r as u128)
            })];
            pairs(ctx, "x86 64-bit", &v, &v, &x86);
            built(ctx, "x86 64-bit, built dividends", 64, &v, &v, &x86);
            signed(ctx, "SPARC signed 128-bit", 128, &ints_runs(128), &[
                ("__divmodti4 (SPARC)", |n, d| { let mut r = 7; (sdiv_sparc::__divmodti4(n, d, &mut r), r) }),
                ("__divti3/__modti3 (SPARC)", |n, d| (sdiv_sparc::__divti3(n, d), sdiv_sparc::__modti3(n, d))),
            ]);
        }
        let r32 = ints_allruns(32);
        pairs(ctx, "32-bit, runs of ones", &r32, &r32, &f32_);
        let e32 = ints_limbs(32, 8, &limb_edges(8));
        pairs(ctx, "32-bit, byte edges", &e32, if t { &e32 } else { &r32 }, &f32_);
        built(ctx, "32-bit, built dividends", 32, &r32, &r32, &f32_);
        let r64 = ints_allruns(64);
        let q64 = ints_runs(64);
        if t {
            pairs(ctx, "64-bit, runs of ones", &r64, &r64, &f64_);
        } else {
            pairs(ctx, "64-bit, runs of ones", &r64, &q64, &f64_);
        }
        let e64 = ints_limbs(64, 16, &limb_edges(16));
        pairs(ctx, "64-bit, 16-bit limb edges", &e64, if t { &e64 } else { &q64 }, &f64_);
        built(ctx, "64-bit, built dividends", 64, if t { &r64 } else { &q64 }, &r64, &f64_);
        let r128 = ints_runs(128);
        pairs(ctx, "128-bit, runs of ones", &r128, &r128, &f128);
        let e128 = ints_limbs(128, 32, &limb_edges(32));
        let f32k = ints_limbs(128, 32, &[0, 1, 1 << 31, (1 << 32) - 1]);
        pairs(ctx, "128-bit, 32-bit limb edges", &e128, if t { &e128 } else { &f32k }, &f128);
        let few128: Vec<u128> = ints_runs(128).into_iter().step_by(if t { 1 } else { 3 }).collect();
        built(ctx, "128-bit, built dividends", 128, &few128, &r128, &f128);
        // divisors close to a power of two with every quotient-estimate pattern in the top 10 bits
        let tops: Vec<u128> = (0..1u128 << 10).flat_map(|h| [1u128 << 63 | h << 53, 1u128 << 63 | h << 53 | ((1 << 53) - 1)]).collect();
        let wide: Vec<u128> = tops.iter().map(|x| x << 64 | u64::MAX as u128).collect();
        built(ctx, "128-bit, divisor prefixes x quotient prefixes", 128, &tops, &tops, &f128);
        pairs(ctx, "128-bit, wide prefixes", &wide, &wide, &f128);
        let shifted: Vec<u128> = tops.iter().step_by(4).flat_map(|x| (0..64).step_by(8).map(move |s| (x << 64 | x) >> s)).collect();
        pairs(ctx, "128-bit, shifted prefixes", &shifted, if t { &shifted } else { &r128 }, &f128);

        signed(ctx, "signed 128-bit", 128, &r128, &s128);
        signed(ctx, "signed 64-bit", 64, if t { &r64 } else { &q64 }, &s64);
        signed(ctx, "signed 32-bit", 32, &r32, &s32);
        if t {
            let ds = [1u32, 2, 3, 7, 10, 0xff, 0x100, 0xffff, 0x10000, 0x10001, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff];
            use compiler_builtins::int::udiv::{__udivmodsi4, __udivsi3, __umodsi3};
            ctx.par("32-bit, every dividend and every divisor x 15 values", 1 << 16, |c, w| {
                w.func("__udivsi3/__umodsi3/__udivmodsi4");
                for l in 0..1u32 << 16 {
                    let n = (c as u32) << 16 | l;
                    for d in ds {
                        w.args([n as u64, d as u64]);
                        let (q, r) = (__udivsi3(n, d), __umodsi3(n, d));
                        if q != n / d || r != n % d {
                            w.fail("__udivsi3/__umodsi3", &format!("{n:#x}, {d:#x}"), "exact division", &format!("q={q:#x} r={r:#x}"));
                        }
                        w.done(q > 1);
                        if n != 0 {
                            let mut r = 0;
                            let q = __udivmodsi4(d, n, Some(&mut r));
                            if q != d / n || r != d % n {
                                w.fail("__udivmodsi4", &format!("{d:#x}, {n:#x}"), "exact division", &format!("q={q:#x} r={r:#x}"));
                            }
                            w.done(q > 1);
                        }
                    }
                }
            });
        }
    })
}
