//! C02: integer multiplication and overflow flags.
use vh::alpha::*;
use vh::rf::U;
use vh::{Worker, run};

/// (overflow, low bits) of the signed product at `bits`, from exact magnitudes.
#[inline]
fn smul(a: i128, b: i128, bits: u32) -> (bool, u128) {
    let p = U::mul(a.unsigned_abs(), b.unsigned_abs());
    let neg = (a < 0) != (b < 0);
    let lim = 1u128 << (bits - 1);
    let fits = p.bits() <= 128 && if neg { p.lo128() <= lim } else { p.lo128() < lim };
    let lo = if neg { p.lo128().wrapping_neg() } else { p.lo128() };
    (!fits, if bits == 128 { lo } else { lo & ((1 << bits) - 1) })
}

#[inline]
fn rep<T: PartialEq + std::fmt::LowerHex>(w: &mut Worker, name: &'static str, a: u128, b: u128, want: T, got: T, of: Option<(bool, i32)>) {
    let flag_bad = matches!(of, Some((o, f)) if f != o as i32);
    if want != got || flag_bad {
        w.fail(name, &format!("{a:#x}, {b:#x}"), &format!("{want:#x} overflow {:?}", of.map(|x| x.0)), &format!("{got:#x} flag {:?}", of.map(|x| x.1)));
    }
}

macro_rules! both {
    ($w:ident, $cb:ident, $a:ident, $b:ident, $bits:expr) => {{
        use $cb::int::mul::*;
        macro_rules! nm {
            ($n:expr) => {
                concat!(stringify!($cb), "::", $n)
            };
        }
        let (a, b) = ($a, $b);
        let (sa, sb) = (sext(a, $bits), sext(b, $bits));
        $w.args([a as u64, (a >> 64) as u64, b as u64, (b >> 64) as u64]);
        let (so, slo) = smul(sa, sb, $bits);
        let mut f = 55;
        match $bits {
            32 => {
                $w.func(nm!("__mulosi4"));
                let g = __mulosi4(sa as i32, sb as i32, &mut f);
                rep($w, nm!("__mulosi4"), a, b, slo as u32, g as u32, Some((so, f)));
                $w.done(so);
            }
            64 => {
                $w.func(nm!("__mulodi4"));
                let g = __mulodi4(sa as i64, sb as i64, &mut f);
                rep($w, nm!("__mulodi4"), a, b, slo as u64, g as u64, Some((so, f)));
                $w.done(so);
                $w.func(nm!("__muldi3"));
                let g = __muldi3(a as u64, b as u64);
                rep($w, nm!("__muldi3"), a, b, (a as u64).wrapping_mul(b as u64), g, None);
                $w.done(so);
            }
            _ => {
                $w.func(nm!("__muloti4"));
                let g = __muloti4(sa, sb, &mut f);
                rep($w, nm!("__muloti4"), a, b, slo, g as u128, Some((so, f)));
                $w.done(so);
                f = 55;
                $w.func(nm!("__rust_i128_mulo"));
                let g = __rust_i128_mulo(sa, sb, &mut f);
                rep($w, nm!("__rust_i128_mulo"), a, b, slo, g as u128, Some((so, f)));
                $w.done(so);
                let p = U::mul(a, b);
                let uo = p.bits() > 128;
                f = 55;
                $w.func(nm!("__rust_u128_mulo"));
                let g = __rust_u128_mulo(a, b, &mut f);
                rep($w, nm!("__rust_u128_mulo"), a, b, p.lo128(), g, Some((uo, f)));
                $w.done(uo);
                $w.func(nm!("__multi3"));
                let g = __multi3(sa, sb);
                rep($w, nm!("__multi3"), a, b, p.lo128(), g as u128, None);
                $w.done(uo);
            }
        }
    }};
}

/// Pairs (a, b) whose product lies next to +-2^(bits-1) or 2^bits: b = limit / a rounded, +-1.
fn near_limit(bits: u32, a: u128) -> Vec<u128> {
    let m = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
    let mag = sext(a, bits).unsigned_abs();
    let mut v = vec![];
    for lim in [1u128 << (bits - 1), m] {
        for d in [a, mag] {
            if d != 0 {
                for x in [lim / d, lim / d + 1, (lim / d).wrapping_sub(1)] {
                    v.push(x & m);
                    v.push(x.wrapping_neg() & m);
                }
            }
        }
    }
    v
}

fn main() {
    run("C02", "exploration", |ctx| {
        #[cfg(feature = "inc")]
        ctx.seq("ARM name", |w| {
            let v = ints_runs(64);
            for &a in &v {
                for &b in &v {
                    w.args([a as u64, b as u64]);
                    let (a, b) = (a as u64, b as u64);
                    let (g, r) = (armish::int::mul::__aeabi_lmul(a, b), a.wrapping_mul(b));
                    if g != r {
                        w.fail("__aeabi_lmul", &format!("{a:#x}, {b:#x}"), &format!("{r:#x}"), &format!("{g:#x}"));
                    }
                    w.done(a > 1 && b > 1);
                }
            }
        });
        #[cfg(feature = "arch")]
        ctx.seq("UEFI form of __muloti4", |w| {
            w.func("__muloti4 (UEFI)");
            let v = ints_runs(128);
            for &a in &v {
                for b in v.iter().copied().chain(near_limit(128, a)) {
                    w.args([a as u64, (a >> 64) as u64, b as u64, (b >> 64) as u64]);
                    let (so, slo) = smul(a as i128, b as i128, 128);
                    let mut f = 55;
                    let g = archasm::mul_uefi::__muloti4(a as u64, (a >> 64) as u64, b as u64, (b >> 64) as u64, &mut f);
                    rep(w, "__muloti4 (UEFI)", a, b, slo, g as u128, Some((so, f)));
                    w.done(so);
                }
            }
        });
        ctx.rule("all ordered pairs of each alphabet, and for every alphabet element the multipliers whose product straddles a type limit; nontrivial = product overflows the type");
        let t = ctx.thorough;
        for bits in [32u32, 64, 128] {
            let mut v = if bits == 32 || (t && bits == 64) { ints_allruns(bits) } else { ints_runs(bits) };
            v.extend(ints_limbs(bits, bits / 4, &[0, 1, (1 << (bits / 4)) - 1, 1 << (bits / 4 - 1)]));
            v = dedup(v);
            let go = |w: &mut Worker, a: u128, b: u128| {
                both!(w, compiler_builtins, a, b, bits);
                both!(w, cb_gen, a, b, bits);
                both!(w, cb_rv, a, b, bits);
            };
            ctx.par(&format!("{bits}-bit alphabet pairs"), v.len() as u64, |i, w| {
                let a = v[i as usize];
                for &b in &v {
                    go(w, a, b);
                }
                w.sample(|| format!("{bits}-bit {a:#x} * {:#x}", v[v.len() / 2]));
            });
            let lim = if t { ints_allruns(bits) } else { ints_runs(bits) };
            ctx.par(&format!("{bits}-bit products at the limits"), lim.len() as u64, |i, w| {
                let a = lim[i as usize];
                for b in near_limit(bits, a) {
                    go(w, a, b);
                    go(w, b, a);
                }
            });
            // every 16-bit prefix as a factor, against its limit partners
            ctx.par(&format!("{bits}-bit prefixes at the limits"), 1 << 8, |i, w| {
                for l in 0..1u128 << 8 {
                    let p = (i as u128) << 8 | l;
                    for s in [0, bits / 4, bits / 2 - 8, bits / 2, bits - 16] {
                        let a = p << s;
                        for b in near_limit(bits, a) {
                            go(w, a, b);
                        }
                    }
                }
            });
        }
        let v = ints_allruns(32);
        ctx.par("32-bit shift-and-add multiply", v.len() as u64, |i, w| {
            let a = v[i as usize] as u32;
            w.func("cb_rv::__mulsi3");
            for &b in &v {
                let b = b as u32;
                w.args([a as u64, b as u64]);
                let g = cb_rv::int::mul::__mulsi3(a, b);
                rep(w, "cb_rv::__mulsi3", a as u128, b as u128, a.wrapping_mul(b), g, None);
                w.done(a != 0 && b != 0);
            }
        });
        if t {
            use compiler_builtins::int::mul::*;
            let fs = [0u32, 1, 2, 3, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff];
            ctx.par("32-bit, every value x 14 factors", 1 << 16, |c, w| {
                w.func("__mulosi4");
                for l in 0..1u32 << 16 {
                    let a = (c as u32) << 16 | l;
                    for b in fs {
                        w.args([a as u64, b as u64]);
                        let mut f = 9;
                        let g = __mulosi4(a as i32, b as i32, &mut f);
                        let p = a as i32 as i64 * b as i32 as i64;
                        let o = p != p as i32 as i64;
                        rep(w, "__mulosi4", a as u128, b as u128, p as u32, g as u32, Some((o, f)));
                        w.done(o);
                    }
                }
            });
        }
    })
}
