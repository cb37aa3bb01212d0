//! C48: wide-integer support arithmetic.
use std::cmp::Ordering;
use libm::support::{DInt, HInt, Int, MinInt, NarrowingDiv, i256, linear_mul_reduction, u256};
use vh::alpha;
use vh::ctx::{Ctx, Worker};
use vh::rf::U;
use vh::run;

fn wide(x: u256) -> U {
    let mut r = U::from(x.lo);
    r.0[2] = x.hi as u64;
    r.0[3] = (x.hi >> 64) as u64;
    r
}

fn top128(x: &U) -> u128 {
    x.0[2] as u128 | (x.0[3] as u128) << 64
}

/// The value modulo 2^256.
fn back(x: &U) -> u256 {
    u256 { lo: x.lo128(), hi: top128(x) }
}

fn fits(x: &U) -> bool {
    x.0[4..].iter().all(|&l| l == 0)
}

/// All bits above 256 copies of the sign.
fn sfits(x: &U) -> bool {
    let s = if x.0[3] >> 63 == 1 { u64::MAX } else { 0 };
    x.0[4..].iter().all(|&l| l == s)
}

fn swide(x: i256) -> U {
    let mut r = wide(u256 { lo: x.lo, hi: x.hi as u128 });
    if x.hi < 0 {
        r.0[4..].fill(u64::MAX);
    }
    r
}

fn t(x: u256) -> String {
    format!("0x{:032x}{:032x}", x.hi, x.lo)
}

fn st(x: i256) -> String {
    t(u256 { lo: x.lo, hi: x.hi as u128 })
}

fn ueq(a: u256, b: u256) -> bool {
    a.lo == b.lo && a.hi == b.hi
}

fn signed(x: u256) -> i256 {
    i256 { lo: x.lo, hi: x.hi as i128 }
}

fn sord(a: &U, b: &U) -> Ordering {
    match (a.0[7] >> 63, b.0[7] >> 63) {
        (x, y) if x != y => y.cmp(&x),
        _ => a.cmp(b),
    }
}

fn pair(w: &mut Worker, a: u256, b: u256) {
    w.args([(a.hi >> 64) as u64, a.hi as u64, (a.lo >> 64) as u64, a.lo as u64, (b.hi >> 64) as u64, b.hi as u64, (b.lo >> 64) as u64, b.lo as u64]);
    let (x, y) = (wide(a), wide(b));
    let (sa, sb) = (signed(a), signed(b));
    let (sx, sy) = (swide(sa), swide(sb));
    let inp = || format!("{} {}", t(a), t(b));
    let s = x.add(&y);
    if fits(&s) {
        let g = a + b;
        if !ueq(g, back(&s)) {
            w.fail("u256 +", &inp(), &t(back(&s)), &t(g));
        }
    }
    if x.cmp(&y) != Ordering::Less {
        let e = back(&x.sub(&y));
        let g = a - b;
        if !ueq(g, e) {
            w.fail("u256 -", &inp(), &t(e), &t(g));
        }
    }
    let s = sx.add(&sy);
    if sfits(&s) {
        let g = sa + sb;
        if !ueq(g.unsigned(), back(&s)) {
            w.fail("i256 +", &inp(), &t(back(&s)), &st(g));
        }
    }
    let s = sx.sub(&sy);
    if sfits(&s) {
        let g = sa - sb;
        if !ueq(g.unsigned(), back(&s)) {
            w.fail("i256 -", &inp(), &t(back(&s)), &st(g));
        }
    }
    if a.cmp(&b) != x.cmp(&y) || a.partial_cmp(&b) != Some(x.cmp(&y)) || (a == b) != (x == y) || (a < b) != (x.cmp(&y) == Ordering::Less) {
        w.fail("u256 order", &inp(), &format!("{:?}", x.cmp(&y)), &format!("{:?}", a.cmp(&b)));
    }
    let e = sord(&sx, &sy);
    if sa.cmp(&sb) != e || sa.partial_cmp(&sb) != Some(e) || (sa == sb) != (e == Ordering::Equal) || (sa < sb) != (e == Ordering::Less) {
        w.fail("i256 order", &inp(), &format!("{e:?}"), &format!("{:?}", sa.cmp(&sb)));
    }
    let e = u256 { lo: a.lo | b.lo, hi: a.hi | b.hi };
    if !ueq(a | b, e) || !ueq((sa | sb).unsigned(), e) {
        w.fail("256-bit |", &inp(), &t(e), &format!("{} {}", t(a | b), st(sa | sb)));
    }
    w.done(true);
}

fn single(w: &mut Worker, a: u256) {
    let x = wide(a);
    let sa = signed(a);
    let sx = swide(sa);
    for s in 0..256u32 {
        w.args([(a.hi >> 64) as u64, a.hi as u64, (a.lo >> 64) as u64, a.lo as u64, s as u64]);
        let inp = || format!("{} by {s}", t(a));
        let e = back(&x.shl(s));
        let g = a << s;
        if !ueq(e, g) {
            w.fail("u256 <<", &inp(), &t(e), &t(g));
        }
        let g = sa << s;
        if !ueq(e, g.unsigned()) {
            w.fail("i256 <<", &inp(), &t(e), &st(g));
        }
        let e = back(&x.shr(s));
        let g = a >> s;
        if !ueq(e, g) {
            w.fail("u256 >>", &inp(), &t(e), &t(g));
        }
        let e = back(&sx.shr(s));
        let g = sa >> s;
        if !ueq(e, g.unsigned()) {
            w.fail("i256 >>", &inp(), &t(e), &st(g));
        }
        w.done(s != 0);
    }
    let e = u256 { lo: !a.lo, hi: !a.hi };
    if !ueq(!a, e) || !ueq((!sa).unsigned(), e) {
        w.fail("256-bit !", &t(a), &t(e), &format!("{} {}", t(!a), st(!sa)));
    }
    let c = a.signed();
    if c.lo != a.lo || c.hi != a.hi as i128 || !ueq(c.unsigned(), a) {
        w.fail("signed/unsigned", &t(a), &t(a), &st(c));
    }
    if a.lo() != a.lo || a.hi() != a.hi || a.lo_hi() != (a.lo, a.hi) || !ueq(u256::from_lo_hi(a.lo, a.hi), a) {
        w.fail("u256 halves", &t(a), &t(a), &format!("{:x?} {}", a.lo_hi(), t(u256::from_lo_hi(a.lo, a.hi))));
    }
    if sa.lo() != a.lo as i128 || sa.hi() != sa.hi || !ueq(i256::from_lo_hi(a.lo as i128, sa.hi).unsigned(), a) {
        w.fail("i256 halves", &t(a), &st(sa), &format!("{:x?} {}", sa.lo_hi(), st(i256::from_lo_hi(a.lo as i128, sa.hi))));
    }
    for (g, e) in [(format!("{a:#x}"), t(a)), (format!("{sa:#x}"), t(a)), (format!("{a:x}"), t(a)[2..].into()), (format!("{sa:x}"), t(a)[2..].into()), (format!("{a:#?}"), t(a)), (format!("{sa:?}"), t(a)[2..].into())] {
        if g != e {
            w.fail("256-bit text", &t(a), &e, &g);
        }
    }
}

fn big(ctx: &Ctx) {
    // every limb from an edge alphabet
    let limb: &[u128] = if ctx.thorough { &[0, 1, 2, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0xffff_ffff_ffff_fffe, 0xffff_ffff_ffff_ffff] } else { &[0, 1, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0xffff_ffff_ffff_ffff] };
    let half = alpha::ints_limbs(128, 64, limb);
    let v: Vec<u256> = half.iter().flat_map(|&hi| half.iter().map(move |&lo| u256 { hi, lo })).collect();
    ctx.par("256-bit pairs: sums, differences, order, or", v.len() as u64, |i, w| {
        w.func("u256");
        for &b in &v {
            pair(w, v[i as usize], b);
        }
    });
    let runs = alpha::ints_runs(128);
    let mut v: Vec<u256> = v;
    for &r in &runs {
        v.extend([u256 { hi: 0, lo: r }, u256 { hi: r, lo: 0 }, u256 { hi: r, lo: u128::MAX }, u256 { hi: u128::MAX, lo: r }, u256 { hi: r, lo: r }, u256 { hi: r, lo: !r }]);
    }
    for i in 0..256 {
        for j in i..256 {
            // every run of ones
            let x = U::from(1).shl(j - i + 1).sub(&U::from(1)).shl(i);
            v.push(back(&x));
        }
    }
    ctx.par("256-bit values x every shift", v.len() as u64, |i, w| {
        w.func("u256");
        single(w, v[i as usize]);
    });
    ctx.par("runs of ones: sums and differences with neighbours", v.len() as u64, |i, w| {
        w.func("u256");
        for k in (i as usize..v.len()).take(if ctx.thorough { 2000 } else { 60 }) {
            pair(w, v[i as usize], v[k]);
            pair(w, v[k], v[i as usize]);
        }
    });
    ctx.seq("constants", |w| {
        w.func("256-bit constants");
        w.args([]);
        let ok = u256::MAX.lo == u128::MAX && u256::MAX.hi == u128::MAX && ueq(u256::MIN, u256 { lo: 0, hi: 0 }) && i256::MAX.hi == i128::MAX && i256::MAX.lo == u128::MAX && i256::MIN.hi == i128::MIN && i256::MIN.lo == 0;
        let ok = ok && ueq(<u256 as MinInt>::ONE, u256 { lo: 1, hi: 0 }) && ueq(<u256 as MinInt>::ZERO, u256 { lo: 0, hi: 0 }) && ueq(<u256 as MinInt>::MAX, u256::MAX) && ueq(<u256 as MinInt>::MIN, u256::MIN);
        let ok = ok && ueq(<i256 as MinInt>::ONE.unsigned(), u256 { lo: 1, hi: 0 }) && ueq(<i256 as MinInt>::ZERO.unsigned(), u256 { lo: 0, hi: 0 }) && <i256 as MinInt>::MAX == i256::MAX && <i256 as MinInt>::MIN == i256::MIN;
        let ok = ok && <u256 as MinInt>::BITS == 256 && <i256 as MinInt>::BITS == 256 && !<u256 as MinInt>::SIGNED && <i256 as MinInt>::SIGNED;
        if !ok {
            w.fail("constants", "u256, i256", "the limits of the types", "something else");
        }
        w.done(true);
    });
}

fn mul(ctx: &Ctx) {
    let mut v = alpha::ints_runs(128);
    if ctx.thorough {
        v.extend(alpha::ints_allruns(128));
    }
    v.extend(alpha::ints_limbs(128, 32, &[0, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]));
    let v = alpha::dedup(v);
    ctx.par("128-bit products to 256 bits", v.len() as u64, |i, w| {
        w.func("zero_widen_mul");
        let a = v[i as usize];
        for &b in &v {
            w.args([(a >> 64) as u64, a as u64, (b >> 64) as u64, b as u64]);
            let e = back(&U::mul(a, b));
            for (n, g) in [("u128 zero_widen_mul", a.zero_widen_mul(b)), ("u128 widen_mul", a.widen_mul(b)), ("i128 zero_widen_mul", (a as i128).zero_widen_mul(b as i128).unsigned())] {
                if !ueq(g, e) {
                    w.fail(n, &format!("0x{a:x} 0x{b:x}"), &t(e), &t(g));
                }
            }
            w.done(true);
        }
        let sx = if (a as i128) < 0 { u128::MAX } else { 0 };
        for (n, g, e) in [
            ("u128 widen", a.widen(), u256 { lo: a, hi: 0 }),
            ("u128 zero_widen", a.zero_widen(), u256 { lo: a, hi: 0 }),
            ("u128 widen_hi", a.widen_hi(), u256 { lo: 0, hi: a }),
            ("i128 widen", (a as i128).widen().unsigned(), u256 { lo: a, hi: sx }),
            ("i128 zero_widen", (a as i128).zero_widen().unsigned(), u256 { lo: a, hi: 0 }),
            ("i128 widen_hi", (a as i128).widen_hi().unsigned(), u256 { lo: 0, hi: a }),
        ] {
            if !ueq(g, e) {
                w.fail(n, &format!("0x{a:x}"), &t(e), &t(g));
            }
        }
    });
}

macro_rules! halves {
    ($ctx:expr, $u:ty, $i:ty, $du:ty, $di:ty) => {{
        let b = <$u>::BITS;
        let v: Vec<u128> = if b == 8 { (0..256).collect() } else { alpha::ints_runs(b) };
        $ctx.par(&format!("{b}-bit widening, halves, carries and counts"), v.len() as u64, |i, w| {
            w.func("HInt/DInt/Int");
            let x = v[i as usize] as $u;
            let sx = x as $i;
            for &y in &v {
                let y = y as $u;
                let sy = y as $i;
                w.args([x as u64, y as u64]);
                macro_rules! eq {
                    ($n:expr, $g:expr, $e:expr) => {
                        if $g != $e {
                            w.fail(&format!("{} {}", $n, b), &format!("0x{x:x} 0x{y:x}"), &format!("{:x?}", $e), &format!("{:x?}", $g));
                        }
                    };
                }
                eq!("zero_widen_mul u", x.zero_widen_mul(y), (x as $du) * (y as $du));
                eq!("widen_mul u", x.widen_mul(y), (x as $du) * (y as $du));
                eq!("zero_widen_mul i", sx.zero_widen_mul(sy), ((x as $du) * (y as $du)) as $di);
                eq!("widen_mul i", sx.widen_mul(sy), (sx as $di) * (sy as $di));
                eq!("widen u", HInt::widen(x), x as $du);
                eq!("widen i", HInt::widen(sx), sx as $di);
                eq!("zero_widen i", HInt::zero_widen(sx), x as $du as $di);
                eq!("zero_widen u", HInt::zero_widen(x), x as $du);
                let d = (x as $du) << b | y as $du;
                eq!("widen_hi u", x.widen_hi(), (x as $du) << b);
                eq!("widen_hi i", sx.widen_hi(), ((x as $du) << b) as $di);
                eq!("from_lo_hi u", <$du>::from_lo_hi(y, x), d);
                eq!("from_lo_hi i", <$di>::from_lo_hi(sy, sx), d as $di);
                eq!("lo_hi u", d.lo_hi(), (y, x));
                eq!("lo_hi i", (d as $di).lo_hi(), (sy, sx));
                for c in [false, true] {
                    let s = (x as $du) + (y as $du) + c as $du;
                    eq!("carrying_add u", Int::carrying_add(x, y, c), (s as $u, s >> b != 0));
                    let s = (sx as $di) + (sy as $di) + c as $di;
                    eq!("carrying_add i", Int::carrying_add(sx, sy, c), (s as $i, s as $i as $di != s));
                    let s = (x as $di) - (y as $di) - c as $di;
                    eq!("borrowing_sub u", Int::borrowing_sub(x, y, c), (s as $u, s < 0));
                    let s = (sx as $di) - (sy as $di) - c as $di;
                    eq!("borrowing_sub i", Int::borrowing_sub(sx, sy, c), (s as $i, s as $i as $di != s));
                }
                let s = (x as $du) + (y as $du);
                eq!("overflowing_add u", Int::overflowing_add(x, y), (s as $u, s >> b != 0));
                eq!("checked_add u", Int::checked_add(x, y), if s >> b == 0 { Some(s as $u) } else { None });
                eq!("wrapping_add u", Int::wrapping_add(x, y), s as $u);
                let s = (sx as $di) - (sy as $di);
                eq!("overflowing_sub i", Int::overflowing_sub(sx, sy), (s as $i, s as $i as $di != s));
                eq!("checked_sub i", Int::checked_sub(sx, sy), if s as $i as $di == s { Some(s as $i) } else { None });
                eq!("wrapping_sub i", Int::wrapping_sub(sx, sy), s as $i);
                eq!("abs_diff i", Int::abs_diff(sx, sy), s.unsigned_abs() as $u);
                eq!("abs_diff u", Int::abs_diff(x, y), if x > y { x - y } else { y - x });
                let s = (sx as $di) + (sy as $di);
                eq!("overflowing_add i", Int::overflowing_add(sx, sy), (s as $i, s as $i as $di != s));
                eq!("checked_add i", Int::checked_add(sx, sy), if s as $i as $di == s { Some(s as $i) } else { None });
                eq!("wrapping_add i", Int::wrapping_add(sx, sy), s as $i);
                let s = (x as $di) - (y as $di);
                eq!("overflowing_sub u", Int::overflowing_sub(x, y), (s as $u, s < 0));
                eq!("checked_sub u", Int::checked_sub(x, y), if s >= 0 { Some(s as $u) } else { None });
                eq!("wrapping_sub u", Int::wrapping_sub(x, y), s as $u);
                eq!("wrapping_mul", Int::wrapping_mul(x, y), ((x as $du) * (y as $du)) as $u);
                eq!("wrapping_mul i", Int::wrapping_mul(sx, sy), ((x as $du) * (y as $du)) as $i);
                w.done(true);
            }
            w.args([x as u64]);
            let y = 0;
            macro_rules! eq {
                ($n:expr, $g:expr, $e:expr) => {
                    if $g != $e {
                        w.fail(&format!("{} {}", $n, b), &format!("0x{x:x} 0x{y:x}"), &format!("{:x?}", $e), &format!("{:x?}", $g));
                    }
                };
            }
            let bits: Vec<bool> = (0..b).map(|i| x >> i & 1 == 1).collect();
            eq!("count_ones", Int::count_ones(x), bits.iter().filter(|&&b| b).count() as u32);
            eq!("leading_zeros", Int::leading_zeros(x), bits.iter().rev().take_while(|&&b| !b).count() as u32);
            eq!("trailing_zeros", Int::trailing_zeros(x), bits.iter().take_while(|&&b| !b).count() as u32);
            eq!("leading_zeros i", Int::leading_zeros(sx), bits.iter().rev().take_while(|&&b| !b).count() as u32);
            eq!("trailing_zeros i", Int::trailing_zeros(sx), bits.iter().take_while(|&&b| !b).count() as u32);
            eq!("count_ones i", Int::count_ones(sx), bits.iter().filter(|&&b| b).count() as u32);
            if x != 0 {
                eq!("ilog2", Int::ilog2(x), bits.iter().rposition(|&b| b).unwrap() as u32);
            }
            eq!("is_zero", Int::is_zero(x), x == 0);
            eq!("wrapping_neg", Int::wrapping_neg(x), (0 as $u).wrapping_sub(x));
            eq!("wrapping_neg i", Int::wrapping_neg(sx), (0 as $u).wrapping_sub(x) as $i);
            eq!("unsigned_abs", Int::unsigned_abs(sx), if sx < 0 { (0 as $u).wrapping_sub(x) } else { x });
            if sx != <$i>::MIN {
                eq!("abs", Int::abs(sx), if sx < 0 { (0 as $u).wrapping_sub(x) as $i } else { sx });
            }
            eq!("signed", Int::signed(x), sx);
            eq!("unsigned", Int::unsigned(sx), x);
            eq!("from_unsigned", <$i as Int>::from_unsigned(x), sx);
            eq!("from_bool", (<$u as Int>::from_bool(true), <$u as Int>::from_bool(false)), (1, 0));
            for s in 0..b {
                let e = bits.iter().enumerate().skip(s as usize).fold(0 as $u, |a, (i, &o)| a | (o as $u) << (i as u32 - s));
                eq!("logical_shr i", Int::logical_shr(sx, s), e as $i);
                eq!("logical_shr u", Int::logical_shr(x, s), e);
                eq!("wrapping_shr u", Int::wrapping_shr(x, s), e);
                let e = bits.iter().enumerate().take((b - s) as usize).fold(0 as $u, |a, (i, &o)| a | (o as $u) << (i as u32 + s));
                eq!("wrapping_shl u", Int::wrapping_shl(x, s), e);
                let e = bits.iter().enumerate().fold(0 as $u, |a, (i, &o)| a | (o as $u) << ((i as u32 + s) % b));
                eq!("rotate_left", Int::rotate_left(x, s), e);
            }
        });
    }};
}

/// a = q * n + r with q and r below n's width: the quotient and remainder come out again.
fn div256(w: &mut Worker, q: u128, n: u128, r: u128) {
    if n == 0 || r >= n {
        return;
    }
    let a = back(&U::mul(q, n).add(&U::from(r)));
    w.args([(q >> 64) as u64, q as u64, (n >> 64) as u64, n as u64, (r >> 64) as u64, r as u64]);
    // the quotient fits exactly when the upper half of the dividend is below the divisor
    let g = a.checked_narrowing_div_rem(n);
    if g != Some((q, r)) {
        w.fail("u256 by u128", &format!("{} by 0x{n:x}", t(a)), &format!("{q:x} rem {r:x}"), &format!("{g:x?}"));
    }
    w.done(q != 0);
}

fn narrow(ctx: &Ctx) {
    ctx.par("all 16-bit dividends by all 8-bit divisors", 1 << 16, |a, w| {
        w.func("narrowing_div_rem");
        let a = a as u16;
        for n in 0..=255u8 {
            w.args([a as u64, n as u64]);
            let e = if n != 0 && a / (n as u16) < 256 { Some(((a / n as u16) as u8, (a % n as u16) as u8)) } else { None };
            let g = a.checked_narrowing_div_rem(n);
            if g != e {
                w.fail("u16 by u8", &format!("0x{a:x} by 0x{n:x}"), &format!("{e:x?}"), &format!("{g:x?}"));
            }
            w.done(e.is_some());
        }
    });
    macro_rules! prim {
        ($d:ty, $h:ty) => {{
            let b = <$h>::BITS;
            let v = alpha::ints_runs(b);
            let d = alpha::ints_runs(2 * b);
            ctx.par(&format!("{}-bit dividends by {b}-bit divisors", 2 * b), v.len() as u64, |i, w| {
                w.func("narrowing_div_rem");
                let n = v[i as usize] as $h;
                let mut go = |a: $d| {
                    w.args([(a as u128 >> 64) as u64, a as u64, n as u64]);
                    let e = if n != 0 && a / (n as $d) <= <$h>::MAX as $d { Some(((a / n as $d) as $h, (a % n as $d) as $h)) } else { None };
                    let g = a.checked_narrowing_div_rem(n);
                    if g != e {
                        w.fail(concat!(stringify!($d), " by ", stringify!($h)), &format!("0x{a:x} by 0x{n:x}"), &format!("{e:x?}"), &format!("{g:x?}"));
                    }
                    w.done(e.is_some());
                };
                for &a in &d {
                    go(a as $d);
                }
                for &q in &v {
                    let p = (q as $d) * (n as $d);
                    for r in [0, 1, n.wrapping_sub(1)] {
                        go(p.wrapping_add(r as $d));
                    }
                    go(p.wrapping_sub(1));
                }
            });
        }};
    }
    prim!(u32, u16);
    prim!(u64, u32);
    prim!(u128, u64);
    // divisors of every length; the estimates are worst for small upper and large lower digits
    let limb = alpha::ints_limbs(128, 32, if ctx.thorough { &[0, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff] } else { &[0, 1, 0x8000_0000, 0xffff_ffff] });
    let runs = alpha::ints_runs(128);
    let mut ns = runs.clone();
    ns.extend(&limb);
    let ns = alpha::dedup(ns);
    let mut qs = alpha::ints_limbs(128, 64, &alpha::limb_edges(64));
    qs.extend(&limb);
    qs.extend(runs.iter().step_by(if ctx.thorough { 1 } else { 5 }));
    let qs = alpha::dedup(qs);
    ctx.par("256-bit dividends with known quotient and remainder", ns.len() as u64, |i, w| {
        w.func("narrowing_div_rem");
        let n = ns[i as usize];
        for &q in &qs {
            for r in [0, 1, n / 2, n.wrapping_sub(2), n.wrapping_sub(1), n & u64::MAX as u128, n.wrapping_sub(1 << 64)] {
                div256(w, q, n, r);
            }
        }
    });
    ctx.par("256-bit dividends with quotients that do not fit", ns.len() as u64, |i, w| {
        w.func("narrowing_div_rem");
        let n = ns[i as usize];
        for &hi in ns.iter() {
            for lo in [0, u128::MAX] {
                w.args([(hi >> 64) as u64, hi as u64, (n >> 64) as u64, n as u64]);
                let g = u256 { hi, lo }.checked_narrowing_div_rem(n);
                if g.is_some() != (hi < n) {
                    w.fail("u256 by u128", &format!("{} by 0x{n:x}", t(u256 { hi, lo })), if hi < n { "a quotient" } else { "none" }, &format!("{g:x?}"));
                }
                w.done(hi >= n);
            }
        }
    });
}

macro_rules! reduce {
    ($ctx:expr, $u:ty, $ys:expr, $xs:expr, $emax:expr) => {{
        let ys: Vec<u128> = $ys.into_iter().filter(|&y| y != 0 && y <= (<$u>::MAX >> 2) as u128).collect();
        let xs: Vec<u128> = $xs;
        let emax: u32 = $emax;
        $ctx.par(&format!("{}-bit: x * 2^e mod y for every e up to {emax}", <$u>::BITS), ys.len() as u64, |i, w| {
            w.func("linear_mul_reduction");
            let y = ys[i as usize];
            let near = [y - 1, y, y + 1, 2 * y - 1, 2 * y - 2, y / 2, y / 3];
            for &x in xs.iter().chain(&near) {
                if x >= 2 * y {
                    continue;
                }
                let mut r = x % y;
                for e in 0..=emax {
                    w.args([<$u>::BITS as u64, (x >> 64) as u64, x as u64, e as u64, (y >> 64) as u64, y as u64]);
                    let g = linear_mul_reduction(x as $u, e, y as $u);
                    if g as u128 != r {
                        w.fail(concat!("linear_mul_reduction ", stringify!($u)), &format!("0x{x:x} * 2^{e} mod 0x{y:x}"), &format!("0x{r:x}"), &format!("0x{g:x}"));
                    }
                    r = r * 2 % y;
                    w.done(r != 0);
                }
            }
        });
    }};
}

fn modular(ctx: &Ctx) {
    let th = ctx.thorough;
    reduce!(ctx, u8, 1..64, (0..128).collect(), 2200);
    // every modulus and factor
    let n = 1u64 << 14;
    ctx.par(if th { "16-bit: every modulus and every factor" } else { "16-bit: every 23rd modulus and every factor" }, if th { n } else { n / 23 }, |i, w| {
        w.func("linear_mul_reduction");
        let y = if th { i as u16 } else { (i * 23 + 1) as u16 };
        if y == 0 {
            return;
        }
        for e in [0, 1, 7, 14, 15, 16, 17, 29, 30, 31, 45, 100, 2100] {
            let p = (0..e).fold(1u64, |a, _| a * 2 % y as u64);
            for x in 0..2 * y {
                w.args([16, x as u64, e as u64, y as u64]);
                let r = x as u64 * p % y as u64;
                let g = linear_mul_reduction(x, e, y);
                if g as u64 != r {
                    w.fail("linear_mul_reduction u16", &format!("0x{x:x} * 2^{e} mod 0x{y:x}"), &format!("0x{r:x}"), &format!("0x{g:x}"));
                }
                w.done(r != 0);
            }
        }
    });
    let few = |b: u32| -> Vec<u128> { alpha::ints_runs(b).into_iter().step_by(if th { 2 } else { 11 }).collect() };
    reduce!(ctx, u16, alpha::ints_runs(14), alpha::ints_runs(15), if th { 300 } else { 100 });
    reduce!(ctx, u32, alpha::ints_runs(30), alpha::ints_runs(31), if th { 300 } else { 100 });
    reduce!(ctx, u64, alpha::ints_runs(62), few(63), if th { 400 } else { 150 });
    reduce!(ctx, u128, alpha::ints_runs(126), few(127), if th { 400 } else { 140 });
    // as far as the exponents of each format go
    reduce!(ctx, u32, alpha::limb_edges(23), alpha::limb_edges(23), 300);
    reduce!(ctx, u64, alpha::limb_edges(53), alpha::limb_edges(54), 2200);
    reduce!(ctx, u128, alpha::limb_edges(113), alpha::limb_edges(114), if th { 32800 } else { 4000 });
}

fn main() {
    run("C48", "exploration", |ctx| {
        ctx.rule("expected results from a schoolbook 512-bit integer, host integer arithmetic or a dividend built from its quotient and remainder; built with the internal assertions of the code; a case counts unless the shift, quotient or residue is zero");
        big(ctx);
        mul(ctx);
        halves!(ctx, u8, i8, u16, i16);
        halves!(ctx, u16, i16, u32, i32);
        halves!(ctx, u32, i32, u64, i64);
        halves!(ctx, u64, i64, u128, i128);
        narrow(ctx);
        modular(ctx);
    });
}
