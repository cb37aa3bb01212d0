//! C52: number helpers of the test infrastructure.
#![feature(f16, f128)]
use libm_test::generate::{edge_cases, spaced};
use libm_test::{CheckBasis, CheckCtx, GeneratorKind, MathOp, linear_ints as public_ints, logspace as public_space};
use ltest::num::{FloatExt, linear_ints, logspace, ulp_between};
use ltest::{Float, f8};
use vh::{Ctx, Worker, run};

/// A format as order numbers: every value has one, both zeros are zero.
macro_rules! layout {
    ($m:ident, $f:ty, $u:ty, $eb:literal, $sb:literal) => {
        mod $m {
            use super::*;
            pub const INF: u128 = ((1 << $eb) - 1) << $sb;
            pub const SIGN: u128 = 1 << ($eb + $sb);
            pub type U = $u;
            pub fn nan(b: u128) -> bool {
                b & !SIGN > INF
            }
            pub fn ord(b: u128) -> i128 {
                if b & SIGN != 0 { -((b & !SIGN) as i128) } else { b as i128 }
            }
            /// Stepping by a number of places; a zero reached from below is negative, from above positive.
            pub fn step(b: u128, n: u128, up: bool) -> u128 {
                if nan(b) || n == 0 {
                    return b;
                }
                let inf = INF as i128;
                let o = if up {
                    if n >= inf.abs_diff(ord(b)) { inf } else { ord(b).wrapping_add(n as i128) }
                } else {
                    if n >= (-inf).abs_diff(ord(b)) { -inf } else { ord(b).wrapping_sub(n as i128) }
                };
                if o == ord(b) {
                    return b;
                }
                if o < 0 || (o == 0 && up) { SIGN | o.unsigned_abs() } else { o as u128 }
            }
            pub fn one(w: &mut Worker, b: u128) {
                let x = <$f as Float>::from_bits(b as U);
                let got = [x.next_up().to_bits() as u128, x.next_down().to_bits() as u128];
                let want = [step(b, 1, true), step(b, 1, false)];
                if got != want {
                    w.fail(concat!("next_up, next_down ", stringify!($f)), &format!("{b:#x}"), &format!("{want:x?}"), &format!("{got:x?}"));
                }
                w.done(!nan(b));
            }
            pub fn many(w: &mut Worker, b: u128, n: u128) {
                let x = <$f as Float>::from_bits(b as U);
                let got = [x.n_up(n as U).to_bits() as u128, x.n_down(n as U).to_bits() as u128];
                let want = [step(b, n, true), step(b, n, false)];
                if got != want {
                    w.fail(concat!("n_up, n_down ", stringify!($f)), &format!("{b:#x} by {n:#x}"), &format!("{want:x?}"), &format!("{got:x?}"));
                }
                w.done(!nan(b) && n != 0);
            }
            pub fn between(w: &mut Worker, a: u128, b: u128) {
                let got = ulp_between(<$f as Float>::from_bits(a as U), <$f as Float>::from_bits(b as U)).map(|d| d as u128);
                let want = if nan(a) || nan(b) { None } else { Some(ord(a).abs_diff(ord(b))) };
                if got != want {
                    w.fail(concat!("ulp_between ", stringify!($f)), &format!("{a:#x} {b:#x}"), &format!("{want:x?}"), &format!("{got:x?}"));
                }
                w.done(want.is_some());
            }
            /// Contents of a range.
            pub fn space(w: &mut Worker, a: u128, b: u128, steps: u128, limit: usize) {
                if nan(a) || nan(b) || ord(a) > ord(b) {
                    return;
                }
                let (s, e) = (<$f as Float>::from_bits(a as U), <$f as Float>::from_bits(b as U));
                let (it, n) = logspace(s, e, steps as U);
                let dist = ord(b).abs_diff(ord(a));
                let gap = (dist / (steps - 1)).max(1);
                let want = (steps - 1).min(dist) + 1;
                let mut ok = n as u128 == want;
                let mut k = 0u128;
                let mut at = a;
                for v in it.take(limit) {
                    ok &= v.to_bits() as u128 == at && k < want;
                    at = step(at, gap, true);
                    k += 1;
                }
                ok &= k == want.min(limit as u128);
                if !ok {
                    w.fail(concat!("logspace ", stringify!($f)), &format!("{a:#x} to {b:#x} in {steps} steps"), &format!("{want} values {gap} apart"), &format!("{k} values, length {n}, ending before {at:#x}"));
                }
                w.done(dist > 0);
            }
        }
    };
}
layout!(m8, f8, u8, 4, 3);
layout!(m16, f16, u16, 5, 10);
layout!(m32, f32, u32, 8, 23);
layout!(m64, f64, u64, 11, 52);
layout!(m128, f128, u128, 15, 112);

/// Values around every class boundary of a format.
fn edges(eb: u32, sb: u32, k: u128) -> Vec<u128> {
    let (inf, sign) = (((1u128 << eb) - 1) << sb, 1u128 << (eb + sb));
    let bias = ((1u128 << (eb - 1)) - 1) << sb;
    let mut v = vec![];
    for c in [0, 1 << sb, bias, inf / 2, inf - (1 << sb), inf, inf | 1 << (sb - 1), sign - 1] {
        for d in 0..=k {
            for x in [c + d, c.wrapping_sub(d)] {
                if x < sign {
                    v.extend([x, x | sign]);
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

macro_rules! wide {
    ($ctx:ident, $m:ident, $eb:literal, $sb:literal, $name:literal) => {{
        let th = $ctx.thorough;
        let e = edges($eb, $sb, if th { 40 } else { 12 });
        $ctx.par(concat!("class edges ", $name), e.len() as u64, |i, w| {
            let a = e[i as usize];
            w.args([a as u64, (a >> 64) as u64]);
            w.func($name);
            $m::one(w, a);
            for &b in &e {
                $m::between(w, a, b);
                $m::many(w, a, b);
                for d in 0..3 {
                    $m::many(w, a, $m::ord(a).abs_diff($m::ord(b)).saturating_sub(d));
                    $m::many(w, a, ($m::ord(a).abs_diff($m::ord(b)) + d).min($m::U::MAX as u128));
                }
            }
            let few = edges($eb, $sb, 1);
            for &b in &few {
                for s in (2..=17).chain([100, 1000, 65535, 1 << ($eb + $sb), $m::U::MAX as u128]).chain((0..4).map(|d| $m::ord(a).abs_diff($m::ord(b)).wrapping_add(d).wrapping_sub(1))) {
                    if s >= 2 && s <= $m::U::MAX as u128 {
                        $m::space(w, a, b, s, 40);
                    }
                }
            }
        });
    }};
}

macro_rules! ints {
    ($ctx:ident, $($t:ident)*) => {$({
        let mut v: Vec<$t> = vec![];
        for c in [0 as $t, $t::MIN, $t::MAX, 1 << ($t::BITS / 2), $t::MAX / 3] {
            for d in 0..4 as $t {
                v.extend([c.wrapping_add(d), c.wrapping_sub(d)]);
            }
        }
        if $t::BITS == 8 {
            v = ($t::MIN..=$t::MAX).collect();
        }
        v.sort();
        v.dedup();
        $ctx.par(concat!("linear_ints ", stringify!($t)), v.len() as u64, |i, w| {
            w.func(concat!("linear_ints ", stringify!($t)));
            let a = v[i as usize];
            for &b in v.iter().filter(|b| **b >= a) {
                let dist = b.abs_diff(a) as u128;
                let mut steps: Vec<u64> = (2..if $t::BITS == 8 { 300 } else { 20 }).collect();
                steps.extend([1000, 65536, u32::MAX as u64, u64::MAX]);
                steps.extend((0..4).filter_map(|d| u64::try_from(dist.wrapping_add(d).wrapping_sub(1)).ok()).filter(|s| *s >= 2));
                for s in steps {
                    let gap = (dist / (s as u128 - 1)).max(1);
                    // The distance has to be a number of the type.
                    let Ok(g) = $t::try_from(gap) else { continue };
                    let want = (s as u128 - 1).min(dist) + 1;
                    // The length has to be a number as well.
                    if want > u64::MAX as u128 {
                        continue;
                    }
                    w.args([a as u64, b as u64, s]);
                    let mut ok = true;
                    for public in [false, true] {
                        let (list, n): (Vec<$t>, u64) = if public {
                            let (it, n) = public_ints(a..=b, s);
                            (it.take(320).collect(), n)
                        } else {
                            let (it, n) = linear_ints(a..=b, s);
                            (it.take(320).collect(), n)
                        };
                        ok &= n as u128 == want && list.len() as u128 == want.min(320);
                        let mut at = a;
                        for x in list {
                            ok &= x == at && x >= a && x <= b;
                            at = at.wrapping_add(g);
                        }
                    }
                    if !ok {
                        w.fail("linear_ints", &format!("{a}..={b} in {s} steps"), &format!("{want} values {gap} apart"), "other contents");
                    }
                    w.done(dist > 0);
                }
            }
        });
    })*};
}

/// Operands as bit patterns.
trait Place {
    fn place(&self) -> Vec<i128>;
}
trait Num: Copy {
    fn num(self) -> i128;
}
macro_rules! nums {
    ($($t:ident)*; $($i:ident)*) => {
        $(impl Num for $t { fn num(self) -> i128 { self.to_bits() as i128 } })*
        $(impl Num for $i { fn num(self) -> i128 { self as i128 } })*
    };
}
nums!(f16 f32 f64 f128; i32 u32 i64 u64 i128 u128 usize);
impl<A: Num> Place for (A,) {
    fn place(&self) -> Vec<i128> {
        vec![self.0.num()]
    }
}
impl<A: Num, B: Num> Place for (A, B) {
    fn place(&self) -> Vec<i128> {
        vec![self.0.num(), self.1.num()]
    }
}
impl<A: Num, B: Num, C: Num> Place for (A, B, C) {
    fn place(&self) -> Vec<i128> {
        vec![self.0.num(), self.1.num(), self.2.num()]
    }
}

fn generators<Op: MathOp>(w: &mut Worker, th: bool)
where
    Op::RustArgs: spaced::SpacedInput<Op> + edge_cases::EdgeCaseInput<Op> + Place,
{
    w.func(Op::NAME);
    let list: Vec<u64> = if th { (4..200).chain([999, 1000, 5000, 100000]).collect() } else { (4..40).chain([64, 100, 999, 5000]).collect() };
    for n in list {
        w.args([n]);
        let mut c = CheckCtx::new(Op::IDENTIFIER, CheckBasis::None, GeneratorKind::Spaced);
        c.override_iterations(n);
        let Ok((mut items, count)) = std::panic::catch_unwind(|| {
            let (it, count) = spaced::get_test_cases::<Op>(&c);
            let v: Vec<Vec<i128>> = it.take(1 << 20).map(|x| x.place()).collect();
            (v, count)
        }) else {
            // Few steps do not suffice for the whole range of an integer type.
            if n >= 64 {
                w.fail(Op::NAME, &format!("spaced inputs, {n} wanted"), "no panic", "panic");
            }
            continue;
        };
        let n_items = items.len();
        items.sort();
        items.dedup();
        if n_items as u64 != count || n_items != items.len() {
            w.fail(Op::NAME, &format!("spaced inputs, {n} wanted"), &format!("{count} different values"), &format!("{n_items} values, {} different", items.len()));
        }
        w.done(true);
        w.beat();
    }
    let c = CheckCtx::new(Op::IDENTIFIER, CheckBasis::None, GeneratorKind::EdgeCases);
    let (it, count) = edge_cases::get_test_cases::<Op>(&c);
    let n = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.count() as u64));
    if n.as_ref().ok() != Some(&count) {
        w.fail(Op::NAME, "edge cases", &format!("{count} values"), &format!("{:?}", n.ok()));
    }
    w.done(true);
}

fn small(ctx: &Ctx) {
    ctx.par("8-bit format, all values and steps", 256, |a, w| {
        let a = a as u128;
        w.args([a as u64]);
        w.func("f8");
        m8::one(w, a);
        for n in 0..256 {
            m8::many(w, a, n);
            m8::between(w, a, n);
        }
    });
    ctx.par("8-bit format, all ranges", 256 * 256, |i, w| {
        let (a, b) = (i as u128 >> 8, i as u128 & 255);
        w.args([a as u64, b as u64]);
        w.func("logspace f8");
        for s in 2..256 {
            m8::space(w, a, b, s, 1000);
        }
    });
    ctx.seq("8-bit format, list and comparisons", |w| {
        w.func("f8");
        let all: Vec<i128> = f8::ALL.iter().map(|v| m8::ord(v.to_bits() as u128)).collect();
        let bits: Vec<u8> = f8::ALL.iter().map(|v| v.to_bits()).collect();
        let mut want: Vec<u8> = (0..=255u8).filter(|b| b & 0x7f < 0x78).collect();
        want.sort_by_key(|b| (m8::ord(*b as u128), b & 0x80 == 0));
        if bits != want || all.len() != f8::ALL_LEN {
            w.fail("f8::ALL", "", &format!("{want:x?}"), &format!("{bits:x?}"));
        }
        for a in 0..=255u8 {
            for b in 0..=255u8 {
                let (x, y) = (f8::from_bits(a), f8::from_bits(b));
                let want = if m8::nan(a as u128) || m8::nan(b as u128) { None } else { Some(m8::ord(a as u128).cmp(&m8::ord(b as u128))) };
                if x.partial_cmp(&y) != want || (x == y) != (want == Some(std::cmp::Ordering::Equal)) {
                    w.fail("f8 comparison", &format!("{a:#x} {b:#x}"), &format!("{want:?}"), &format!("{:?} {}", x.partial_cmp(&y), x == y));
                }
                if (-x).to_bits() != a ^ 0x80 || x.copysign(y).to_bits() != a & 0x7f | b & 0x80 || x.abs().to_bits() != a & 0x7f {
                    w.fail("f8 signs", &format!("{a:#x} {b:#x}"), "", "");
                }
                w.done(want.is_some());
            }
        }
    });
}

fn main() {
    // The generators report every call.
    unsafe extern "C" {
        fn open(p: *const std::ffi::c_char, f: i32, ...) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
    }
    unsafe { dup2(open(c"/dev/null".as_ptr(), 1), 2) };
    run("C52", "exploration", |ctx| {
        ctx.rule("values as order numbers: stepping by n adds n and stops at the infinities, the distance is the difference, ranges hold the stated number of equally spaced values from the first bound on; nontrivial = operands that are numbers and a distance that is not zero");
        ctx.assume("linear_ints: the spacing has to be a number of the integer type, at least two steps");
        small(ctx);
        let th = ctx.thorough;
        ctx.par("binary16, all values and structured steps", 65536, |a, w| {
            w.args([a]);
            w.func("f16");
            let a = a as u128;
            m16::one(w, a);
            let stride = if th { 1 } else { 61 };
            for n in (0..64).chain((64..65536).step_by(stride)).chain(0x7bf0..0x7c10).chain(0xf7f0..0xf810).chain(0xfff0..0x10000) {
                m16::many(w, a, n);
                m16::between(w, a, n);
            }
        });
        ctx.par("binary16, ranges", 65536, |a, w| {
            w.args([a]);
            w.func("logspace f16");
            for b in edges(5, 10, 2) {
                for s in (2..10).chain([64, 1000, 65535]) {
                    m16::space(w, a as u128, b, s, 20);
                }
            }
        });
        ctx.par("binary32, all values", if th { 65536 } else { 4096 }, |i, w| {
            w.args([i]);
            w.func("f32");
            for k in 0..65536 {
                let b = if th { (i << 16 | k) as u128 } else { (i << 20 | (k & 0xff) | (k >> 8) << 12) as u128 };
                m32::one(w, b);
            }
        });
        wide!(ctx, m16, 5, 10, "f16");
        wide!(ctx, m32, 8, 23, "f32");
        wide!(ctx, m64, 11, 52, "f64");
        wide!(ctx, m128, 15, 112, "f128");
        ints!(ctx, i8 u8 i16 u16 i32 u32 i64 u64 i128 u128);
        macro_rules! list {
            (fn_name: $n:ident, attrs: [$($a:meta),*], extra: $v:ident,) => {
                $v.push(generators::<libm_test::op::$n::Routine> as fn(&mut Worker, bool));
            };
        }
        let mut ops = vec![];
        libm_macros::for_each_function! { callback: list, extra: ops, }
        let hook = std::panic::take_hook();
        ctx.par("input generators of every function", ops.len() as u64, |i, w| ops[i as usize](w, th));
        std::panic::set_hook(hook);
        // The published functions are the same.
        ctx.seq("published range", |w| {
            w.func("logspace");
            for a in [-5.0f32, -0.0, 0.0, 1.5] {
                for s in 2..50 {
                    let (x, n) = public_space(a, 2.0, s);
                    let (y, m) = logspace(a, 2.0, s);
                    if n != m || !x.map(|v| v.to_bits()).eq(y.map(|v| v.to_bits())) {
                        w.fail("logspace", &format!("{a} to 2 in {s} steps"), &format!("{m}"), &format!("{n}"));
                    }
                    w.done(true);
                }
            }
        });
    });
}
