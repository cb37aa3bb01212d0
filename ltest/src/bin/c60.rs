//! C60: what the input generators of the test infrastructure yield for every function.
#![feature(f16, f128)]
use libm_test::generate::{edge_cases, random, spaced};
use libm_test::{CheckBasis, CheckCtx, GeneratorKind, MathOp};
use std::collections::HashSet;
use vh::{Worker, run};

/// Type of an operand.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ty {
    /// Exponent and significand bits.
    F(u32, u32),
    /// Width, signed.
    I(u32, bool),
}
use Ty::*;

trait Num: Copy {
    const TY: Ty;
    fn bits(self) -> u128;
}
macro_rules! nums {
    ($($f:ident $e:literal $s:literal)*; $($i:ident $u:ident $g:literal)*) => {
        $(impl Num for $f { const TY: Ty = F($e, $s); fn bits(self) -> u128 { self.to_bits() as u128 } })*
        $(impl Num for $i { const TY: Ty = I($u::BITS, $g); fn bits(self) -> u128 { self as $u as u128 } })*
    };
}
nums!(f16 5 10 f32 8 23 f64 11 52 f128 15 112; i32 u32 true u32 u32 false i64 u64 true u64 u64 false i128 u128 true u128 u128 false);

trait Args: Copy {
    const TYS: &'static [Ty];
    fn all(&self) -> [u128; 3];
}
impl<A: Num> Args for (A,) {
    const TYS: &'static [Ty] = &[A::TY];
    fn all(&self) -> [u128; 3] {
        [self.0.bits(), 0, 0]
    }
}
impl<A: Num, B: Num> Args for (A, B) {
    const TYS: &'static [Ty] = &[A::TY, B::TY];
    fn all(&self) -> [u128; 3] {
        [self.0.bits(), self.1.bits(), 0]
    }
}
impl<A: Num, B: Num, C: Num> Args for (A, B, C) {
    const TYS: &'static [Ty] = &[A::TY, B::TY, C::TY];
    fn all(&self) -> [u128; 3] {
        [self.0.bits(), self.1.bits(), self.2.bits()]
    }
}

fn inf(e: u32, s: u32) -> u128 {
    ((1 << e) - 1) << s
}
/// Place of a pattern among the values in order; both zeros are at zero, NaN has none.
fn place(e: u32, s: u32, b: u128) -> Option<i128> {
    let sign = 1u128 << (e + s);
    let a = b & (sign - 1);
    if a > inf(e, s) {
        None
    } else if b & sign != 0 {
        Some(-(a as i128))
    } else {
        Some(a as i128)
    }
}

/// The places of the domain of a function's argument.
fn domain(base: &str, e: u32, s: u32) -> (i128, i128) {
    let top = inf(e, s) as i128;
    let one = (((1i128 << (e - 1)) - 1) as i128) << s;
    match base {
        "acos" | "asin" => (-one, one),
        "acosh" => (one, top),
        "atanh" => (-one + 1, one - 1),
        "log" | "log2" | "log10" => (1, top),
        "log1p" => (-one + 1, top),
        "sqrt" => (0, top),
        _ => (-top, top),
    }
}

/// Width the shift amount has to stay below.
fn shift(base: &str, tys: &[Ty], arg: usize) -> Option<u32> {
    match (base, tys[0]) {
        ("ashl" | "ashr" | "lshr", I(w, _)) if arg == 1 => Some(w),
        _ => None,
    }
}

/// The values an edge case list has to hold for one argument.
fn wanted(base: &str, tys: &[Ty], arg: usize, near: i128) -> Vec<u128> {
    let mut v = Vec::new();
    match tys[arg] {
        F(e, s) => {
            let sign = 1u128 << (e + s);
            let top = inf(e, s) as i128;
            let one = (((1i128 << (e - 1)) - 1) as i128) << s;
            let (lo, hi) = domain(base, e, s);
            let sub = (1i128 << s) - 1;
            let mut at: Vec<i128> = vec![0, one, -one, top, -top, lo, hi, sub, -sub, sub + 1, -sub - 1];
            if base == "tgamma" {
                // The poles.
                for k in 1..4i128 {
                    let x = [one, one + (1 << s), one + (1 << s) + (1 << (s - 1))][k as usize - 1];
                    at.push(-x);
                }
            }
            for a in at {
                for d in -near..=near {
                    let p = a + d;
                    if p.abs() <= top {
                        v.push(if p < 0 { sign | p.unsigned_abs() } else { p as u128 });
                    }
                }
            }
            v.push(sign);
            v.push(inf(e, s) | 1 << (s - 1));
            v.push(sign | inf(e, s) | 1 << (s - 1));
        }
        I(w, signed) => {
            let mask = !0u128 >> (128 - w);
            let ends: &[u128] = if signed { &[0, mask >> 1, (mask >> 1) + 1] } else { &[0, mask] };
            for a in ends {
                for d in -near..=near {
                    let x = a.wrapping_add(d as u128) & mask;
                    // Nothing wraps.
                    let wrapped = if signed { (*a == mask >> 1 && d > 0) || (*a == (mask >> 1) + 1 && d < 0) } else { (*a == 0 && d < 0) || (*a == mask && d > 0) };
                    if !wrapped {
                        v.push(x);
                    }
                }
            }
            if let Some(n) = shift(base, tys, arg) {
                v.extend((n as i128 - near..n as i128).map(|x| x as u128));
                v.retain(|x| *x < n as u128);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn one<Op: MathOp>(w: &mut Worker, th: bool)
where
    Op::RustArgs: spaced::SpacedInput<Op> + edge_cases::EdgeCaseInput<Op> + random::RandomInput + Args,
{
    let name = Op::NAME;
    let base = Op::BASE_NAME.as_str();
    w.func(name);
    let tys = <Op::RustArgs as Args>::TYS;
    let n = tys.len();

    // Edge cases: each argument's wanted values, and every combination of the sparse ones.
    let c = CheckCtx::new(Op::IDENTIFIER, CheckBasis::None, GeneratorKind::EdgeCases);
    let (it, count) = edge_cases::get_test_cases::<Op>(&c);
    let near: Vec<HashSet<u128>> = (0..n).map(|i| wanted(base, tys, i, 4).into_iter().collect()).collect();
    let few: Vec<HashSet<u128>> = (0..n).map(|i| wanted(base, tys, i, 0).into_iter().collect()).collect();
    let mut seen: Vec<HashSet<u128>> = vec![HashSet::new(); n];
    let mut combos: HashSet<[u128; 3]> = HashSet::new();
    let mut got = 0u64;
    let mut last = [None; 3];
    let mut is_few = [false; 3];
    for x in it {
        got += 1;
        if got % (1 << 16) == 0 {
            w.beat();
        }
        let a = x.all();
        for i in 0..n {
            if last[i] != Some(a[i]) {
                last[i] = Some(a[i]);
                is_few[i] = few[i].contains(&a[i]);
                if got < 1 << 20 || i == 0 {
                    seen[i].insert(a[i]);
                }
                if let Some(m) = shift(base, tys, i) {
                    if a[i] >= m as u128 {
                        w.fail(name, &format!("edge cases, argument {i}"), &format!("below {m}"), &format!("{}", a[i]));
                    }
                }
            }
        }
        if is_few[..n].iter().all(|x| *x) {
            combos.insert(a);
        }
    }
    if got != count {
        w.fail(name, "edge cases", &format!("{count} inputs"), &format!("{got} inputs"));
    }
    for i in 0..n {
        for v in &near[i] {
            if !seen[i].contains(v) {
                let limit = if i == 0 && n == 2 { shift(base, tys, 1) } else { None };
                let above = match tys[i] {
                    I(wd, true) => limit.is_some_and(|m| *v >> (wd - 1) == 0 && *v >= m as u128),
                    _ => limit.is_some_and(|m| *v >= m as u128),
                };
                w.fail(name, &format!("edge cases, argument {i}{}", if above { ", value not below the shift limit" } else { "" }), &format!("{v:#x} among them"), "missing");
            }
            w.done(true);
        }
    }
    let all: usize = (0..n).map(|i| few[i].intersection(&seen[i]).count()).product();
    if combos.len() != all {
        w.fail(name, "edge cases, combinations of special values", &format!("{all}"), &format!("{}", combos.len()));
    }
    w.done(n > 1);

    // Spaced inputs: inside the domain, from its start to within a step of its end.
    for steps in if th { vec![64, 100, 1000, 4096, 70000, 1 << 20] } else { vec![64, 1000, 70000] } {
        w.args([steps]);
        let mut c = CheckCtx::new(Op::IDENTIFIER, CheckBasis::None, GeneratorKind::Spaced);
        c.override_iterations(steps);
        let (it, _) = spaced::get_test_cases::<Op>(&c);
        let list: Vec<[u128; 3]> = it.take(1 << 21).map(|x| x.all()).collect();
        w.beat();
        for i in 0..n {
            let mut p: Vec<i128> = Vec::new();
            let mut prev = None;
            let (lo, hi, whole) = match tys[i] {
                F(e, s) => {
                    for a in &list {
                        if prev != Some(a[i]) {
                            prev = Some(a[i]);
                            // All patterns, NaN included, when they are few enough.
                            p.extend(place(e, s, a[i]));
                        }
                    }
                    let (lo, hi) = domain(base, e, s);
                    let whole = n == 1 && 1 + e + s < 64 && 1u64 << (1 + e + s) <= steps;
                    if whole { (-(inf(e, s) as i128), inf(e, s) as i128, true) } else { (lo, hi, false) }
                }
                I(wd, signed) => {
                    for a in &list {
                        if prev != Some(a[i]) {
                            prev = Some(a[i]);
                            p.push(if signed { (a[i] << (128 - wd)) as i128 >> (128 - wd) } else { (a[i] >> (wd == 128) as u32) as i128 });
                        }
                    }
                    let half = 1i128 << (wd - 2);
                    match shift(base, tys, i) {
                        Some(m) => (0, m as i128 - 1, false),
                        None if matches!(base, "jn" | "yn") => (-0xff, 0xffff, false),
                        None if signed => (-half - half, half - 1 + half, false),
                        None if wd == 128 => (0, i128::MAX, false),
                        None => (0, (!0u128 >> (128 - wd)) as i128, false),
                    }
                }
            };
            p.sort();
            p.dedup();
            let k = p.len() as u128;
            let span = hi.abs_diff(lo);
            if p.is_empty() || (p[0] != lo || p[p.len() - 1] > hi) {
                w.fail(name, &format!("spaced inputs, argument {i}, {steps} steps"), &format!("from {lo} to {hi}"), &format!("from {:?} to {:?}", p.first(), p.last()));
            } else if !whole {
                // The last one is closer to the end than the number of steps explains.
                let gap = if k > 1 { p[1].abs_diff(p[0]) } else { span };
                if hi.abs_diff(p[p.len() - 1]) > gap.max(k) {
                    w.fail(name, &format!("spaced inputs, argument {i}, {steps} steps"), &format!("to {hi}"), &format!("to {}", p[p.len() - 1]));
                }
            } else if k != span + 1 {
                w.fail(name, &format!("spaced inputs, argument {i}, {steps} steps"), "all values", &format!("{k} values"));
            }
            w.done(true);
        }
    }

    // Random inputs: the announced number, the same ones each time, in range.
    for steps in if th { vec![1, 2, 10, 1000, 50000] } else { vec![1, 10, 5000] } {
        w.args([steps]);
        let mut c = CheckCtx::new(Op::IDENTIFIER, CheckBasis::None, GeneratorKind::Random);
        c.override_iterations(steps);
        let (it, count) = random::get_test_cases::<Op::RustArgs>(&c);
        let (jt, _) = random::get_test_cases::<Op::RustArgs>(&c);
        let x: Vec<[u128; 3]> = it.take(1 << 21).map(|x| x.all()).collect();
        let y: Vec<[u128; 3]> = jt.take(1 << 21).map(|x| x.all()).collect();
        if x.len() as u64 != count || x != y || count < steps {
            w.fail(name, &format!("random inputs, {steps} steps"), &format!("{count} inputs, the same each time"), &format!("{} and {} inputs", x.len(), y.len()));
        }
        for a in &x {
            for i in 0..n {
                let bad = match (shift(base, tys, i), base, tys[i]) {
                    (Some(m), _, _) => a[i] >= m as u128,
                    (None, "jn" | "yn", I(..)) => !(-0xff..=0xffff).contains(&(a[i] as u32 as i32)),
                    _ => false,
                };
                if bad {
                    w.fail(name, &format!("random inputs, argument {i}"), "in range", &format!("{:#x}", a[i]));
                }
            }
        }
        w.done(true);
        w.beat();
    }
}

fn main() {
    // The generators report every call.
    unsafe extern "C" {
        fn open(p: *const std::ffi::c_char, f: i32, ...) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
    }
    unsafe { dup2(open(c"/dev/null".as_ptr(), 1), 2) };
    run("C60", "exploration", |ctx| {
        ctx.rule("every function x edge-case list, evenly spaced lists of the tier's sizes, random lists of the tier's sizes; nontrivial = all");
        macro_rules! list {
            (fn_name: $n:ident, attrs: [$($a:meta),*], extra: $v:ident,) => {
                $v.push(one::<libm_test::op::$n::Routine> as fn(&mut Worker, bool));
            };
        }
        let mut ops = vec![];
        libm_macros::for_each_function! { callback: list, extra: ops, }
        let th = ctx.thorough;
        ctx.par("input generators of every function", ops.len() as u64, |i, w| ops[i as usize](w, th));
    });
}
