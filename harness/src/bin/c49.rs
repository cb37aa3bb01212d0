//! C49: status returned next to results.
#![feature(f16, f128)]
use libm::generic;
use libm::support::{Float, FpResult, Round, Status};
use vh::alpha::*;
use vh::fl::*;
use vh::lm::{Mode, to_int};
use vh::rf::*;
use vh::{Ctx, Worker, run};

type One = fn(u128) -> (u128, Status);
type Three = fn(u128, u128, u128) -> (u128, Status);

macro_rules! one {
    ($t:ty, $u:ty, $f:expr) => {
        |x: u128| {
            let FpResult { val, status } = $f(<$t>::from_bits(x as $u));
            (val.to_bits() as u128, status)
        }
    };
}
macro_rules! three {
    ($t:ty, $u:ty, $f:expr) => {
        |x: u128, y: u128, z: u128| {
            let FpResult { val, status } = $f(<$t>::from_bits(x as $u), <$t>::from_bits(y as $u), <$t>::from_bits(z as $u), Round::Nearest);
            (val.to_bits() as u128, status)
        }
    };
}

fn snan(f: &Fmt, x: u128) -> bool {
    f.is_nan(x) && x >> (f.sb - 1) & 1 == 0
}

fn rounding(ctx: &Ctx, name: &'static str, f: Fmt, imp: One, mode: Mode) {
    let case = move |x: u128| {
        let r = to_int(&f, x, mode);
        let (g, st) = imp(x);
        let inexact = !f.is_nan(x) && r != x;
        let e = if inexact { Status::INEXACT } else { Status::OK };
        // a signaling NaN may or may not be reported
        if !same(&f, g, r) || st != e && !(snan(&f, x) && st == Status::INVALID) {
            return Err((format!("{} {e:?}", hex(&f, r)), format!("{} {st:?}", hex(&f, g))));
        }
        Ok(inexact)
    };
    Un { name, f, case: &case }.plan(ctx, 1);
}

fn root(ctx: &Ctx, name: &'static str, f: Fmt, imp: One) {
    let case = move |x: u128| {
        let (g, st) = imp(x);
        let neg = f.sign(x) && !f.is_nan(x) && x != f.zero(true);
        let e = if neg { Status::INVALID } else { Status::OK };
        let bad = neg && !f.is_nan(g) || !neg && !f.is_nan(x) && (f.is_nan(g) || f.is_inf(g) != f.is_inf(x) || (g == 0) != (x == 0));
        if bad || st != e && !(f.is_nan(x) && st == Status::INVALID) && !(!neg && st == Status::INEXACT) {
            return Err((format!("{e:?}"), format!("{} {st:?}", hex(&f, g))));
        }
        Ok(neg)
    };
    Un { name, f, case: &case }.plan(ctx, 3);
}

struct Fma {
    name: &'static str,
    f: Fmt,
    imp: Three,
    /// the top subnormal binade is reported exactly
    top: bool,
}

impl Fma {
    fn case(&self, w: &mut Worker, x: u128, y: u128, z: u128) {
        let f = &self.f;
        w.args([x as u64, (x >> 64) as u64, y as u64, (y >> 64) as u64, z as u64, (z >> 64) as u64]);
        let (r, inexact) = f.fma(x, y, z);
        let (g, st) = (self.imp)(x, y, z);
        // smallest normal exponent
        let lim = 1 - f.bias();
        let top = f.fma_top(x, y, z);
        let tiny = top.is_some_and(|t| t < lim);
        let mut e = None;
        if st.underflow() && !(tiny && inexact) {
            e = Some("no underflow: the result is exact or at least the smallest normal number");
        } else if self.top && z & !(1 << (f.bits() - 1)) != 0 && top == Some(lim - 1) && inexact && !st.underflow() {
            e = Some("underflow: inexact result just below the smallest normal number");
        } else if st.overflow() && !f.is_inf(r) {
            e = Some("no overflow");
        } else if st.inexact() && !inexact {
            e = Some("not inexact");
        } else if st == Status::INVALID && !f.is_nan(r) || st == Status::DIVIDE_BY_ZERO {
            e = Some("a valid operation");
        } else if !same(f, g, r) {
            e = Some("the correctly rounded result");
        }
        if let Some(e) = e {
            w.fail(self.name, &format!("{}, {}, {}", hex(f, x), hex(f, y), hex(f, z)), &format!("{} {e}", hex(f, r)), &format!("{} {st:?}", hex(f, g)));
        }
        w.done(tiny && inexact);
    }

    fn run(&self, ctx: &Ctx) {
        let f = self.f;
        let th = ctx.thorough;
        let (b, p) = (f.bias(), f.sb as i32 + 1);
        let m = f.sigmask();
        let h = f.sb / 2;
        let mut s = vec![0, m, 1, 1 << h, 1 << (f.sb - 1), m - 1, m / 3, (1 << h) - 1];
        if th {
            s.extend([2, 3, m ^ 1 << (f.sb - 1), m & !((1 << h) - 1), 5, m - 2]);
        }
        // products from far below the smallest subnormal to above the smallest normal number
        let mut e = vec![];
        for tg in -p - 4..=3 {
            for ex in [b / 2, 1, 0, b + p.min(b - 1), tg + b - b / 4] {
                let ey = tg + b - ex;
                if ey >= 0 && ey < f.emax() as i32 && ex >= 0 && ex < f.emax() as i32 {
                    e.push((ex as u32, ey as u32));
                }
            }
        }
        e.sort();
        e.dedup();
        let mut ez: Vec<u32> = (0..=p as u32 + 3).filter(|&x| th || x < 4 || x > p as u32 - 2 || x % 5 == 0).filter(|&x| x < f.emax()).collect();
        ez.extend([b as u32, f.emax() - 1]);
        ctx.par(&format!("{} around the smallest normal number", self.name), e.len() as u64, |i, w| {
            w.func(self.name);
            let (ex, ey) = e[i as usize];
            for &ez in &ez {
                for &mx in &s {
                    for &my in &s {
                        for &mz in &s {
                            for g in 0..4 {
                                self.case(w, f.make(g & 1 == 1, ex, mx), f.make(false, ey, my), f.make(g & 2 == 2, ez, mz));
                            }
                        }
                    }
                }
            }
        });
        // products just below a power of two and their neighbourhood, placed at the limit
        let one = f.one();
        let d: Vec<u128> = (0..if th { 200 } else { 40 }).collect();
        ctx.par(&format!("{} beside the smallest normal number", self.name), d.len() as u64, |i, w| {
            w.func(self.name);
            for &k in &d {
                for sc in -2..=2 {
                    // (1 + i ulp) * (2 - k ulp) * 2^scale, and (1 - i ulp)(1 + k ulp)
                    let base = 1 - b + sc;
                    for (x, y) in [(one + d[i as usize], (one + (1 << f.sb)).saturating_sub(k)), (one - d[i as usize], one + k), (one - d[i as usize], one - k), (one + d[i as usize], one + k)] {
                        // scale y by moving its exponent
                        let ey = f.exp_field(y) as i32 + base;
                        let ys = if ey >= 1 { f.make(false, ey as u32, y & m) } else { continue };
                        for z in [0, 1, 2, 3, 1 << (f.sb - 1), 1 << f.sb, (1 << f.sb) - 1, (1 << f.sb) + 1] {
                            for g in 0..4 {
                                self.case(w, x | (g & 1) << (f.bits() - 1), ys, z | (g >> 1) << (f.bits() - 1));
                            }
                        }
                    }
                }
            }
        });
        let v: Vec<u128> = [0, 1, b as u32 - 1, b as u32, f.emax() - 1, f.emax()].into_iter().flat_map(|e| [0, 1, m, 1 << (f.sb - 1)].map(|s| f.make(false, e, s))).flat_map(|x| [x, x | 1 << (f.bits() - 1)]).collect();
        ctx.par(&format!("{} specials", self.name), v.len() as u64, |i, w| {
            w.func(self.name);
            for &y in &v {
                for &z in &v {
                    self.case(w, v[i as usize], y, z);
                }
            }
        });
    }
}

/// Flag setters and readers over every reachable combination.
fn flags(ctx: &Ctx) {
    ctx.seq("setting and reading flags", |w| {
        w.func("Status");
        let named = [(Status::OK, 0), (Status::INVALID, 1), (Status::DIVIDE_BY_ZERO, 2), (Status::OVERFLOW, 4), (Status::UNDERFLOW, 8), (Status::INEXACT, 16)];
        let names = ["INVALID", "DIVIDE_BY_ZERO", "OVERFLOW", "UNDERFLOW", "INEXACT"];
        for (a, av) in named {
            for (b, bv) in named {
                w.args([av, bv]);
                if (a == b) != (av == bv) {
                    w.fail("Status ==", &format!("{a:?} {b:?}"), &format!("{}", av == bv), &format!("{}", a == b));
                }
                w.done(true);
            }
            // every sequence of up to three assignments
            for seq in 0..4u64.pow(3) + 4u64.pow(2) + 5 {
                let n = if seq < 64 { 3 } else if seq < 80 { 2 } else if seq < 84 { 1 } else { 0 };
                let (mut s, mut v) = (a, av);
                let mut q = seq;
                for _ in 0..n {
                    let on = q & 1 == 1;
                    let m = if q & 2 == 0 { 8 } else { 16 };
                    if m == 8 {
                        s.set_underflow(on)
                    } else {
                        s.set_inexact(on)
                    }
                    v = if on { v | m } else { v & !m };
                    q >>= 2;
                }
                w.args([av, seq]);
                let text = (0..5).filter(|i| v >> i & 1 == 1).map(|i| names[i]).collect::<Vec<_>>().join(" | ");
                let text = format!("Status({})", if v == 0 { "OK" } else { &text });
                if (s.underflow(), s.inexact(), s.overflow()) != (v & 8 != 0, v & 16 != 0, v & 4 != 0) || format!("{s:?}") != text {
                    w.fail("Status", &format!("{a:?} sequence {seq:#x} of {n}"), &text, &format!("{s:?}"));
                }
                w.done(true);
            }
        }
    });
}

fn main() {
    run("C49", "exploration", |ctx| {
        ctx.rule("rounding functions: every operand set of C27, inexact exactly when the exact rounding differs from the operand; square root: invalid exactly below zero; fused multiply-add: operands around the smallest normal number, underflow judged on the exact unrounded result; nontrivial = a case in which a flag is due");
        ctx.assume("only rounding to nearest is supported by the status-reporting functions; overflow, invalid and inexact of the fused multiply-add are not reported by the library and not required");
        macro_rules! r {
            ($n:ident, $m:ident) => {
                rounding(ctx, concat!(stringify!($n), "<f16>"), F16, one!(f16, u16, generic::$n), Mode::$m);
                rounding(ctx, concat!(stringify!($n), "<f32>"), F32, one!(f32, u32, generic::$n), Mode::$m);
                rounding(ctx, concat!(stringify!($n), "<f64>"), F64, one!(f64, u64, generic::$n), Mode::$m);
                rounding(ctx, concat!(stringify!($n), "<f128>"), F128, one!(f128, u128, generic::$n), Mode::$m);
            };
        }
        r!(ceil_status, Ceil);
        r!(floor_status, Floor);
        r!(trunc_status, Trunc);
        r!(rint_status, Even);
        root(ctx, "sqrt_round<f16>", F16, one!(f16, u16, |x| generic::sqrt_round(x, Round::Nearest)));
        root(ctx, "sqrt_round<f32>", F32, one!(f32, u32, |x| generic::sqrt_round(x, Round::Nearest)));
        root(ctx, "sqrt_round<f64>", F64, one!(f64, u64, |x| generic::sqrt_round(x, Round::Nearest)));
        root(ctx, "sqrt_round<f128>", F128, one!(f128, u128, |x| generic::sqrt_round(x, Round::Nearest)));
        for t in [
            Fma { name: "fma_round<f64>", f: F64, imp: three!(f64, u64, generic::fma_round), top: true },
            Fma { name: "fma_round<f128>", f: F128, imp: three!(f128, u128, generic::fma_round), top: true },
            Fma { name: "fma_wide_round<f16>", f: F16, imp: three!(f16, u16, generic::fma_wide_round), top: false },
            Fma { name: "fma_wide_round<f32>", f: F32, imp: three!(f32, u32, generic::fma_wide_round), top: false },
        ] {
            t.run(ctx);
        }
        flags(ctx);
    });
}
