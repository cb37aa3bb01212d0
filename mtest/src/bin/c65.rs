//! C65: the two sides the test crate compares: multiple-precision results and uniform wrappers.
#![feature(f16, f128)]
use libm_test::MathOp;
use libm_test::mpfloat::MpOp;
use std::collections::HashMap;
use vh::alpha::*;
use vh::hp::{Fun1, Fun2, FunN};
use vh::lm::{Mode, to_int};
use vh::rf::{F16, F32, F64, F128, Fmt, U, V};
use vh::{Ctx, Worker, run};

/// Type of an operand or a result.
#[derive(Clone, Copy)]
enum Ty {
    F(Fmt),
    /// Width, signed.
    I(u32, bool),
}
use Ty::*;

trait Num: Copy {
    const TY: Ty;
    fn of(b: u128) -> Self;
    fn bits(self) -> u128;
}
macro_rules! nums {
    ($($f:ident $u:ident $fmt:ident)*; $($i:ident $v:ident $g:literal)*) => {
        $(impl Num for $f {
            const TY: Ty = F($fmt);
            fn of(b: u128) -> $f { $f::from_bits(b as $u) }
            fn bits(self) -> u128 { self.to_bits() as u128 }
        })*
        $(impl Num for $i {
            const TY: Ty = I($v::BITS, $g);
            fn of(b: u128) -> $i { b as $i }
            fn bits(self) -> u128 { self as $v as u128 }
        })*
    };
}
nums!(f16 u16 F16 f32 u32 F32 f64 u64 F64 f128 u128 F128; i32 u32 true u32 u32 false i64 u64 true u64 u64 false i128 u128 true u128 u128 false usize usize false);
impl Num for bool {
    const TY: Ty = I(1, false);
    fn of(b: u128) -> bool {
        b != 0
    }
    fn bits(self) -> u128 {
        self as u128
    }
}

trait Args: Copy {
    const TYS: &'static [Ty];
    fn of(a: [u128; 3]) -> Self;
}
impl<A: Num> Args for (A,) {
    const TYS: &'static [Ty] = &[A::TY];
    fn of(a: [u128; 3]) -> Self {
        (A::of(a[0]),)
    }
}
impl<A: Num, B: Num> Args for (A, B) {
    const TYS: &'static [Ty] = &[A::TY, B::TY];
    fn of(a: [u128; 3]) -> Self {
        (A::of(a[0]), B::of(a[1]))
    }
}
impl<A: Num, B: Num, C: Num> Args for (A, B, C) {
    const TYS: &'static [Ty] = &[A::TY, B::TY, C::TY];
    fn of(a: [u128; 3]) -> Self {
        (A::of(a[0]), B::of(a[1]), C::of(a[2]))
    }
}

trait Rets {
    const TYS: &'static [Ty];
    fn all(self) -> [u128; 2];
}
macro_rules! rets {
    ($($t:ident)*) => {$(impl Rets for $t {
        const TYS: &'static [Ty] = &[<$t as Num>::TY];
        fn all(self) -> [u128; 2] { [self.bits(), 0] }
    })*};
}
rets!(f16 f32 f64 f128 i32 u32 i64 u64 i128 u128 usize bool);
impl<A: Num, B: Num> Rets for (A, B) {
    const TYS: &'static [Ty] = &[A::TY, B::TY];
    fn all(self) -> [u128; 2] {
        [self.0.bits(), self.1.bits()]
    }
}

/// Significand and exponent of a finite non-zero magnitude.
fn parts(f: &Fmt, x: u128) -> (u128, i32) {
    match f.unpack(x) {
        V::Fin(_, m, e) => (m, e),
        _ => (0, 0),
    }
}

/// Remainder of truncating division of magnitudes in units of the smaller exponent, the divisor
/// in these units, the low 31 bits of the quotient, and the unit. None: |x| below half |y|.
fn divide(f: &Fmt, x: u128, y: u128) -> Option<(u128, u128, u64, i32)> {
    let ((mx, ex), (my, ey)) = (parts(f, x), parts(f, y));
    if ex < ey {
        let d = (ey - ex) as u32;
        if d > 126 - f.sb {
            return None;
        }
        let y = my << d;
        return Some((mx % y, y, (mx / y) as u64 & 0x7fff_ffff, ex));
    }
    let (mut r, mut q) = (mx % my, (mx / my) as u64);
    for _ in 0..ex - ey {
        r <<= 1;
        q <<= 1;
        if r >= my {
            r -= my;
            q |= 1;
        }
    }
    Some((r, my, q & 0x7fff_ffff, ey))
}

fn fmod(f: &Fmt, x: u128, y: u128) -> u128 {
    let (ax, ay) = (x & f.absmask(), y & f.absmask());
    if ax >= f.inf(false) || ay > f.inf(false) || ay == 0 {
        return f.nan();
    }
    if ax < ay {
        return x;
    }
    let (r, _, _, e) = divide(f, ax, ay).unwrap();
    if r == 0 { f.zero(f.sign(x)) } else { f.round128(f.sign(x), r, e) }
}

/// Remainder to nearest and the signed low bits of the quotient.
fn remquo(f: &Fmt, x: u128, y: u128) -> (u128, u128) {
    let (ax, ay) = (x & f.absmask(), y & f.absmask());
    if ax >= f.inf(false) || ay > f.inf(false) || ay == 0 {
        return (f.nan(), 0);
    }
    if ax == 0 || ay == f.inf(false) {
        return (x, 0);
    }
    let (s, neg) = (f.sign(x), f.sign(x) != f.sign(y));
    let Some((r, y, mut q, e)) = divide(f, ax, ay) else { return (x, 0) };
    let res = if 2 * r > y || 2 * r == y && q & 1 == 1 {
        q = q + 1 & 0x7fff_ffff;
        f.round128(!s, y - r, e)
    } else if r == 0 {
        f.zero(s)
    } else {
        f.round128(s, r, e)
    };
    (res, (if neg { -(q as i64) } else { q as i64 }) as u32 as u128)
}

fn sqrt(f: &Fmt, x: u128) -> u128 {
    match f.unpack(x) {
        V::Nan => f.nan(),
        V::Zero(_) => x,
        V::Inf(false) => x,
        V::Inf(true) | V::Fin(true, ..) => f.nan(),
        V::Fin(false, m, e) => {
            // An even exponent and at least two bits more than the result holds.
            let mut sh = 2 * (f.sb + 3);
            if (e - sh as i32) % 2 != 0 {
                sh += 1;
            }
            let n = U::from(m).shl(sh);
            let mut q = U::ZERO;
            for i in (0..=n.bits() / 2).rev() {
                let t = q.add(&U::from(1).shl(i));
                if t.mulu(&t).cmp(&n) != std::cmp::Ordering::Greater {
                    q = t;
                }
            }
            let exact = q.mulu(&q).cmp(&n) == std::cmp::Ordering::Equal;
            f.round(false, &q, (e - sh as i32) / 2, !exact).0
        }
    }
}

fn frexp(f: &Fmt, x: u128) -> (u128, i32) {
    match f.unpack(x) {
        V::Fin(s, m, e) => {
            let n = 128 - m.leading_zeros() as i32;
            (f.round128(s, m, -n), e + n)
        }
        V::Nan => (f.nan(), 0),
        _ => (x, 0),
    }
}

fn ldexp(f: &Fmt, x: u128, n: i32) -> u128 {
    match f.unpack(x) {
        V::Fin(s, m, e) => f.round128(s, m, (e as i64 + n as i64).clamp(-60_000, 60_000) as i32),
        V::Nan => f.nan(),
        _ => x,
    }
}

fn narrow(v: u128, w: u32) -> u128 {
    if w == 128 { v } else { v & ((1 << w) - 1) }
}
/// The value, wrapped to 256 bits: high part by sign.
fn wide(v: u128, w: u32, signed: bool) -> (bool, u128) {
    let v = narrow(v, w);
    if signed && v >> (w - 1) & 1 == 1 { (true, narrow(v.wrapping_neg(), w)) } else { (false, v) }
}
/// Wrapped to the width, and whether it did not fit.
fn fit(neg: bool, m: &U, w: u32, signed: bool) -> (u128, u128) {
    let low = m.lo128();
    let v = narrow(if neg { low.wrapping_neg() } else { low }, w);
    let lim = U::from(1).shl(if signed { w - 1 } else { w });
    let o = match m.cmp(&lim) {
        std::cmp::Ordering::Less => neg && !signed && !m.is_zero(),
        std::cmp::Ordering::Equal => !(neg && signed),
        std::cmp::Ordering::Greater => true,
    };
    (v, o as u128)
}

fn to_int_sat(f: &Fmt, x: u128, w: u32, signed: bool) -> u128 {
    let max = narrow(!0 >> signed as u32 >> (128 - w), 128);
    let min = if signed { narrow(!max, w) } else { 0 };
    match f.unpack(x) {
        V::Nan | V::Zero(_) => 0,
        V::Inf(s) => if s { min } else { max },
        V::Fin(s, m, e) => {
            let u = if e >= 0 { if e > 200 { U::from(1).shl(300) } else { U::from(m).shl(e as u32) } } else if -e > 127 { U::ZERO } else { U::from(m >> -e) };
            let (v, o) = fit(s, &u, w, signed);
            if o == 0 { v } else if s { min } else { max }
        }
    }
}

struct Funs {
    one: HashMap<&'static str, Fun1>,
    two: HashMap<&'static str, Fun2>,
    n: HashMap<&'static str, FunN>,
}

/// A result that is not specified.
const ANY: u128 = 1 << 100;

/// Sign of the gamma function, where it has one.
fn gamma_sign(x: f64) -> u128 {
    let s: i32 = match x {
        _ if x == 0.0 => if x.is_sign_negative() { -1 } else { 1 },
        _ if x > 0.0 => 1,
        _ if !x.is_finite() || x.floor() == x => return ANY,
        _ => if x.floor() % 2.0 == 0.0 { 1 } else { -1 },
    };
    s as u32 as u128
}

fn dbl(f: &Fmt, x: u128) -> f64 {
    if f.sb == 23 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) }
}

/// What the operation has to return.
fn want(k: &Funs, base: &str, tys: &[Ty], rets: &[Ty], a: [u128; 3]) -> Option<[u128; 2]> {
    let cmp = |p: fn(Option<i32>) -> bool| -> Option<[u128; 2]> {
        let F(f) = tys[0] else { return None };
        Some([p(f.cmp(a[0], a[1])) as u128, 0])
    };
    match base {
        "eq" => return cmp(|c| c == Some(0)),
        "ne" => return cmp(|c| c != Some(0)),
        "lt" => return cmp(|c| c.is_some_and(|c| c < 0)),
        "le" => return cmp(|c| c.is_some_and(|c| c <= 0)),
        "gt" => return cmp(|c| c.is_some_and(|c| c > 0)),
        "ge" => return cmp(|c| c.is_some_and(|c| c >= 0)),
        "unord" => return cmp(|c| c.is_none()),
        _ => {}
    }
    match tys[0] {
        F(f) => {
            let (x, y) = (a[0], a[1]);
            let nan = f.is_nan(x) || tys.len() > 1 && f.is_nan(y);
            let pick = |max: bool| {
                let c = f.cmp(x, y).unwrap();
                if c == 0 { if max { x & y } else { x | y } } else if (c > 0) == max { x } else { y }
            };
            let mode = |m| to_int(&f, x, m);
            let one = |v| Some([v, 0]);
            match base {
                "add" => one(f.add(x, y).0),
                "sub" => one(if nan { f.nan() } else { f.add(x, f.neg(y)).0 }),
                "mul" => one(f.mul(x, y).0),
                "div" => one(f.div(x, y).0),
                "fma" => one(f.fma(x, y, a[2]).0),
                "extend" | "narrow" => {
                    let F(t) = rets[0] else { return None };
                    one(f.convert(&t, x).0)
                }
                "ftoi" => {
                    let I(w, s) = rets[0] else { return None };
                    one(to_int_sat(&f, x, w, s))
                }
                "powi" => {
                    let n = y as u32 as i32;
                    // binary128 operands are ones binary64 holds.
                    let d = f64::from_bits(f.convert(&F64, x).0 as u64);
                    one(k.two["pow"].slow(d, n as f64).round(&f))
                }
                "ceil" => one(mode(Mode::Ceil)),
                "floor" => one(mode(Mode::Floor)),
                "trunc" => one(mode(Mode::Trunc)),
                "round" => one(mode(Mode::Away)),
                "rint" | "roundeven" => one(mode(Mode::Even)),
                "fabs" => one(x & f.absmask()),
                "copysign" => one(x & f.absmask() | y & !f.absmask()),
                "fdim" => one(if nan { f.nan() } else if f.cmp(x, y) == Some(1) { f.add(x, f.neg(y)).0 } else { 0 }),
                "fmaximum" | "fminimum" => one(if nan { f.nan() } else { pick(base == "fmaximum") }),
                "fmax" | "fmin" | "fmaximum_num" | "fminimum_num" => one(match (f.is_nan(x), f.is_nan(y)) {
                    (false, false) => pick(base.contains("max")),
                    (true, _) => y,
                    _ => x,
                }),
                "fmod" => one(fmod(&f, x, y)),
                "remainder" => one(remquo(&f, x, y).0),
                "remquo" => {
                    let (r, q) = remquo(&f, x, y);
                    Some([r, q])
                }
                "sqrt" => one(sqrt(&f, x)),
                "frexp" => {
                    let (m, e) = frexp(&f, x);
                    Some([m, e as u32 as u128])
                }
                "ilogb" => one(match f.unpack(x) {
                    V::Fin(..) => frexp(&f, x).1 - 1,
                    V::Inf(_) => i32::MAX,
                    _ => i32::MIN,
                } as u32 as u128),
                "ldexp" | "scalbn" => one(ldexp(&f, x, y as u32 as i32)),
                "modf" => {
                    let t = mode(Mode::Trunc);
                    let fr = if f.is_nan(x) { f.nan() } else if f.is_inf(x) || t & f.absmask() == x & f.absmask() { f.zero(f.sign(x)) } else { f.add(x, f.neg(t)).0 };
                    Some([fr, t])
                }
                "sincos" => Some([k.one["sin"].slow(dbl(&f, x)).round(&f), k.one["cos"].slow(dbl(&f, x)).round(&f)]),
                "lgamma_r" => Some([k.one["lgamma"].slow(dbl(&f, x)).round(&f), gamma_sign(dbl(&f, x))]),
                _ if k.one.contains_key(base) && tys.len() == 1 => one(k.one[base].slow(dbl(&f, x)).round(&f)),
                _ if k.two.contains_key(base) && tys.len() == 2 => one(k.two[base].slow(dbl(&f, x), dbl(&f, y)).round(&f)),
                _ => None,
            }
        }
        I(w, s) => {
            let (x, y) = (a[0], a[1]);
            let ((nx, mx), (ny, my)) = (wide(x, w, s), wide(y, w, s));
            let min = if s { 1u128 << (w - 1) } else { 0 };
            let one = |v| Some([v, 0]);
            let quo = || {
                let q = fit(nx != ny, &U::from(mx / my), w, s).0;
                let r = mx % my;
                (q, narrow(if nx { r.wrapping_neg() } else { r }, w))
            };
            let sum = |neg: bool| {
                let ny = ny != neg;
                if nx == ny {
                    fit(nx, &U::from(mx).add(&U::from(my)), w, s)
                } else if mx >= my {
                    fit(nx, &U::from(mx - my), w, s)
                } else {
                    fit(ny, &U::from(my - mx), w, s)
                }
            };
            match base {
                "itof" => {
                    let F(f) = rets[0] else { return None };
                    one(if mx == 0 { 0 } else { f.round128(nx, mx, 0) })
                }
                "iadd" => one(sum(false).0),
                "isub" => one(sum(true).0),
                "iaddo" => Some(sum(false).into()),
                "isubo" => Some(sum(true).into()),
                "imul" => one(fit(nx != ny, &U::mul(mx, my), w, s).0),
                "imulo" => Some(fit(nx != ny, &U::mul(mx, my), w, s).into()),
                "idiv" => one(if my == 0 { min } else { quo().0 }),
                "imod" => one(if my == 0 { min } else { quo().1 }),
                "idivmod" => Some(if my == 0 { [min, min] } else { quo().into() }),
                "ashl" => one(narrow(x << y, w)),
                "lshr" => one(narrow(x, w) >> y),
                "ashr" => one(narrow((sext(x, w) >> y) as u128, w)),
                "leading_zeros" => one((narrow(x, w) << (128 - w)).leading_zeros().min(w) as u128),
                "trailing_zeros" => one(narrow(x, w).trailing_zeros().min(w) as u128),
                "jn" | "yn" => {
                    let F(f) = tys[1] else { return None };
                    one(k.n[base].slow(x as u32 as i32, dbl(&f, y)).round(&f))
                }
                _ => None,
            }
        }
    }
}

/// Operands of each type: many, some, few.
fn operands(t: Ty, level: u32, th: bool) -> Vec<u128> {
    match t {
        F(f) => {
            let m = f.emax();
            let exps: Vec<u32> = match (f.sb, level) {
                (10, _) | (23, 0) => (0..=m).collect(),
                (52, 0) => (0..=m).step_by(if th { 1 } else { 3 }).chain(exps_edge(&f, 12)).collect(),
                (_, 0) => (0..=m).step_by(if th { 16 } else { 64 }).chain(exps_edge(&f, 140)).collect(),
                (_, 1) => exps_edge(&f, 3),
                _ => vec![0, 1, 2, f.bias() as u32 - 1, f.bias() as u32, f.bias() as u32 + 1, f.bias() as u32 + f.sb, m - 2, m - 1, m],
            };
            let sigs = match (f.sb, level) {
                (10, 0) => (0..1024).collect(),
                (23, 0) => if th { sig_runs(23) } else { sig_runs(23).into_iter().step_by(4).chain(sig_small(23)).collect() },
                (52, 0) if th => sig_runs(52).into_iter().step_by(3).chain(sig_small(52)).collect(),
                (_, 0) | (_, 1) => sig_small(f.sb),
                _ => vec![0, 1, 1 << (f.sb - 1), (1 << f.sb) - 1, 0x2b5a7 & ((1 << f.sb) - 1)],
            };
            let sigs = if level == 1 && !th { sigs.into_iter().step_by(2).collect() } else { sigs };
            dedup(values(&f, &exps, &sigs))
        }
        I(w, _) => {
            let v = ints_runs(w);
            match level {
                0 => v,
                1 => v.into_iter().step_by(if th { 2 } else { 6 }).chain([0, 1, 2, 3, narrow(!0, w), narrow(!0, w) >> 1, 1 << (w - 1), 10]).collect(),
                _ => v.into_iter().step_by(20).chain([0, 1, narrow(!0, w), 1 << (w - 1)]).collect(),
            }
        }
    }
}

/// Powers and orders are bounded by what the true value can be computed for.
fn usable(base: &str, tys: &[Ty], a: [u128; 3]) -> bool {
    match (base, tys[0]) {
        ("ashl" | "ashr" | "lshr", I(w, _)) => a[1] < w as u128,
        ("powi", F(f)) if f.sb == 112 => f.is_nan(a[0]) || { let d = f.convert(&F64, a[0]).0; F64.convert(&F128, d).0 == a[0] },
        ("jn" | "yn", _) => {
            let F(f) = tys[1] else { return false };
            let e = f.exp_field(a[1]) as i32 - f.bias();
            let n = (a[0] as u32 as i32).unsigned_abs();
            n < 40 && (e < 10 || f.exp_field(a[1]) == f.emax()) && (base == "jn" || n < 5 || e > -4)
        }
        ("j0" | "j1" | "y0" | "y1" | "tgamma" | "lgamma" | "lgamma_r", F(f)) => {
            let e = f.exp_field(a[0]) as i32 - f.bias();
            e < 14 || f.exp_field(a[0]) == f.emax()
        }
        _ => true,
    }
}

fn show(t: Ty, v: u128) -> String {
    match t {
        F(f) => vh::fl::hex(&f, v),
        I(..) => format!("{v:#x}"),
    }
}

struct Op {
    name: &'static str,
    base: &'static str,
    tys: &'static [Ty],
    rets: &'static [Ty],
    /// A fresh reference, kept across the calls of one case list.
    reference: fn(&mut dyn FnMut(&mut dyn FnMut([u128; 3]) -> [u128; 2])),
    routine: fn([u128; 3]) -> [u128; 2],
}

fn op<T: MpOp>(routine: fn([u128; 3]) -> [u128; 2]) -> Op
where
    T::RustArgs: Args,
    T::RustRet: Rets,
{
    fn go<T: MpOp>(f: &mut dyn FnMut(&mut dyn FnMut([u128; 3]) -> [u128; 2]))
    where
        T::RustArgs: Args,
        T::RustRet: Rets,
    {
        let mut mp = T::new_mp();
        f(&mut |a| T::run(&mut mp, <T::RustArgs as Args>::of(a)).all());
    }
    let name = T::NAME;
    let libm = T::BASE_NAME.as_str();
    let stem = |l: &'static [&'static str]| l.iter().copied().find(|p| name.strip_prefix(p).is_some_and(|r| matches!(r, "f16" | "f32" | "f64" | "f128")));
    let base = if let Some(b) = stem(&["add", "sub", "mul", "div", "powi", "eq", "ne", "lt", "le", "gt", "ge", "unord"]) {
        b
    } else if let Some((b, _)) = name.rsplit_once('_').filter(|(_, t)| matches!(*t, "i32" | "u32" | "i64" | "u64" | "i128" | "u128" | "f16" | "f32" | "f64" | "f128")) {
        b.split_once('_').filter(|(h, _)| matches!(*h, "extend" | "narrow" | "ftoi" | "itof")).map_or(b, |(h, _)| h)
    } else {
        libm
    };
    Op { name, base, tys: <T::RustArgs as Args>::TYS, rets: <T::RustRet as Rets>::TYS, reference: go::<T>, routine }
}

fn same(rets: &[Ty], g: [u128; 2], e: [u128; 2]) -> bool {
    (0..rets.len()).all(|i| match rets[i] {
        F(f) => g[i] == e[i] || f.is_nan(g[i]) && f.is_nan(e[i]),
        I(..) => g[i] == e[i] || e[i] == ANY && i == 1,
    })
}

impl Op {
    fn list(&self, w: &mut Worker, k: &Funs, wrapped: bool, cases: &mut dyn Iterator<Item = [u128; 3]>) {
        w.func(self.name);
        (self.reference)(&mut |mp| {
            for a in &mut *cases {
                if !usable(self.base, self.tys, a) {
                    continue;
                }
                let Some(e) = want(k, self.base, self.tys, self.rets, a) else { continue };
                w.args([a[0] as u64, (a[0] >> 64) as u64, a[1] as u64, (a[1] >> 64) as u64, a[2] as u64, (a[2] >> 64) as u64]);
                let mut judge = |what: &str, g: [u128; 2]| {
                    if !same(self.rets, g, e) {
                        let all = |t: &[Ty], v: &[u128]| t.iter().zip(v).map(|(t, v)| show(*t, *v)).collect::<Vec<_>>().join(", ");
                        w.fail(self.name, &format!("{what}: {}", all(self.tys, &a)), &all(self.rets, &e), &all(self.rets, &g));
                    }
                };
                judge("reference", mp(a));
                if wrapped {
                    judge("wrapper", (self.routine)(a));
                }
                w.done(true);
            }
        });
    }

    fn explore(&self, ctx: &Ctx, k: &Funs) {
        let th = ctx.thorough;
        // Functions of the math library are judged elsewhere; powers are not rounded correctly.
        let wrapped = !matches!(self.base, "powi") && ctx_is_builtin(self.base);
        let name = self.name;
        match self.tys {
            [t] => {
                let v = operands(*t, 0, th);
                let n = 256;
                ctx.par(name, v.len().div_ceil(n) as u64, |i, w| self.list(w, k, wrapped, &mut v.iter().skip(i as usize * n).take(n).map(|&x| [x, 0, 0])));
            }
            [t, u] => {
                let slow = k.two.contains_key(self.base) || self.base == "powi" || k.n.contains_key(self.base);
                let l = |t: Ty, q: u32| -> Vec<u128> {
                    let v = operands(t, q, th);
                    if slow && q < 2 { v.into_iter().step_by(if th { 3 } else { 17 }).collect() } else { v }
                };
                let small = |w: u32| (0..140u128).chain((0..140u128).map(|x| narrow(x.wrapping_neg(), w))).chain([1000, 1022, 1023, 1024, 1074, 1075, 16382, 16494, 16495, 32766, 40000].into_iter().flat_map(|x: u128| [x, narrow(x.wrapping_neg(), w)])).chain(ints_runs(w).into_iter().step_by(9)).collect::<Vec<u128>>();
                let (mut va, mut vb) = (l(*t, 0), l(*u, 2));
                if matches!(self.base, "ldexp" | "scalbn" | "powi") {
                    va = operands(*t, 1, th);
                    vb = small(32);
                } else if matches!(self.base, "jn" | "yn") {
                    va = small(32);
                    vb = l(*u, 0).into_iter().step_by(if th { 2 } else { 9 }).collect();
                } else if let (I(wd, _), "ashl" | "ashr" | "lshr") = (*t, self.base) {
                    vb = (0..wd as u128).collect();
                }
                // Division of far apart binary128 values takes one step per bit here.
                let far = self.base == "fmod" && matches!(*t, F(f) if f.sb > 100);
                if va.len() * vb.len() > 400_000 && !th {
                    va = va.into_iter().step_by(if far { 41 } else { 3 }).collect();
                }
                ctx.par(name, va.len() as u64, |i, w| self.list(w, k, wrapped, &mut vb.iter().map(|&y| [va[i as usize], y, 0])));
                if matches!((*t, *u), (F(_), F(_)) | (I(..), I(..))) && !matches!(self.base, "ashl" | "ashr" | "lshr") {
                    let (va, vb) = (l(*t, 2), l(*u, 0));
                    let vb: Vec<u128> = if th { vb } else { vb.into_iter().step_by(if far { 43 } else { 4 }).collect() };
                    ctx.par(name, va.len() as u64, |i, w| self.list(w, k, wrapped, &mut vb.iter().map(|&y| [va[i as usize], y, 0])));
                    let v = l(*t, 1);
                    let v: Vec<u128> = if slow { v.into_iter().step_by(2).collect() } else { v };
                    let v: Vec<u128> = if v.len() > 600 && !th { v.iter().copied().step_by(v.len() / 300).collect() } else { v };
                    ctx.par(name, v.len() as u64, |i, w| self.list(w, k, wrapped, &mut v.iter().map(|&y| [v[i as usize], y, 0])));
                }
            }
            _ => {
                let v = operands(self.tys[0], 2, th);
                let n = v.len();
                ctx.par(name, (n * n) as u64, |i, w| self.list(w, k, wrapped, &mut v.iter().step_by(if th { 1 } else { 2 }).map(|&z| [v[i as usize / n], v[i as usize % n], z])));
            }
        }
    }
}

fn ctx_is_builtin(base: &str) -> bool {
    matches!(base, "add" | "sub" | "mul" | "div" | "eq" | "ne" | "lt" | "le" | "gt" | "ge" | "unord" | "extend" | "narrow" | "ftoi" | "itof" | "leading_zeros" | "trailing_zeros" | "ashl" | "ashr" | "lshr") || base.starts_with("iadd") || base.starts_with("isub") || base.starts_with("imul") || base.starts_with("idiv") || base == "imod"
}

fn main() {
    run("C65", "exploration", |ctx| {
        ctx.rule("every operation of the test crate x operand lists by type: binary16 patterns in full, other formats exponents x significand patterns, integers runs of ones; two operands: long x short, short x long, medium x medium; nontrivial = all");
        ctx.assume("true values of the transcendental functions come from another copy of MPFR, run at 192 bits and rounded here");
        let names = [
            ("acos", "acos"), ("acosh", "acosh"), ("asin", "asin"), ("asinh", "asinh"), ("atan", "atan"), ("atanh", "atanh"), ("cbrt", "cbrt"), ("cos", "cos"), ("cosh", "cosh"),
            ("erf", "erf"), ("erfc", "erfc"), ("exp", "exp"), ("exp10", "exp10"), ("exp2", "exp2"), ("expm1", "expm1"), ("j0", "j0"), ("j1", "j1"), ("lgamma", "lgamma"),
            ("log", "log"), ("log10", "log10"), ("log1p", "log1p"), ("log2", "log2"), ("sin", "sin"), ("sinh", "sinh"), ("tan", "tan"), ("tanh", "tanh"), ("tgamma", "gamma"),
            ("y0", "y0"), ("y1", "y1"),
        ];
        let k = Funs {
            one: names.into_iter().map(|(c, m)| (c, Fun1::new(c, m))).collect(),
            two: ["atan2", "hypot", "pow"].into_iter().map(|c| (c, Fun2::new(c, c))).collect(),
            n: ["jn", "yn"].into_iter().map(|c| (c, FunN::new(c))).collect(),
        };
        macro_rules! list {
            (fn_name: $n:ident, attrs: [$($a:meta),*], extra: $v:ident,) => {{
                use libm_test::op::$n::Routine;
                type A = <Routine as MathOp>::RustArgs;
                $v.push(op::<Routine>(|a| Rets::all(libm_test::TupleCall::call(<A as Args>::of(a), Routine::ROUTINE))));
            }};
        }
        let mut ops: Vec<Op> = vec![];
        libm_macros::for_each_function! { callback: list, extra: ops, skip: [nextafter, nextafterf], }
        for o in &ops {
            o.explore(ctx, &k);
        }
    });
}
