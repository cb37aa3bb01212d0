//! High-precision reference values for the transcendental functions.
//!
//! First opinion: the system's math library one format wider than the result. If the result of
//! the code under test is not within its bound of that, GNU MPFR decides.

use crate::alpha::*;
use crate::ctx::Ctx;
use crate::fl::{Two, Un, hex};
use crate::rf::*;
use std::ffi::{CString, c_char, c_int, c_long, c_void};
use std::sync::OnceLock;

unsafe extern "C" {
    fn dlopen(name: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
    fn vh_l1(f: *mut c_void, x: f64) -> f64;
    fn vh_l2(f: *mut c_void, x: f64, y: f64) -> f64;
    fn vh_ln(f: *mut c_void, n: c_int, x: f64) -> f64;
}

fn open(name: &str) -> usize {
    let c = CString::new(name).unwrap();
    let h = unsafe { dlopen(c.as_ptr(), 2) };
    if h.is_null() {
        eprintln!("cannot load {name}");
        std::process::exit(2);
    }
    h as usize
}

fn sym(h: usize, name: &str) -> *mut c_void {
    let c = CString::new(name).unwrap();
    let p = unsafe { dlsym(h as *mut c_void, c.as_ptr()) };
    if p.is_null() {
        eprintln!("no symbol {name}");
        std::process::exit(2);
    }
    p
}

fn libm() -> usize {
    static H: OnceLock<usize> = OnceLock::new();
    *H.get_or_init(|| open("libm.so.6"))
}

fn mpfr() -> usize {
    static H: OnceLock<usize> = OnceLock::new();
    *H.get_or_init(|| open("libmpfr.so.6"))
}

/// The library's layout of a number.
#[repr(C)]
struct Mp {
    prec: c_long,
    sign: c_int,
    exp: c_long,
    d: *mut u64,
}

const PREC: c_long = 192;

struct Slot {
    out: Mp,
    a: Mp,
    b: Mp,
}

thread_local! {
    static SLOT: std::cell::RefCell<Slot> = std::cell::RefCell::new(unsafe {
        let init: extern "C" fn(*mut Mp, c_long) = std::mem::transmute(sym(mpfr(), "mpfr_init2"));
        let mut s: Slot = std::mem::zeroed();
        init(&mut s.out, PREC);
        init(&mut s.a, 64);
        init(&mut s.b, 64);
        s
    });
}

/// A real number, known to many more bits than any format here.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ref {
    Nan,
    Inf(bool),
    Zero(bool),
    /// sign, top 128 bits, exponent, whether more bits follow
    Fin(bool, u128, i32, bool),
}

impl Ref {
    /// A result rounded toward zero and whether that was inexact.
    fn take(m: &Mp, inexact: c_int) -> Ref {
        let neg = m.sign < 0;
        match m.exp.wrapping_sub(c_long::MIN) {
            1 => Ref::Zero(neg),
            2 => Ref::Nan,
            3 => Ref::Inf(neg),
            _ => {
                let d = unsafe { std::slice::from_raw_parts(m.d, 3) };
                Ref::Fin(neg, (d[2] as u128) << 64 | d[1] as u128, (m.exp - 128).clamp(-1_000_000, 1_000_000) as i32, d[0] != 0 || inexact != 0)
            }
        }
    }

    /// Correctly rounded to a format.
    pub fn round(&self, f: &Fmt) -> u128 {
        match *self {
            Ref::Nan => f.nan(),
            Ref::Inf(s) => f.inf(s),
            Ref::Zero(s) => f.zero(s),
            Ref::Fin(s, m, e, sticky) => f.round(s, &U::from(m), e.clamp(-60_000, 60_000), sticky).0,
        }
    }

    /// Rounded to binary64.
    pub fn f64(&self) -> f64 {
        f64::from_bits(self.round(&F64) as u64)
    }

    /// Whether `g` is acceptable: at most `tol` steps from the correctly rounded result, and zero or
    /// infinite only if a value within the same relative error of the true one rounds to that.
    pub fn near(&self, f: &Fmt, g: u128, tol: u128) -> bool {
        let r = self.round(f);
        if near(f, g, r, tol) {
            return true;
        }
        let Ref::Fin(s, m, e, _) = *self else { return false };
        let d = (m >> 1) >> (f.sb - 2 - (tol + 1).ilog2());
        steps(f, g, r).is_some_and(|k| k <= tol) && [(m >> 1) - d, (m >> 1) + d].into_iter().any(|m| kind(f, Ref::Fin(s, m, e + 1, true).round(f)) == kind(f, g))
    }

    pub fn show(&self, f: &Fmt) -> String {
        hex(f, self.round(f))
    }
}

/// Number of representable values between two results of the same sign; None if they differ in
/// kind (NaN against number, or in sign).
pub fn steps(f: &Fmt, a: u128, b: u128) -> Option<u128> {
    match (f.is_nan(a), f.is_nan(b)) {
        (true, true) => return Some(0),
        (false, false) => {}
        _ => return None,
    }
    if f.sign(a) != f.sign(b) {
        return None;
    }
    Some((a & f.absmask()).abs_diff(b & f.absmask()))
}

/// Zero against non-zero, infinite against finite: not a matter of accuracy.
fn kind(f: &Fmt, a: u128) -> u8 {
    let a = a & f.absmask();
    (a == 0) as u8 + 2 * (a == f.inf(false)) as u8
}

/// At most `tol` steps apart, and zero or infinite only together.
fn near(f: &Fmt, g: u128, r: u128, tol: u128) -> bool {
    steps(f, g, r).is_some_and(|d| d <= tol) && kind(f, g) == kind(f, r)
}

fn to64(f: &Fmt, x: u128) -> f64 {
    if f.sb == 23 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) }
}

type M1 = extern "C" fn(*mut Mp, *const Mp, c_int) -> c_int;
type M2 = extern "C" fn(*mut Mp, *const Mp, *const Mp, c_int) -> c_int;
type MN = extern "C" fn(*mut Mp, c_long, *const Mp, c_int) -> c_int;
type MS = extern "C" fn(*mut Mp, *mut c_int, *const Mp, c_int) -> c_int;

fn set(p: *mut Mp, x: f64) {
    static S: OnceLock<usize> = OnceLock::new();
    let s = *S.get_or_init(|| sym(mpfr(), "mpfr_set_d") as usize);
    let s: extern "C" fn(*mut Mp, f64, c_int) -> c_int = unsafe { std::mem::transmute(s) };
    s(p, x, 0);
}

/// A function of one argument.
pub struct Fun1 {
    d: extern "C" fn(f64) -> f64,
    l: usize,
    m: usize,
    lg: bool,
}

impl Fun1 {
    /// Names in the C library and in MPFR.
    pub fn new(c: &str, m: &str) -> Fun1 {
        Fun1 { d: unsafe { std::mem::transmute(sym(libm(), c)) }, l: sym(libm(), &format!("{c}l")) as usize, m: sym(mpfr(), &format!("mpfr_{m}")) as usize, lg: m == "lgamma" }
    }
    #[inline]
    pub fn fast(&self, f: &Fmt, x: u128) -> u128 {
        if f.sb == 23 { ((self.d)(f32::from_bits(x as u32) as f64) as f32).to_bits() as u128 } else { unsafe { vh_l1(self.l as *mut c_void, f64::from_bits(x as u64)) }.to_bits() as u128 }
    }
    pub fn slow(&self, x: f64) -> Ref {
        SLOT.with_borrow_mut(|s| {
            set(&mut s.a, x);
            let t = if self.lg {
                let m: MS = unsafe { std::mem::transmute(self.m) };
                let mut sg = 0;
                m(&mut s.out, &mut sg, &s.a, 1)
            } else {
                let m: M1 = unsafe { std::mem::transmute(self.m) };
                m(&mut s.out, &s.a, 1)
            };
            Ref::take(&s.out, t)
        })
    }
    /// Err(correct result) if `g` is more than `tol` steps away.
    #[inline]
    pub fn judge(&self, f: &Fmt, x: u128, g: u128, quick: u128, tol: u128) -> Result<(), Ref> {
        if near(f, g, quick, tol) {
            return Ok(());
        }
        let r = self.slow(to64(f, x));
        if r.near(f, g, tol) { Ok(()) } else { Err(r) }
    }
}

/// A function of two arguments.
pub struct Fun2 {
    d: extern "C" fn(f64, f64) -> f64,
    l: usize,
    m: usize,
}

impl Fun2 {
    pub fn new(c: &str, m: &str) -> Fun2 {
        Fun2 { d: unsafe { std::mem::transmute(sym(libm(), c)) }, l: sym(libm(), &format!("{c}l")) as usize, m: sym(mpfr(), &format!("mpfr_{m}")) as usize }
    }
    #[inline]
    pub fn fast(&self, f: &Fmt, x: u128, y: u128) -> u128 {
        if f.sb == 23 {
            ((self.d)(f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) as f32).to_bits() as u128
        } else {
            unsafe { vh_l2(self.l as *mut c_void, f64::from_bits(x as u64), f64::from_bits(y as u64)) }.to_bits() as u128
        }
    }
    pub fn slow(&self, x: f64, y: f64) -> Ref {
        SLOT.with_borrow_mut(|s| {
            set(&mut s.a, x);
            set(&mut s.b, y);
            let m: M2 = unsafe { std::mem::transmute(self.m) };
            let t = m(&mut s.out, &s.a, &s.b, 1);
            Ref::take(&s.out, t)
        })
    }
    #[inline]
    pub fn judge(&self, f: &Fmt, x: u128, y: u128, g: u128, quick: u128, tol: u128) -> Result<(), Ref> {
        if near(f, g, quick, tol) {
            return Ok(());
        }
        let r = self.slow(to64(f, x), to64(f, y));
        if r.near(f, g, tol) { Ok(()) } else { Err(r) }
    }
}

/// A function of an integer order and an argument.
pub struct FunN {
    d: extern "C" fn(c_int, f64) -> f64,
    l: usize,
    m: usize,
}

impl FunN {
    pub fn new(c: &str) -> FunN {
        FunN { d: unsafe { std::mem::transmute(sym(libm(), c)) }, l: sym(libm(), &format!("{c}l")) as usize, m: sym(mpfr(), &format!("mpfr_{c}")) as usize }
    }
    pub fn fast(&self, f: &Fmt, n: i32, x: u128) -> f64 {
        if f.sb == 23 { (self.d)(n, f32::from_bits(x as u32) as f64) } else { unsafe { vh_ln(self.l as *mut c_void, n, f64::from_bits(x as u64)) } }
    }
    pub fn slow(&self, n: i32, x: f64) -> Ref {
        SLOT.with_borrow_mut(|s| {
            set(&mut s.a, x);
            let m: MN = unsafe { std::mem::transmute(self.m) };
            let t = m(&mut s.out, n as c_long, &s.a, 1);
            Ref::take(&s.out, t)
        })
    }
}

/// One function in one format: how it is run and judged.
pub struct Spec<'a> {
    pub name: &'static str,
    pub f: Fmt,
    /// implementation and its bound, in steps from the correctly rounded result
    pub imps: Vec<(&'static str, Box<dyn Fn(u128) -> u128 + Sync>, u128)>,
    pub r: &'a Fun1,
    /// Some(true): odd, Some(false): even, bit for bit
    pub odd: Option<bool>,
    /// exponents (unbiased, inclusive) where the function does something interesting
    pub dense: (i32, i32),
    /// points whose neighbours are enumerated
    pub points: Vec<f64>,
    /// step through the binary32 patterns in either tier
    pub step: (usize, usize),
    /// documented exceptions: operand, result, true value
    pub allow: Option<Box<dyn Fn(u128, u128, &Ref) -> bool + Sync>>,
}

impl Spec<'_> {
    pub fn allow(mut self, a: impl Fn(u128, u128, &Ref) -> bool + Sync + 'static) -> Self {
        self.allow = Some(Box::new(a));
        self
    }
    pub fn step(mut self, quick: usize, thorough: usize) -> Self {
        self.step = (quick, thorough);
        self
    }

    /// Gives the judged function to a driver.
    pub fn with(&self, go: impl FnOnce(&Un)) {
        let f = &self.f;
        let sg = 1u128 << (f.bits() - 1);
        let case = |x: u128| {
            let q = self.r.fast(f, x);
            let mut last = (None, u128::MAX);
            for (b, imp, tol) in &self.imps {
                // The x87 unit's own routines are slow: every fourth binary32 pattern.
                if f.sb == 23 && *b == "x87 build" && *tol != self.imps[0].2 && x % 4 != 0 {
                    continue;
                }
                let g = imp(x);
                if !(last.0 == Some(g) && last.1 <= *tol) {
                    if let Err(r) = self.r.judge(f, x, g, q, *tol)
                        && !self.allow.as_ref().is_some_and(|a| a(x, g, &r))
                    {
                        return Err((format!("{} within {tol}", r.show(f)), format!("{} ({b})", hex(f, g))));
                    }
                }
                if let Some(odd) = self.odd {
                    let h = imp(x ^ sg);
                    let h = if odd { h ^ sg } else { h };
                    if h != g && !(f.is_nan(h) && f.is_nan(g)) {
                        return Err((format!("{} by symmetry", hex(f, h)), format!("{} ({b})", hex(f, g))));
                    }
                }
                last = (Some(g), *tol);
            }
            Ok(q & f.absmask() != 0 && f.exp_field(q) != f.emax())
        };
        go(&Un { name: self.name, f: *f, case: &case });
    }

    /// The standard enumeration.
    pub fn run(&self, ctx: &Ctx) {
        self.with(|u| self.standard(ctx, u));
    }

    pub fn standard(&self, ctx: &Ctx, u: &Un) {
        let f = &self.f;
        let sg = 1u128 << (f.bits() - 1);
        let t = ctx.thorough;
        let (b, n) = (f.bias(), if t { 100_000u128 } else { 4000 });
        let mut v = vec![];
        for &p in &self.points {
            let x = if f.sb == 23 { (p as f32).to_bits() as u128 } else { p.to_bits() as u128 };
            let a = x & f.absmask();
            for d in 0..=n {
                v.push(a.saturating_sub(d) | x & sg);
                v.push((a + d).min(f.absmask()) | x & sg);
            }
        }
        let e: Vec<u32> = (self.dense.0..=self.dense.1).map(|e| (e + b).clamp(0, f.emax() as i32) as u32).collect();
        if f.sb == 23 {
            let step = if t { self.step.1 } else { self.step.0 };
            if self.odd.is_some() {
                // each with its negative
                u.below(ctx, "all non-negative bit patterns", 1 << 31, step);
            } else {
                u.all(ctx, step);
            }
            if !t {
                u.grid(ctx, "all exponents x runs", &exps_all(f), &sig_runs(23));
                u.list(ctx, "neighbours of special points", &dedup(v));
            }
        } else {
            u.grid(ctx, "all exponents x runs", &exps_all(f), &if t { sig_allruns(52) } else { sig_runs(52) });
            u.grid(ctx, "all exponents x short prefixes", &exps_all(f), &sig_grid(52, if t { 10 } else { 6 }));
            u.grid(ctx, "relevant exponents x prefixes", &e, &sig_grid(52, if t { 20 } else { 15 }));
            u.list(ctx, "neighbours of special points", &dedup(v));
        }
    }
}

/// One function of two arguments in one format.
pub struct Spec2<'a> {
    pub name: &'static str,
    pub f: Fmt,
    pub imps: crate::lm::Imps2,
    pub tol: u128,
    pub r: &'a Fun2,
}

impl Spec2<'_> {
    pub fn with(&self, go: impl FnOnce(&Two)) {
        let f = &self.f;
        let case = |x: u128, y: u128| {
            let q = self.r.fast(f, x, y);
            let mut last = None;
            for (b, imp) in &self.imps {
                let g = imp(x, y);
                if last == Some(g) {
                    continue;
                }
                if let Err(r) = self.r.judge(f, x, y, g, q, self.tol) {
                    return Err((format!("{} within {}", r.show(f), self.tol), format!("{} ({b})", hex(f, g))));
                }
                last = Some(g);
            }
            Ok(q & f.absmask() != 0 && f.exp_field(q) != f.emax())
        };
        go(&Two { name: self.name, f: *f, case: &case });
    }
}

/// Specs of the four builds of a one-argument function; the x87 build may have its own bound.
#[macro_export]
macro_rules! spec {
    ($n:ident, $t:ident, $u:ident, $f:ident, $tol:expr, $x87:expr, $r:expr, $odd:expr, $dense:expr, $points:expr) => {{
        let mut imps: Vec<(&'static str, Box<dyn Fn(u128) -> u128 + Sync>, u128)> = vec![];
        for (b, i) in $crate::imps1!($n, $t, $u) {
            let tol = if b == "x87 build" { $x87 } else { $tol };
            imps.push((b, i, tol));
        }
        $crate::hp::Spec { name: stringify!($n), f: $crate::rf::$f, imps, r: $r, odd: $odd, dense: $dense, points: $points, step: (17, 1), allow: None }
    }};
}
