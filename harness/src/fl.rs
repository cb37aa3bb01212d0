//! Enumeration of floating-point operand spaces, shared by the float checks.
//! Values travel as bit patterns in u128.

use crate::alpha::*;
use crate::ctx::{Ctx, Worker};
use crate::rf::*;

/// Hardware-evaluated reference operations (SSE2 on the host, default rounding).
pub mod hw {
    macro_rules! op {
        ($n:ident, $f:ident, $u:ident, $o:tt) => {
            #[inline(never)]
            pub fn $n(a: u128, b: u128) -> u128 {
                (std::hint::black_box($f::from_bits(a as $u)) $o std::hint::black_box($f::from_bits(b as $u))).to_bits() as u128
            }
        };
    }
    op!(add32, f32, u32, +);
    op!(sub32, f32, u32, -);
    op!(mul32, f32, u32, *);
    op!(div32, f32, u32, /);
    op!(add64, f64, u64, +);
    op!(sub64, f64, u64, -);
    op!(mul64, f64, u64, *);
    op!(div64, f64, u64, /);
}

/// binary16 value of a bit pattern as an f64 (exact).
pub fn dec16(b: u16) -> f64 {
    let s = if b >> 15 == 1 { -1.0 } else { 1.0 };
    let e = (b >> 10 & 31) as i32;
    let m = (b & 1023) as f64;
    match e {
        31 if m == 0.0 => s * f64::INFINITY,
        31 => f64::NAN,
        0 => s * m * 2f64.powi(-24),
        _ => s * (1024.0 + m) * 2f64.powi(e - 25),
    }
}

pub fn table16() -> Vec<f64> {
    (0..=u16::MAX).map(dec16).collect()
}

/// Round an f64 to binary16, ties to even (integer arithmetic only).
#[inline]
pub fn enc16(x: f64) -> u16 {
    let b = x.to_bits();
    let s = (b >> 63) as u16;
    let a = b & !(1 << 63);
    if a > 0x7ff0_0000_0000_0000 {
        return 0x7e00;
    }
    let e = (a >> 52) as i32 - 1023;
    if e >= 16 {
        return s << 15 | 0x7c00;
    }
    if e < -26 {
        return s << 15;
    }
    let m = a & ((1 << 52) - 1) | 1 << 52;
    let sh = if e < -14 { 42 + (-14 - e) } else { 42 };
    let q = m >> sh;
    let rem = m & ((1 << sh) - 1);
    let half = 1u64 << (sh - 1);
    let q = q + (rem > half || (rem == half && q & 1 == 1)) as u64;
    // a carry runs into the exponent as it should
    let r = if e < -14 { q } else { q + (((e + 14) as u64) << 10) };
    s << 15 | r as u16
}

/// Equal, treating all NaNs alike.
#[inline]
pub fn same(f: &Fmt, a: u128, b: u128) -> bool {
    a == b || (f.is_nan(a) && f.is_nan(b))
}

pub fn hex(f: &Fmt, x: u128) -> String {
    let mut s = format!("{:#0w$x}", x, w = (f.bits() / 4 + 2) as usize);
    match f.sb {
        10 => s += &format!(" ({:e})", dec16(x as u16)),
        23 => s += &format!(" ({:e})", f32::from_bits(x as u32)),
        52 => s += &format!(" ({:e})", f64::from_bits(x as u64)),
        _ => {}
    }
    s
}

/// Is a result interesting: neither a plain exact copy nor trivially special.
#[inline]
pub fn rounded(f: &Fmt, r: u128) -> bool {
    let e = f.exp_field(r);
    e != f.emax() && r & f.absmask() != 0
}

pub struct Bin<'a> {
    pub name: &'static str,
    pub f: Fmt,
    pub imp: &'a (dyn Fn(u128, u128) -> u128 + Sync),
    pub oracle: &'a (dyn Fn(u128, u128) -> u128 + Sync),
}

impl Bin<'_> {
    #[inline]
    pub fn case(&self, w: &mut Worker, a: u128, b: u128) {
        w.args([a as u64, (a >> 64) as u64, b as u64, (b >> 64) as u64]);
        let g = (self.imp)(a, b);
        let r = (self.oracle)(a, b);
        if !same(&self.f, g, r) {
            w.fail(self.name, &format!("{}, {}", hex(&self.f, a), hex(&self.f, b)), &hex(&self.f, r), &hex(&self.f, g));
        }
        w.done(rounded(&self.f, r));
    }

    /// Every exponent pair of `pairs` x all significand pairs x all sign pairs.
    pub fn grid(&self, ctx: &Ctx, what: &str, pairs: &[(u32, u32)], sa: &[u128], sb: &[u128]) {
        let name = format!("{} {what}", self.name);
        // Split so that a chunk is not too large.
        let split = ((sa.len() * sb.len()) / 100_000).clamp(1, sa.len());
        ctx.par(&name, (pairs.len() * split) as u64, |i, w| {
            w.func(self.name);
            let (ea, eb) = pairs[i as usize / split];
            for &ma in sa.iter().skip(i as usize % split).step_by(split) {
                for &mb in sb {
                    for s in 0..4 {
                        self.case(w, self.f.make(s & 1 == 1, ea, ma), self.f.make(s & 2 == 2, eb, mb));
                    }
                }
            }
            w.sample(|| {
                let (a, b) = (self.f.make(false, ea, sa[sa.len() / 2]), self.f.make(true, eb, sb[sb.len() / 3]));
                format!("{}: {}, {} -> {}", self.name, hex(&self.f, a), hex(&self.f, b), hex(&self.f, (self.oracle)(a, b)))
            });
        });
    }

    /// All pairs of the given values.
    pub fn pairs(&self, ctx: &Ctx, what: &str, va: &[u128], vb: &[u128]) {
        let name = format!("{} {what}", self.name);
        ctx.par(&name, va.len() as u64, |i, w| {
            w.func(self.name);
            let a = va[i as usize];
            for &b in vb {
                self.case(w, a, b);
            }
            w.sample(|| {
                let b = vb[vb.len() / 3];
                format!("{}: {}, {} -> {}", self.name, hex(&self.f, a), hex(&self.f, b), hex(&self.f, (self.oracle)(a, b)))
            });
        });
    }
}

impl Bin<'_> {
    /// Every exponent pair x the given pairs of significands (with their leading bit), optionally also exchanged.
    pub fn matched(&self, ctx: &Ctx, what: &str, pairs: &[(u32, u32)], sigs: &[(u128, u128)], swap: bool) {
        let name = format!("{} {what}", self.name);
        let m = self.f.sigmask();
        ctx.par(&name, sigs.len().div_ceil(64) as u64, |i, w| {
            w.func(self.name);
            for &(ma, mb) in sigs.iter().skip(i as usize * 64).take(64) {
                for &(ea, eb) in pairs {
                    self.case(w, self.f.make(false, ea, ma & m), self.f.make(false, eb, mb & m));
                    if swap {
                        self.case(w, self.f.make(true, eb, mb & m), self.f.make(false, ea, ma & m));
                    }
                }
            }
            w.sample(|| {
                let (ma, mb) = sigs[i as usize * 64];
                let (a, b) = (self.f.make(false, pairs[0].0, ma & m), self.f.make(false, pairs[0].1, mb & m));
                format!("{}: {}, {} -> {}", self.name, hex(&self.f, a), hex(&self.f, b), hex(&self.f, (self.oracle)(a, b)))
            });
        });
    }
}

/// Exponent pairs for operations whose behaviour depends on the exponent difference.
pub fn pairs_diff(f: &Fmt, reach: i32, w: u32) -> Vec<(u32, u32)> {
    let mut v = vec![];
    let edges = exps_edge(f, w);
    for &a in &edges {
        for &b in &edges {
            v.push((a, b));
        }
        for d in -reach..=reach {
            let b = a as i32 + d;
            if b >= 0 && b <= f.emax() as i32 {
                v.push((a, b as u32));
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Exponent pairs such that the result exponent (sum or difference) sweeps every rounding regime:
/// full underflow range, overflow edge, middle.
pub fn pairs_target(f: &Fmt, div: bool, w: u32) -> Vec<(u32, u32)> {
    let (bias, emax, sb) = (f.bias(), f.emax() as i32, f.sb as i32);
    let mut v = vec![];
    let edges = exps_edge(f, w);
    let mut targets: Vec<i32> = (-sb - 4..=4).collect();
    targets.extend(emax - 4..=emax + 3);
    targets.extend(bias - 1..=bias + 1);
    for &a in &edges {
        for &b in &edges {
            v.push((a, b));
        }
        for &t in &targets {
            let b = if div { a as i32 - t + bias } else { t - a as i32 + bias };
            if b >= 0 && b <= emax {
                v.push((a, b as u32));
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub fn pairs_all(f: &Fmt) -> Vec<(u32, u32)> {
    (0..=f.emax()).flat_map(|a| (0..=f.emax()).map(move |b| (a, b))).collect()
}

/// The reference arithmetic itself, compared with the processor on binary32/binary64 operands.
pub fn selfcheck(ctx: &Ctx, op: &'static str) {
    let run = |f: Fmt, name: &'static str, hwop: fn(u128, u128) -> u128, rf: fn(&Fmt, u128, u128) -> (u128, bool)| {
        let b = Bin { name, f, imp: &move |a, b| rf(&f, a, b).0, oracle: &hwop };
        let p = pairs_diff(&f, 3, 1);
        b.grid(ctx, "", &p, &sig_small(f.sb)[..12.min(sig_small(f.sb).len())], &sig_small(f.sb));
    };
    match op {
        "add" => {
            run(F32, "reference add vs processor, binary32", hw::add32, Fmt::add);
            run(F64, "reference add vs processor, binary64", hw::add64, Fmt::add);
        }
        "mul" => {
            run(F32, "reference mul vs processor, binary32", hw::mul32, Fmt::mul);
            run(F64, "reference mul vs processor, binary64", hw::mul64, Fmt::mul);
        }
        _ => {
            run(F32, "reference div vs processor, binary32", hw::div32, Fmt::div);
            run(F64, "reference div vs processor, binary64", hw::div64, Fmt::div);
        }
    }
}

/// Second operands for binary16 pair enumerations: everything (thorough), or every sign and
/// exponent with run, edge and grid significands (quick).
pub fn second16(thorough: bool) -> Vec<usize> {
    if thorough {
        return (0..1 << 16).collect();
    }
    let mut s = sig_allruns(10);
    s.extend((0..1024).step_by(16));
    s.extend((8..1024).step_by(64));
    let s = dedup(s);
    let mut v = vec![];
    for hi in 0..64usize {
        for &m in &s {
            v.push(hi << 10 | m as usize);
        }
    }
    v
}

/// Enumeration of single operands.
pub struct Un<'a> {
    pub name: &'static str,
    pub f: Fmt,
    /// Runs one case; returns Err((expected, got)) on a violation, Ok(nontrivial) otherwise.
    pub case: &'a (dyn Fn(u128) -> Result<bool, (String, String)> + Sync),
}

impl Un<'_> {
    #[inline]
    fn one(&self, w: &mut Worker, x: u128) {
        w.args([x as u64, (x >> 64) as u64]);
        match (self.case)(x) {
            Ok(n) => w.done(n),
            Err((e, g)) => {
                w.fail(self.name, &hex(&self.f, x), &e, &g);
                w.done(true)
            }
        }
    }

    pub fn list(&self, ctx: &Ctx, what: &str, v: &[u128]) {
        const C: usize = 1 << 13;
        ctx.par(&format!("{} {what}", self.name), v.len().div_ceil(C) as u64, |i, w| {
            w.func(self.name);
            let v = &v[i as usize * C..v.len().min((i as usize + 1) * C)];
            for &x in v {
                self.one(w, x);
            }
            w.sample(|| format!("{}({})", self.name, hex(&self.f, v[v.len() / 2])));
        });
    }

    pub fn grid(&self, ctx: &Ctx, what: &str, exps: &[u32], sigs: &[u128]) {
        ctx.par(&format!("{} {what}", self.name), exps.len() as u64, |i, w| {
            w.func(self.name);
            for &m in sigs {
                for s in [false, true] {
                    self.one(w, self.f.make(s, exps[i as usize], m));
                }
            }
            w.sample(|| format!("{}({})", self.name, hex(&self.f, self.f.make(false, exps[i as usize], sigs[sigs.len() / 2]))));
        });
    }

    /// All bit patterns of the format (binary16, binary32), in steps of `step`.
    pub fn all(&self, ctx: &Ctx, step: usize) {
        self.below(ctx, "all bit patterns", 1 << self.f.bits(), step)
    }

    /// The bit patterns below a limit (a multiple of 256).
    pub fn below(&self, ctx: &Ctx, what: &str, n: u64, step: usize) {
        let c = (n >> 12).max(1 << 8);
        ctx.par(&format!("{} {what}{}", self.name, if step > 1 { format!(", step {step}") } else { String::new() }), n / c, |i, w| {
            w.func(self.name);
            for x in (i * c..(i + 1) * c).step_by(step) {
                self.one(w, x as u128);
            }
            w.sample(|| format!("{}: patterns {:#x}..{:#x}", self.name, i * c, (i + 1) * c));
        });
    }

    /// The usual plan for a format: everything where that is feasible, otherwise every exponent
    /// with run significands plus the class edges with dense significands.
    /// `scale` shrinks the quick tier for slow routines.
    pub fn plan(&self, ctx: &Ctx, scale: u32) {
        let f = &self.f;
        let t = ctx.thorough;
        match f.sb {
            10 => self.all(ctx, 1),
            23 if t => self.all(ctx, 1),
            23 => {
                self.grid(ctx, "all exponents x prefixes", &exps_all(f), &sig_grid(23, 14 - scale));
                self.grid(ctx, "all exponents x runs", &exps_all(f), &sig_allruns(23));
                self.grid(ctx, "all exponents x low weight", &exps_all(f), &sig_weight(23, if scale > 2 { 2 } else { 3 }));
            }
            52 => {
                self.grid(ctx, "all exponents x runs", &exps_all(f), &if t { sig_allruns(52) } else { sig_runs(52) });
                self.grid(ctx, "all exponents x prefixes", &exps_all(f), &sig_top(52, if t { 10 } else { 8u32.saturating_sub(scale) }));
                let e: Vec<u32> = (1023 - 8..1023 + 70).chain(exps_edge(f, 1)).collect();
                self.grid(ctx, "edge and integer-range exponents x dense", &e, &if t { sig_weight(52, 3) } else { sig_allruns(52) });
                self.grid(ctx, "edge and integer-range exponents x prefixes", &e, &sig_grid(52, if t { 16 } else { 13 - scale }));
            }
            _ => {
                self.grid(ctx, "all exponents x small", &exps_all(f), &if t { sig_runs(112) } else { sig_small(112) });
                let e: Vec<u32> = (16383 - 8..16383 + 134).chain(exps_edge(f, 1)).collect();
                self.grid(ctx, "edge and integer-range exponents x dense", &e, &sig_allruns(112));
                self.grid(ctx, "edge and integer-range exponents x prefixes", &e, &sig_grid(112, if t { 14 } else { 11 - scale }));
            }
        }
    }
}

/// Un-case from an implementation and an oracle on bit patterns, NaNs alike.
pub fn eqcase<'a>(f: Fmt, imp: impl Fn(u128) -> u128 + Sync + 'a, oracle: impl Fn(u128) -> u128 + Sync + 'a) -> impl Fn(u128) -> Result<bool, (String, String)> + Sync + 'a {
    move |x| {
        let (g, r) = (imp(x), oracle(x));
        if same(&f, g, r) { Ok(rounded(&f, r)) } else { Err((hex(&f, r), hex(&f, g))) }
    }
}

/// Enumeration of operand pairs with a free-form judgement.
pub struct Two<'a> {
    pub name: &'static str,
    pub f: Fmt,
    /// Runs one case; returns Err((expected, got)) on a violation, Ok(nontrivial) otherwise.
    pub case: &'a (dyn Fn(u128, u128) -> Result<bool, (String, String)> + Sync),
}

impl Two<'_> {
    #[inline]
    pub fn one(&self, w: &mut Worker, a: u128, b: u128) {
        w.args([a as u64, (a >> 64) as u64, b as u64, (b >> 64) as u64]);
        match (self.case)(a, b) {
            Ok(n) => w.done(n),
            Err((e, g)) => {
                w.fail(self.name, &format!("{}, {}", hex(&self.f, a), hex(&self.f, b)), &e, &g);
                w.done(true)
            }
        }
    }

    /// Every exponent pair of `pairs` x all significand pairs x all sign pairs.
    pub fn grid(&self, ctx: &Ctx, what: &str, pairs: &[(u32, u32)], sa: &[u128], sb: &[u128]) {
        let split = ((sa.len() * sb.len()) / 20_000).clamp(1, sa.len());
        ctx.par(&format!("{} {what}", self.name), (pairs.len() * split) as u64, |i, w| {
            w.func(self.name);
            let (ea, eb) = pairs[i as usize / split];
            for &ma in sa.iter().skip(i as usize % split).step_by(split) {
                for &mb in sb {
                    for s in 0..4 {
                        self.one(w, self.f.make(s & 1 == 1, ea, ma), self.f.make(s & 2 == 2, eb, mb));
                    }
                }
            }
            w.sample(|| format!("{}({}, {})", self.name, hex(&self.f, self.f.make(false, ea, sa[sa.len() / 2])), hex(&self.f, self.f.make(true, eb, sb[sb.len() / 3]))));
        });
    }

    /// All pairs of the given values.
    pub fn pairs(&self, ctx: &Ctx, what: &str, va: &[u128], vb: &[u128]) {
        ctx.par(&format!("{} {what}", self.name), va.len() as u64, |i, w| {
            w.func(self.name);
            let a = va[i as usize];
            for &b in vb {
                self.one(w, a, b);
            }
            w.sample(|| format!("{}({}, {})", self.name, hex(&self.f, a), hex(&self.f, vb[vb.len() / 3])));
        });
    }

    /// All pairs of the given list.
    pub fn list(&self, ctx: &Ctx, what: &str, v: &[(u128, u128)]) {
        const C: usize = 1 << 10;
        ctx.par(&format!("{} {what}", self.name), v.len().div_ceil(C) as u64, |i, w| {
            w.func(self.name);
            for &(a, b) in &v[i as usize * C..v.len().min((i as usize + 1) * C)] {
                self.one(w, a, b);
            }
        });
    }
}
