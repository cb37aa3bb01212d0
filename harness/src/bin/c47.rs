//! C47: hexadecimal formatting of floats.
#![feature(f16, f128)]
use std::fmt::Write;
use libm::support::hex_float::parse_any;
use libm::support::{Hex, Round};
use vh::alpha;
use vh::ctx::{Ctx, Worker};
use vh::hexf::{self, Mode};
use vh::rf::*;
use vh::run;

#[derive(Default)]
struct Buf {
    t: [String; 7],
}

fn texts(f: &Fmt, x: u128, b: &mut Buf, full: bool) {
    for t in b.t.iter_mut() {
        t.clear();
    }
    macro_rules! go {
        ($v:expr) => {{
            let h = Hex($v);
            let t = &mut b.t;
            let _ = write!(t[0], "{h}");
            if !full {
                return;
            }
            let _ = write!(t[1], "{h:?}");
            let _ = write!(t[2], "{h:x}");
            let _ = write!(t[3], "{h:-}");
            let _ = write!(t[4], "{:?}", Hex(($v,)));
            let _ = write!(t[5], "{h:+}");
            let _ = write!(t[6], "{h:#}");
        }};
    }
    match f.sb {
        10 => go!(f16::from_bits(x as u16)),
        23 => go!(f32::from_bits(x as u32)),
        52 => go!(f64::from_bits(x as u64)),
        _ => go!(f128::from_bits(x)),
    }
}

/// What the text has to denote; `full` also looks at the other traits and options.
fn wrong(f: &Fmt, x: u128, b: &mut Buf, full: bool) -> Option<(&'static str, String, String)> {
    texts(f, x, b, full);
    let t = &b.t;
    let s = t[0].as_bytes();
    let neg = f.sign(x);
    if s.first() != Some(if neg { &b'-' } else { &b'+' }) {
        return Some(("sign", format!("a leading {}", if neg { '-' } else { '+' }), t[0].clone()));
    }
    if f.is_nan(x) {
        let quiet = x >> (f.sb - 1) & 1 == 1;
        let payload = x & (f.sigmask() >> 1);
        let kind = if quiet { "qNaN" } else { "sNaN" };
        let ok = t[0][1..].strip_prefix(kind).and_then(|r| r.strip_prefix("(0x")).and_then(|r| r.strip_suffix(')')).is_some_and(|r| r.len() as u32 == f.sb.div_ceil(4) && u128::from_str_radix(r, 16) == Ok(payload));
        if !ok {
            return Some(("NaN", format!("{kind} with payload 0x{payload:x}, padded"), t[0].clone()));
        }
    } else {
        match hexf::value(s, f.bits(), f.sb, Mode::Nearest) {
            Some((v, 0)) if v == x => {}
            r => return Some(("denoted value", format!("0x{x:x}, exact"), format!("{} = {r:x?}", t[0]))),
        }
        match parse_any(&t[0], f.bits(), f.sb, Round::Nearest) {
            Ok((v, _)) if v == x => {}
            r => return Some(("reading back", format!("0x{x:x}"), format!("{} read as {:x?}", t[0], r.ok().map(|x| x.0)))),
        }
    }
    if full {
        for k in [1, 2, 5, 6] {
            if t[k] != t[0] {
                return Some(("traits", t[0].clone(), t[k].clone()));
            }
        }
        let bits = format!("0x{x:0w$x}", w = f.bits() as usize / 4);
        if t[3] != bits {
            return Some(("minus flag", bits, t[3].clone()));
        }
        if t[4] != format!("({},)", t[0]) {
            return Some(("tuple", format!("({},)", t[0]), t[4].clone()));
        }
    }
    None
}

fn one(w: &mut Worker, f: &Fmt, x: u128, b: &mut Buf, full: bool) {
    w.args([f.bits() as u64, (x >> 64) as u64, x as u64]);
    if let Some((what, e, g)) = wrong(f, x, b, full) {
        w.fail(&format!("Hex<f{}> ({what})", f.bits()), &format!("0x{x:x}"), &e, &g);
    }
    w.done(!f.is_nan(x));
}

fn list(ctx: &Ctx, what: &str, f: Fmt, v: &[u128]) {
    let n = v.len().div_ceil(256) as u64;
    ctx.par(what, n, |i, w| {
        w.func("Hex");
        let mut b = Buf::default();
        for &m in &v[i as usize * 256..v.len().min((i as usize + 1) * 256)] {
            for s in [0, 1u128 << (f.bits() - 1)] {
                one(w, &f, m & f.absmask() | s, &mut b, true);
            }
        }
    });
}

fn ints(ctx: &Ctx) {
    ctx.seq("integers and tuples of them", |w| {
        w.func("Hex<int>");
        macro_rules! it {
            ($t:ty, $u:ty, $v:expr) => {
                for x in $v {
                    let x = x as u128 as $t;
                    w.args([<$t>::BITS as u64, x as u64]);
                    let e = format!("0x{:0w$x}", x as $u, w = <$t>::BITS as usize / 4);
                    let y = (x as u128).wrapping_mul(3) as $t;
                    let e2 = format!("0x{:0w$x}", y as $u, w = <$t>::BITS as usize / 4);
                    for (g, e) in [
                        (format!("{}", Hex(x)), e.clone()),
                        (format!("{:?}", Hex(x)), e.clone()),
                        (format!("{:x}", Hex(x)), e.clone()),
                        (format!("{:?}", Hex((x, y))), format!("({e}, {e2})")),
                        (format!("{:?}", Hex((x, y, true))), format!("({e}, {e2}, true)")),
                        (format!("{:?}", Hex((false, x, x))), format!("(false, {e}, {e})")),
                    ] {
                        if e != g {
                            w.fail(stringify!($t), &format!("{x:x}"), &e, &g);
                        }
                    }
                    w.done(true);
                }
            };
        }
        it!(u8, u8, 0..=255u8);
        it!(i8, u8, 0..=255u8);
        it!(u16, u16, 0..=65535u16);
        it!(i16, u16, 0..=65535u16);
        it!(u32, u32, alpha::ints_allruns(32));
        it!(i32, u32, alpha::ints_allruns(32));
        it!(u64, u64, alpha::ints_runs(64));
        it!(i64, u64, alpha::ints_runs(64));
        it!(usize, u64, alpha::ints_runs(64));
        it!(isize, u64, alpha::ints_runs(64));
        it!(u128, u128, alpha::ints_runs(128));
        it!(i128, u128, alpha::ints_runs(128));
    });
}

fn main() {
    run("C47", "exploration", |ctx| {
        ctx.rule("the text is read by an independent reader of hexadecimal literals (and by the library's own reader) and must denote exactly the formatted value; a case counts when the value is not a NaN");
        list(ctx, "binary16: every value", F16, &(0..0x8000).collect::<Vec<u128>>());
        // binary32
        let step = if ctx.thorough { 1 } else { 251 };
        let n = (1u64 << 32) / step;
        ctx.par(if ctx.thorough { "binary32: every value" } else { "binary32: every 251st pattern" }, n.div_ceil(1 << 16), |i, w| {
            w.func("Hex");
            let mut b = Buf::default();
            for k in i << 16..((i + 1) << 16).min(n) {
                one(w, &F32, (k * step) as u128, &mut b, k % 64 == 0);
            }
        });
        list(ctx, "binary32: every exponent, significands of runs of ones", F32, &alpha::values(&F32, &alpha::exps_all(&F32), &alpha::sig_runs(23)));
        // every nibble of the significand, with every exponent or at the class edges
        for f in [F64, F128] {
            let all = alpha::exps_all(&f);
            let edge = alpha::exps_edge(&f, if ctx.thorough { 3 } else { 1 });
            list(ctx, &format!("binary{}: every exponent", f.bits()), f, &alpha::values(&f, &all, &alpha::sig_small(f.sb)));
            list(ctx, &format!("binary{}: exponent edges, significands of runs of ones", f.bits()), f, &alpha::values(&f, &edge, &if ctx.thorough { alpha::sig_allruns(f.sb) } else { alpha::sig_runs(f.sb) }));
            let mut s = vec![];
            for p in 0..f.sb.div_ceil(4) {
                for d in 0..16u128 {
                    for q in 0..f.sb.div_ceil(4) {
                        s.push((d << (4 * p) | 9u128 << (4 * q)) & f.sigmask());
                    }
                }
            }
            list(ctx, &format!("binary{}: exponent edges, every hexadecimal digit at every position", f.bits()), f, &alpha::values(&f, &alpha::exps_edge(&f, 0), &alpha::dedup(s)));
        }
        ints(ctx);
    });
}
