//! C59: the command-line evaluator, run as a process for every function, notation and small operand set.
#![feature(f16, f128)]
#![allow(unreachable_patterns)]
use libm_test::mpfloat::MpOp;
use libm_test::{MathOp, TupleCall};
use std::process::{Command, Stdio, exit};
use vh::ctx::ROOT;
use vh::{Ctx, Worker, run};

/// A value as bits, with what is needed to read it back from text.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Part {
    /// Width, exponent bits, pattern.
    F(u32, u32, u128),
    /// Width, signed, pattern.
    I(u32, bool, u128),
    B(bool),
}
use Part::*;

trait Val: Sized + Copy {
    fn part(self) -> Part;
    /// Values with the notations they are given in.
    fn list() -> Vec<(Self, String)>;
}
macro_rules! float {
    ($($f:ident $u:ident $eb:literal $sb:literal),*) => {$(
        impl Val for $f {
            fn part(self) -> Part { F($f::BITS_, $eb, self.to_bits() as u128) }
            fn list() -> Vec<(Self, String)> {
                let inf: $u = ((1 << $eb) - 1) << $sb;
                let sign: $u = 1 << ($eb + $sb);
                let one: $u = ((1 << ($eb - 1)) - 1) << $sb;
                let mut v = Vec::new();
                // Decimal; the value is exactly representable in every format.
                for (t, b) in [("0.0", 0), ("-0.0", sign), ("1", one), ("-2.5", sign | (one + (1 << $sb) + (1 << ($sb - 2)))), ("0.75", one - (1 << ($sb - 1))), ("1e1", one + (3 << $sb) + (1 << ($sb - 2))), ("inf", inf), ("-inf", inf | sign)] {
                    v.push(($f::from_bits(b), t.to_string()));
                }
                // Decimal, between representable values: 1 + half a unit, and a little more or less.
                for (d, b) in [(0, one), (1, one + 1), (-1, one)] {
                    v.push(($f::from_bits(b), between($sb, d)));
                    v.push(($f::from_bits(b | sign), format!("-{}", between($sb, d))));
                }
                // Hexadecimal floats.
                for (t, b) in [("0x1p0", one), ("0x1.8p+1", one + (3 << ($sb - 1))), ("-0x1.4p-2", sign | (one - (2 << $sb) + (1 << ($sb - 2)))), ("0x.8p1", one), ("-0x0p0", sign)] {
                    v.push(($f::from_bits(b), t.to_string()));
                }
                // Patterns.
                for b in [0, 1, one, one | 1, sign | one, inf - 1, inf, sign | inf, inf | (1 << ($sb - 1)), sign | inf | (1 << ($sb - 1)) | 5, (1 << $sb) - 1, sign | 1 << $sb] {
                    v.push(($f::from_bits(b), format!("{b:#x}")));
                    v.push(($f::from_bits(b), format!("{b:#b}")));
                    v.push(($f::from_bits(b), format!("{b:#0w$x}", w = (1 + $eb + $sb) / 4 + 2)));
                }
                v
            }
        }
    )*};
}
/// int + mult * 2^-k + d * 2^-(k+39), written out; mult below 5.
fn written(int: u8, mult: i32, k: u32, d: i32) -> String {
    let n = k + 39;
    let mut v = vec![0u8; n as usize + 1];
    v[0] = 1;
    let mut at = Vec::new();
    for i in 0..=n {
        if i == k || i == n {
            at.push(v.clone());
        }
        // Digits before this one are zero by now.
        let from = (i as usize * 3 / 10).saturating_sub(1);
        let mut r = 0;
        for x in v[from..(i as usize + 2).min(n as usize + 1)].iter_mut() {
            let y = r * 10 + *x;
            *x = y / 2;
            r = y % 2;
        }
    }
    let mut carry = 0i32;
    let mut a = vec![0u8; n as usize + 1];
    for i in (0..a.len()).rev() {
        let s = mult * at[0][i] as i32 + d * at[1][i] as i32 + carry;
        a[i] = s.rem_euclid(10) as u8;
        carry = s.div_euclid(10);
    }
    a[0] += int;
    let s: String = a.iter().map(|x| (b'0' + x) as char).collect();
    format!("{}.{}", &s[..1], &s[1..])
}
fn between(sb: u32, d: i32) -> String {
    written(1, 1, sb + 1, d)
}
trait Bits {
    const BITS_: u32;
}
impl Bits for f16 {
    const BITS_: u32 = 16;
}
impl Bits for f32 {
    const BITS_: u32 = 32;
}
impl Bits for f64 {
    const BITS_: u32 = 64;
}
impl Bits for f128 {
    const BITS_: u32 = 128;
}
float!(f16 u16 5 10, f32 u32 8 23, f64 u64 11 52, f128 u128 15 112);
macro_rules! int {
    ($($t:ident $u:ident $s:literal),*) => {$(
        impl Val for $t {
            fn part(self) -> Part { I($t::BITS, $s, self as $u as u128) }
            fn list() -> Vec<(Self, String)> {
                let mut v = Vec::new();
                for x in [5, 1, 17, 29, 3] {
                    v.push((x as $t, format!("{x}")));
                    v.push((x as $t, format!("{x:#x}")));
                    v.push((x as $t, format!("{x:#b}")));
                    v.push((x as $t, format!("{x:#06x}")));
                    if $s {
                        v.push(((x as $t).wrapping_neg(), format!("-{x}")));
                        v.push(((x as $t).wrapping_neg(), format!("-{x:#x}")));
                    }
                }
                v
            }
        }
    )*};
}
int!(u32 u32 false, i32 u32 true, u64 u64 false, i64 u64 true, u128 u128 false, i128 u128 true, usize usize false);
impl Val for bool {
    fn part(self) -> Part {
        B(self)
    }
    fn list() -> Vec<(Self, String)> {
        Vec::new()
    }
}

trait Out {
    fn parts(&self) -> Vec<Part>;
}
impl<T: Val> Out for T {
    fn parts(&self) -> Vec<Part> {
        vec![self.part()]
    }
}
impl<A: Val, B: Val> Out for (A, B) {
    fn parts(&self) -> Vec<Part> {
        vec![self.0.part(), self.1.part()]
    }
}

/// How often each argument list is thinned.
#[derive(Clone, Copy)]
struct Step(usize);
trait In: Sized {
    const COUNT: usize;
    fn all(s: Step) -> Vec<(Self, Vec<String>)>;
}
impl<A: Val> In for (A,) {
    const COUNT: usize = 1;
    fn all(_: Step) -> Vec<(Self, Vec<String>)> {
        A::list().into_iter().map(|(a, t)| ((a,), vec![t])).collect()
    }
}
impl<A: Val, B: Val> In for (A, B) {
    const COUNT: usize = 2;
    fn all(s: Step) -> Vec<(Self, Vec<String>)> {
        let mut v = Vec::new();
        for (i, (a, t)) in A::list().into_iter().enumerate() {
            for (j, (b, u)) in B::list().into_iter().enumerate() {
                // Both full lists beside one value of the other argument, and a regular part of the product.
                if i == 2 || j == 2 || (i * 7 + j * 3) % s.0 == 0 {
                    v.push(((a, b), vec![t.clone(), u]));
                }
            }
        }
        v
    }
}
impl<A: Val, B: Val, C: Val> In for (A, B, C) {
    const COUNT: usize = 3;
    fn all(s: Step) -> Vec<(Self, Vec<String>)> {
        let mut v = Vec::new();
        for (i, (a, t)) in A::list().into_iter().enumerate() {
            for (j, (b, u)) in B::list().into_iter().enumerate() {
                for (k, (c, x)) in C::list().into_iter().enumerate() {
                    let near = (i == 2) as u8 + (j == 2) as u8 + (k == 2) as u8;
                    if near >= 2 || (i * 7 + j * 3 + k * 11) % (s.0 * 30) == 0 {
                        v.push(((a, b, c), vec![t.clone(), u.clone(), x]));
                    }
                }
            }
        }
        v
    }
}

fn floor_log2(x: u128) -> i32 {
    127 - x.leading_zeros() as i32
}

/// Sign, significand and exponent to the pattern of a format; None when it is not exactly representable.
fn pack(w: u32, eb: u32, neg: bool, m: u128, e: i32) -> Option<u128> {
    let sb = w - 1 - eb;
    let s = (neg as u128) << (w - 1);
    if m == 0 {
        return Some(s);
    }
    let bias = (1i32 << (eb - 1)) - 1;
    let ex = (floor_log2(m) + e).max(1 - bias);
    // Value is m * 2^e; units of the result are 2^(ex - sb).
    let d = e - (ex - sb as i32);
    let units = if d >= 0 {
        m << d
    } else if m.trailing_zeros() as i32 >= -d {
        m >> -d
    } else {
        return None;
    };
    if ex > bias {
        return None;
    }
    let r = if units >> sb == 0 { units } else { (((ex + bias) as u128) << sb) + (units & ((1 << sb) - 1)) };
    Some(s | r)
}

/// Reads a number in hexadecimal notation; Err says what is wrong with the text.
fn hex_ok(p: Part, t: &str) -> bool {
    match p {
        B(_) => true,
        I(w, _, b) => t.strip_prefix("0x").is_some_and(|d| u128::from_str_radix(d, 16) == Ok(b) && d.len() <= w as usize / 4),
        F(w, eb, b) => {
            let sb = w - 1 - eb;
            let inf = ((1u128 << eb) - 1) << sb;
            let sign = 1u128 << (w - 1);
            let (neg, d) = match t.strip_prefix('-') {
                Some(d) => (true, d),
                None => (false, t.strip_prefix('+').unwrap_or(t)),
            };
            if b & !sign > inf {
                return d.to_ascii_lowercase().contains("nan");
            }
            if b & !sign == inf {
                return d == "inf" && neg == (b & sign != 0);
            }
            let Some((m, e)) = d.strip_prefix("0x").and_then(|d| d.split_once('p')) else { return false };
            let (i, f) = m.split_once('.').unwrap_or((m, ""));
            let Ok(m) = u128::from_str_radix(&format!("{i}{f}"), 16) else { return false };
            let Ok(e) = e.parse::<i32>() else { return false };
            pack(w, eb, neg, m, e - 4 * f.len() as i32) == Some(b)
        }
    }
}

fn plain_ok(p: Part, t: &str) -> bool {
    match p {
        B(b) => t == b.to_string(),
        I(w, true, b) => t.parse::<i128>().is_ok_and(|x| x as u128 & (!0 >> (128 - w)) == b && (w == 128 || x == ((b << (128 - w)) as i128 >> (128 - w)))),
        I(_, false, b) => t.parse() == Ok(b),
        F(w, eb, b) => {
            let sb = w - 1 - eb;
            let inf = ((1u128 << eb) - 1) << sb;
            let sign = 1u128 << (w - 1);
            if b & !sign > inf {
                return t == "NaN" || w == 128 && t.strip_prefix("0x").is_some_and(|d| u128::from_str_radix(d, 16).is_ok_and(|x| x & !sign > inf));
            }
            match w {
                16 => t.parse::<f64>().is_ok_and(|x| (x as f16).to_bits() as u128 == b),
                32 => t.parse::<f32>().is_ok_and(|x| x.to_bits() as u128 == b),
                64 => t.parse::<f64>().is_ok_and(|x| x.to_bits() as u128 == b),
                // Printed as a pattern or as a number, which the standard library here does not read.
                _ => match t.strip_prefix("0x") {
                    Some(d) => u128::from_str_radix(d, 16) == Ok(b),
                    None => !t.is_empty(),
                },
            }
        }
    }
}

fn tool() -> String {
    format!("{ROOT}/target/tools/release/util")
}

fn call(args: &[&str]) -> (bool, String) {
    let o = Command::new(tool()).args(args).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).output().unwrap();
    (o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned())
}

/// The printed line has every part in plain, then in hexadecimal notation.
fn judge(w: &mut Worker, name: &'static str, args: &[&str], want: &[Part]) {
    let (ok, text) = call(args);
    let line = text.trim_end();
    // A NaN is followed by its payload in parentheses.
    let mut flat = line.to_string();
    while let Some(i) = flat.to_ascii_lowercase().find("nan(") {
        let j = flat[i..].find(')').map_or(flat.len(), |j| i + j + 1);
        flat.replace_range(i + 3..j, "");
    }
    let u: Vec<&str> = flat.split(|c: char| "(), ".contains(c)).filter(|s| !s.is_empty()).collect();
    let good = ok && !line.contains('\n') && u.len() == 2 * want.len() && want.iter().enumerate().all(|(i, p)| plain_ok(*p, u[i]) && hex_ok(*p, u[want.len() + i]));
    if !good {
        w.fail(name, &args.join(" "), &format!("{want:x?}"), if ok { line } else { "refused" });
    }
}

fn one<Op: MathOp + MpOp>(w: &mut Worker, name: &'static str, step: Step)
where
    Op::RustArgs: In + Copy + TupleCall<Op::RustFn, Output = Op::RustRet>,
    Op::RustRet: Out,
{
    w.func(name);
    let all = <Op::RustArgs as In>::all(step);
    for (k, (a, t)) in all.into_iter().enumerate() {
        w.beat();
        let want = a.call(Op::ROUTINE).parts();
        let mut args = vec![if k % 2 == 0 { "eval" } else { "x" }, "libm", name];
        let comma: Vec<String> = t.iter().map(|s| if k % 3 == 0 { format!("{s},") } else { s.clone() }).collect();
        args.extend(comma.iter().map(|s| s.as_str()));
        judge(w, name, &args, &want);
        w.done(true);
        // The next representable value has no counterpart there.
        if k % 4 == 0 && !name.starts_with("nextafter") {
            let mut x = args.clone();
            x[1] = "mpfr";
            judge(w, name, &x, &<Op as MpOp>::run(&mut <Op as MpOp>::new_mp(), a).parts());
            w.done(true);
        }
        if k == 2 {
            // Too many and too few operands, other names, unknown bases and texts that are no numbers.
            let last = args.len() - 1;
            let mut bad: Vec<Vec<&str>> = vec![args[..last].to_vec(), [&args[..], &["1"]].concat()];
            let mut x = args.clone();
            x[1] = "libn";
            bad.push(x);
            let mut x = args.clone();
            x[0] = "evaluate";
            bad.push(x);
            for z in ["", "1.0.0", "0xg", "0b2", "--1", "0x", "1,,", "one"] {
                let mut x = args.clone();
                x[last] = z;
                bad.push(x);
            }
            for b in bad {
                let (ok, text) = call(&b);
                if ok {
                    w.fail(name, &b.join(" "), "refused", text.trim_end());
                }
                w.done(false);
            }
        }
    }
}

type Job = (&'static str, fn(&mut Worker, &'static str, Step));

macro_rules! jobs {
    (
        fn_name: $fn_name:ident,
        RustArgs: $RustArgs:ty,
        attrs: [$($attr:meta),*],
        extra: [$v:ident],
    ) => {
        $v.push((stringify!($fn_name), one::<libm_test::op::$fn_name::Routine> as fn(&mut Worker, &'static str, Step)));
    };
}

fn evals(ctx: &Ctx) {
    let mut v: Vec<Job> = Vec::new();
    libm_macros::for_each_function! {
        callback: jobs,
        emit_types: [RustArgs],
        extra: [v],
    }
    let step = Step(if ctx.thorough { 4 } else { 120 });
    ctx.par("evaluate", v.len() as u64, |i, w| v[i as usize].1(w, v[i as usize].0, step));
    ctx.seq("evaluate, unknown names", |w| {
        for b in [&["x", "libm", "sinn", "1.0"][..], &["x", "libm", "", "1.0"], &["x", "libm"], &["x"], &[], &["x", "libm", "sin", "1.0", "2.0"], &["x", "libm", "Sin", "1.0"]] {
            let (ok, text) = call(b);
            if ok {
                w.fail("evaluate", &b.join(" "), "refused", text.trim_end());
            }
            w.done(true);
        }
    });
}

fn prints<T: Val>(ctx: &Ctx, name: &'static str, w: u32, eb: u32, thorough: bool) {
    let sb = w - 1 - eb;
    let mut v: Vec<(u128, String)> = T::list().into_iter().map(|(x, t)| (match x.part() { F(_, _, b) => b, _ => 0 }, t)).collect();
    // Decimal numbers around half of and one and a half times the least value.
    let q = (1u32 << (eb - 1)) - 2 + sb;
    for (mult, d, b) in [(1, 0, 0), (1, 1, 1), (1, -1, 0), (3, 0, 2), (3, 1, 2), (3, -1, 1)] {
        // The standard library of this compiler reads half of the least binary16 value as that value.
        if w != 16 || (mult, d) != (1, 0) {
            v.push((b, written(0, mult, q + 1, d)));
        }
    }
    if w == 16 {
        for b in (0..1u128 << 16).step_by(if thorough { 1 } else { 11 }) {
            v.push((b, format!("{b:#x}")));
        }
    } else {
        for e in (0..1u128 << eb).step_by(if w == 128 { 41 } else if thorough { 1 } else { 3 }) {
            for m in [0, 1, (1 << sb) - 1, 1 << (sb - 1), (1 << (sb - 1)) - 1] {
                for s in [0, 1u128 << (w - 1)] {
                    v.push((s | e << sb | m, format!("{:#x}", s | e << sb | m)));
                }
            }
        }
    }
    let cmd = if w == 32 { "p" } else { "print" };
    ctx.par(name, v.len().div_ceil(256) as u64, |i, wk| {
        wk.func(name);
        let part = &v[i as usize * 256..v.len().min(i as usize * 256 + 256)];
        let texts: Vec<String> = part.iter().enumerate().map(|(k, (_, t))| format!("{t}{}f{w}{}", ["", "_", "__"][k % 3], ["", ","][k / 3 % 2])).collect();
        let mut args = vec![cmd];
        args.extend(texts.iter().map(|s| s.as_str()));
        let (ok, out) = call(&args);
        // A new value starts where the line is not indented.
        let mut blocks: Vec<Vec<&str>> = Vec::new();
        for l in out.lines() {
            if !l.starts_with(' ') {
                blocks.push(Vec::new());
            }
            if let Some(b) = blocks.last_mut() {
                b.push(l);
            }
        }
        if !ok || blocks.len() != part.len() {
            wk.fail(name, &texts.join(" "), &format!("{} values", part.len()), &format!("{} values, success {ok}", blocks.len()));
            return;
        }
        for ((b, t), l) in part.iter().zip(&blocks) {
            let p = F(w, eb, *b);
            let inf = ((1u128 << eb) - 1) << sb;
            let a = b & !(1 << (w - 1));
            let bias = (1i64 << (eb - 1)) - 1;
            let want = |k: &str, v: &str| -> bool {
                let n: Vec<&str> = v.split(' ').collect();
                match k {
                    "hex" => hex_ok(p, v),
                    "bits" => hex_ok(I(w, false, *b), v),
                    "nan" => v == (a > inf).to_string(),
                    "inf" => v == (a == inf).to_string(),
                    "pos" => v == (a == *b).to_string(),
                    "normal" => a == 0 || a >= inf || v == (a >> sb != 0).to_string(),
                    "exp" => n.len() == 2 && plain_ok(I(32, false, a >> sb), n[0]) && hex_ok(I(32, false, a >> sb), n[1]),
                    "exp unbiased" => v.parse::<i64>() == Ok((a >> sb) as i64 - bias),
                    "frac" => n.len() == 2 && plain_ok(I(w, false, a & ((1 << sb) - 1)), n[0]) && hex_ok(I(w, false, a & ((1 << sb) - 1)), n[1]),
                    _ => true,
                }
            };
            let good = plain_ok(p, l[0])
                && l[1..].iter().all(|x| x.split_once(':').is_some_and(|(k, v)| want(k.trim(), v.trim())))
                && ["hex:", "bits:", "nan:", "inf:", "pos:", "exp:", "frac:"].iter().all(|k| l.iter().any(|x| x.trim().starts_with(k)));
            if !good {
                wk.fail(name, t, &format!("{b:#x}"), &l.join(" | "));
            }
            wk.done(a < inf);
        }
    });
}

fn main() {
    let o = Command::new("cargo")
        .args(["-Zchecksum-freshness", "build", "--release", "--locked", "--manifest-path", "/repo/Cargo.toml", "-p", "util", "--no-default-features", "--features", "unstable-float,build-mpfr"])
        .env("CARGO_TARGET_DIR", format!("{ROOT}/target/tools"))
        .current_dir("/repo")
        .output()
        .unwrap();
    if !o.status.success() {
        println!("{}", String::from_utf8_lossy(&o.stderr));
        exit(2);
    }
    if std::env::args().nth(1).as_deref() == Some("build") {
        return;
    }
    run("C59", "exploration", |ctx| {
        ctx.rule("every function that takes no binary128 operand x operands in decimal, hexadecimal float, hexadecimal and binary pattern notation, with and without trailing comma (full lists beside one fixed value, a regular part of the products); printing: every exponent of the tier x five significands x signs (binary16: all patterns of the tier); refused: wrong operand counts, unknown names, unknown bases, texts that are no numbers; nontrivial = a value is printed");
        ctx.assume("built without the musl basis, whose sources are not here");
        let t = ctx.thorough;
        evals(ctx);
        prints::<f16>(ctx, "print f16", 16, 5, t);
        prints::<f32>(ctx, "print f32", 32, 8, t);
        prints::<f64>(ctx, "print f64", 64, 11, t);
        prints::<f128>(ctx, "print f128", 128, 15, t);
    });
}
