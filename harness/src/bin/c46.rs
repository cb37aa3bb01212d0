//! C46: hexadecimal float literals.
#![feature(f16, f128)]
use libm::support::hex_float::{parse_any, parse_hex_exact};
use libm::support::{Round, Status, hf16, hf32, hf64, hf128};
use vh::ctx::Worker;
use vh::hexf::{self, Mode};
use vh::run;

const MODES: [(Mode, Round); 4] = [(Mode::Nearest, Round::Nearest), (Mode::Negative, Round::Negative), (Mode::Positive, Round::Positive), (Mode::Zero, Round::Zero)];
const FORMATS: [(u32, u32); 4] = [(16, 10), (32, 23), (64, 52), (128, 112)];
const OTHERS: [(u32, u32); 8] = [(8, 3), (8, 2), (16, 7), (19, 10), (24, 16), (80, 63), (128, 119), (100, 97)];

fn flags(s: Status) -> u8 {
    (if s.inexact() { hexf::INEXACT } else { 0 }) | (if s.underflow() { hexf::UNDERFLOW } else { 0 }) | (if s.overflow() { hexf::OVERFLOW } else { 0 })
}

fn one(w: &mut Worker, s: &str, formats: &[(u32, u32)]) {
    let mut ok = false;
    w.text(s);
    for &(bits, sig) in formats {
        for (m, r) in MODES {
            let e = hexf::value(s.as_bytes(), bits, sig, m);
            let g = parse_any(s, bits, sig, r).ok().map(|(b, st)| (b, flags(st), st == Status::OK));
            ok |= e.is_some();
            if e.map(|(b, st)| (b, st, st == 0)) != g {
                w.fail("parse_any", &format!("{s:?} to {bits} bits with {sig} fraction bits, {r:?}"), &format!("{e:x?}"), &format!("{g:x?}"));
            }
            if m == Mode::Nearest {
                let e = e.filter(|x| x.1 == 0).map(|x| x.0);
                let g = parse_hex_exact(s, bits, sig).ok();
                if e != g {
                    w.fail("parse_hex_exact", &format!("{s:?} to {bits} bits with {sig} fraction bits"), &format!("{e:x?}"), &format!("{g:x?}"));
                }
                // the typed forms panic unless the literal is exact
                if let (Some(e), true) = (e, formats.len() == 4) {
                    let g = match bits {
                        16 => hf16(s).to_bits() as u128,
                        32 => hf32(s).to_bits() as u128,
                        64 => hf64(s).to_bits() as u128,
                        _ => hf128(s).to_bits(),
                    };
                    if g != e {
                        w.fail("hf*", &format!("{s:?} to {bits} bits"), &format!("{e:x?}"), &format!("{g:x?}"));
                    }
                }
            }
        }
    }
    w.done(ok);
}

/// All strings over an alphabet up to a length, after a prefix.
fn strings(ctx: &vh::ctx::Ctx, what: &str, prefix: &str, alphabet: &[u8], len: u32) {
    let k = alphabet.len() as u64;
    ctx.par(what, k * k + k + 1, |i, w| {
        let mut buf = prefix.as_bytes().to_vec();
        let n0 = buf.len();
        // short ones alone, the others by their first two letters
        if i <= k {
            if i < k {
                buf.push(alphabet[i as usize]);
            }
            one(w, std::str::from_utf8(&buf).unwrap(), &FORMATS);
            return;
        }
        let i = i - k - 1;
        buf.push(alphabet[(i / k) as usize]);
        buf.push(alphabet[(i % k) as usize]);
        for l in 2..=len {
            let m = l - 2;
            buf.truncate(n0 + 2);
            buf.resize(n0 + l as usize, alphabet[0]);
            for mut c in 0..k.pow(m) {
                for j in 0..m as usize {
                    buf[n0 + 2 + j] = alphabet[(c % k) as usize];
                    c /= k;
                }
                one(w, std::str::from_utf8(&buf).unwrap(), if l < 5 { &FORMATS } else { &FORMATS[..1] });
            }
        }
        w.sample(|| format!("{:?}", String::from_utf8_lossy(&buf)));
    });
}

fn main() {
    run("C46", "exploration", |ctx| {
        ctx.rule("all strings up to a length over the letters of the grammar (and some outside it), with and without the hex prefix; digit patterns of every length up to 40 with the point in every position x exponents around every limit of the format and of the exponent's own representation; 4 rounding modes; 4 standard and 8 other formats; nontrivial = accepted literal");
        let t = ctx.thorough;
        strings(ctx, "short strings", "", b"+-0xX1.pPiInNfFaA8e_ ", if t { 6 } else { 5 });
        strings(ctx, "short strings after 0x", "0x", b"018fFaA.pP+-9gG", if t { 7 } else { 6 });
        strings(ctx, "short strings after 0x.", "-0X.", b"01f.p-3", if t { 8 } else { 7 });

        // digit strings
        let mut digits: Vec<String> = vec![];
        for n in 1..=40usize {
            for (a, b, c) in [("1", "0", "0"), ("1", "0", "1"), ("f", "f", "f"), ("8", "0", "0"), ("8", "0", "8"), ("7", "f", "f"), ("1", "f", "8"), ("0", "0", "1"), ("4", "0", "c"), ("3", "f", "e"), ("2", "a", "5"), ("0", "0", "0"), ("f", "f", "8"), ("1", "f", "c")] {
                if n == 1 {
                    digits.push(a.into());
                } else {
                    digits.push(format!("{a}{}{c}", b.repeat(n - 2)));
                    // one digit in the middle
                    for k in (1..n - 1).step_by(if t { 1 } else { 3 }) {
                        if t || "14".contains(a) {
                            digits.push(format!("{a}{}{}{}{c}", b.repeat(k - 1), "8", b.repeat(n - 2 - k)));
                        }
                    }
                }
            }
        }
        digits.sort();
        digits.dedup();
        let all: Vec<(u32, u32)> = FORMATS.iter().chain(&OTHERS).copied().collect();
        ctx.par("digit patterns x exponents", (digits.len() * all.len()) as u64, |i, w| {
            let d = &digits[i as usize / all.len()];
            let f = [all[i as usize % all.len()]];
            let (bits, sig) = f[0];
            let bias = (1i64 << (bits - sig - 2)) - 1;
            let mut es = vec![];
            let width = 4 * d.len() as i64;
            for c in [0, bias - width, bias, 1 - bias, 1 - bias - sig as i64, 1 - bias - sig as i64 - width, -bias - width, bias + (1 << (bits - sig - 1)), bias + 2 * (1 << (bits - sig - 1)), 65536 - width, -65536] {
                for k in -6..=6 {
                    es.push((c + k).to_string());
                }
            }
            for c in [1i128 << 31, 1 << 32, 1 << 30, 10 << 32, 1 << 63, 1 << 64, 10_000_000_000] {
                for k in [-150i128, -120, -64, -10, -9, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 9, 10, 40, 150] {
                    es.push((c + k).to_string());
                    es.push((-c + k).to_string());
                }
            }
            es.sort();
            es.dedup();
            let n = d.len();
            let points: Vec<usize> = if t { (0..=n).collect() } else { [0, 1, n / 2, n].into_iter().collect() };
            for p in points {
                for e in &es {
                    one(w, &format!("0x{}.{}p{e}", &d[..p], &d[p..]), &f);
                }
            }
            one(w, &format!("-0x{d}p-3"), &f);
            one(w, &format!("+0X{}P+3", d.to_uppercase()), &f);
        });
        // Long literals.
        ctx.par("long literals", 64, |i, w| {
            for n in [50usize, 100, 333, 1000, 5000] {
                let z = "0".repeat(n + i as usize);
                for s in [format!("0x{z}1p0"), format!("0x1{z}p-{}", 4 * (n + i as usize)), format!("0x1.{z}1p0"), format!("0x0.{z}1p{}", 4 * n), format!("0x0.{z}8p{}", 4 * (n + i as usize) + 4), format!("0x1p{z}5"), format!("0x1p-{z}5"), format!("0x1p1{z}"), format!("0x1p-1{z}"), format!("0x.{}p0", "f".repeat(n)), format!("0x1.{}8p0", "0".repeat(n)), format!("0x0p1{z}"), format!("0x{z}.{z}p-1{z}")] {
                    one(w, &s, &FORMATS);
                }
            }
        });
    })
}
