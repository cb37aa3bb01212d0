//! Independent reader of hexadecimal float literals.

use crate::rf::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Nearest,
    Negative,
    Positive,
    Zero,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lit {
    Inf,
    Nan,
    /// significand (leading bits), exponent, whether nonzero digits follow
    Fin(u128, i128, bool),
}

fn hexd(c: u8) -> Option<u32> {
    (c as char).to_digit(16)
}

/// Sign and literal, or None if the text is not in the grammar
/// `[+-] ( inf | nan | 0x digits [. digits] p [+-] decimal )` with at least one hex digit.
pub fn read(s: &[u8]) -> Option<(bool, Lit)> {
    let (neg, s) = match s.first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    if s.eq_ignore_ascii_case(b"inf") {
        return Some((neg, Lit::Inf));
    }
    if s.eq_ignore_ascii_case(b"nan") {
        return Some((neg, Lit::Nan));
    }
    if s.len() < 2 || s[0] != b'0' || s[1] | 32 != b'x' {
        return None;
    }
    let s = &s[2..];
    let p = s.iter().position(|&c| c | 32 == b'p')?;
    let (num, ex) = (&s[..p], &s[p + 1..]);
    let point = num.iter().position(|&c| c == b'.');
    let (int, frac) = match point {
        Some(k) => (&num[..k], &num[k + 1..]),
        None => (num, &num[..0]),
    };
    if int.is_empty() && frac.is_empty() {
        return None;
    }
    let mut m = 0u128;
    let mut dropped = 0i128;
    let mut sticky = false;
    for &c in int.iter().chain(frac) {
        let d = hexd(c)? as u128;
        if m >> 120 == 0 {
            m = m << 4 | d;
        } else {
            dropped += 4;
            sticky |= d != 0;
        }
    }
    let (eneg, ex) = match ex.first() {
        Some(b'-') => (true, &ex[1..]),
        Some(b'+') => (false, &ex[1..]),
        _ => (false, ex),
    };
    if ex.is_empty() {
        return None;
    }
    let mut e = 0i128;
    for &c in ex {
        if !c.is_ascii_digit() {
            return None;
        }
        e = (e * 10 + (c - b'0') as i128).min(1 << 100);
    }
    let e = if eneg { -e } else { e } - 4 * frac.len() as i128 + dropped;
    Some((neg, Lit::Fin(m, e, sticky)))
}

pub const INEXACT: u8 = 1;
pub const UNDERFLOW: u8 = 2;
pub const OVERFLOW: u8 = 4;

/// Rounds |value| to a format of `bits` bits with `sig` fraction bits. Mode is for the magnitude.
pub fn round(m: u128, e: i128, sticky: bool, bits: u32, sig: u32, mode: Mode) -> (u128, u8) {
    let inf = ((1u128 << (bits - sig - 1)) - 1) << sig;
    let bias = (1i128 << (bits - sig - 2)) - 1;
    if m == 0 && !sticky {
        return (0, 0);
    }
    // top bit position of the value
    let top = (127 - m.leading_zeros() as i128) + e;
    // position of the last kept bit
    let lsb = (top - sig as i128).max(1 - bias - sig as i128);
    let cut = lsb - e;
    let (kept, rest, half) = if cut <= 0 {
        // exact; beyond the largest exponent only the overflow matters
        if top > bias { (1u128 << sig, false, 0) } else { (m << (-cut), false, 0) }
    } else if cut > 127 {
        (0, true, if cut == 128 && m == 1 << 127 && !sticky { 1 } else if cut == 128 && m >> 127 == 1 { 2 } else { 0 })
    } else {
        let low = m & ((1u128 << cut) - 1);
        let h = 1u128 << (cut - 1);
        let half = if low > h || low == h && sticky { 2 } else if low == h { 1 } else { 0 };
        (m >> cut, low != 0 || sticky, half)
    };
    let rest = rest || sticky;
    let up = match mode {
        Mode::Nearest => half == 2 || half == 1 && kept & 1 == 1,
        Mode::Positive => rest,
        _ => false,
    };
    let kept = kept + up as u128;
    let field = lsb + bias + sig as i128 - 1;
    // kept may carry into the next exponent, which the sum takes care of
    let over = top > bias || field as u128 + (kept >> sig) >= inf >> sig;
    if over {
        return (if matches!(mode, Mode::Nearest | Mode::Positive) { inf } else { inf - 1 }, OVERFLOW | INEXACT);
    }
    let r = ((field as u128) << sig) + kept;
    let mut st = 0;
    if rest {
        st |= INEXACT;
        if r < 1 << sig {
            st |= UNDERFLOW;
        }
    }
    (r, st)
}

/// The bits and status the literal stands for.
pub fn value(s: &[u8], bits: u32, sig: u32, mode: Mode) -> Option<(u128, u8)> {
    let (neg, l) = read(s)?;
    let inf = ((1u128 << (bits - sig - 1)) - 1) << sig;
    let mode = match mode {
        Mode::Positive if neg => Mode::Negative,
        Mode::Negative if neg => Mode::Positive,
        m => m,
    };
    let (r, st) = match l {
        Lit::Inf => (inf, 0),
        Lit::Nan => (inf | 1 << (sig - 1), 0),
        Lit::Fin(m, e, sticky) => round(m, e, sticky, bits, sig, mode),
    };
    Some((r | (neg as u128) << (bits - 1), st))
}

/// The exact bits of a literal in a format, if it is exact there.
pub fn exact(s: &str, f: &Fmt) -> Option<u128> {
    match value(s.as_bytes(), f.bits(), f.sb, Mode::Nearest) {
        Some((b, 0)) => Some(b),
        _ => None,
    }
}
