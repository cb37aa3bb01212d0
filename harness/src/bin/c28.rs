//! C28: square root.
#![feature(f16, f128)]
use std::cmp::Ordering;
use vh::alpha::*;
use vh::fl::*;
use vh::imps1;
use vh::lm::*;
use vh::rf::*;
use vh::{Ctx, run};

/// Compares (m * 2^e)^2 with the value of x.
fn cmp_sq(f: &Fmt, x: u128, m: u128, e: i32) -> Ordering {
    let V::Fin(_, mx, ex) = f.unpack(x) else { unreachable!() };
    let (a, ea, b, eb) = (U::mul(m, m), 2 * e, U::from(mx), ex);
    // both have at most 256 bits, exponents differ by at most about 130
    let lo = ea.min(eb);
    a.shl((ea - lo) as u32).cmp(&b.shl((eb - lo) as u32))
}

fn exact(f: &Fmt, x: u128, r: u128) -> bool {
    let a = x & f.absmask();
    if a == 0 || x == f.inf(false) {
        return r == x;
    }
    if f.sign(x) || f.is_nan(x) {
        return f.is_nan(r);
    }
    !f.sign(r) && f.is_nearest(r, |m, e| cmp_sq(f, x, m, e))
}

/// Operands next to squares of midpoints between neighbouring results, and next to exact squares.
fn midpoints(f: &Fmt, roots: &[u128]) -> Vec<u128> {
    let mut v = vec![];
    for &q in roots {
        for half in [0, 1] {
            // q has sb+1 bits; the midpoint is q + 1/2
            let sq = U::mul(2 * q + half, 2 * q + half);
            let n = sq.bits();
            let m = sq.shr(n - (f.sb + 1)).lo128();
            for d in -2i128..=2 {
                let m = (m as i128 + d) as u128;
                if m >> f.sb != 1 {
                    continue;
                }
                // the parity of the exponent decides between the two ranges of roots
                let par = (n - 1) & 1;
                for e in [f.bias() as u32 - 2, f.bias() as u32, f.bias() as u32 + 2, 2, f.emax() - 3] {
                    let e = e - ((e as i32 - f.bias()) & 1 != par as i32) as u32;
                    v.push(f.make(false, e, m & f.sigmask()));
                }
            }
        }
    }
    dedup(v)
}

fn go(ctx: &Ctx, name: &'static str, f: Fmt, imps: Imps, fast: &(dyn Fn(u128, u128) -> bool + Sync)) {
    let case = |x: u128| {
        let mut last = None;
        for (b, imp) in &imps {
            let g = imp(x);
            // builds that agree are judged once
            if last != Some(g) && !fast(x, g) {
                return Err(("the correctly rounded root".to_string(), format!("{} ({b})", hex(&f, g))));
            }
            last = Some(g);
        }
        Ok(x & f.absmask() != 0 && !f.sign(x) && f.exp_field(x) != f.emax())
    };
    let u = Un { name, f, case: &case };
    let t = ctx.thorough;
    if f.sb == 10 || f.sb == 23 && t {
        u.all(ctx, 1);
        return;
    }
    u.grid(ctx, "all exponents x small", &exps_all(&f), &sig_small(f.sb));
    let mid = [f.bias() as u32 - 1, f.bias() as u32];
    let edge: Vec<u32> = exps_edge(&f, 1);
    u.grid(ctx, "both exponent parities x prefixes", &mid, &sig_grid(f.sb, if f.sb == 23 { 23 } else if f.sb > 60 { if t { 21 } else { 18 } } else if t { 24 } else { 21 }));
    u.grid(ctx, "all exponents x short prefixes", &exps_all(&f), &sig_grid(f.sb, if f.sb > 60 { 5 } else { 9 }));
    u.grid(ctx, "edge exponents x runs", &edge, &sig_allruns(f.sb));
    u.grid(ctx, "edge exponents x low weight", &edge, &sig_weight(f.sb, if f.sb > 60 || !t { 2 } else { 3 }));
    if f.sb == 52 {
        u.grid(ctx, "all exponents x runs", &exps_all(&f), &if t { sig_allruns(52) } else { sig_runs(52) });
    }
    let mut roots: Vec<u128> = sig_allruns(f.sb).into_iter().chain(sig_weight(f.sb, 2)).chain(sig_grid(f.sb, if t { 16 } else { 12 })).map(|m| m | 1 << f.sb).collect();
    for k in 0..if t { 1u128 << 16 } else { 1 << 12 } {
        roots.push((1 << f.sb) + k);
        roots.push((2 << f.sb) - 1 - k);
    }
    u.list(ctx, "neighbours of squares of midpoints and of exact squares", &midpoints(&f, &dedup(roots)));
    let mut hard = vec![];
    for x in hard_squares(f.sb + 1, if t { 20000 } else { 2000 }) {
        for e in [f.bias() as u32 - 1, f.bias() as u32, 1, 2, f.emax() - 1, f.emax() - 2] {
            hard.push(f.make(false, e, x & f.sigmask()));
        }
    }
    u.list(ctx, "operands whose root is next to a midpoint", &dedup(hard));
    // subnormal operands: every leading position
    let mut sub = vec![];
    for i in 0..f.sb {
        for p in sig_small(f.sb.min(i + 1).max(8)) {
            sub.push((1u128 << i | p & ((1 << i) - 1)) & f.sigmask());
        }
    }
    u.grid(ctx, "subnormal operands", &[0], &dedup(sub));
}

fn main() {
    run("C28", "exploration", |ctx| {
        ctx.rule("every build of the library; binary16 complete; binary32 complete in the thorough tier; others: all exponents x small significands, both exponent parities x all significand prefixes, runs, low-weight patterns, neighbours of the squares of rounding midpoints, and the operands whose roots come closest to one; nontrivial = positive finite operand");
        ctx.assume("binary32 and binary64 are judged by the processor's square root, binary16 and binary128 by exact integer comparison");
        let hw64 = |x: u128, r: u128| same(&F64, std::hint::black_box(f64::from_bits(x as u64)).sqrt().to_bits() as u128, r);
        let hw32 = |x: u128, r: u128| same(&F32, std::hint::black_box(f32::from_bits(x as u32)).sqrt().to_bits() as u128, r);
        go(ctx, "sqrtf16", F16, imps1!(sqrtf16, f16, u16), &|x, r| exact(&F16, x, r));
        go(ctx, "sqrtf", F32, imps1!(sqrtf, f32, u32), &hw32);
        go(ctx, "sqrt", F64, imps1!(sqrt, f64, u64), &hw64);
        go(ctx, "sqrtf128", F128, imps1!(sqrtf128, f128, u128), &|x, r| exact(&F128, x, r));
        // the processor's answers and the exact judgement agree
        let case = |x: u128| if exact(&F64, x, f64::from_bits(x as u64).sqrt().to_bits() as u128) { Ok(true) } else { Err(("".to_string(), "processor and integer reference disagree".to_string())) };
        Un { name: "reference self-check", f: F64, case: &case }.grid(ctx, "", &exps_edge(&F64, 1), &sig_runs(52));
    })
}
