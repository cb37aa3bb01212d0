//! C26: Hexagon assembly routines, interpreted from their text.
use vh::alpha::*;
use vh::hexi::*;
use vh::rf::*;
use vh::{Ctx, Worker, run};

const RET: u32 = 0x0040_1234;
const SP: u32 = 0x7000_0800;
const STACK: u32 = 0x7000_0000;

fn machine() -> Hx {
    Hx::new(STACK, 0x900)
}

struct Rt {
    name: &'static str,
    at: usize,
}

/// Calls a routine; the registers not holding operands hold one of two patterns.
fn call(h: &mut Hx, p: &Prog, at: usize, r: &[u32], k: u64) -> Result<(), String> {
    for i in 0..32 {
        h.r[i] = if k & 1 == 0 { 0xb10c_0000 ^ (i as u32 * 0x0101_0137) } else { !(i as u32 * 0x1234_5677) };
    }
    h.p = if k & 2 == 0 { [0xff; 4] } else { [0; 4] };
    h.r[..r.len()].copy_from_slice(r);
    h.r[29] = SP;
    h.r[30] = SP + 0x40;
    h.r[31] = RET;
    h.usr = 0;
    h.lc = [k as u32 & 7, 3];
    let kept: [u32; 12] = h.r[16..28].try_into().unwrap();
    match h.run(p, at, 20_000_000)? {
        Exit::Ret(RET) => {}
        x => return Err(format!("left by {x:?}")),
    }
    if h.r[29] != SP || h.r[30] != SP + 0x40 || h.r[16..28] != kept {
        return Err("callee-saved registers changed".into());
    }
    Ok(())
}

fn lo(x: u64) -> u32 {
    x as u32
}
fn hi(x: u64) -> u32 {
    (x >> 32) as u32
}

fn broken(w: &mut Worker, name: &str, input: &str, want: &str, e: String) {
    if e.starts_with("unsupported") {
        println!("{name}: {e}");
        std::process::exit(2);
    }
    w.fail(name, input, want, &e);
}

fn div32(ctx: &Ctx, p: &Prog, rt: &Rt, kind: u8, va: &[u128], vb: &[u128], what: &str) {
    ctx.par(&format!("{} {what}", rt.name), va.len() as u64, |i, w| {
        w.func(rt.name);
        let mut h = machine();
        let a = va[i as usize] as u32;
        for (k, &b) in vb.iter().enumerate() {
            let b = b as u32;
            if b == 0 {
                continue;
            }
            w.args([a as u64, b as u64]);
            let want = match kind {
                b'q' => (a / b, 0),
                b'r' => (a % b, 0),
                b'b' => (a / b, a % b),
                b'Q' => ((a as i32).wrapping_div(b as i32) as u32, 0),
                _ => ((a as i32).wrapping_rem(b as i32) as u32, 0),
            };
            match call(&mut h, p, rt.at, &[a, b], k as u64) {
                Err(e) => broken(w, rt.name, &format!("{a:#x}, {b:#x}"), &format!("{:#x}", want.0), e),
                Ok(()) => {
                    if h.r[0] != want.0 || (kind == b'b' && h.r[1] != want.1) {
                        w.fail(rt.name, &format!("{a:#x}, {b:#x}"), &format!("{:#x} {:#x}", want.0, want.1), &format!("{:#x} {:#x}", h.r[0], h.r[1]));
                    }
                }
            }
            w.done(a > b);
        }
        w.sample(|| format!("{}: {a:#x} by {} divisors", rt.name, vb.len()));
    });
}

fn div64(ctx: &Ctx, p: &Prog, rt: &Rt, kind: u8, va: &[u128], vb: &[u128], what: &str) {
    ctx.par(&format!("{} {what}", rt.name), va.len() as u64, |i, w| {
        w.func(rt.name);
        let mut h = machine();
        let a = va[i as usize] as u64;
        for (k, &b) in vb.iter().enumerate() {
            let b = b as u64;
            if b == 0 {
                continue;
            }
            w.args([a, b]);
            let want = match kind {
                b'q' => (a / b, 0),
                b'r' => (a % b, 0),
                b'b' => (a / b, a % b),
                b'Q' => ((a as i64).wrapping_div(b as i64) as u64, 0),
                _ => ((a as i64).wrapping_rem(b as i64) as u64, 0),
            };
            match call(&mut h, p, rt.at, &[lo(a), hi(a), lo(b), hi(b)], k as u64) {
                Err(e) => broken(w, rt.name, &format!("{a:#x}, {b:#x}"), &format!("{:#x}", want.0), e),
                Ok(()) => {
                    if h.d(0) != want.0 || (kind == b'b' && h.d(2) != want.1) {
                        w.fail(rt.name, &format!("{a:#x}, {b:#x}"), &format!("{:#x} {:#x}", want.0, want.1), &format!("{:#x} {:#x}", h.d(0), h.d(2)));
                    }
                }
            }
            w.done(a > b);
        }
        w.sample(|| format!("{}: {a:#x} by {} divisors", rt.name, vb.len()));
    });
}

fn same64(g: u64, e: f64) -> bool {
    g == e.to_bits() || (e.is_nan() && f64::from_bits(g).is_nan())
}

fn want2(op: u8, x: f64, y: f64) -> f64 {
    match op {
        b'+' => x + y,
        b'-' => x - y,
        b'*' => x * y,
        b'/' => x / y,
        _ => {
            if x.is_nan() {
                y
            } else if y.is_nan() {
                x
            } else if x == y {
                // the zero of the wanted sign
                f64::from_bits(if op == b'<' { x.to_bits() | y.to_bits() } else { x.to_bits() & y.to_bits() })
            } else if (x < y) == (op == b'<') {
                x
            } else {
                y
            }
        }
    }
}

fn df2(w: &mut Worker, h: &mut Hx, p: &Prog, rt: &Rt, op: u8, a: u64, b: u64, k: u64) {
    w.args([a, b]);
    let e = want2(op, f64::from_bits(a), f64::from_bits(b));
    match call(h, p, rt.at, &[lo(a), hi(a), lo(b), hi(b)], k) {
        Err(m) => broken(w, rt.name, &format!("{a:#x}, {b:#x}"), &format!("{:#x} ({e:e})", e.to_bits()), m),
        Ok(()) => {
            let g = h.d(0);
            if !same64(g, e) {
                w.fail(rt.name, &format!("{a:#x}, {b:#x}"), &format!("{:#x} ({e:e})", e.to_bits()), &format!("{g:#x} ({:e})", f64::from_bits(g)));
            }
        }
    }
    w.done(!e.is_nan());
}

/// Pairs: every `a` with every `b`.
fn df_pairs(ctx: &Ctx, p: &Prog, rt: &Rt, op: u8, va: &[u128], vb: &[u128], what: &str) {
    ctx.par(&format!("{} {what}", rt.name), va.len() as u64, |i, w| {
        w.func(rt.name);
        let mut h = machine();
        for (k, &b) in vb.iter().enumerate() {
            df2(w, &mut h, p, rt, op, va[i as usize] as u64, b as u64, k as u64);
        }
        w.sample(|| format!("{}: {:#x} with {} second operands", rt.name, va[i as usize], vb.len()));
    });
}

/// Significand pairs at exponents `ea` and `eb(ea)`.
fn df_exps(ctx: &Ctx, p: &Prog, rt: &Rt, op: u8, ea: &[u32], eb: &(dyn Fn(u32) -> Vec<u32> + Sync), sa: &[u128], sb: &[u128], what: &str) {
    let mut l = vec![];
    for &e in ea {
        for f in eb(e) {
            l.push((e, f));
        }
    }
    ctx.par(&format!("{} {what}", rt.name), l.len() as u64, |i, w| {
        w.func(rt.name);
        let mut h = machine();
        let (e, f) = l[i as usize];
        let mut k = 0;
        for &x in sa {
            for &y in sb {
                for s in [false, true] {
                    df2(w, &mut h, p, rt, op, F64.make(k & 4 != 0, e, x) as u64, F64.make(s, f, y) as u64, k);
                    k += 1;
                }
            }
        }
        w.sample(|| format!("{}: exponent fields {e} and {f}", rt.name));
    });
}

/// Given pairs of significands (with their leading bit) at every pair of exponents.
fn df_matched(ctx: &Ctx, p: &Prog, rt: &Rt, op: u8, exps: &[(u32, u32)], sigs: &[(u128, u128)], what: &str) {
    let m = F64.sigmask();
    ctx.par(&format!("{} {what}", rt.name), sigs.len().div_ceil(16) as u64, |i, w| {
        w.func(rt.name);
        let mut h = machine();
        for (k, &(x, y)) in sigs.iter().enumerate().skip(i as usize * 16).take(16) {
            for &(e, f) in exps {
                df2(w, &mut h, p, rt, op, F64.make(k & 1 != 0, e, x & m) as u64, F64.make(k & 2 != 0, f, y & m) as u64, k as u64);
            }
        }
        w.sample(|| format!("{}: significands {:#x} and {:#x}", rt.name, sigs[i as usize * 16].0, sigs[i as usize * 16].1));
    });
}

fn sqrt64(ctx: &Ctx, p: &Prog, rt: &Rt, exps: &[u32], sigs: &[u128], what: &str) {
    ctx.par(&format!("{} {what}", rt.name), exps.len() as u64, |i, w| {
        w.func(rt.name);
        let mut h = machine();
        for (k, &s) in sigs.iter().enumerate() {
            let a = F64.make(k % 16 == 15, exps[i as usize], s) as u64;
            w.args([a]);
            let e = f64::from_bits(a).sqrt();
            match call(&mut h, p, rt.at, &[lo(a), hi(a)], k as u64) {
                Err(m) => broken(w, rt.name, &format!("{a:#x}"), &format!("{e:e}"), m),
                Ok(()) => {
                    if !same64(h.d(0), e) {
                        w.fail(rt.name, &format!("{a:#x}"), &format!("{:#x} ({e:e})", e.to_bits()), &format!("{:#x}", h.d(0)));
                    }
                }
            }
            w.done(!e.is_nan());
        }
        w.sample(|| format!("{}: exponent field {}", rt.name, exps[i as usize]));
    });
}

fn fma1(w: &mut Worker, h: &mut Hx, p: &Prog, rt: &Rt, a: u64, b: u64, c: u64, k: u64) {
    w.args([a, b, c]);
    let e = f64::from_bits(a).mul_add(f64::from_bits(b), f64::from_bits(c));
    match call(h, p, rt.at, &[lo(a), hi(a), lo(b), hi(b), lo(c), hi(c)], k) {
        Err(m) => broken(w, rt.name, &format!("{a:#x}, {b:#x}, {c:#x}"), &format!("{e:e}"), m),
        Ok(()) => {
            if !same64(h.d(0), e) {
                w.fail(rt.name, &format!("{a:#x}, {b:#x}, {c:#x}"), &format!("{:#x} ({e:e})", e.to_bits()), &format!("{:#x}", h.d(0)));
            }
        }
    }
    w.done(!e.is_nan());
}

fn sf2(w: &mut Worker, h: &mut Hx, p: &Prog, rt: &Rt, a: u32, b: u32, k: u64) {
    w.args([a as u64, b as u64]);
    let e = f32::from_bits(a) / f32::from_bits(b);
    match call(h, p, rt.at, &[a, b], k) {
        Err(m) => broken(w, rt.name, &format!("{a:#x}, {b:#x}"), &format!("{e:e}"), m),
        Ok(()) => {
            let g = h.r[0];
            if g != e.to_bits() && !(e.is_nan() && f32::from_bits(g).is_nan()) {
                w.fail(rt.name, &format!("{a:#x}, {b:#x}"), &format!("{:#x} ({e:e})", e.to_bits()), &format!("{g:#x}"));
            }
        }
    }
    w.done(!e.is_nan());
}

fn integers(ctx: &Ctx, p: &Prog, find: &dyn Fn(&[&'static str]) -> Vec<Rt>) {
    let t = ctx.thorough;
    let small: Vec<u128> = (0..if t { 2048 } else { 300 }).collect();
    let runs32 = if t { ints_allruns(32) } else { ints_runs(32) };
    let runs64 = if t { ints_runs(64) } else { ints_runs(64).into_iter().step_by(3).collect() };
    let l64 = ints_limbs(64, 16, &limb_edges(16));
    for (names, kind) in [
        (&["__hexagon_udivsi3", "__qdsp_udivsi3"][..], b'q'),
        (&["__hexagon_umodsi3", "__qdsp_umodsi3"], b'r'),
        (&["__hexagon_udivmodsi4", "__qdsp_udivmodsi4"], b'b'),
        (&["__hexagon_divsi3", "__qdsp_divsi3"], b'Q'),
        (&["__hexagon_modsi3", "__qdsp_modsi3"], b'R'),
    ] {
        for rt in find(names) {
            let sm: Vec<u128> = if kind.is_ascii_uppercase() { small.iter().flat_map(|x| [*x, x.wrapping_neg() & 0xffff_ffff]).collect() } else { small.clone() };
            div32(ctx, p, &rt, kind, &sm, &sm, "small operands");
            div32(ctx, p, &rt, kind, &runs32, &runs32, "bit runs");
            // quotients around exact multiples
            let mut va = vec![];
            for &b in ints_runs(32).iter().step_by(3) {
                for q in [1u128, 2, 3, 5, 7, 255, 256, 257, 65535, 65536, 0x5555_5555] {
                    for d in [0u128, 1, b.saturating_sub(1)] {
                        va.push((b * q).wrapping_add(d) & 0xffff_ffff);
                        va.push((b * q).wrapping_sub(1) & 0xffff_ffff);
                    }
                }
            }
            div32(ctx, p, &rt, kind, &dedup(va), &ints_runs(32).into_iter().step_by(if t { 1 } else { 4 }).collect::<Vec<_>>(), "multiples");
        }
    }
    for (names, kind) in [
        (&["__hexagon_udivdi3", "__qdsp_udivdi3"][..], b'q'),
        (&["__hexagon_umoddi3", "__qdsp_umoddi3"], b'r'),
        (&["__hexagon_udivmoddi4", "__qdsp_udivmoddi4"], b'b'),
        (&["__hexagon_divdi3", "__qdsp_divdi3"], b'Q'),
        (&["__hexagon_moddi3", "__qdsp_moddi3"], b'R'),
    ] {
        for rt in find(names) {
            let sm: Vec<u128> = small.iter().take(if t { 1000 } else { 150 }).flat_map(|x| [*x, x.wrapping_neg() & !0u64 as u128]).collect();
            div64(ctx, p, &rt, kind, &sm, &sm, "small operands");
            div64(ctx, p, &rt, kind, &runs64, &runs64, "bit runs");
            let l = if t { l64.clone() } else { l64.iter().copied().step_by(2).collect() };
            div64(ctx, p, &rt, kind, &l, &l64.iter().copied().step_by(if t { 9 } else { 31 }).collect::<Vec<_>>(), "limbs");
        }
    }
}

fn doubles(ctx: &Ctx, p: &Prog, find: &dyn Fn(&[&'static str]) -> Vec<Rt>) {
    let t = ctx.thorough;
    let sm = sig_small(52);
    let grid = values(&F64, &exps_edge(&F64, if t { 2 } else { 1 }), &sm);
    let runs = sig_runs(52);
    // subnormals of every length
    let subs: Vec<u128> = (0..52).flat_map(|i| [1u128 << i, (1 << i) - 1, (1 << i) | 1]).flat_map(|x| [x, x | 1 << 63]).collect();
    let edges: Vec<u128> = values(&F64, &[0, 1, 2, 3, 52, 53, 54, 55, 63, 64, 65, 500, 1022, 1023, 1024, 1500, 2040, 2045, 2046, 2047], &sm[..8.min(sm.len())]);
    let wide: Vec<u32> = if t { (0..2048).collect() } else { (0..2048).step_by(3).chain([0, 1, 2, 2045, 2046, 2047]).collect() };
    for (names, op) in [
        (&["__hexagon_adddf3", "__qdsp_adddf3", "__hexagon_fast_adddf3", "__hexagon_fast2_adddf3"][..], b'+'),
        (&["__hexagon_subdf3", "__qdsp_subdf3", "__hexagon_fast_subdf3", "__hexagon_fast2_subdf3"], b'-'),
        (&["__hexagon_muldf3", "__qdsp_muldf3", "__hexagon_fast_muldf3", "__hexagon_fast2_muldf3"], b'*'),
        (&["__hexagon_divdf3", "__qdsp_divdf3", "__hexagon_fast_divdf3", "__hexagon_fast2_divdf3"], b'/'),
        (&["__hexagon_mindf3", "__qdsp_mindf3"], b'<'),
        (&["__hexagon_maxdf3", "__qdsp_maxdf3"], b'>'),
    ] {
        for rt in find(names) {
            df_pairs(ctx, p, &rt, op, &grid, &grid, "class edges");
            if op == b'<' || op == b'>' {
                continue;
            }
            df_pairs(ctx, p, &rt, op, &subs, &edges, "subnormal first");
            df_pairs(ctx, p, &rt, op, &edges, &subs, "subnormal second");
            let near = |e: u32| -> Vec<u32> { (e.saturating_sub(70)..=(e + 70).min(2047)).collect() };
            match op {
                b'+' | b'-' => {
                    df_exps(ctx, p, &rt, op, &[1, 60, 1023, 2046], &near, &sm, &sm, "exponent distances x small significands");
                    df_exps(ctx, p, &rt, op, &[1, 1023, 2046], &|e| (0..=60).step_by(if t { 1 } else { 7 }).filter_map(|d| e.checked_sub(d)).chain([e]).collect(), &runs, &runs[..], "near exponents x runs");
                }
                b'*' => {
                    df_exps(ctx, p, &rt, op, &[0, 1, 64, 511, 1023, 1024, 1535, 2046], &|_| wide.clone(), &sm[..if t { sm.len() } else { 7 }], &sm, "exponents x small significands");
                    // sums of exponents at the ends of the range
                    df_exps(ctx, p, &rt, op, &[300, 700, 1022, 1100, 1700], &|e| ((1023i32 - 60)..(1023 + 8)).chain(2046 + 1018..2046 + 1028).map(|s| s - e as i32).filter(|x| (1..2047).contains(x)).map(|x| x as u32).collect(), &runs, &runs[..if t { runs.len() } else { 60 }], "ends of the range x runs");
                    df_exps(ctx, p, &rt, op, &[1023], &|_| vec![1023], &sig_runs(52), &sig_runs(52), "runs");
                    let under: Vec<_> = (0..=57).step_by(if t { 1 } else { 2 }).map(|d| (500, 1023 - 500 + 2 - d)).chain([(1023, 1023)]).collect();
                    df_matched(ctx, p, &rt, op, &under, &hard_products(53, if t { 18 } else { 15 }, 5), "products beside short patterns");
                }
                _ => {
                    df_exps(ctx, p, &rt, op, &[0, 1, 64, 511, 1023, 1024, 1535, 2046], &|_| wide.clone(), &sm[..if t { sm.len() } else { 7 }], &sm, "exponents x small significands");
                    df_exps(ctx, p, &rt, op, &[1023, 5, 2040, 1500], &|e| ((-1022i32 - 60)..-1010).chain(1010..1030).chain([0]).map(|s| e as i32 - s).filter(|x| (1..2047).contains(x)).map(|x| x as u32).collect(), &runs, &runs[..if t { runs.len() } else { 60 }], "ends of the range x runs");
                    df_exps(ctx, p, &rt, op, &[1023], &|_| vec![1023], &sig_runs(52), &sig_runs(52), "runs");
                    df_exps(ctx, p, &rt, op, &[1023, 1024], &|_| vec![1023], &sig_grid(52, if t { 10 } else { 7 }), &sig_grid(52, if t { 10 } else { 7 }), "prefixes");
                    let under: Vec<_> = (0..=57).step_by(if t { 1 } else { 2 }).map(|d| (500, 500 + 1023 - 2 + d)).collect();
                    df_matched(ctx, p, &rt, op, &under, &hard_quotients(53, &sig_grid(52, if t { 6 } else { 4 }), &(1..=54).collect::<Vec<_>>()), "quotients beside short patterns");
                    df_matched(ctx, p, &rt, op, &[(1023, 1023)], &hard_quotients(53, &sig_grid(52, if t { 18 } else { 16 }), &[53, 54]), "quotients beside rounding boundaries");
                }
            }
        }
    }
    for rt in find(&["__hexagon_sqrtdf2", "__hexagon_sqrt", "__qdsp_sqrtdf2", "__qdsp_sqrt", "__hexagon_fast_sqrtdf2", "__hexagon_fast_sqrt", "__hexagon_fast2_sqrtdf2", "__hexagon_fast2_sqrt"]) {
        sqrt64(ctx, p, &rt, &exps_all(&F64), &runs, "exponents x runs");
        sqrt64(ctx, p, &rt, &[1, 2, 1022, 1023, 1024, 2045, 2046], &sig_top(52, if t { 16 } else { 12 }), "prefixes");
        sqrt64(ctx, p, &rt, &[1, 2, 1022, 1023, 2045, 2046], &hard_squares(53, if t { 10000 } else { 2000 }).into_iter().map(|x| x & F64.sigmask()).collect::<Vec<_>>(), "roots next to a midpoint");
        // squares of 27-bit numbers and their neighbours
        let n = if t { 1 << 20 } else { 1 << 16 };
        ctx.par(&format!("{} squares", rt.name), n / 1024, |i, w| {
            w.func(rt.name);
            let mut h = machine();
            for j in 0..1024 {
                let r = (1u64 << 26) + (i * 1024 + j) * ((1 << 26) / n);
                for d in [-1i64, 0, 1] {
                    let a = ((r * r) as f64).to_bits().wrapping_add(d as u64);
                    w.args([a]);
                    let e = f64::from_bits(a).sqrt();
                    match call(&mut h, p, rt.at, &[lo(a), hi(a)], j) {
                        Err(m) => broken(w, rt.name, &format!("{a:#x}"), &format!("{e:e}"), m),
                        Ok(()) => {
                            if !same64(h.d(0), e) {
                                w.fail(rt.name, &format!("{a:#x}"), &format!("{:#x} ({e:e})", e.to_bits()), &format!("{:#x}", h.d(0)));
                            }
                        }
                    }
                    w.done(true);
                }
            }
        });
    }
    let few: Vec<u128> = vec![0, 1, 1 << 51, (1 << 52) - 1, (1 << 51) | 1, 0x5_5555_5555_5555, (1 << 26) | 1, (1 << 52) - 2];
    for rt in find(&["__hexagon_fmadf4", "__hexagon_fmadf5", "__qdsp_fmadf5"]) {
        let cls = values(&F64, &[0, 1, 2, 54, 512, 1023, 1535, 2046, 2047], &[0, 1, 1 << 51, (1 << 52) - 1]);
        let cls3 = if t { cls.clone() } else { cls.iter().copied().step_by(3).collect() };
        ctx.par(&format!("{} class edges", rt.name), (cls.len() * cls.len()) as u64, |i, w| {
            w.func(rt.name);
            let mut h = machine();
            let (a, b) = (cls[i as usize / cls.len()], cls[i as usize % cls.len()]);
            for (k, &c) in cls3.iter().enumerate() {
                fma1(w, &mut h, p, &rt, a as u64, b as u64, c as u64, k as u64);
            }
        });
        // exponent of the product against that of the addend
        let ab: Vec<(u32, u32)> = vec![(1023, 1023), (1500, 1569), (2046, 1022), (1, 1023), (30, 1000), (500, 540), (300, 700), (0, 1040), (0, 1100), (1070, 0), (2046, 2), (1535, 1535), (512, 512)];
        let ds: Vec<i32> = if t { (-140..=140).collect() } else { (-132..=132).collect() };
        ctx.par(&format!("{} exponent distances", rt.name), (ab.len() * ds.len()) as u64, |i, w| {
            w.func(rt.name);
            let mut h = machine();
            let (ea, eb) = ab[i as usize / ds.len()];
            let ec = ea as i32 + eb as i32 - 1023 + ds[i as usize % ds.len()];
            if !(0..2047).contains(&ec) {
                return;
            }
            let mut k = 0;
            for &x in &few {
                for &y in &few {
                    for &z in &few {
                        for s in [false, true] {
                            fma1(w, &mut h, p, &rt, F64.make(k & 8 != 0, ea, x) as u64, F64.make(k & 16 != 0, eb, y) as u64, F64.make(s, ec as u32, z) as u64, k);
                            k += 1;
                        }
                    }
                }
            }
            w.sample(|| format!("{}: exponent fields {ea}, {eb}, {ec}", rt.name));
        });
        // products of a short pattern and a last few bits far below
        let hard: Vec<(u128, u128)> = hard_products(53, if t { 14 } else { 10 }, 6).into_iter().step_by(if t { 1 } else { 2 }).collect();
        ctx.par(&format!("{} products beside short patterns", rt.name), hard.len() as u64, |i, w| {
            w.func(rt.name);
            let mut h = machine();
            let (x, y) = (hard[i as usize].0 & F64.sigmask(), hard[i as usize].1 & F64.sigmask());
            let mut k = i;
            for (ea, eb) in [(1023, 1023), (500, 523), (500, 500), (500, 480), (600, 371)] {
                let mid = ea + eb - 1023;
                for ec in (mid - 110..=mid + 58).filter(|e| (0..2047).contains(e)).step_by(if t { 1 } else { 3 }) {
                    for z in [0, 1, F64.sigmask()] {
                        fma1(w, &mut h, p, &rt, F64.make(false, ea as u32, x) as u64, F64.make(k & 1 != 0, eb as u32, y) as u64, F64.make(k & 2 != 0, ec as u32, z) as u64, k);
                        k += 1;
                    }
                }
            }
        });
        // cancellation: the addend is the negated rounded product or a neighbour
        let s2 = if t { sig_runs(52) } else { sig_runs(52).into_iter().step_by(2).collect() };
        ctx.par(&format!("{} cancellation", rt.name), s2.len() as u64, |i, w| {
            w.func(rt.name);
            let mut h = machine();
            let mut k = 0;
            for &y in &s2 {
                for (ea, eb) in [(1023, 1023), (500, 600), (3, 1023), (0, 1060), (500, 523), (500, 500), (600, 376), (600, 371)] {
                    let (a, b) = (F64.make(k & 8 != 0, ea, s2[i as usize]) as u64, F64.make(k & 16 != 0, eb, y) as u64);
                    let c = (-(f64::from_bits(a) * f64::from_bits(b))).to_bits();
                    for d in [-2i64, -1, 0, 1, 2] {
                        fma1(w, &mut h, p, &rt, a, b, c.wrapping_add(d as u64), k);
                        k += 1;
                    }
                }
            }
        });
    }
}

fn singles(ctx: &Ctx, p: &Prog, find: &dyn Fn(&[&'static str]) -> Vec<Rt>) {
    let t = ctx.thorough;
    for rt in find(&["__hexagon_divsf3", "__qdsp_divsf3", "__hexagon_fast_divsf3", "__hexagon_fast2_divsf3"]) {
        let v = values(&F32, &exps_all(&F32).into_iter().step_by(if t { 1 } else { 2 }).chain([1, 253, 255]).collect::<Vec<_>>(), &sig_small(23)[..if t { 12 } else { 6 }]);
        ctx.par(&format!("{} exponents x small significands", rt.name), v.len() as u64, |i, w| {
            w.func(rt.name);
            let mut h = machine();
            for (k, &b) in v.iter().enumerate().skip((i & 1) as usize).step_by(if t { 1 } else { 2 }) {
                sf2(w, &mut h, p, &rt, v[i as usize] as u32, b as u32, k as u64);
            }
            w.sample(|| format!("{}: {:#x} by {} divisors", rt.name, v[i as usize], v.len()));
        });
        let s = if t { sig_top(23, 11) } else { sig_top(23, 7) };
        for (ea, eb) in [(127, 127), (3, 128), (250, 125), (1, 140)] {
            ctx.par(&format!("{} prefixes at {ea}, {eb}", rt.name), s.len() as u64, |i, w| {
                w.func(rt.name);
                let mut h = machine();
                for (k, &y) in s.iter().enumerate() {
                    sf2(w, &mut h, p, &rt, F32.make(false, ea, s[i as usize]) as u32, F32.make(true, eb, y) as u32, k as u64);
                }
            });
        }
    }
    for rt in find(&["__hexagon_divsf3", "__qdsp_divsf3", "__hexagon_fast_divsf3", "__hexagon_fast2_divsf3"]) {
        let m = F32.sigmask();
        let q = hard_quotients(24, &sig_grid(23, if t { 8 } else { 5 }), &(1..=25).collect::<Vec<_>>());
        ctx.par(&format!("{} quotients beside short patterns", rt.name), q.len().div_ceil(16) as u64, |i, w| {
            w.func(rt.name);
            let mut h = machine();
            for (k, &(x, y)) in q.iter().enumerate().skip(i as usize * 16).take(16) {
                for d in 0..=28 {
                    sf2(w, &mut h, p, &rt, F32.make(k & 1 != 0, 60, x & m) as u32, F32.make(false, 185 + d, y & m) as u32, k as u64);
                }
            }
        });
        let q = hard_quotients(24, &sig_grid(23, if t { 22 } else { 18 }), &[24, 25]);
        ctx.par(&format!("{} quotients beside rounding boundaries", rt.name), q.len().div_ceil(64) as u64, |i, w| {
            w.func(rt.name);
            let mut h = machine();
            for (k, &(x, y)) in q.iter().enumerate().skip(i as usize * 64).take(64) {
                sf2(w, &mut h, p, &rt, F32.make(k & 1 != 0, 127, x & m) as u32, F32.make(false, 127, y & m) as u32, k as u64);
            }
        });
    }
    for rt in find(&["__hexagon_sqrtf", "__qdsp_sqrtf", "__hexagon_fast_sqrtf", "__hexagon_fast2_sqrtf"]) {
        let step = if t { 7 } else { 509 };
        let n = (1u64 << 32) / step / 4096;
        ctx.par(&format!("{} bit patterns", rt.name), n, |i, w| {
            w.func(rt.name);
            let mut h = machine();
            for j in 0..4096 {
                let a = ((i * 4096 + j) * step) as u32;
                w.args([a as u64]);
                let e = f32::from_bits(a).sqrt();
                match call(&mut h, p, rt.at, &[a], j) {
                    Err(m) => broken(w, rt.name, &format!("{a:#x}"), &format!("{e:e}"), m),
                    Ok(()) => {
                        let g = h.r[0];
                        if g != e.to_bits() && !(e.is_nan() && f32::from_bits(g).is_nan()) {
                            w.fail(rt.name, &format!("{a:#x}"), &format!("{:#x} ({e:e})", e.to_bits()), &format!("{g:#x}"));
                        }
                    }
                }
                w.done(!e.is_nan());
            }
        });
        let v = values(&F32, &exps_all(&F32), &sig_runs(23));
        ctx.par(&format!("{} exponents x runs", rt.name), v.len() as u64 / 256 + 1, |i, w| {
            w.func(rt.name);
            let mut h = machine();
            for &a in v.iter().skip(i as usize * 256).take(256) {
                let a = a as u32;
                w.args([a as u64]);
                let e = f32::from_bits(a).sqrt();
                match call(&mut h, p, rt.at, &[a], i) {
                    Err(m) => broken(w, rt.name, &format!("{a:#x}"), &format!("{e:e}"), m),
                    Ok(()) => {
                        let g = h.r[0];
                        if g != e.to_bits() && !(e.is_nan() && f32::from_bits(g).is_nan()) {
                            w.fail(rt.name, &format!("{a:#x}"), &format!("{:#x} ({e:e})", e.to_bits()), &format!("{g:#x}"));
                        }
                    }
                }
                w.done(!e.is_nan());
            }
        });
    }
}

fn copies(ctx: &Ctx, p: &Prog, find: &dyn Fn(&[&'static str]) -> Vec<Rt>) {
    let t = ctx.thorough;
    let fill = |h: &mut Hx| {
        for (i, b) in h.mem.iter_mut().enumerate() {
            *b = ((i as u32).wrapping_mul(0x9e37_79b1) >> 24) as u8;
        }
    };
    let base = 0x2000_0000u32;
    let judge = |w: &mut Worker, rt: &Rt, h: &mut Hx, before: &[u8], dst: u32, src: u32, n: u32, e: Result<(), String>| {
        let input = format!("dst {dst:#x}, src {src:#x}, {n} bytes");
        if let Err(e) = e {
            broken(w, rt.name, &input, "a copy", e);
            return;
        }
        let mut want = before.to_vec();
        let (d, s) = ((dst - base) as usize, (src - base) as usize);
        want[d..d + n as usize].copy_from_slice(&before[s..s + n as usize]);
        if let Some(i) = (0..want.len()).find(|&i| want[i] != h.mem[i]) {
            w.fail(rt.name, &input, &format!("{:#x} at {:#x}", want[i], base + i as u32), &format!("{:#x}", h.mem[i]));
        }
        if n > 0 && h.seen.0 != !0 && (h.seen.0 < src || h.seen.1 >= src + n) {
            w.fail(rt.name, &input, "reads inside the source only", &format!("read of {:#x}..={:#x}", h.seen.0, h.seen.1));
        }
    };
    for rt in find(&["__hexagon_memcpy_likely_aligned_min32bytes_mult8bytes", "__qdsp_memcpy_likely_aligned_min32bytes_mult8bytes", "__hexagon_memcpy_dwloop"]) {
        let aligned_only = rt.name == "__hexagon_memcpy_dwloop";
        let sizes: Vec<u32> = (4..if t { 600 } else { 140 }).map(|x| x * 8).chain([4096, 8192, 8200]).collect();
        ctx.par(rt.name, sizes.len() as u64, |i, w| {
            w.func(rt.name);
            let n = sizes[i as usize];
            for da in 0..16u32 {
                for sa in 0..16u32 {
                    if aligned_only && (da % 8 != 0 || sa % 8 != 0) {
                        continue;
                    }
                    for first in [false, true] {
                        let mut h = Hx::new(base, (2 * n + 128) as usize);
                        fill(&mut h);
                        let before = h.mem.clone();
                        let (dst, src) = if first { (base + 16 + da, base + 64 + n + sa) } else { (base + 64 + n + da, base + 16 + sa) };
                        w.args([dst as u64, src as u64, n as u64]);
                        let e = copy_call(&mut h, p, &rt, &[dst, src, n], Some(dst));
                        judge(w, &rt, &mut h, &before, dst, src, n, e);
                        w.done((da | sa) % 8 == 0);
                    }
                }
            }
        });
    }
    for rt in find(&["hexagon_memcpy_forward_vp4cp4n2"]) {
        let words: Vec<u32> = if t { (0..1200).chain(2040..2060).chain([3071, 3072, 3073, 4095, 4096, 4097]).collect() } else { (0..70).chain(1016..1032).chain([2047, 2048, 2049, 2100, 3072]).collect() };
        ctx.par(rt.name, words.len() as u64, |i, w| {
            w.func(rt.name);
            let n = words[i as usize];
            for so in (0..18u32).chain(1015..1024).chain([33, 255, 511, 512, 513]) {
                for dof in 0..3u32 {
                    for first in [false, true] {
                        let mut h = Hx::new(base, (2 * (4 * n + 4096) + 64) as usize & !7);
                        fill(&mut h);
                        let before = h.mem.clone();
                        let (dst, src) = if first { (base + 8 + 4 * dof, base + 4 * so + ((4 * n + 24 + 4095) & !4095)) } else { (base + 4096 + 4 * (n + 4 + dof), base + 4 * so) };
                        if (src - base + 4 * n) as usize > h.mem.len() || (dst - base + 4 * n) as usize > h.mem.len() {
                            continue;
                        }
                        w.args([dst as u64, src as u64, n as u64]);
                        let e = copy_call(&mut h, p, &rt, &[dst, src, n], None);
                        judge(w, &rt, &mut h, &before, dst, src, 4 * n, e);
                        w.done(n > 0);
                    }
                }
            }
        });
    }
}

/// A copy routine; a jump to `memcpy` must pass the operands on unchanged and is then carried out.
fn copy_call(h: &mut Hx, p: &Prog, rt: &Rt, r: &[u32], ret: Option<u32>) -> Result<(), String> {
    for i in 0..32 {
        h.r[i] = 0xb10c_0000 ^ (i as u32 * 0x0101_0137);
    }
    h.r[..3].copy_from_slice(r);
    h.r[31] = RET;
    h.r[29] = SP;
    let kept: [u32; 15] = h.r[16..31].try_into().unwrap();
    match h.run(p, rt.at, 20_000_000)? {
        Exit::Ret(RET) => {
            if ret.is_some_and(|x| h.r[0] != x) {
                return Err(format!("returned {:#x}", h.r[0]));
            }
        }
        Exit::Ext(n) if n == "memcpy" && ret.is_some() => {
            if h.r[..3] != *r || h.r[31] != RET {
                return Err(format!("memcpy called with {:#x?}, return to {:#x}", &h.r[..3], h.r[31]));
            }
            let (d, s, n) = ((r[0] - h.base) as usize, (r[1] - h.base) as usize, r[2] as usize);
            h.mem.copy_within(s..s + n, d);
        }
        x => return Err(format!("left by {x:?}")),
    }
    if h.r[16..31] != kept {
        return Err("callee-saved registers changed".into());
    }
    Ok(())
}

/// Register save and restore stubs.
fn stubs(ctx: &Ctx, p: &Prog, find: &dyn Fn(&[&'static str]) -> Vec<Rt>) {
    // name, first pair, last pair, whether the last pair lies next to the frame pointer
    let mut l: Vec<(&'static str, usize, usize, bool)> = vec![];
    macro_rules! both {
        ($($a:literal $b:literal),*) => {$(
            l.push((concat!("__save_r", $a, "_through_r", $b), $a / 2, $b / 2, false));
            l.push((concat!("__restore_r", $a, "_through_r", $b, "_and_deallocframe"), $a / 2, $b / 2, false));
            l.push((concat!("__restore_r", $a, "_through_r", $b, "_and_deallocframe_before_tailcall"), $a / 2, $b / 2, false));
        )*};
    }
    both!(16 17, 16 19, 16 21, 16 23, 16 25, 16 27, 24 25, 24 27);
    macro_rules! legacy {
        ($($a:literal),*) => {$(
            if $a != 26 {
                l.push((concat!("__save_r27_through_r", $a), $a / 2, 13, true));
            }
            l.push((concat!("__restore_r27_through_r", $a, "_and_deallocframe"), $a / 2, 13, true));
            l.push((concat!("__restore_r27_through_r", $a, "_and_deallocframe_before_sibcall"), $a / 2, 13, true));
        )*};
    }
    legacy!(16, 18, 20, 22, 24, 26);
    l.push(("__deallocframe", 8, 7, false));
    for (name, first, last, top) in l {
        for rt in find(&[name]) {
            ctx.par(name, 64, |k, w| {
                w.func(name);
                let mut h = machine();
                for (i, b) in h.mem.iter_mut().enumerate() {
                    *b = (i as u64 * 7 + k * 13 + 1) as u8;
                }
                for i in 0..32 {
                    h.r[i] = (0x5a00_0000u32 ^ (i as u32 * 0x0103_0711)).rotate_left(k as u32);
                }
                let fp = SP - 0x100 + 8 * (k as u32 % 8);
                h.r[30] = fp;
                h.r[29] = fp - 64;
                h.r[31] = RET;
                let (ofp, olr) = (0x7000_0f00u32 + k as u32, 0x0055_0000u32 + 4 * k as u32);
                h.store(fp, 8, (olr as u64) << 32 | ofp as u64).unwrap();
                w.args([k]);
                let off = |j: usize| fp - 8 * (if top { 14 - j } else { j - first + 1 }) as u32;
                let (r0, m0) = (h.r, h.mem.clone());
                let save = name.starts_with("__save");
                let tail = name.contains("before");
                let (mut want, mut wm) = (r0, m0);
                let mut to = RET;
                if save {
                    for j in first..=last {
                        let o = (off(j) - STACK) as usize;
                        wm[o..o + 8].copy_from_slice(&((r0[2 * j + 1] as u64) << 32 | r0[2 * j] as u64).to_le_bytes());
                    }
                } else {
                    for j in first..=last {
                        let v = h.load(off(j), 8).unwrap();
                        want[2 * j] = v as u32;
                        want[2 * j + 1] = (v >> 32) as u32;
                    }
                    (want[29], want[30], want[31]) = (fp + 8, ofp, olr);
                    if !tail {
                        to = olr;
                    }
                }
                match h.run(p, rt.at, 1000) {
                    Err(e) => broken(w, name, &format!("case {k}"), "return", e),
                    Ok(x) => {
                        if x != Exit::Ret(to) {
                            w.fail(name, &format!("case {k}"), &format!("return to {to:#x}"), &format!("{x:?}"));
                        }
                        if let Some(i) = (0..32).find(|&i| h.r[i] != want[i]) {
                            w.fail(name, &format!("case {k}"), &format!("r{i} = {:#x}", want[i]), &format!("{:#x}", h.r[i]));
                        }
                        if let Some(i) = (0..wm.len()).find(|&i| h.mem[i] != wm[i]) {
                            w.fail(name, &format!("case {k}"), &format!("byte {:#x} at frame pointer {:+}", wm[i], i as i64 + STACK as i64 - fp as i64), &format!("{:#x}", h.mem[i]));
                        }
                    }
                }
                w.done(true);
            });
        }
    }
}

/// Value m * 2^(e - 63) of the fixed-point formats, compared exactly through scaled integers.
struct Q {
    m: i128,
    e: i64,
}

/// |a - b| <= t * 2^te, decided for terms within 60 binary orders of each other.
fn close(a: &[(i128, i64)], t: &[(i128, i64)]) -> bool {
    // scale everything by the smallest exponent, but drop what is far below the tolerance
    let hi = a.iter().chain(t).filter(|x| x.0 != 0).map(|x| x.1 + 128 - x.0.unsigned_abs().leading_zeros() as i64).max().unwrap_or(0);
    let base = hi - 120;
    let sc = |v: &(i128, i64)| if v.1 >= base { v.0 << (v.1 - base) } else if base - v.1 >= 127 { v.0.signum().min(0) } else { v.0 >> (base - v.1) };
    let d: i128 = a.iter().map(sc).sum();
    let tt: i128 = t.iter().map(sc).sum();
    d.abs() <= tt + 8
}

fn fast(ctx: &Ctx, p: &Prog, find: &dyn Fn(&[&'static str]) -> Vec<Rt>) {
    let t = ctx.thorough;
    // normalized mantissas
    let mut ms: Vec<i64> = vec![];
    for x in sig_runs(46).into_iter().step_by(if t { 1 } else { 5 }) {
        let v = (1i64 << 62) | ((x as i64) << 16);
        ms.push(v);
        ms.push(-v);
    }
    ms.push(i64::MIN);
    ms.push(0);
    let es: Vec<i64> = (-70..=70).step_by(if t { 1 } else { 3 }).chain([-2, -1, 0, 1, 63, 64, 62]).collect();
    let ms2: Vec<i64> = ms.iter().copied().step_by(if t { 3 } else { 4 }).collect();
    for (name, op, long) in [("__hexagon_fast2_dadd_asm", b'+', false), ("__hexagon_fast2_dsub_asm", b'-', false), ("__hexagon_fast2_dmpy_asm", b'*', false), ("__hexagon_fast2ldadd_asm", b'+', true), ("__hexagon_fast2ldsub_asm", b'-', true), ("__hexagon_fast2ldmpy_asm", b'*', true)] {
        for rt in find(&[name]) {
            ctx.par(name, (ms.len() * es.len()) as u64, |i, w| {
                w.func(name);
                let mut h = machine();
                let m1 = ms[i as usize / es.len()];
                let d = es[i as usize % es.len()];
                for (k, &m2) in ms2.iter().enumerate() {
                    for e2 in [0i64, 900, -900] {
                        let e1 = e2 + d;
                        let zero = if long { -0x7fff_ffff } else { -0x7fff };
                        let (e1, e2) = (if m1 == 0 { zero } else { e1 }, if m2 == 0 { zero } else { e2 });
                        w.args([m1 as u64, e1 as u64, m2 as u64, e2 as u64]);
                        let input = || format!("{m1:#x} * 2^{e1}, {m2:#x} * 2^{e2}");
                        let out = SP - 0x80;
                        let r = if long {
                            let mut s = || -> Result<(), String> {
                                h.store(SP, 8, m1 as u64)?;
                                h.store(SP + 8, 4, e1 as u64)?;
                                h.store(SP + 16, 8, m2 as u64)?;
                                h.store(SP + 24, 4, e2 as u64)
                            };
                            s().unwrap();
                            call(&mut h, p, rt.at, &[out], k as u64)
                        } else {
                            let (a, b) = (m1 as u64 | e1 as u16 as u64, m2 as u64 | e2 as u16 as u64);
                            call(&mut h, p, rt.at, &[lo(a), hi(a), lo(b), hi(b)], k as u64)
                        };
                        if let Err(e) = r {
                            broken(w, name, &input(), "a result", e);
                            continue;
                        }
                        let g = if long {
                            Q { m: h.load(out, 8).unwrap() as i64 as i128, e: h.load(out + 8, 4).unwrap() as i32 as i64 }
                        } else {
                            let g = h.d(0);
                            Q { m: (g & !0xffff) as i64 as i128, e: g as u16 as i16 as i64 }
                        };
                        // units: last kept bit of the result and of the aligned operands
                        let ulp = if long { 0 } else { 16 };
                        let ok = if op == b'*' {
                            if m1 == 0 || m2 == 0 {
                                g.m == 0
                            } else {
                                let (pm, pe) = (m1 as i128 * m2 as i128, e1 + e2 - 63);
                                let norm = g.m as i64 == i64::MIN || (g.m.unsigned_abs() >> 62) == 1;
                                norm && close(&[(pm >> 6, pe + 6), (-g.m, g.e)], &[(1 << ulp, g.e), (4, e1 + e2)])
                            }
                        } else {
                            let em = e1.max(e2);
                            let sm2 = if op == b'-' { -(m2 as i128) } else { m2 as i128 };
                            let tiny = (1i128 << 7, em + 1);
                            if g.m == 0 {
                                g.e == zero && (close(&[(m1 as i128, e1), (sm2, e2)], &[tiny]))
                            } else {
                                let norm = g.m as i64 == i64::MIN || (g.m.unsigned_abs() >> 62) == 1 || g.m == -(1i128 << 62);
                                norm && close(&[(m1 as i128, e1), (sm2, e2), (-g.m, g.e)], &[(1 << ulp, g.e), (2, em + 1)])
                            }
                        };
                        if !ok {
                            w.fail(name, &input(), "the result truncated to the format, normalized", &format!("{:#x} * 2^{}", g.m, g.e));
                        }
                        w.done(m1 != 0 && m2 != 0);
                    }
                }
            });
        }
    }
    for rt in find(&["__hexagon_fast2_f2qd_asm"]) {
        let v = values(&F32, &(0..255).collect::<Vec<_>>(), &sig_runs(23));
        ctx.par(rt.name, v.len() as u64 / 512 + 1, |i, w| {
            w.func(rt.name);
            let mut h = machine();
            for &a in v.iter().skip(i as usize * 512).take(512) {
                let a = a as u32;
                let x = f32::from_bits(a);
                // subnormal numbers have no counterpart in the conversion
                if x != 0.0 && !x.is_normal() {
                    continue;
                }
                w.args([a as u64]);
                if let Err(e) = call(&mut h, p, rt.at, &[a], i) {
                    broken(w, rt.name, &format!("{a:#x}"), "a result", e);
                    continue;
                }
                let g = h.d(0);
                let want = if x == 0.0 {
                    0x8001
                } else {
                    let m = ((a & 0x7f_ffff | 0x80_0000) as i64) << 39;
                    let m = if x < 0.0 { -m } else { m };
                    m as u64 | (((a >> 23 & 0xff) as i32 - 126) as u16 as u64)
                };
                if g != want {
                    w.fail(rt.name, &format!("{a:#x}"), &format!("{want:#x}"), &format!("{g:#x}"));
                }
                w.done(true);
            }
        });
    }
    for rt in find(&["__hexagon_fast2_qd2f_asm"]) {
        let mut ms = vec![];
        for x in sig_runs(30) {
            for l in [0i64, 1 << 16, 0x7fff_0000, 0x8000_0000, 0xffff_0000] {
                let v = (1i64 << 62) | ((x as i64) << 32) | l;
                ms.push(v);
                ms.push(-v & !0xffff);
            }
        }
        ctx.par(rt.name, ms.len() as u64, |i, w| {
            w.func(rt.name);
            let mut h = machine();
            let m = ms[i as usize];
            for e in (-125..=126).step_by(if t { 1 } else { 5 }).chain([-125, 125, 126]) {
                let a = m as u64 | e as u16 as u64;
                w.args([a]);
                if let Err(x) = call(&mut h, p, rt.at, &[lo(a), hi(a)], i) {
                    broken(w, rt.name, &format!("{a:#x}"), "a result", x);
                    continue;
                }
                let g = f32::from_bits(h.r[0]) as f64;
                let v = m as f64 * 2f64.powi(e - 63);
                // half a unit of the last place, and the low word is dropped
                let u = 2f64.powi(e - 24);
                if !((g - v).abs() <= u * (0.5 + 1.0 / 64.0)) {
                    w.fail(rt.name, &format!("{a:#x}"), &format!("{v:e} within half a unit"), &format!("{g:e}"));
                }
                w.done(true);
            }
        });
    }
}

#[allow(dead_code)]
fn main() {
    go("C26", true)
}

/// The arithmetic routines, or (C58) the copies and the save/restore stubs.
pub fn go(id: &'static str, arith: bool) {
    run(id, "exploration", |ctx| {
        ctx.rule(if arith {
            "integer division: small operands, bit runs, limb patterns, neighbours of multiples; double precision: class edges, all exponent distances, ends of the range x run significands, cancellation for the fused form; single precision: exponents x significands, square root every 7th (thorough) or 509th pattern; fixed-point helpers: runs x exponent distances; registers not holding operands hold two patterns; nontrivial = result not NaN, dividend above divisor"
        } else {
            "copies: all lengths of the tier x alignments; save/restore stubs: every stub x frame position x register pattern; registers not holding operands hold two patterns; nontrivial = aligned copy, every stub"
        });
        ctx.assume("the reciprocal and reciprocal square root seeds are computed by the formula of their eight-bit tables; rounding to nearest; status flags and cache hints are not judged");
        let list = std::fs::read_to_string("/repo/compiler-builtins/src/hexagon.rs").unwrap();
        let mut text = String::new();
        for part in list.split("include_str!(\"").skip(1) {
            let f = part.split('"').next().unwrap();
            let s = std::fs::read_to_string(format!("/repo/compiler-builtins/src/{f}"));
            let Ok(s) = s else {
                println!("cannot read {f}");
                std::process::exit(2)
            };
            text.push_str(&s);
            text.push('\n');
        }
        let p = match Prog::parse(&text) {
            Ok(p) => p,
            Err(e) => {
                println!("assembly not understood: {e}");
                std::process::exit(2);
            }
        };
        for u in p.unsupported() {
            println!("note: {u}");
        }
        let p = &p;
        let find = |names: &[&'static str]| -> Vec<Rt> {
            let mut v: Vec<Rt> = vec![];
            for n in names {
                match p.entry(n) {
                    Some(at) if p.is_global(n) => {
                        if !v.iter().any(|r| r.at == at) {
                            v.push(Rt { name: n, at });
                        }
                    }
                    Some(_) => ctx.violate(n, "symbol", "global", "local"),
                    None => ctx.violate(n, "symbol", "defined", "undefined"),
                }
            }
            v
        };
        if arith {
            integers(ctx, p, &find);
            doubles(ctx, p, &find);
            singles(ctx, p, &find);
            fast(ctx, p, &find);
        } else {
            stubs(ctx, p, &find);
            copies(ctx, p, &find);
        }
    })
}
