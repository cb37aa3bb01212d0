//! C14: memcpy and memmove.
use vh::memt::*;
use vh::{Worker, run};

const PAD: usize = 48;

/// One copy inside `a`: fills the window around both ranges, runs, compares every byte of it.
fn one(w: &mut Worker, m: &Mem, mv: bool, a: &Arena, ex: &mut Vec<u8>, d: usize, s: usize, n: usize) {
    let b = a.bytes();
    let lo = d.min(s).saturating_sub(PAD);
    let hi = (d.max(s) + n + PAD).min(a.len);
    if s + n + PAD < d || d + n + PAD < s {
        // far apart: two windows
        two(w, m, mv, a, ex, d, s, n);
        return;
    }
    for i in lo..hi {
        b[i] = pat(i);
    }
    ex.clear();
    ex.extend_from_slice(&b[lo..hi]);
    for i in 0..n {
        ex[d - lo + i] = pat(s + i);
    }
    call(w, m, mv, a, d, s, n);
    if b[lo..hi] != ex[..] {
        bad(w, m, mv, d, s, n, &ex[..], &b[lo..hi], lo);
    }
    w.done(n > 0);
}

fn two(w: &mut Worker, m: &Mem, mv: bool, a: &Arena, ex: &mut Vec<u8>, d: usize, s: usize, n: usize) {
    let b = a.bytes();
    let win = |x: usize| (x.saturating_sub(PAD), (x + n + PAD).min(a.len));
    let (dl, dh) = win(d);
    let (sl, sh) = win(s);
    for i in sl..sh {
        b[i] = pat(i);
    }
    for i in dl..dh {
        b[i] = !pat(i.wrapping_mul(7));
    }
    call(w, m, mv, a, d, s, n);
    ex.clear();
    ex.extend((dl..dh).map(|i| if i >= d && i < d + n { pat(s + i - d) } else { !pat(i.wrapping_mul(7)) }));
    if b[dl..dh] != ex[..] {
        bad(w, m, mv, d, s, n, &ex[..], &b[dl..dh], dl);
    }
    if (sl..sh).any(|i| !(i >= dl && i < dh) && b[i] != pat(i)) {
        bad(w, m, mv, d, s, n, &[], &[], sl);
    }
    w.done(n > 0);
}

#[inline(always)]
fn call(w: &mut Worker, m: &Mem, mv: bool, a: &Arena, d: usize, s: usize, n: usize) {
    w.args([d as u64, s as u64, n as u64]);
    let r = unsafe { (if mv { m.memmove } else { m.memcpy })(a.at(d), a.at(s), n) };
    if take_df() {
        w.fail(m.name, &format!("dest {d:#x} src {s:#x} n {n}"), "direction flag clear", "direction flag set");
    }
    if r != a.at(d) {
        w.fail(m.name, &format!("dest {d:#x} src {s:#x} n {n}"), "the destination pointer", &format!("{r:?}"));
    }
}

#[cold]
fn bad(w: &mut Worker, m: &Mem, mv: bool, d: usize, s: usize, n: usize, ex: &[u8], got: &[u8], lo: usize) {
    let i = ex.iter().zip(got).position(|(a, b)| a != b);
    let (e, g) = match i {
        Some(i) => (format!("byte at {:#x} = {:#x}", lo + i, ex[i]), format!("{:#x}", got[i])),
        None => ("source window unchanged".into(), "changed".into()),
    };
    w.fail(
        &format!("{} {}", m.name, if mv { "memmove" } else { "memcpy" }),
        &format!("dest offset {d:#x} src offset {s:#x} n {n} (page-aligned buffer)"),
        &e,
        &g,
    );
}

/// A copy of several gibibytes; both ranges repeat one block of contents.
fn huge(w: &mut Worker, m: &Mem, mv: bool, a: &Long, b: &Long, d: usize, s: usize, n: usize) {
    let k = a.block;
    for (i, x) in b.bytes().iter_mut().enumerate() {
        *x = pat(i % k);
    }
    for (i, x) in a.bytes().iter_mut().enumerate() {
        *x = !pat((i + d - s) % k);
    }
    w.args([d as u64, s as u64, n as u64]);
    let r = unsafe { (if mv { m.memmove } else { m.memcpy })(a.at(d), b.at(s), n) };
    let df = take_df();
    let (lo, hi) = (d, a.place(d + n));
    let wrong = a.bytes().iter().enumerate().find(|(i, x)| {
        let v = pat((i + 3 * k + s - d) % k);
        **x != if *i >= lo && *i < hi { v } else { !pat((i + d - s) % k) }
    });
    let src = b.bytes().iter().enumerate().any(|(i, x)| *x != pat(i % k));
    if wrong.is_some() || src || r != a.at(d) || df {
        w.fail(
            &format!("{} {}", m.name, if mv { "memmove" } else { "memcpy" }),
            &format!("dest offset {d:#x} src offset {s:#x} n {n:#x} (blocks of {k:#x} bytes)"),
            "every byte copied, the destination returned",
            &format!("wrong at {:x?}, source changed {src}, returned {r:?} for {:?}, direction flag {df}", wrong.map(|x| x.0), a.at(d)),
        );
    }
    w.done(true);
}

/// A move of several gibibytes between ranges that share their last and first bytes.
fn huge_touch(w: &mut Worker, m: &Mem, up: bool, shared: usize, n: usize) {
    let k = n.next_power_of_two() >> 11;
    let lo = 200;
    let hi = lo + n - shared;
    let (j, last) = (hi / k, (hi + n) / k);
    assert!((lo + n) / k == j);
    let a = Long::shape(k, (0..=last).map(|i| if i == 0 { 0 } else if i < j { 1 } else if i == j { 2 } else if i < last { 3 } else { 4 }).collect());
    let (d, s) = if up { (hi, lo) } else { (lo, hi) };
    let first = [0, 1, j, j + 1, last];
    let inside = |v: usize, at: usize| v >= at && v < at + n;
    let init = |v: usize| if inside(v, s) { pat(v % k) } else { !pat(v % k) };
    for (i, x) in a.bytes().iter_mut().enumerate() {
        *x = init(first[i / k] * k + i % k);
    }
    w.args([d as u64, s as u64, n as u64]);
    let r = unsafe { (m.memmove)(a.at(d), a.at(s), n) };
    let df = take_df();
    let wrong = a.bytes().iter().enumerate().find(|(i, x)| {
        let v = first[i / k] * k + i % k;
        **x != if inside(v, d) { pat((v + s + k * (last + 1) - d) % k) } else { init(v) }
    });
    if wrong.is_some() || r != a.at(d) || df {
        w.fail(
            &format!("{} memmove", m.name),
            &format!("dest offset {d:#x} src offset {s:#x} n {n:#x} (blocks of {k:#x} bytes)"),
            "every byte moved, the destination returned",
            &format!("wrong at {:x?}, returned {r:?} for {:?}, direction flag {df}", wrong.map(|x| x.0), a.at(d)),
        );
    }
    w.done(true);
}

/// A move of several gibibytes onto itself.
fn huge_overlap(w: &mut Worker, m: &Mem, a: &Arena, d: usize, s: usize, n: usize) {
    let words = |lo: usize, f: &mut dyn FnMut(usize, u64) -> u64| unsafe {
        let p = a.at(lo).cast::<u64>();
        for i in 0..(a.len - lo) / 8 {
            let v = p.add(i).read();
            let x = f(i, v);
            if x != v {
                p.add(i).write(x);
            }
        }
    };
    let v = |i: usize| (i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    words(0, &mut |i, _| v(i));
    w.beat();
    w.args([d as u64, s as u64, n as u64]);
    let r = unsafe { (m.memmove)(a.at(d), a.at(s), n) };
    w.beat();
    let byte = |i: usize| (v(i / 8) >> (8 * (i % 8))) as u8;
    let mut bad = None;
    let (d0, d1) = (d / 8, (d + n) / 8);
    let sh = 8 * (s % 8) as u32;
    words(0, &mut |i, x| {
        let want = if i > d0 && i < d1 && d % 8 == 0 {
            let j = s / 8 + i - d0;
            if sh == 0 { v(j) } else { v(j) >> sh | v(j + 1) << (64 - sh) }
        } else if i < d0 || i > d1 {
            v(i)
        } else {
            u64::from_le_bytes(std::array::from_fn(|k| {
                let q = 8 * i + k;
                if q >= d && q < d + n { byte(q - d + s) } else { byte(q) }
            }))
        };
        if x != want && bad.is_none() {
            bad = Some(8 * i);
        }
        x
    });
    if bad.is_some() || r != a.at(d) || take_df() {
        w.fail(&format!("{} memmove", m.name), &format!("dest offset {d:#x} src offset {s:#x} n {n:#x}"), "every byte moved, the destination returned", &format!("wrong near {bad:x?}, returned {r:?} for {:?}", a.at(d)));
    }
    w.done(true);
}

fn main() {
    run("C14", "exploration", |ctx| {
        ctx.rule("every (build, length, destination alignment, source alignment or overlap distance) in the stated ranges, in buffers between inaccessible pages; nontrivial = length > 0");
        let t = ctx.thorough;
        let nmax = if t { 4200 } else { 1100 };
        for m in all() {
            let nm = |s: &str| format!("{} {s}", m.name);
            // Disjoint ranges: every alignment pair, both orders.
            ctx.par(&nm("disjoint, every alignment pair"), nmax + 1, |n, w| {
                let n = n as usize;
                let a = Arena::new(4);
                let mut ex = vec![];
                w.func(m.name);
                for da in 0..16 {
                    for sa in 0..16 {
                        let (x, y) = (64 + da, 256 + PAGE / 2 + n / 16 * 16 + sa);
                        w.sample(|| format!("{}: n {n} destination alignment {da} source alignment {sa}", m.name));
                        one(w, &m, false, &a, &mut ex, x, y, n);
                        one(w, &m, true, &a, &mut ex, x, y, n);
                        one(w, &m, false, &a, &mut ex, y - sa + da, x - da + sa, n);
                        one(w, &m, true, &a, &mut ex, y - sa + da, x - da + sa, n);
                    }
                }
            });
            // One or both ranges touching an inaccessible page at either end.
            ctx.par(&nm("next to inaccessible pages"), nmax + 1, |n, w| {
                let n = n as usize;
                let a = Arena::new(5);
                let mut ex = vec![];
                w.func(m.name);
                let end = a.len - n;
                let mid = 2 * PAGE + 64;
                for al in 0..32 {
                    for mv in [false, true] {
                        one(w, &m, mv, &a, &mut ex, end, mid + al, n);
                        one(w, &m, mv, &a, &mut ex, mid + al, end, n);
                        one(w, &m, mv, &a, &mut ex, 0, mid + al, n);
                        one(w, &m, mv, &a, &mut ex, mid + al, 0, n);
                        if al < 8 {
                            one(w, &m, mv, &a, &mut ex, al, end, n);
                            one(w, &m, mv, &a, &mut ex, end - al, 0, n);
                        }
                    }
                    // overlapping with the upper or lower range at the edge
                    one(w, &m, true, &a, &mut ex, end, end - al, n);
                    one(w, &m, true, &a, &mut ex, end - al, end, n);
                    one(w, &m, true, &a, &mut ex, 0, al, n);
                    one(w, &m, true, &a, &mut ex, al, 0, n);
                }
            });
            // Overlap in both directions: every distance up to beyond the length.
            let omax = if t { 700 } else { 260 };
            ctx.par(&nm("every overlap"), omax + 1, |n, w| {
                let n = n as usize;
                let a = Arena::new(2);
                let mut ex = vec![];
                w.func(m.name);
                for da in 0..16 {
                    for k in 0..=(n + 20) {
                        one(w, &m, true, &a, &mut ex, 600 + da, 600 + da + k, n);
                        one(w, &m, true, &a, &mut ex, 600 + da + k, 600 + da, n);
                    }
                }
            });
            // Long copies: around multiples of the page size.
            let mut big: Vec<usize> = vec![];
            for c in [1024usize, 2048, 4096, 8192, 16384, 65536] {
                big.extend(c - 9..=c + 9);
            }
            if t {
                for c in [1usize << 17, 1 << 20] {
                    big.extend(c - 3..=c + 3);
                }
            }
            ctx.par(&nm("long"), big.len() as u64, |i, w| {
                let n = big[i as usize];
                let a = Arena::new(2 * n.div_ceil(PAGE) + 6);
                let mut ex = vec![];
                w.func(m.name);
                for (da, sa) in [(0, 0), (0, 1), (1, 0), (3, 7), (7, 3), (5, 5), (15, 8), (8, 4)] {
                    let far = 2 * PAGE + n / 16 * 16;
                    one(w, &m, false, &a, &mut ex, 64 + da, far + sa, n);
                    one(w, &m, true, &a, &mut ex, far + da, 64 + sa, n);
                    for k in [1, 2, 3, 7, 8, 9, 15, 16, 17, 255, 511, n - 1, n, n + 1] {
                        one(w, &m, true, &a, &mut ex, 64 + da, 64 + da + k, n);
                        one(w, &m, true, &a, &mut ex, 64 + da + k, 64 + da, n);
                    }
                }
                for mv in [false, true] {
                    one(w, &m, mv, &a, &mut ex, a.len - n, 0, n);
                    one(w, &m, mv, &a, &mut ex, 0, a.len - n, n);
                }
            });
        }
        // Lengths that do not fit 31 or 32 bits, and on 64-bit machines counts of words that do not.
        let ms = all();
        let mut sizes = vec![(1usize << 31) + 4099, (1 << 32) + 4099];
        if t {
            sizes.extend([(1 << 31) - 5, 1 << 32, (1 << 32) + 1, (1 << 33) + 77]);
        }
        let k = ms.len() as u64;
        ctx.par("gibibytes, both ranges folded into few pages", k * sizes.len() as u64, |i, w| {
            let (m, n) = (&ms[(i % k) as usize], sizes[(i / k) as usize]);
            let (a, b) = (Long::new(n + 64), Long::new(n + 64));
            w.func(m.name);
            for (d, s) in [(24, 24), (17, 12)] {
                huge(w, m, false, &a, &b, d, s, n);
                if t {
                    huge(w, m, true, &a, &b, d, s, n);
                }
            }
            for up in [false, true] {
                if t || n >> 32 != 0 {
                    huge_touch(w, m, up, 64, n);
                }
                if t {
                    huge_touch(w, m, up, 77, n);
                }
            }
        });
        if t {
            ctx.par("more than 2^32 words", 4, |i, w| {
                let ms = x86();
                let Some(m) = ms.get(i as usize) else { return };
                let n = (1usize << 35) + 4099;
                let (a, b) = (Long::new(n + 64), Long::new(n + 64));
                w.func(m.name);
                huge(w, m, false, &a, &b, 24, 24, n);
                w.beat();
                huge(w, m, true, &a, &b, 17, 12, n);
                for up in [false, true] {
                    w.beat();
                    huge_touch(w, m, up, 77, n);
                }
            });
            ctx.seq("gibibytes, overlapping", |w| {
                let n = (1usize << 32) + 4099;
                let a = Arena::new((n + 3 * PAGE) / PAGE);
                for m in &ms {
                    w.func(m.name);
                    for (d, s) in [(64, 69), (72, 64)] {
                        huge_overlap(w, m, &a, d, s, n);
                    }
                }
            });
        }
    })
}
