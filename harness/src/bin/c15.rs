//! C15: memset.
use vh::memt::*;
use vh::{Worker, run};

const PAD: usize = 48;

fn one(w: &mut Worker, m: &Mem, a: &Arena, d: usize, c: i32, n: usize) {
    let b = a.bytes();
    let (lo, hi) = (d.saturating_sub(PAD), (d + n + PAD).min(a.len));
    let bg = !(c as u8);
    b[lo..hi].fill(bg);
    w.args([d as u64, c as u32 as u64, n as u64]);
    let r = unsafe { (m.memset)(a.at(d), c, n) };
    let df = take_df();
    let ok = r == a.at(d)
        && !df
        && b[lo..d].iter().all(|x| *x == bg)
        && b[d..d + n].iter().all(|x| *x == c as u8)
        && b[d + n..hi].iter().all(|x| *x == bg);
    if !ok {
        let i = (lo..hi).find(|&i| b[i] != if i >= d && i < d + n { c as u8 } else { bg });
        w.fail(
            &format!("{} memset", m.name),
            &format!("dest offset {d:#x} c {c:#x} n {n}"),
            "exactly the range set, destination returned, direction flag clear",
            &format!("first wrong byte at {i:#x?}, returned {r:?} for {:?}, direction flag {df}", a.at(d)),
        );
    }
    w.done(n > 0);
}

fn main() {
    run("C15", "exploration", |ctx| {
        ctx.rule("every (build, length, alignment, fill value) in the stated ranges, in buffers between inaccessible pages; nontrivial = length > 0");
        let t = ctx.thorough;
        let nmax = if t { 4200 } else { 1300 };
        let fills = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x1ab, -1, -128, -2, i32::MIN, i32::MAX, 0x7fff_ff5a, 0x0102_0304];
        for m in all() {
            let nm = |s: &str| format!("{} {s}", m.name);
            ctx.par(&nm("every alignment"), nmax + 1, |n, w| {
                let n = n as usize;
                let a = Arena::new(4);
                w.func(m.name);
                for al in 0..32 {
                    for c in fills {
                        one(w, &m, &a, 64 + al, c, n);
                        w.sample(|| format!("{}: n {n} alignment {al} fill {c:#x}", m.name));
                    }
                    one(w, &m, &a, al, 0xa5, n);
                    one(w, &m, &a, a.len - n - al, 0x5a, n);
                }
            });
            ctx.par(&nm("every fill byte"), 256, |c, w| {
                let a = Arena::new(1);
                w.func(m.name);
                for n in 0..200 {
                    for al in 0..16 {
                        one(w, &m, &a, 64 + al, c as i32, n);
                        one(w, &m, &a, 64 + al, c as i32 | 0x5a5a_5a00, n);
                    }
                }
            });
            let mut big: Vec<usize> = vec![];
            for c in [4096usize, 8192, 65536, 1 << 18] {
                big.extend(c - 9..=c + 9);
            }
            ctx.par(&nm("long"), big.len() as u64, |i, w| {
                let n = big[i as usize];
                let a = Arena::new(n.div_ceil(PAGE) + 2);
                w.func(m.name);
                for al in 0..16 {
                    one(w, &m, &a, 64 + al, 0xc3, n);
                }
                one(w, &m, &a, 0, 0x3c, n);
                one(w, &m, &a, a.len - n, 0x3c, n);
            });
        }
        // Lengths that do not fit 31 or 32 bits, and on 64-bit machines counts of words that do not.
        let ms = all();
        let mut sizes = vec![(1usize << 31) + 4099, (1 << 32) + 4099];
        if t {
            sizes.extend([(1 << 31) - 5, 1 << 32, (1 << 32) + 1, (1 << 33) + 77, (1 << 35) + 4099]);
        }
        let k = ms.len() as u64;
        ctx.par("gibibytes folded into few pages", k * sizes.len() as u64, |i, w| {
            let (m, n) = (&ms[(i % k) as usize], sizes[(i / k) as usize]);
            let a = Long::new(n + 64);
            w.func(m.name);
            for d in [24, 17] {
                a.bytes().fill(0x5a);
                w.args([d as u64, 0xc3, n as u64]);
                let r = unsafe { (m.memset)(a.at(d), 0xc3, n) };
                let df = take_df();
                let (lo, hi) = (d, a.place(d + n));
                let wrong = (0..a.bytes().len()).find(|&i| a.bytes()[i] != if i >= lo && i < hi { 0xc3 } else { 0x5a });
                if wrong.is_some() || r != a.at(d) || df {
                    w.fail(&format!("{} memset", m.name), &format!("dest offset {d:#x} n {n:#x}"), "exactly the range set, destination returned", &format!("wrong at {wrong:x?}, returned {r:?} for {:?}, direction flag {df}", a.at(d)));
                }
                w.done(true);
                w.beat();
            }
        });
    })
}
