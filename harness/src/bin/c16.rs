//! C16: memcmp, bcmp and strlen.
use vh::memt::*;
use vh::{Worker, run};

fn cmp(w: &mut Worker, m: &Mem, a: &Arena, p: usize, b: &Arena, q: usize, n: usize, want: i32) {
    w.args([p as u64, q as u64, n as u64]);
    let (r, z) = unsafe { ((m.memcmp)(a.at(p), b.at(q), n), (m.bcmp)(a.at(p), b.at(q), n)) };
    if r.signum() != want || (z == 0) != (want == 0) {
        let k = (0..n).find(|&i| a.bytes()[p + i] != b.bytes()[q + i]);
        let at = k.map(|k| format!("first difference at {k}: {:#x} and {:#x}", a.bytes()[p + k], b.bytes()[q + k]));
        w.fail(
            &format!("{} memcmp/bcmp", m.name),
            &format!("offsets {p:#x} {q:#x} n {n}, {}", at.unwrap_or("equal".into())),
            &format!("sign {want}"),
            &format!("memcmp {r} bcmp {z}"),
        );
    }
    w.done(n > 0);
}

fn len(w: &mut Worker, m: &Mem, a: &Arena, p: usize, want: usize) {
    w.args([p as u64, want as u64]);
    let r = unsafe { (m.strlen)(a.at(p).cast()) };
    if r != want {
        w.fail(&format!("{} strlen", m.name), &format!("string at offset {p:#x}, bytes {:x?}", &a.bytes()[p..(p + want + 1).min(p + 80)]), &want.to_string(), &r.to_string());
    }
    w.done(want > 0);
}

fn main() {
    run("C16", "exploration", |ctx| {
        ctx.rule("memcmp/bcmp: every (build, length, both alignments, position of the first difference, byte pair, contents after it); strlen: every (build, alignment, length, byte value); all next to inaccessible pages; nontrivial = length > 0");
        let t = ctx.thorough;
        for m in all() {
            let nm = |s: &str| format!("{} {s}", m.name);
            let nmax = if t { 160 } else { 70 };
            ctx.par(&nm("comparison, every difference position and alignment"), nmax + 1, |n, w| {
                let n = n as usize;
                let (a, b) = (Arena::new(1), Arena::new(1));
                w.func(m.name);
                for pa in 0..16 {
                    for qa in 0..16 {
                        let (p, q) = (64 + pa, 64 + qa);
                        for i in 0..n {
                            a.bytes()[p + i] = pat(i);
                            b.bytes()[q + i] = pat(i);
                        }
                        // differences outside the range
                        for (x, y) in [(0, 255), (255, 0)] {
                            (a.bytes()[p - 1], b.bytes()[q - 1]) = (x, y);
                            (a.bytes()[p + n], b.bytes()[q + n]) = (x, y);
                            cmp(w, &m, &a, p, &b, q, n, 0);
                        }
                        for i in 0..n {
                            let (oa, ob) = (a.bytes()[p + i], b.bytes()[q + i]);
                            for (x, y) in [(0u8, 1u8), (0x7f, 0x80), (0xff, 0), (0x80, 0x7f), (0x81, 0x80), (0xfe, 0xff), (0, 0xff)] {
                                (a.bytes()[p + i], b.bytes()[q + i]) = (x, y);
                                let want = if x < y { -1 } else { 1 };
                                cmp(w, &m, &a, p, &b, q, n, want);
                                // the next byte differs the other way round
                                if i + 1 < n {
                                    let (na, nb) = (a.bytes()[p + i + 1], b.bytes()[q + i + 1]);
                                    (a.bytes()[p + i + 1], b.bytes()[q + i + 1]) = if want < 0 { (255, 0) } else { (0, 255) };
                                    cmp(w, &m, &a, p, &b, q, n, want);
                                    (a.bytes()[p + i + 1], b.bytes()[q + i + 1]) = (na, nb);
                                    // and the last one
                                    let (la, lb) = (a.bytes()[p + n - 1], b.bytes()[q + n - 1]);
                                    (a.bytes()[p + n - 1], b.bytes()[q + n - 1]) = if want < 0 { (255, 0) } else { (0, 255) };
                                    cmp(w, &m, &a, p, &b, q, n, want);
                                    (a.bytes()[p + n - 1], b.bytes()[q + n - 1]) = (la, lb);
                                }
                            }
                            (a.bytes()[p + i], b.bytes()[q + i]) = (oa, ob);
                        }
                        w.sample(|| format!("{}: n {n} alignments {pa} {qa}", m.name));
                    }
                }
            });
            ctx.par(&nm("comparison, every byte pair"), 256, |x, w| {
                let (a, b) = (Arena::new(1), Arena::new(1));
                w.func(m.name);
                for y in 0..256u64 {
                    for (n, i) in [(1, 0), (2, 0), (2, 1), (3, 2), (4, 1), (7, 6), (8, 3), (8, 7), (16, 0), (16, 9), (17, 16), (33, 32), (40, 21)] {
                        let (p, q) = (64 + n % 5, 64 + i % 3);
                        for k in 0..n {
                            (a.bytes()[p + k], b.bytes()[q + k]) = (0x55, 0x55);
                        }
                        (a.bytes()[p + i], b.bytes()[q + i]) = (x as u8, y as u8);
                        cmp(w, &m, &a, p, &b, q, n, (x as i32 - y as i32).signum());
                    }
                }
            });
            let gmax = if t { 4096 } else { 600 };
            ctx.par(&nm("comparison next to inaccessible pages"), gmax + 1, |n, w| {
                let n = n as usize;
                let (a, b) = (Arena::new(2), Arena::new(2));
                w.func(m.name);
                a.bytes().fill(0x77);
                b.bytes().fill(0x77);
                for al in 0..16 {
                    for (p, q) in [(a.len - n, 64 + al), (64 + al, b.len - n), (a.len - n, b.len - n), (0, 64 + al), (64 + al, 0), (a.len - n - al, b.len - n)] {
                        cmp(w, &m, &a, p, &b, q, n, 0);
                        if n > 0 {
                            a.bytes()[p + n - 1] = 0x78;
                            cmp(w, &m, &a, p, &b, q, n, 1);
                            a.bytes()[p + n - 1] = 0x77;
                            b.bytes()[q + n / 2] = 0xf7;
                            cmp(w, &m, &a, p, &b, q, n, -1);
                            b.bytes()[q + n / 2] = 0x77;
                        }
                    }
                }
            });
            // Strings ending right before an inaccessible page, at every alignment, every byte value; the bytes
            // before the string are zero.
            let smax = if t { 300 } else { 110 };
            ctx.par(&nm("strings at the end of a page, every byte value"), 255, |c, w| {
                let c = c as u8 + 1;
                let a = Arena::new(1);
                w.func(m.name);
                for before in [0, c] {
                    for l in 0..=smax {
                        let p = a.len - 1 - l;
                        a.bytes()[p - 40..p].fill(before);
                        a.bytes()[p..p + l].fill(c);
                        a.bytes()[p + l] = 0;
                        len(w, &m, &a, p, l);
                    }
                }
            });
            ctx.par(&nm("strings inside a page, every alignment and length"), smax as u64 + 1, |l, w| {
                let l = l as usize;
                let a = Arena::new(1);
                w.func(m.name);
                for al in 0..64 {
                    for before in [0u8, 1, 0x80, 0xff] {
                        for after in [0u8, 1, 0x80, 0xff] {
                            for f in [0x01u8, 0x80, 0xff, 0x7f, 0x81, 0x61, 0x00] {
                                let p = 64 + al;
                                a.bytes()[..p].fill(before);
                                for i in 0..l {
                                    // 0 stands for varying nonzero bytes
                                    a.bytes()[p + i] = if f == 0 { pat(i) | 1 } else { f };
                                }
                                a.bytes()[p + l] = 0;
                                a.bytes()[p + l + 1..p + l + 64].fill(after);
                                len(w, &m, &a, p, l);
                            }
                        }
                    }
                    w.sample(|| format!("{}: string of {l} bytes at alignment {al}", m.name));
                }
            });
            ctx.par(&nm("strings across pages and at the start of a page"), 2 * PAGE as u64, |l, w| {
                let l = l as usize;
                let a = Arena::new(3);
                w.func(m.name);
                a.bytes().fill(0x41);
                for p in [0, 1, 15, PAGE - 1, PAGE - 17] {
                    a.bytes()[p + l] = 0;
                    len(w, &m, &a, p, l);
                    a.bytes()[p + l] = 0x41;
                }
                let p = a.len - 1 - l;
                a.bytes()[p + l] = 0;
                len(w, &m, &a, p, l);
            });
            // Longer ranges: the first difference at every position.
            let ls: Vec<usize> = if t { (161..420).collect() } else { vec![71, 96, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513] };
            ctx.par(&nm("long comparison, every difference position"), ls.len() as u64, |i, w| {
                let n = ls[i as usize];
                let (a, b) = (Arena::new(1), Arena::new(1));
                w.func(m.name);
                for (pa, qa) in [(0, 0), (0, 1), (3, 0), (8, 8), (5, 10), (15, 7), (1, 1), (12, 4)] {
                    let (p, q) = (64 + pa, 64 + qa);
                    for i in 0..n {
                        a.bytes()[p + i] = pat(i);
                        b.bytes()[q + i] = pat(i);
                    }
                    cmp(w, &m, &a, p, &b, q, n, 0);
                    cmp(w, &m, &a, p, &a, p, n, 0);
                    for i in 0..n {
                        let v = a.bytes()[p + i];
                        for x in [v ^ 0x80, v ^ 1] {
                            b.bytes()[q + i] = x;
                            cmp(w, &m, &a, p, &b, q, n, if v < x { -1 } else { 1 });
                            cmp(w, &m, &b, q, &a, p, n, if v < x { 1 } else { -1 });
                        }
                        b.bytes()[q + i] = v;
                    }
                }
            });
        }
        // Lengths that do not fit 31 or 32 bits.
        let ms = all();
        let mut sizes = vec![(1usize << 32) + 4099];
        if t {
            sizes.extend([(1 << 31) - 5, (1 << 31) + 4099, 1 << 32, (1 << 32) + 1, (1 << 33) + 77]);
        }
        let k = ms.len() as u64;
        ctx.par("gibibytes folded into few pages", k * sizes.len() as u64, |i, w| {
            let (m, n) = (&ms[(i % k) as usize], sizes[(i / k) as usize]);
            let (a, b) = (Long::new(n + 64), Long::new(n + 64));
            w.func(m.name);
            let (p, q) = (17, 24);
            a.bytes().fill(0x61);
            b.bytes().fill(0x61);
            for (at, x, want) in [(n - 1, 0x60, 1), (n - 1, 0x62, -1), (n, 0x62, 0)] {
                let y = b.place(q + at);
                b.bytes()[y] = x;
                w.args([p as u64, q as u64, n as u64]);
                let (r, z) = unsafe { ((m.memcmp)(a.at(p), b.at(q), n), if want < 0 { 1 } else { (m.bcmp)(a.at(p), b.at(q), n) }) };
                b.bytes()[y] = 0x61;
                if r.signum() != want || (z == 0) != (want == 0) {
                    w.fail(&format!("{} memcmp/bcmp", m.name), &format!("n {n:#x}, difference at {at:#x}"), &format!("sign {want}"), &format!("memcmp {r} bcmp {z}"));
                }
                w.done(true);
                w.beat();
            }
            let y = a.place(p + n);
            a.bytes()[y] = 0;
            w.args([p as u64, n as u64]);
            let r = unsafe { (m.strlen)(a.at(p).cast()) };
            if r != n {
                w.fail(&format!("{} strlen", m.name), &format!("string of {n:#x} bytes"), &format!("{n:#x}"), &format!("{r:#x}"));
            }
            w.done(true);
        });
    })
}
