//! C17: direction flag and equality of the x86-64 variants.
use vh::memt::*;
use vh::{Worker, run};

fn df(w: &mut Worker, name: &'static str, f: &'static str, n: usize) {
    if take_df() {
        w.fail(&format!("{name} {f}"), &format!("n {n}"), "direction flag clear on return", "set");
    }
}

fn main() {
    run("C17", "exploration", |ctx| {
        ctx.rule("every (routine, variant, length, alignment, overlap distance): direction flag read after the call, memory compared byte by byte between the variants and with a byte loop; nontrivial = length > 0");
        ctx.assume("memory routines are entered with the direction flag clear, as the x86-64 psABI requires");
        let ms = x86();
        let nmax = if ctx.thorough { 600 } else { 160 };
        ctx.par("moves in both directions", nmax + 1, |n, w| {
            let n = n as usize;
            let a = Arena::new(2);
            w.func("memcpy/memmove");
            let mut want = vec![0u8; 2200];
            for al in 0..8 {
                for k in -(n as isize) - 9..=n as isize + 9 {
                    let (d, s) = (1000 + al, (1000 + al as isize + k) as usize);
                    for i in 0..want.len() {
                        want[i] = pat(i);
                    }
                    for i in 0..n {
                        want[d + i] = pat(s + i);
                    }
                    let span = d.min(s) - 16..d.max(s) + n + 16;
                    for m in &ms {
                        for mv in [true, false] {
                            if !mv && k.unsigned_abs() < n {
                                continue;
                            }
                            for i in span.clone() {
                                a.bytes()[i] = pat(i);
                            }
                            w.args([d as u64, s as u64, n as u64]);
                            unsafe { (if mv { m.memmove } else { m.memcpy })(a.at(d), a.at(s), n) };
                            df(w, m.name, if mv { "memmove" } else { "memcpy" }, n);
                            if a.bytes()[span.clone()] != want[span.clone()] {
                                w.fail(&format!("{} {}", m.name, if mv { "memmove" } else { "memcpy" }), &format!("dest {d} src {s} n {n}"), "same memory as the other variants", "different");
                            }
                            w.done(n > 0);
                        }
                    }
                }
                w.sample(|| format!("n {n} alignment {al}, every distance"));
            }
        });
        ctx.par("fills, comparisons, string lengths", nmax + 1, |n, w| {
            let n = n as usize;
            let a = Arena::new(1);
            w.func("memset/memcmp/strlen");
            for al in 0..16 {
                for m in &ms {
                    for c in [0, 0x5a, 0xff] {
                        a.bytes()[..1200].fill(0x33);
                        w.args([al as u64, n as u64, c as u64]);
                        unsafe { (m.memset)(a.at(64 + al), c, n) };
                        df(w, m.name, "memset", n);
                        let ok = (0..1200).all(|i| a.bytes()[i] == if i >= 64 + al && i < 64 + al + n { c as u8 } else { 0x33 });
                        if !ok {
                            w.fail(&format!("{} memset", m.name), &format!("alignment {al} n {n} c {c}"), "same memory as the other variants", "different");
                        }
                        w.done(n > 0);
                    }
                    a.bytes()[..2400].fill(0x44);
                    let r = unsafe { (m.memcmp)(a.at(64 + al), a.at(1300), n) };
                    df(w, m.name, "memcmp", n);
                    let z = unsafe { (m.bcmp)(a.at(64 + al), a.at(1300), n) };
                    df(w, m.name, "bcmp", n);
                    a.bytes()[64 + al + n] = 0;
                    let l = unsafe { (m.strlen)(a.at(64 + al).cast()) };
                    df(w, m.name, "strlen", n);
                    if (r, z, l) != (0, 0, n) {
                        w.fail(&format!("{} memcmp/bcmp/strlen", m.name), &format!("alignment {al} n {n}"), &format!("(0, 0, {n})"), &format!("{:?}", (r, z, l)));
                    }
                    w.done(n > 0);
                }
            }
        });
    })
}
