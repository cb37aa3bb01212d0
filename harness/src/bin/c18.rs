//! ARM run-time ABI memory helpers, built on the host from the same file.
#[cfg(feature = "arch")]
fn main() {
    use archasm::arm as m;
    use vh::memt::*;
    use vh::{Worker, run};

    const PAD: usize = 40;
    type Copy = unsafe extern "C" fn(*mut u8, *const u8, usize);
    type Set = unsafe extern "C" fn(*mut u8, usize, i32);
    type Clr = unsafe extern "C" fn(*mut u8, usize);
    let copies: [(&'static str, Copy, usize, bool); 6] = [
        ("__aeabi_memcpy", m::__aeabi_memcpy, 1, false),
        ("__aeabi_memcpy4", m::__aeabi_memcpy4, 4, false),
        ("__aeabi_memcpy8", m::__aeabi_memcpy8, 8, false),
        ("__aeabi_memmove", m::__aeabi_memmove, 1, true),
        ("__aeabi_memmove4", m::__aeabi_memmove4, 4, true),
        ("__aeabi_memmove8", m::__aeabi_memmove8, 8, true),
    ];
    let sets: [(&'static str, Set, usize); 3] = [("__aeabi_memset", m::__aeabi_memset, 1), ("__aeabi_memset4", m::__aeabi_memset4, 4), ("__aeabi_memset8", m::__aeabi_memset8, 8)];
    let clrs: [(&'static str, Clr, usize); 3] = [("__aeabi_memclr", m::__aeabi_memclr, 1), ("__aeabi_memclr4", m::__aeabi_memclr4, 4), ("__aeabi_memclr8", m::__aeabi_memclr8, 8)];

    fn copy(w: &mut Worker, name: &'static str, f: Copy, d: &Arena, dp: usize, s: &Arena, sp: usize, n: usize) {
        let (lo, hi) = (dp.saturating_sub(PAD), (dp + n + PAD).min(d.len));
        for i in sp.saturating_sub(PAD)..(sp + n + PAD).min(s.len) {
            s.bytes()[i] = pat(i);
        }
        d.bytes()[lo..hi].iter_mut().enumerate().for_each(|(i, b)| *b = !pat(i + lo));
        w.func(name);
        w.args([dp as u64, sp as u64, n as u64]);
        unsafe { f(d.at(dp), s.at(sp), n) };
        let want = |i: usize| if i >= dp && i < dp + n { pat(sp + i - dp) } else { !pat(i) };
        if let Some(i) = (lo..hi).find(|&i| d.bytes()[i] != want(i)) {
            w.fail(name, &format!("dest offset {dp:#x} source offset {sp:#x} n {n}"), "the bytes copied and nothing else changed", &format!("byte {i:#x} is {:#x}, not {:#x}", d.bytes()[i], want(i)));
        }
        w.done(n > 0);
    }
    fn fill(w: &mut Worker, name: &'static str, a: &Arena, p: usize, n: usize, c: i32, f: impl Fn(*mut u8)) {
        let (lo, hi) = (p.saturating_sub(PAD), (p + n + PAD).min(a.len));
        let bg = !(c as u8);
        a.bytes()[lo..hi].fill(bg);
        w.func(name);
        w.args([p as u64, n as u64, c as u64]);
        f(a.at(p));
        let want = |i: usize| if i >= p && i < p + n { c as u8 } else { bg };
        if let Some(i) = (lo..hi).find(|&i| a.bytes()[i] != want(i)) {
            w.fail(name, &format!("dest offset {p:#x} n {n} value {c:#x}"), "exactly the range filled", &format!("byte {i:#x} is {:#x}", a.bytes()[i]));
        }
        w.done(n > 0);
    }
    run("C18", "exploration", |ctx| {
        ctx.rule("every helper x length x permitted alignment x overlap distance x fill value in the stated ranges, between inaccessible pages; nontrivial = length > 0");
        ctx.assume("the helpers are run on the host; the C memory functions they end in are the word-aligned build of the same crate");
        let nmax: u64 = if ctx.thorough { 3600 } else { 1600 };
        for (name, f, k, mv) in copies {
            ctx.par(&format!("{name} separate buffers"), nmax + 1, |n, w| {
                let n = n as usize;
                let (d, s) = (Arena::new(1), Arena::new(1));
                for dal in (0..16).step_by(k) {
                    for sal in (0..16).step_by(k) {
                        copy(w, name, f, &d, 64 + dal, &s, 64 + sal, n);
                    }
                }
                for al in (0..32).step_by(k) {
                    // start of the page, and its end
                    copy(w, name, f, &d, al, &s, al, n);
                    let e = PAGE - n - al;
                    copy(w, name, f, &d, e & !(k - 1), &s, e & !(k - 1), n);
                    copy(w, name, f, &d, 0, &s, e & !(k - 1), n);
                    copy(w, name, f, &d, e & !(k - 1), &s, 0, n);
                }
            });
            if mv {
                ctx.par(&format!("{name} overlapping"), nmax.min(if ctx.thorough { 600 } else { 420 }) + 1, |n, w| {
                    let n = n as usize;
                    let a = Arena::new(1);
                    let b = a.bytes();
                    for dal in (0..16).step_by(k) {
                        let dist = if n > 200 && !ctx.thorough { 72 } else { n + 8 };
                        for dd in (0..=dist).step_by(k) {
                            for (dp, sp) in [(800 + dal, 800 + dal + dd), (800 + dal + dd, 800 + dal)] {
                                let (lo, hi) = (dp.min(sp) - PAD, dp.max(sp) + n + PAD);
                                for i in lo..hi {
                                    b[i] = pat(i);
                                }
                                w.func(name);
                                w.args([dp as u64, sp as u64, n as u64]);
                                unsafe { f(a.at(dp), a.at(sp), n) };
                                let want = |i: usize| if i >= dp && i < dp + n { pat(sp + i - dp) } else { pat(i) };
                                if let Some(i) = (lo..hi).find(|&i| b[i] != want(i)) {
                                    w.fail(name, &format!("dest {dp:#x} source {sp:#x} n {n}"), "the old source bytes", &format!("byte {i:#x} is {:#x}, not {:#x}", b[i], want(i)));
                                }
                                w.done(n > 0);
                            }
                        }
                    }
                });
            }
        }
        let fills = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x1ab, -1, -128, -2, i32::MIN, i32::MAX, 0x7fff_ff5a, 0x0102_0304];
        for (name, f, k) in sets {
            ctx.par(name, nmax + 1, |n, w| {
                let n = n as usize;
                let a = Arena::new(1);
                for al in (0..32).step_by(k) {
                    for c in fills {
                        fill(w, name, &a, 64 + al, n, c, |p| unsafe { f(p, n, c) });
                        fill(w, name, &a, al, n, c, |p| unsafe { f(p, n, c) });
                        fill(w, name, &a, (PAGE - n - al) & !(k - 1), n, c, |p| unsafe { f(p, n, c) });
                    }
                    if n < 40 || ctx.thorough {
                        for c in 0..256 {
                            fill(w, name, &a, 64 + al, n, c, |p| unsafe { f(p, n, c) });
                        }
                    }
                }
            });
        }
        for (name, f, k) in clrs {
            ctx.par(name, nmax + 1, |n, w| {
                let n = n as usize;
                let a = Arena::new(1);
                for al in (0..32).step_by(k) {
                    fill(w, name, &a, 64 + al, n, 0, |p| unsafe { f(p, n) });
                    fill(w, name, &a, al, n, 0, |p| unsafe { f(p, n) });
                    fill(w, name, &a, (PAGE - n - al) & !(k - 1), n, 0, |p| unsafe { f(p, n) });
                }
            });
        }
    })
}
#[cfg(not(feature = "arch"))]
fn main() {
    println!("the files this check needs do not build");
    std::process::exit(2)
}
