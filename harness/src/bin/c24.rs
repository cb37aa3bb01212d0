//! Stack probes: the assembly text of every variant interpreted for every frame size and stack position.
#[cfg(feature = "arch")]
fn main() {
    use fake_core::co::{self, Kind, Out, Req};
    use std::rc::Rc;
    use vh::asmi::{A64, Fl, X86, parse};
    use vh::{Worker, run};

    fn text(name: &str, f: unsafe extern "C" fn()) -> (Vec<String>, Vec<(String, String)>) {
        match co::run(&[], &|| unsafe {
            f();
            0
        }) {
            Out::Naked(l, s) => (l, s),
            _ => {
                println!("{name} is not an assembly routine");
                std::process::exit(2)
            }
        }
    }
    struct V {
        name: &'static str,
        text: (Vec<String>, Vec<(String, String)>),
        wide: bool,
        /// lowers the stack pointer itself
        alloc: bool,
        /// registers it may change
        scratch: &'static [usize],
    }
    macro_rules! v {
        ($name:literal, $f:path, $wide:literal, $alloc:literal, $s:expr) => {
            V { name: $name, text: text($name, $f), wide: $wide, alloc: $alloc, scratch: $s }
        };
    }
    let vs = vec![
        v!("__rust_probestack x86-64", archasm::probe64::__rust_probestack, true, false, &[11]),
        v!("__rust_probestack x86-64 SGX", archasm::probe64sgx::__rust_probestack, true, false, &[11]),
        v!("__rust_probestack x86", archasm::probe32::__rust_probestack, false, false, &[]),
        v!("__rust_probestack x86 UEFI", archasm::probe32uefi::__rust_probestack, false, true, &[]),
        v!("_alloca x86", archasm::chkstk32::_alloca, false, true, &[]),
        v!("__chkstk x86", archasm::chkstk32::__chkstk, false, true, &[]),
        v!("___chkstk_ms x86-64", archasm::chkstk64::___chkstk_ms, true, false, &[]),
    ];

    /// Pages between the old and the requested limit: each touched, none before the one above it.
    fn pages(touch: &[u64], top: u64, size: u64, below: u64) -> Result<(), String> {
        let limit = top - size;
        // The caller's own stack up to its stack pointer is in use already.
        let mut low = top >> 12;
        for a in touch {
            let p = a >> 12;
            if p < low {
                if p + 1 < low {
                    return Err(format!("access at {a:#x} skips page {:#x}", (low - 1) << 12));
                }
                low = p;
            }
            if *a < limit.wrapping_sub(below) {
                return Err(format!("access at {a:#x}, more than {below} bytes below the limit {limit:#x}"));
            }
        }
        if size > 0 && low > limit >> 12 {
            return Err(format!("page {:#x} not touched", limit >> 12 << 12));
        }
        Ok(())
    }
    fn one(w: &mut Worker, v: &V, p: &X86, alloca: &X86, top: u64, size: u64) {
        let word = if v.wide { 8u64 } else { 4 };
        const RET: u64 = 0x0040_1234;
        let mut r = [0u64; 16];
        for i in 0..16 {
            r[i] = (0x0101_0000_1111_0203 * (i as u64 + 3)) & if v.wide { u64::MAX } else { 0xffff_ffff };
        }
        r[0] = size;
        r[4] = top - word;
        let mut t = p.run(r, vec![(top - word, RET), (top, 0x5151)]);
        if t.end.as_deref() == Some("jmp _alloca") {
            t = alloca.run(t.r, t.mem);
        }
        w.args([top, size]);
        let mut err = t.end.clone();
        if t.ret != RET {
            err = err.or(Some(format!("returned to {:#x}", t.ret)));
        }
        let want_sp = if v.alloc { top - size } else { top };
        if t.r[4] != want_sp {
            err = err.or(Some(format!("stack pointer {:#x}", t.r[4])));
        }
        for i in 0..if v.wide { 16 } else { 8 } {
            if i != 4 && t.r[i] != r[i] && !v.scratch.contains(&i) {
                err = err.or(Some(format!("register {i} changed from {:#x} to {:#x}", r[i], t.r[i])));
            }
        }
        if !t.mem.iter().any(|x| *x == (top, 0x5151)) {
            err = err.or(Some("the caller's stack was changed".into()));
        }
        // its own saved words and the return address
        let below = 8 * word;
        if let Err(e) = pages(&t.touch, top, size, below) {
            err = err.or(Some(e));
        }
        if let Some(e) = err {
            w.fail(v.name, &format!("stack pointer {top:#x} frame size {size:#x}"), &format!("every page touched in order, stack pointer {want_sp:#x}, registers preserved"), &e);
        }
        w.done(size > 4096);
    }

    let a64 = text("__chkstk", archasm::chkstk_a64::__chkstk);
    let (al, asy) = text("_alloca", archasm::chkstk32::_alloca);
    run("C24", "exploration", |ctx| {
        ctx.rule("every variant x every frame size in the stated range x every position of the stack pointer in its page from a stated set; nontrivial = more than a page");
        ctx.assume("instruction meaning is taken from the interpreter in harness/src/asmi.rs");
        let max: u64 = if ctx.thorough { 0x21000 } else { 0x9100 };
        let offs = |step: u64| -> Vec<u64> {
            let mut o: Vec<u64> = [0u64, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10].iter().map(|i| i * step).collect();
            o.extend([0x100, 0x7f0, 0x800, 0xf00, 0xf80, 0xfc0, 0xfd0, 0xfe0, 0xff0]);
            o.push(0x1000 - step);
            o
        };
        let big: Vec<u64> = (17..31).flat_map(|i| (-3i64..=3).map(move |d| ((1i64 << i) + 16 * d) as u64)).filter(|s| *s < 0x2000_0000).collect();
        for v in &vs {
            ctx.par(v.name, max / 256, |i, w| {
                w.func(v.name);
                let p = X86::new(&v.text.0, &v.text.1, v.wide);
                let ap = X86::new(&al, &asy, false);
                for size in i * 256..(i + 1) * 256 {
                    let step = if v.wide { 8 } else { 4 };
                    // The stack pointer stays word-aligned, so allocating forms get word multiples.
                    if v.alloc && size % step != 0 {
                        continue;
                    }
                    for o in offs(step) {
                        one(w, v, &p, &ap, 0x7000_0000 + o, size);
                    }
                }
            });
            ctx.par(&format!("{} large", v.name), big.len() as u64, |i, w| {
                w.func(v.name);
                let p = X86::new(&v.text.0, &v.text.1, v.wide);
                let ap = X86::new(&al, &asy, false);
                for o in [0, 16, 0xff0] {
                    one(w, v, &p, &ap, 0x7000_0000 + o, big[i as usize]);
                }
            });
        }
        ctx.par("__chkstk AArch64", max / 256, |i, w| {
            w.func("__chkstk AArch64");
            let prog = Rc::new(parse(a64.0.iter().map(|s| s.as_str()), &["//"]));
            for size in (i * 256..(i + 1) * 256).step_by(16) {
                for o in offs(16) {
                    let top = 0x7000_0000 + o;
                    let mut m = A64 { x: [0; 32], f: Fl::default(), prog: prog.clone(), syms: vec![], lse: None };
                    for k in 0..31 {
                        m.x[k] = 0x0101_0000_1111_0203 * (k as u64 + 3);
                    }
                    m.x[15] = size / 16;
                    m.x[31] = top;
                    let x0 = m.x;
                    let mut touch = vec![];
                    let mut wrote = false;
                    w.args([top, size]);
                    let mp = &mut m as *mut A64;
                    let o = co::run_sync(&|| unsafe { (*mp).run() as u128 }, &mut |r: Req| {
                        touch.push(r.addr);
                        wrote |= r.kind != Kind::Load;
                        0
                    });
                    let mut err = (o != Out::Done(1)).then(|| "ran past its end".to_string());
                    if wrote {
                        err = Some("memory written".into());
                    }
                    if let Some(k) = (0..32).find(|&k| k != 16 && k != 17 && m.x[k] != x0[k]) {
                        err = err.or(Some(format!("register {k} changed")));
                    }
                    if let Err(e) = pages(&touch, top, size, 4096) {
                        err = err.or(Some(e));
                    }
                    if let Some(e) = err {
                        w.fail("__chkstk AArch64", &format!("stack pointer {top:#x} frame size {size:#x}"), "every page touched in order, registers preserved", &e);
                    }
                    w.done(size > 4096);
                }
            }
        });
    })
}
#[cfg(not(feature = "arch"))]
fn main() {
    println!("the files this check needs do not build");
    std::process::exit(2)
}
