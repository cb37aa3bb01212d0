//! Unwinding out of a stack probe: the frame rules in the assembly text compared with the machine state before
//! every instruction that can fault.
#[cfg(feature = "arch")]
fn main() {
    use fake_core::co::{self, Out};
    use vh::asmi::X86;
    use vh::run;

    fn text(name: &str, f: unsafe extern "C" fn()) -> (Vec<String>, Vec<(String, String)>) {
        match co::run(&[], &|| unsafe {
            f();
            0
        }) {
            Out::Naked(l, s) => (l, s),
            _ => {
                println!("{name} is not an assembly routine");
                std::process::exit(2)
            }
        }
    }
    struct V {
        name: &'static str,
        text: (Vec<String>, Vec<(String, String)>),
        wide: bool,
        /// registers of the caller
        kept: &'static [usize],
    }
    const WIDE: &[usize] = &[3, 5, 12, 13, 14, 15];
    const SMALL: &[usize] = &[3, 5, 6, 7];
    let vs = [
        V { name: "__rust_probestack x86-64", text: text("", archasm::probe64::__rust_probestack), wide: true, kept: WIDE },
        V { name: "__rust_probestack x86-64 SGX", text: text("", archasm::probe64sgx::__rust_probestack), wide: true, kept: WIDE },
        V { name: "__rust_probestack x86", text: text("", archasm::probe32::__rust_probestack), wide: false, kept: SMALL },
        V { name: "__rust_probestack x86 UEFI", text: text("", archasm::probe32uefi::__rust_probestack), wide: false, kept: SMALL },
    ];
    run("C61", "exploration", |ctx| {
        ctx.rule("every variant x every frame size in the stated range x stack positions in the page; state before every executed instruction that accesses memory; nontrivial = the stack pointer is below its value at entry");
        ctx.assume("instruction meaning is taken from the interpreter in harness/src/asmi.rs");
        let max: u64 = if ctx.thorough { 0x21000 } else { 0x5000 };
        for v in &vs {
            let p = X86::new(&v.text.0, &v.text.1, v.wide);
            if p.frames.is_empty() {
                ctx.violate(v.name, "frame rules", "given", "none");
            }
            let word = if v.wide { 8u64 } else { 4 };
            ctx.par(v.name, max / 256, |i, w| {
                w.func(v.name);
                let p = X86::new(&v.text.0, &v.text.1, v.wide);
                for size in (i * 256..(i + 1) * 256).step_by(word as usize) {
                    for o in [0, word, 2 * word, 3 * word, 0x800, 0xff0] {
                        const RET: u64 = 0x0040_1234;
                        let top = 0x7000_0000 + o;
                        let mut r = [0u64; 16];
                        for i in 0..16 {
                            r[i] = (0x0101_0000_1111_0203 * (i as u64 + 3)) & if v.wide { u64::MAX } else { 0xffff_ffff };
                        }
                        r[0] = size;
                        r[4] = top - word;
                        w.args([top, size]);
                        let m = if v.wide { u64::MAX } else { 0xffff_ffff };
                        let (mut n, mut deep) = (0u64, 0u64);
                        let mut bad = None;
                        // Judgement before the last instruction, and the accesses so far: only an access can fault.
                        let mut last: Option<(usize, Option<String>, bool)> = None;
                        let sp = r[4];
                        p.watch(r, vec![(top - word, RET), (top, 0x5151)], |pc, t| {
                            let fr = p.frames.get(pc).cloned().unwrap_or_default();
                            if let Some((seen, what, below)) = last.take() {
                                if t.touch.len() > seen {
                                    n += 1;
                                    deep += below as u64;
                                    bad = bad.take().or(what);
                                }
                            }
                            // With the frame pointer given back, a lower stack pointer is the caller's new one already.
                            if t.r[5] == r[5] && t.r[4] < sp && t.mem.len() > 2 && fr.base == 4 {
                                return;
                            }
                            let at = |a: u64| t.mem.iter().find(|x| x.0 == a & m).map(|x| x.1);
                            let cfa = t.r[fr.base].wrapping_add(fr.off as u64) & m;
                            let mut ok = cfa == top && at(cfa.wrapping_sub(word)) == Some(RET);
                            for &k in v.kept {
                                let now = match fr.saved.iter().find(|x| x.0 == k) {
                                    Some(x) => at(cfa.wrapping_add(x.1 as u64)),
                                    None => Some(t.r[k]),
                                };
                                ok &= now == Some(r[k]);
                            }
                            let what = (!ok).then(|| format!("instruction {pc}: {fr:?} gives {cfa:#x}"));
                            last = Some((t.touch.len(), what, t.r[4] < sp));
                        });
                        if let Some(b) = bad {
                            w.fail(v.name, &format!("stack pointer {top:#x} frame size {size:#x}"), &format!("caller's stack pointer {top:#x}, return address and registers"), &b);
                        }
                        for k in 0..n {
                            w.done(k < deep);
                        }
                    }
                }
            });
        }
    });
}
#[cfg(not(feature = "arch"))]
fn main() {
    println!("C61: the probe sources do not build on their own");
    std::process::exit(2)
}
