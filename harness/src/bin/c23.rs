//! x86 feature detection over every combination of identification and enablement bits.
#[cfg(feature = "arch")]
fn main() {
    use archasm::math::arch::x86::detect::{cpu_flags as cf, get_cpu_features};
    use archasm::math::arch::x86::fma;
    use fake_core::co::{self, Kind, Out, Req};
    use std::collections::HashMap;
    use vh::run;
    use vh::xfma::*;

    const SETS: [(&str, u32); 10] = [
        ("SSE3", cf::SSE3),
        ("F16C", cf::F16C),
        ("SSE", cf::SSE),
        ("SSE2", cf::SSE2),
        ("ERMSB", cf::ERMSB),
        ("MOVRS", cf::MOVRS),
        ("FMA", cf::FMA),
        ("FMA4", cf::FMA4),
        ("AVX512FP16", cf::AVX512FP16),
        ("AVX512BF16", cf::AVX512BF16),
    ];
    /// A fresh process: every atomic starts from its initial value.
    fn fresh(f: &dyn Fn() -> u128) -> u128 {
        let mut mem: HashMap<u64, u128> = HashMap::new();
        let o = co::run_sync(f, &mut |r: Req| {
            let e = mem.entry(r.addr).or_insert_with(|| unsafe {
                match r.size {
                    4 => *(r.addr as *const u32) as u128,
                    8 => *(r.addr as *const u64) as u128,
                    _ => 0,
                }
            });
            let old = *e;
            match r.kind {
                Kind::AtomicStore | Kind::AtomicSwap => *e = r.a,
                Kind::AtomicCas if old == r.a => *e = r.b,
                Kind::AtomicOr => *e |= r.a,
                Kind::AtomicAdd => *e = (*e + r.a) as u32 as u128,
                _ => {}
            }
            old
        });
        match o {
            Out::Done(v) => v,
            _ => u128::MAX,
        }
    }
    let vendors: [&[u8; 12]; 6] = [b"GenuineIntel", b"AuthenticAMD", b"HygonGenuine", b"AuthenticAMX", b"HygonGenuinf", b"CentaurHauls"];
    let basics = [0u32, 1, 2, 6, 7, 8, 0xd, 0x1f, 0x7fff_ffff];
    let exts = [0u32, 1, 7, 0x1f, 0x8000_0000, 0x8000_0001, 0x8000_0008, 0x8000_001f];
    run("C23", "exploration", |ctx| {
        ctx.rule("all 2^17 settings of the bits the detector's answer may depend on x vendors x highest leaves x value of all other bits; nontrivial = at least one set usable");
        ctx.assume("the operating system's enablement is what XCR0 shows; SSE state enablement (CR4.OSFXSR) is not visible to programs and is taken as given");
        let combos: Vec<(usize, u32, u32, bool)> = {
            let mut v = vec![];
            for k in 0..vendors.len() {
                for b in basics {
                    for e in exts {
                        for g in [false, true] {
                            // quick: other than the usual values of two parameters at a time only with a usual third
                            let odd = (k > 2) as u32 + !matches!(b, 0 | 1 | 6 | 7 | 0x1f) as u32 + !matches!(e, 1 | 0x8000_0000 | 0x8000_0001) as u32;
                            if ctx.thorough || odd <= 1 {
                                v.push((k, b, e, g));
                            }
                        }
                    }
                }
            }
            v
        };
        ctx.par("reported sets", combos.len() as u64 * 128, |i, w| {
            let (k, max_basic, max_ext, ground) = combos[i as usize / 128];
            w.func("get_cpu_features");
            for lo in 0..1024u32 {
                let m = Machine { vendor: *vendors[k], max_basic, max_ext, ground, bits: (i as u32 % 128) << 10 | lo };
                m.install();
                w.args([k as u64, max_basic as u64, max_ext as u64, ground as u64, m.bits as u64]);
                let got = fresh(&|| get_cpu_features().bits() as u128) as u32;
                let mut any = false;
                for (name, bit) in SETS {
                    let want = m.usable(name);
                    any |= want;
                    if (got & bit == bit) != want {
                        w.fail("get_cpu_features", &format!("{m:x?}"), &format!("{name} {}", if want { "reported" } else { "not reported" }), &format!("{got:#x}"));
                    }
                }
                if let Some(e) = FAULT.with_borrow_mut(|f| f.take()) {
                    w.fail("get_cpu_features", &format!("{m:x?}"), "only instructions the machine supports", &e);
                }
                w.done(any);
            }
        });
        ctx.par("instruction executed by the selected routine", combos.len() as u64 * 4, |i, w| {
            let (k, max_basic, max_ext, ground) = combos[i as usize / 4];
            co::set_asm(asm);
            for b in 0..1u32 << 10 {
                // FMA, XSAVE, OSXSAVE, F16C, FMA4, XCR0 bits and SSE as a stand-in for all others
                let pos = [1u32, 2, 3, 4, 11, 12, 13, 14, 15, 16];
                let mut bits = if i % 2 == 0 { 0 } else { 0b111_1110_0001 };
                for (j, p) in pos.iter().enumerate() {
                    bits |= (b >> j & 1) << p;
                }
                let m = Machine { vendor: *vendors[k], max_basic, max_ext, ground, bits };
                m.install();
                w.args([k as u64, max_basic as u64, max_ext as u64, ground as u64, m.bits as u64]);
                LOG.with_borrow_mut(|l| l.clear());
                let single = i / 2 % 2 != 0;
                let (x, y, z) = (1.1f64, 3.3, -3.7);
                let (xs, ys, zs) = (1.1f32, 3.3f32, -3.7f32);
                let (got, want) = if single {
                    w.func("fmaf");
                    (fresh(&|| fma::fmaf(xs, ys, zs).to_bits() as u128), xs.mul_add(ys, zs).to_bits() as u128)
                } else {
                    w.func("fma");
                    (fresh(&|| fma::fma(x, y, z).to_bits() as u128), x.mul_add(y, z).to_bits() as u128)
                };
                let used = LOG.with_borrow(|l| l.clone());
                let ok = used.iter().all(|u| match u {
                    Used::Fma => m.usable("FMA"),
                    Used::Fma4 => m.usable("FMA4"),
                    Used::Other => false,
                });
                if !ok || got != want {
                    w.fail(if single { "fmaf" } else { "fma" }, &format!("{m:x?}"), &format!("{want:#x} using only supported instructions"), &format!("{got:#x} using {used:?}"));
                }
                w.done(!used.is_empty());
            }
        });
    })
}
#[cfg(not(feature = "arch"))]
fn main() {
    println!("the files this check needs do not build");
    std::process::exit(2)
}
