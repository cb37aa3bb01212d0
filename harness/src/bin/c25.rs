//! ARM combined division helpers: their assembly interpreted around the real division routines.
#[cfg(feature = "arch")]
fn main() {
    use compiler_builtins::int::{sdiv, udiv};
    use fake_core::co::{self, Kind, Out, Req};
    use std::rc::Rc;
    use vh::asmi::{A32, Fl, parse};
    use vh::{Worker, run};

    fn text(name: &str, f: unsafe extern "C" fn()) -> (Vec<String>, Vec<(String, String)>) {
        match co::run(&[], &|| unsafe {
            f();
            0
        }) {
            Out::Naked(l, s) => (l, s),
            _ => {
                println!("{name} is not an assembly routine");
                std::process::exit(2)
            }
        }
    }
    #[derive(Clone, Copy, PartialEq)]
    struct H {
        name: &'static str,
        wide: bool,
        signed: bool,
    }
    const SP: u32 = 0x7000_1000;
    const LR: u32 = 0x0001_2345;
    let hs = [
        (H { name: "__aeabi_uidivmod", wide: false, signed: false }, text("__aeabi_uidivmod", archasm::arm::__aeabi_uidivmod)),
        (H { name: "__aeabi_idivmod", wide: false, signed: true }, text("__aeabi_idivmod", archasm::arm::__aeabi_idivmod)),
        (H { name: "__aeabi_uldivmod", wide: true, signed: false }, text("__aeabi_uldivmod", archasm::arm::__aeabi_uldivmod)),
        (H { name: "__aeabi_ldivmod", wide: true, signed: true }, text("__aeabi_ldivmod", archasm::arm::__aeabi_ldivmod)),
    ];

    fn pair(v: u64, be: bool) -> (u32, u32) {
        if be { ((v >> 32) as u32, v as u32) } else { (v as u32, (v >> 32) as u32) }
    }
    fn unpair(a: u32, b: u32, be: bool) -> u64 {
        if be { (a as u64) << 32 | b as u64 } else { (b as u64) << 32 | a as u64 }
    }

    fn one(w: &mut Worker, h: &H, prog: &Rc<vh::asmi::Prog>, syms: &[(String, String)], a: u64, b: u64, be: bool, spx: u32) {
        let sp0 = SP - 8 * spx;
        let mut r: Vec<u32> = (0..16).map(|i| 0xb10c_0000u32 ^ (i * 0x0101_0137)).collect();
        r[13] = sp0;
        r[14] = LR;
        if h.wide {
            (r[0], r[1]) = pair(a, be);
            (r[2], r[3]) = pair(b, be);
        } else {
            r[0] = a as u32;
            r[1] = b as u32;
        }
        let r0 = r.clone();
        let stack = std::cell::RefCell::new([0x5eu32; 64]);
        let bad = std::cell::RefCell::new(None::<String>);
        let slot = |addr: u64| -> Option<usize> { (addr >= SP as u64 - 192 && addr < SP as u64 + 64 && addr % 4 == 0).then(|| (addr - (SP as u64 - 192)) as usize / 4) };
        let mut calls = 0;
        let mut callee = |s: &str, r: &mut Vec<u32>| {
            calls += 1;
            if r[13] % 8 != 0 || r[13] > sp0 {
                *bad.borrow_mut() = Some(format!("stack pointer {:#x} at the inner call", r[13]));
            }
            let mut st = stack.borrow_mut();
            // The callee may use anything below its stack pointer.
            let low = slot(r[13] as u64).unwrap_or(0);
            st[..low].fill(0xdead_beef);
            let s = s.rsplit("::").next().unwrap();
            match s.trim() {
                "__udivmodsi4" => {
                    let mut m = 0;
                    let q = udiv::__udivmodsi4(r[0], r[1], Some(&mut m));
                    match slot(r[2] as u64) {
                        Some(k) => st[k] = m,
                        None => *bad.borrow_mut() = Some(format!("remainder address {:#x}", r[2])),
                    }
                    r[0] = q;
                    r[1] = 0xc10b_0001;
                }
                "__aeabi_idiv" | "__divsi3" => {
                    r[0] = sdiv::__divsi3(r[0] as i32, r[1] as i32) as u32;
                    r[1] = 0xc10b_0001;
                }
                n @ ("__udivmoddi4" | "__divmoddi4") => {
                    let (a, b) = (unpair(r[0], r[1], be), unpair(r[2], r[3], be));
                    let (q, m) = if n == "__udivmoddi4" {
                        let mut m = 0;
                        (udiv::__udivmoddi4(a, b, Some(&mut m)), m)
                    } else {
                        let mut m = 0;
                        (sdiv::__divmoddi4(a as i64, b as i64, &mut m) as u64, m as u64)
                    };
                    // The pointer is the fifth argument word: on the stack.
                    let p = slot(r[13] as u64).map(|k| st[k]).unwrap_or(0);
                    let (m0, m1) = pair(m, be);
                    match slot(p as u64) {
                        Some(k) if p >= r[13] && p + 8 <= sp0 && k + 1 < st.len() => {
                            st[k] = m0;
                            st[k + 1] = m1;
                        }
                        _ => *bad.borrow_mut() = Some(format!("remainder address {p:#x}")),
                    }
                    (r[0], r[1]) = pair(q, be);
                }
                _ => vh::asmi::unsupported(s),
            }
            r[2] = 0xc10b_0002;
            r[3] = 0xc10b_0003;
            r[12] = 0xc10b_000c;
            r[14] = 0xc10b_000e;
        };
        let mut m = A32 { r, f: Fl::default(), prog: prog.clone(), call: None, syms: syms.to_vec(), names: vec![] };
        w.args([a, b, be as u64]);
        let mut done = false;
        {
            let mp = &mut m as *mut A32;
            let cp = &mut callee as &mut dyn FnMut(&str, &mut Vec<u32>);
            unsafe {
                (*mp).call = Some(std::mem::transmute::<&mut dyn FnMut(&str, &mut Vec<u32>), &mut dyn FnMut(&str, &mut Vec<u32>)>(cp));
            }
            let dn = &mut done as *mut bool;
            co::run_sync(
                &|| unsafe {
                    *dn = (*mp).run();
                    0
                },
                &mut |q: Req| {
                    let Some(k) = slot(q.addr) else {
                        *bad.borrow_mut() = Some(format!("access at {:#x}", q.addr));
                        return 0;
                    };
                    if q.addr >= sp0 as u64 || q.size != 4 {
                        *bad.borrow_mut() = Some(format!("access of {} bytes at {:#x}, outside of the own frame", q.size, q.addr));
                    }
                    let mut st = stack.borrow_mut();
                    match q.kind {
                        Kind::Store => {
                            st[k] = q.a as u32;
                            0
                        }
                        _ => st[k] as u128,
                    }
                },
            );
        }
        let (wq, wr) = if h.wide {
            if h.signed { ((a as i64).wrapping_div(b as i64) as u64, (a as i64).wrapping_rem(b as i64) as u64) } else { (a / b, a % b) }
        } else {
            let (a, b) = (a as u32, b as u32);
            if h.signed { ((a as i32).wrapping_div(b as i32) as u32 as u64, (a as i32).wrapping_rem(b as i32) as u32 as u64) } else { ((a / b) as u64, (a % b) as u64) }
        };
        let r = &m.r;
        let (q, rem) = if h.wide { (unpair(r[0], r[1], be), unpair(r[2], r[3], be)) } else { (r[0] as u64, r[1] as u64) };
        let mut err = bad.borrow_mut().take();
        if !done || r[15] != LR {
            err = err.or(Some(format!("returned to {:#x}, not to {LR:#x}", r[15])));
        }
        if r[13] != sp0 {
            err = err.or(Some(format!("stack pointer {:#x}, was {sp0:#x}", r[13])));
        }
        if let Some(i) = (4..12).find(|&i| r[i] != r0[i]) {
            err = err.or(Some(format!("r{i} not preserved")));
        }
        if (q, rem) != (wq, wr) {
            err = err.or(Some(format!("quotient {q:#x} remainder {rem:#x}")));
        }
        if let Some(e) = err {
            w.fail(h.name, &format!("{a:#x} / {b:#x}, {}-endian", if be { "big" } else { "little" }), &format!("quotient {wq:#x} remainder {wr:#x}, registers and stack preserved"), &e);
        }
        w.done(wr != 0);
    }

    run("C25", "exploration", |ctx| {
        ctx.rule("every pair of operands from the stated alphabet, nonzero divisor, both byte orders, two stack depths; nontrivial = remainder nonzero");
        ctx.assume("instruction meaning is taken from the interpreter in harness/src/asmi.rs; inner calls run the real division routines and clobber what the ABI lets them");
        for (h, (lines, syms)) in &hs {
            let v: Vec<u64> = {
                let bits = if h.wide { 64 } else { 32 };
                let mut v: Vec<u64> = (0..40).collect();
                for i in 0..bits {
                    for d in -2i64..=2 {
                        v.push((1u64 << i).wrapping_add(d as u64));
                        v.push((1u64 << i).wrapping_add(d as u64).wrapping_neg());
                    }
                    v.push(0x9e37_79b9_7f4a_7c15 >> i);
                    v.push(0xaaaa_aaaa_5555_5555 >> i);
                }
                let m = if h.wide { u64::MAX } else { u32::MAX as u64 };
                v.iter_mut().for_each(|x| *x &= m);
                v.sort();
                v.dedup();
                v
            };
            ctx.par(h.name, v.len() as u64, |i, w| {
                w.func(h.name);
                let prog = Rc::new(parse(lines.iter().map(|s| s.as_str()), &["@", "//"]));
                for b in &v {
                    if *b == 0 {
                        continue;
                    }
                    for be in [false, true] {
                        for spx in 0..if ctx.thorough { 4 } else { 1 } {
                            one(w, h, &prog, syms, v[i as usize], *b, be, spx);
                        }
                    }
                }
            });
        }
    })
}
#[cfg(not(feature = "arch"))]
fn main() {
    println!("the files this check needs do not build");
    std::process::exit(2)
}
