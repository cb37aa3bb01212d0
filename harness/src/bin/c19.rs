//! ARM Linux atomics on top of the kernel's user helpers: the real code calls the helpers' fixed addresses, where
//! this check puts its own.
#[cfg(feature = "arch")]
fn main() {
    use fake_core::co::{self, Kind, Req};
    use vh::{asmi, ctx, syncops};

    extern "C" fn cmpxchg(old: u32, new: u32, p: u64) -> u32 {
        co::request(Req { kind: Kind::KuserCas, addr: p, size: 4, a: old as u128, b: new as u128, order: 3 }) as u32
    }
    extern "C" fn barrier() {
        co::request(Req { kind: Kind::Barrier, addr: 0, size: 0, a: 0, b: 0, order: 3 });
    }
    unsafe extern "C" {
        fn mmap(a: usize, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> usize;
    }
    // private, anonymous, fixed without replacing
    let p = unsafe { mmap(0xffff_0000, 4096, 7, 0x02 | 0x20 | 0x10_0000, -1, 0) };
    if p != 0xffff_0000 {
        println!("cannot map the helper page");
        std::process::exit(2);
    }
    for (at, f) in [(0xfc0usize, cmpxchg as *const () as u64), (0xfa0, barrier as *const () as u64)] {
        let mut c = vec![0x48u8, 0xb8];
        c.extend(f.to_le_bytes());
        c.extend([0xff, 0xe0]); // jmp rax
        unsafe { std::ptr::copy_nonoverlapping(c.as_ptr(), (p + at) as *mut u8, c.len()) };
    }
    ctx::run("C19", "model_checking", |ctx| {
        ctx.rule("a case is one operand/position or one pair/triple of concurrent calls; nontrivial = the value changes, or different schedules meet in one state");
        ctx.assume("the kernel helper is an atomic compare-and-swap with full barriers, as its documentation says; it may fail spuriously");
        fn prep() {
            co::set_asm(asmi::a32_asm);
        }
        for (tag, rs, be) in [("little-endian", syncops::arm_linux_le(), false), ("big-endian", syncops::arm_linux_be(), true)] {
            syncops::sections::operands(ctx, tag, &rs, be, false, false, prep);
            syncops::sections::pairs(ctx, tag, &rs, be, false, false, prep);
        }
        ctx.seq("__sync_synchronize calls the barrier helper", |w| {
            prep();
            let (_, tr) = co::run_traced(&[0; 8], &|| unsafe {
                archasm::arm_linux_le::__sync_synchronize();
                0
            }, true);
            if !tr.iter().any(|r| r.kind == Kind::Barrier) {
                w.ctx.violate("__sync_synchronize", "", "a memory barrier", &format!("{tr:?}"));
            }
            w.done(true);
        });
    })
}
#[cfg(not(feature = "arch"))]
fn main() {
    println!("the files this check needs do not build");
    std::process::exit(2)
}
