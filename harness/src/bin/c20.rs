//! Exclusive-access atomics for ARMv6K Thumb code: assembly blocks interpreted, all interleavings explored.
#[cfg(feature = "arch")]
fn main() {
    use fake_core::co::{self, Kind};
    use vh::{asmi, ctx, syncops};
    ctx::run("C20", "model_checking", |ctx| {
        ctx.rule("a case is one operand/position or one pair/triple of concurrent calls; nontrivial = the value changes, or different schedules meet in one state");
        ctx.assume("interleavings are sequentially consistent at the granularity of memory instructions; barriers are checked on every explored path instead of through a weak memory model");
        ctx.assume("instruction meaning is taken from the interpreter in harness/src/asmi.rs");
        fn prep() {
            co::set_asm(asmi::a32_asm);
        }
        let rs = syncops::thumbv6k();
        syncops::sections::operands(ctx, "thumbv6k", &rs, false, true, true, prep);
        syncops::sections::pairs(ctx, "thumbv6k", &rs, false, true, true, prep);
        ctx.seq("__sync_synchronize issues a barrier", |w| {
            prep();
            let (_, tr) = co::run_traced(&[0; 8], &|| unsafe {
                archasm::thumbv6k::__sync_synchronize();
                0
            }, true);
            if !tr.iter().any(|r| r.kind == Kind::Barrier && r.order == 3) {
                w.ctx.violate("__sync_synchronize", "", "a data memory barrier", &format!("{tr:?}"));
            }
            w.done(true);
        });
        ctx.add_states(0, 0, 0);
    })
}
#[cfg(not(feature = "arch"))]
fn main() {
    println!("the files this check needs do not build");
    std::process::exit(2)
}
