//! AArch64 outlined atomics: the assembly text of every routine interpreted, all interleavings explored.
#![feature(macro_metavar_expr_concat)]
#[cfg(feature = "arch")]
fn main() {
    use archasm::aarch64_outline_atomics as oa;
    use fake_core::co::{self, Out};
    use std::rc::Rc;
    use vh::asmi::{A64, Fl, Prog, parse};
    use vh::conc::*;
    use vh::{Ctx, Worker, run};

    #[derive(Clone)]
    struct R {
        name: String,
        op: Rmw,
        size: u8,
        order: u8,
        lines: Vec<String>,
    }

    let mut rs: Vec<R> = vec![];
    let mut add = |name: &str, op: Rmw, size: u8, order: u8, f: &dyn Fn() -> u128| match co::run(&[], f) {
        Out::Naked(lines, _) => rs.push(R { name: name.into(), op, size, order, lines }),
        _ => {
            println!("{name} is not an assembly routine");
            std::process::exit(2);
        }
    };
    macro_rules! all {
        ($($name:ident $op:ident $size:literal $t:ty;)*) => {$(
            all!(@ $name $op $size $t, _relax 0);
            all!(@ $name $op $size $t, _acq 1);
            all!(@ $name $op $size $t, _rel 2);
            all!(@ $name $op $size $t, _acq_rel 3);
        )*};
        (@ $name:ident Cas $size:literal $t:ty, $o:ident $k:literal) => {
            add(concat!(stringify!($name), stringify!($o)), Rmw::Cas, $size, $k, &|| unsafe { oa::${concat($name, $o)}(0 as $t, 0 as $t, std::ptr::null_mut()) as u128 });
        };
        (@ $name:ident $op:ident $size:literal $t:ty, $o:ident $k:literal) => {
            add(concat!(stringify!($name), stringify!($o)), Rmw::$op, $size, $k, &|| unsafe { oa::${concat($name, $o)}(0 as $t, std::ptr::null_mut()) as u128 });
        };
    }
    all! {
        __aarch64_cas1 Cas 1 u8; __aarch64_cas2 Cas 2 u16; __aarch64_cas4 Cas 4 u32; __aarch64_cas8 Cas 8 u64; __aarch64_cas16 Cas 16 u128;
        __aarch64_swp1 Swap 1 u8; __aarch64_swp2 Swap 2 u16; __aarch64_swp4 Swap 4 u32; __aarch64_swp8 Swap 8 u64;
        __aarch64_ldadd1 Add 1 u8; __aarch64_ldadd2 Add 2 u16; __aarch64_ldadd4 Add 4 u32; __aarch64_ldadd8 Add 8 u64;
        __aarch64_ldclr1 Clr 1 u8; __aarch64_ldclr2 Clr 2 u16; __aarch64_ldclr4 Clr 4 u32; __aarch64_ldclr8 Clr 8 u64;
        __aarch64_ldeor1 Xor 1 u8; __aarch64_ldeor2 Xor 2 u16; __aarch64_ldeor4 Xor 4 u32; __aarch64_ldeor8 Xor 8 u64;
        __aarch64_ldset1 Or 1 u8; __aarch64_ldset2 Or 2 u16; __aarch64_ldset4 Or 4 u32; __aarch64_ldset8 Or 8 u64;
    }

    const JUNK: u64 = 0xd1e5_a5a5_7e57_c0de;
    /// Calls the routine as the procedure call standard says: unused bits of small arguments are arbitrary.
    fn call(p: &Rc<Prog>, op: Rmw, size: u8, junk: u64, addr: u64, a: u128, b: u128) -> u128 {
        let mut m = A64 { x: [JUNK; 32], f: Fl { n: true, z: false, c: true, v: true }, prog: p.clone(), syms: vec![("have_lse".into(), FLAG)], lse: Some((FLAG, false)) };
        for i in 0..32 {
            m.x[i] = JUNK.rotate_left(i as u32);
        }
        let x0 = m.x;
        let small = |v: u128| if size < 8 { (v as u64 & ((1 << (8 * size)) - 1)) | junk << (8 * size) } else { v as u64 };
        match (op, size) {
            (Rmw::Cas, 16) => {
                m.x[0] = a as u64;
                m.x[1] = (a >> 64) as u64;
                m.x[2] = b as u64;
                m.x[3] = (b >> 64) as u64;
                m.x[4] = addr;
            }
            (Rmw::Cas, _) => {
                m.x[0] = small(a);
                m.x[1] = small(b);
                m.x[2] = addr;
            }
            _ => {
                m.x[0] = small(a);
                m.x[1] = addr;
            }
        }
        if !m.run() {
            return 0xbad_0000_0001 << 64;
        }
        // Registers a callee must preserve.
        for i in 19..32 {
            if m.x[i] != x0[i] {
                return 0xbad_0000_0002 << 64;
            }
        }
        match size {
            16 => m.x[0] as u128 | (m.x[1] as u128) << 64,
            8 => m.x[0] as u128,
            _ => m.x[0] as u32 as u128,
        }
    }
    fn spec(r: &R, off: usize, a: u128, b: u128) -> Spec {
        Spec { acquire: r.order & 1 != 0, release: r.order & 2 != 0, ..Spec::new(r.op, r.size, BASE + off as u64, a, b, false) }
    }
    fn thread(r: &R, sp: Spec) -> Thread<'static> {
        let p = Rc::new(parse(r.lines.iter().map(|s| s.as_str()), &["//"]));
        Thread { spec: sp, body: Box::new(move || call(&p, sp.op, sp.size, JUNK, sp.addr, sp.a, sp.b)) }
    }
    fn window(size: u8) -> Vec<u8> {
        (0..if size == 16 { 48 } else { 24 }).map(|i| (i as u8).wrapping_mul(53) ^ 0xc1).collect()
    }
    fn go(ctx: &Ctx, w: &mut Worker, names: &str, world: &World, t: &[Thread]) {
        w.beat();
        match explore(world, t) {
            Ok(c) => {
                ctx.add_states(c.states, c.transitions, c.runs);
                w.done(c.transitions >= c.states);
            }
            Err(e) => {
                let s: Vec<String> = t.iter().map(|t| format!("{:x?}", t.spec)).collect();
                ctx.violate(names, &format!("flag {:?} memory {:02x?} threads {}", world.flags, world.mem, s.join("; ")), "every call takes effect once, atomically, with its ordering", &e);
            }
        }
    }

    let rs = rs;
    run("C21", "model_checking", |ctx| {
        ctx.rule("a case is one operand pair or one pair/triple of concurrent calls; nontrivial = the value changes, or different schedules meet in one state");
        ctx.assume("interleavings are sequentially consistent at the granularity of memory instructions; acquire/release strength is checked on every explored path instead of through a weak memory model");
        ctx.assume("a 128-bit exclusive load is taken as single-copy atomic");
        ctx.assume("instruction meaning is taken from the interpreter in harness/src/asmi.rs");
        let n = rs.len() as u64;
        ctx.par("operands, both instruction families", n, |i, w| {
            let r = &rs[i as usize];
            let p = Rc::new(parse(r.lines.iter().map(|s| s.as_str()), &["//"]));
            let off = if r.size == 16 { 16 } else { 8 };
            let mut mem = window(r.size);
            let dense = ctx.thorough || (r.order == 3 && r.op != Rmw::Cas);
            let va: Vec<u128> = if r.size == 1 && dense { (0..256).collect() } else { vh::syncops::vals(r.size, dense) };
            let vb: Vec<u128> = if r.op == Rmw::Cas { vh::syncops::vals(r.size, false) } else { vec![0] };
            for old in &va {
                put(&mut mem, off, r.size as usize, false, *old);
                for a in &va {
                    // For compare-and-swap also the expected value that matches.
                    for a in if r.op == Rmw::Cas { vec![*a, *old] } else { vec![*a] } {
                        for b in &vb {
                            for flag in [0, 1] {
                                for junk in [JUNK, 0] {
                                    let sp = spec(r, off, a, *b);
                                    w.args([*old as u64, a as u64, *b as u64, flag as u64]);
                                    match check_alone(&mem, false, flag, &sp, &|| call(&p, r.op, r.size, junk, sp.addr, a, *b)) {
                                        Ok(nt) => w.done(nt),
                                        Err(e) => ctx.violate(&r.name, &format!("flag {flag} value {old:#x} operands {a:#x} {b:#x} junk {junk:#x}"), "one application of the operation", &e),
                                    }
                                }
                            }
                        }
                        if r.op == Rmw::Cas && a == *old {
                            break;
                        }
                    }
                }
            }
        });
        ctx.par("ordering of every routine, one caller, any flag", n, |i, w| {
            let r = &rs[i as usize];
            let off = if r.size == 16 { 16 } else { 8 };
            for (init, a, b) in [(5u128, 5u128, 6u128), (5, 6, 7), (0, 1, 2), (bits(r.size), bits(r.size), 0)] {
                let mut mem = window(r.size);
                put(&mut mem, off, r.size as usize, false, init);
                for flags in [vec![0], vec![1], vec![0, 1]] {
                    let world = World { mem: mem.clone(), be: false, flags, spurious: 3 };
                    go(ctx, w, &r.name, &world, &[thread(r, spec(r, off, a, b))]);
                }
            }
        });
        ctx.par("two concurrent calls on one object", n * n, |i, w| {
            let (x, y) = (&rs[(i / n) as usize], &rs[(i % n) as usize]);
            if x.size != y.size || (x.order != y.order && !ctx.thorough) {
                return;
            }
            let m = bits(x.size);
            let off = if x.size == 16 { 16 } else { 8 };
            for (init, a, b) in [(0u128, [1u128, 2], [0u128, 1]), (5, [5, 9], [9, 5]), (m, [1, m], [m, 0]), (m / 3, [m / 3, m], [m / 3 * 2, m / 3])] {
                let mut mem = window(x.size);
                put(&mut mem, off, x.size as usize, false, init);
                for flags in [vec![0], vec![1], vec![0, 1]] {
                    let world = World { mem: mem.clone(), be: false, flags, spurious: if ctx.thorough { 2 } else { 1 } };
                    let t = [thread(x, spec(x, off, a[0], a[1])), thread(y, spec(y, off, b[0], b[1]))];
                    go(ctx, w, &format!("{} || {}", x.name, y.name), &world, &t);
                }
            }
        });
        let few: Vec<&R> = rs.iter().filter(|r| r.order == 3 && (ctx.thorough || r.size == 1 || r.size == 8 || r.size == 16)).collect();
        let k = few.len() as u64;
        ctx.par("three concurrent calls on one object", k * k, |i, w| {
            let (x, y) = (few[(i / k) as usize], few[(i % k) as usize]);
            if x.size != y.size {
                return;
            }
            let off = if x.size == 16 { 16 } else { 8 };
            for z in few.iter().filter(|z| z.size == x.size) {
                let mut mem = window(x.size);
                put(&mut mem, off, x.size as usize, false, 5);
                let world = World { mem, be: false, flags: vec![0, 1], spurious: 0 };
                let t = [thread(x, spec(x, off, 5, 6)), thread(y, spec(y, off, 6, 7)), thread(z, spec(z, off, 7, 5))];
                go(ctx, w, &format!("{} || {} || {}", x.name, y.name, z.name), &world, &t);
            }
        });
        ctx.seq("enabling the single-instruction family", |w| {
            let a = oa::get_have_lse_atomics();
            oa::__rust_enable_lse();
            let b = oa::get_have_lse_atomics();
            unsafe { oa::set_have_lse_atomics(false) };
            let c = oa::get_have_lse_atomics();
            if (a, b, c) != (false, true, false) {
                ctx.violate("__rust_enable_lse", "", "(false, true, false)", &format!("{:?}", (a, b, c)));
            }
            w.done(true);
        });
    })
}
#[cfg(not(feature = "arch"))]
fn main() {
    println!("the files this check needs do not build");
    std::process::exit(2)
}
