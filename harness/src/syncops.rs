//! The `__sync_*` routines shared by the two 32-bit ARM implementations, as tables.

use crate::conc::Rmw;
use archasm::{arm_linux_be, arm_linux_le, thumbv6k};

pub type Call = fn(u64, u128, u128) -> u128;
#[derive(Clone, Copy)]
pub struct Routine {
    pub name: &'static str,
    pub op: Rmw,
    pub size: u8,
    pub new: bool,
    pub call: Call,
}

macro_rules! table {
    ($($f:ident: $op:ident $size:literal $new:literal $t:ty, $u:ty;)*) => {
        table!(@ arm_linux_le; $($f: $op $size $new $t, $u;)*);
        table!(@ arm_linux_be; $($f: $op $size $new $t, $u;)*);
        table!(@ thumbv6k; $($f: $op $size $new $t, $u;)*);
    };
    (@ $m:ident; $($f:ident: $op:ident $size:literal $new:literal $t:ty, $u:ty;)*) => {
        #[rustfmt::skip]
        pub fn $m() -> Vec<Routine> {
            let mut v: Vec<Routine> = vec![$(Routine {
                name: stringify!($f), op: Rmw::$op, size: $size, new: $new,
                call: |p, a, _| unsafe { $m::$f(p as *mut $t, a as $t) as $u as u128 },
            }),*];
            v.push(Routine { name: "__sync_val_compare_and_swap_1", op: Rmw::Cas, size: 1, new: false,
                call: |p, a, b| unsafe { $m::__sync_val_compare_and_swap_1(p as *mut u8, a as u8, b as u8) as u128 } });
            v.push(Routine { name: "__sync_val_compare_and_swap_2", op: Rmw::Cas, size: 2, new: false,
                call: |p, a, b| unsafe { $m::__sync_val_compare_and_swap_2(p as *mut u16, a as u16, b as u16) as u128 } });
            v.push(Routine { name: "__sync_val_compare_and_swap_4", op: Rmw::Cas, size: 4, new: false,
                call: |p, a, b| unsafe { $m::__sync_val_compare_and_swap_4(p as *mut u32, a as u32, b as u32) as u128 } });
            v
        }
    };
}
table! {
    __sync_fetch_and_add_1: Add 1 false u8, u8; __sync_fetch_and_add_2: Add 2 false u16, u16; __sync_fetch_and_add_4: Add 4 false u32, u32;
    __sync_add_and_fetch_1: Add 1 true u8, u8; __sync_add_and_fetch_2: Add 2 true u16, u16; __sync_add_and_fetch_4: Add 4 true u32, u32;
    __sync_fetch_and_sub_1: Sub 1 false u8, u8; __sync_fetch_and_sub_2: Sub 2 false u16, u16; __sync_fetch_and_sub_4: Sub 4 false u32, u32;
    __sync_sub_and_fetch_1: Sub 1 true u8, u8; __sync_sub_and_fetch_2: Sub 2 true u16, u16; __sync_sub_and_fetch_4: Sub 4 true u32, u32;
    __sync_fetch_and_and_1: And 1 false u8, u8; __sync_fetch_and_and_2: And 2 false u16, u16; __sync_fetch_and_and_4: And 4 false u32, u32;
    __sync_and_and_fetch_1: And 1 true u8, u8; __sync_and_and_fetch_2: And 2 true u16, u16; __sync_and_and_fetch_4: And 4 true u32, u32;
    __sync_fetch_and_or_1: Or 1 false u8, u8; __sync_fetch_and_or_2: Or 2 false u16, u16; __sync_fetch_and_or_4: Or 4 false u32, u32;
    __sync_or_and_fetch_1: Or 1 true u8, u8; __sync_or_and_fetch_2: Or 2 true u16, u16; __sync_or_and_fetch_4: Or 4 true u32, u32;
    __sync_fetch_and_xor_1: Xor 1 false u8, u8; __sync_fetch_and_xor_2: Xor 2 false u16, u16; __sync_fetch_and_xor_4: Xor 4 false u32, u32;
    __sync_xor_and_fetch_1: Xor 1 true u8, u8; __sync_xor_and_fetch_2: Xor 2 true u16, u16; __sync_xor_and_fetch_4: Xor 4 true u32, u32;
    __sync_fetch_and_nand_1: Nand 1 false u8, u8; __sync_fetch_and_nand_2: Nand 2 false u16, u16; __sync_fetch_and_nand_4: Nand 4 false u32, u32;
    __sync_nand_and_fetch_1: Nand 1 true u8, u8; __sync_nand_and_fetch_2: Nand 2 true u16, u16; __sync_nand_and_fetch_4: Nand 4 true u32, u32;
    __sync_fetch_and_max_1: Max 1 false i8, u8; __sync_fetch_and_max_2: Max 2 false i16, u16; __sync_fetch_and_max_4: Max 4 false i32, u32;
    __sync_fetch_and_umax_1: Umax 1 false u8, u8; __sync_fetch_and_umax_2: Umax 2 false u16, u16; __sync_fetch_and_umax_4: Umax 4 false u32, u32;
    __sync_fetch_and_min_1: Min 1 false i8, u8; __sync_fetch_and_min_2: Min 2 false i16, u16; __sync_fetch_and_min_4: Min 4 false i32, u32;
    __sync_fetch_and_umin_1: Umin 1 false u8, u8; __sync_fetch_and_umin_2: Umin 2 false u16, u16; __sync_fetch_and_umin_4: Umin 4 false u32, u32;
    __sync_lock_test_and_set_1: Swap 1 false u8, u8; __sync_lock_test_and_set_2: Swap 2 false u16, u16; __sync_lock_test_and_set_4: Swap 4 false u32, u32;
}

/// Operand values of a width: edges and mixed patterns.
pub fn vals(size: u8, dense: bool) -> Vec<u128> {
    let m = crate::conc::bits(size);
    let n = 8 * size as u32;
    let mut v: Vec<u128> = vec![0, 1, 2, 0x7f, 0x80, 0x81, 0xff, 0x55, 0xaa, m, m - 1, m >> 1, (m >> 1) + 1, (m >> 1) + 2, m / 3, m / 3 * 2];
    if dense {
        for i in 0..n {
            v.push(1 << i);
            v.push((1 << i) - 1);
            v.push(!(1u128 << i));
            v.push((m << i).wrapping_add(1));
        }
    }
    for x in v.iter_mut() {
        *x &= m;
    }
    v.sort();
    v.dedup();
    v
}

/// Sections common to both implementations: operand enumeration, pairs and triples of concurrent calls.
pub mod sections {
    use super::*;
    use crate::conc::*;
    use crate::ctx::{Ctx, Worker};
    use fake_core::co::{self, Kind, Req};

    pub fn spec(r: &Routine, addr: u64, a: u128, b: u128, fenced: bool, exact: bool) -> Spec {
        Spec { fenced, exact, ..Spec::new(r.op, r.size, addr, a, b, r.new) }
    }

    pub fn thread(r: &Routine, sp: Spec) -> Thread<'static> {
        let call = r.call;
        Thread { spec: sp, body: Box::new(move || call(sp.addr, sp.a, sp.b)) }
    }
    pub fn plain(addr: u64, size: u8, v: u128) -> Thread<'static> {
        let sp = Spec::new(Rmw::Plain, size, addr, v, 0, false);
        Thread { spec: sp, body: Box::new(move || co::request(Req { kind: Kind::Store, addr, size, a: v, b: 0, order: 0 })) }
    }

    pub fn operands(ctx: &Ctx, tag: &str, rs: &[Routine], be: bool, fenced: bool, exact: bool, prep: fn()) {
        ctx.par(&format!("{tag}: operands and positions, one caller"), rs.len() as u64 * 4, |i, w| {
            prep();
            let r = &rs[i as usize / 4];
            let off = i as usize % 4;
            if off % r.size as usize != 0 {
                return;
            }
            let mut mem = [0xc1u8, 0x3e, 0x97, 0x68, 0x5a, 0xf0, 0x0d, 0xb4];
            let all = r.size == 1 && (w.ctx.thorough || r.op != Rmw::Cas);
            let va: Vec<u128> = if all { (0..256).collect() } else { vals(r.size, true) };
            let vb: Vec<u128> = if r.op == Rmw::Cas { vals(r.size, w.ctx.thorough) } else { vec![0] };
            for old in &va {
                put(&mut mem, off, r.size as usize, be, *old);
                for a in &va {
                    for b in &vb {
                        let sp = spec(r, BASE + off as u64, *a, *b, fenced, exact);
                        w.func(r.name);
                        w.args([*old as u64, *a as u64, *b as u64, off as u64]);
                        match check_alone(&mem, be, 0, &sp, &|| (r.call)(sp.addr, sp.a, sp.b)) {
                            Ok(nt) => w.done(nt),
                            Err(e) => w.ctx.violate(r.name, &format!("{tag} offset {off} value {old:#x} operand {a:#x} {b:#x}"), "one application of the operation", &e),
                        }
                    }
                }
            }
        });
    }

    fn go(w: &mut Worker, tag: &str, names: &str, world: &World, t: &[Thread], n: &mut Count) {
        w.beat();
        match explore(world, t) {
            Ok(c) => {
                n.states += c.states;
                n.transitions += c.transitions;
                n.runs += c.runs;
                w.done(c.transitions >= c.states);
            }
            Err(e) => {
                let s: Vec<String> = t.iter().map(|t| format!("{:x?}", t.spec)).collect();
                w.ctx.violate(names, &format!("{tag} memory {:02x?} threads {}", world.mem, s.join("; ")), "every call takes effect once, atomically", &e);
            }
        }
    }

    /// Initial value and two operand pairs.
    fn mixes(size: u8) -> Vec<(u128, [u128; 2], [u128; 2])> {
        let m = bits(size);
        vec![
            (0, [1, 2], [0, 1]),
            (5, [5, 9], [9, 5]),
            (m, [1, m], [m, 0]),
            (m / 2 + 1, [m / 2, m / 2 + 1], [m / 2 + 1, m]),
            (m / 3, [m / 3, m], [m / 3 * 2, m / 3]),
        ]
    }

    pub fn pairs(ctx: &Ctx, tag: &str, rs: &[Routine], be: bool, fenced: bool, exact: bool, prep: fn()) {
        let n = rs.len();
        ctx.par(&format!("{tag}: two concurrent calls on one object"), (n * n) as u64, |i, w| {
            prep();
            let (x, y) = (&rs[i as usize / n], &rs[i as usize % n]);
            if x.size != y.size {
                return;
            }
            let mut c = Count::default();
            for off in (0..4).step_by(x.size as usize) {
                for (init, a, b) in mixes(x.size) {
                    let mut mem = vec![0xc1u8, 0x3e, 0x97, 0x68, 0x5a, 0xf0, 0x0d, 0xb4];
                    put(&mut mem, off, x.size as usize, be, init);
                    let world = World { mem, be, flags: vec![0], spurious: if w.ctx.thorough { 2 } else { 1 } };
                    let at = BASE + off as u64;
                    let t = [thread(x, spec(x, at, a[0], a[1], fenced, exact)), thread(y, spec(y, at, b[0], b[1], fenced, exact))];
                    go(w, tag, &format!("{} || {}", x.name, y.name), &world, &t, &mut c);
                }
            }
            ctx.add_states(c.states, c.transitions, c.runs);
        });
        ctx.par(&format!("{tag}: concurrent calls on neighbouring objects"), (n * n) as u64, |i, w| {
            prep();
            let (x, y) = (&rs[i as usize / n], &rs[i as usize % n]);
            let mut c = Count::default();
            for ox in (0..4usize).step_by(x.size as usize) {
                for oy in (0..8usize).step_by(y.size as usize) {
                    if oy < ox + x.size as usize && ox < oy + y.size as usize {
                        continue;
                    }
                    let mem = vec![0xffu8, 0x00, 0x80, 0x7f, 0x01, 0xfe, 0x55, 0xaa];
                    let world = World { mem: mem.clone(), be, flags: vec![0], spurious: 0 };
                    let (cx, cy) = (get(&mem, ox, x.size as usize, be), get(&mem, oy, y.size as usize, be));
                    let t = [
                        thread(x, spec(x, BASE + ox as u64, cx, 3, fenced, exact)),
                        thread(y, spec(y, BASE + oy as u64, cy, bits(y.size), fenced, exact)),
                    ];
                    go(w, tag, &format!("{} || {}", x.name, y.name), &world, &t, &mut c);
                }
            }
            ctx.add_states(c.states, c.transitions, c.runs);
        });
        ctx.par(&format!("{tag}: a call and plain stores of neighbouring bytes"), n as u64, |i, w| {
            prep();
            let x = &rs[i as usize];
            let mut c = Count::default();
            for ox in (0..4usize).step_by(x.size as usize) {
                for oy in 0..8usize {
                    if oy >= ox && oy < ox + x.size as usize {
                        continue;
                    }
                    for (init, a, _) in mixes(x.size) {
                        let mut mem = vec![0xffu8, 0x00, 0x80, 0x7f, 0x01, 0xfe, 0x55, 0xaa];
                        put(&mut mem, ox, x.size as usize, be, init);
                        let world = World { mem, be, flags: vec![0], spurious: 1 };
                        let t = [thread(x, spec(x, BASE + ox as u64, a[0], a[1], fenced, exact)), plain(BASE + oy as u64, 1, 0x33)];
                        go(w, tag, &format!("{} || plain store", x.name), &world, &t, &mut c);
                    }
                }
            }
            ctx.add_states(c.states, c.transitions, c.runs);
        });
        let few: Vec<&Routine> = rs
            .iter()
            .filter(|r| ctx.thorough || matches!(r.op, Rmw::Add | Rmw::Nand | Rmw::Swap | Rmw::Cas | Rmw::Max) && !r.new)
            .collect();
        let k = few.len();
        ctx.par(&format!("{tag}: three concurrent calls on one object"), (k * k) as u64, |i, w| {
            prep();
            let (x, y) = (few[i as usize / k], few[i as usize % k]);
            if x.size != y.size {
                return;
            }
            let mut c = Count::default();
            for z in few.iter().filter(|z| z.size == x.size) {
                let m = bits(x.size);
                for (init, ops) in [(5u128, [(5u128, 6u128), (6, 7), (7, 5)]), (m, [(m, 0), (1, m), (0, m / 2)])] {
                    let off = 4 - x.size as usize;
                    let mut mem = vec![0xc1u8, 0x3e, 0x97, 0x68, 0x5a, 0xf0, 0x0d, 0xb4];
                    put(&mut mem, off, x.size as usize, be, init);
                    let world = World { mem, be, flags: vec![0], spurious: 0 };
                    let at = BASE + off as u64;
                    let t: Vec<Thread> =
                        [x, y, *z].iter().zip(ops).map(|(r, (a, b))| thread(r, spec(r, at, a, b, fenced, exact))).collect();
                    go(w, tag, &format!("{} || {} || {}", x.name, y.name, z.name), &world, &t, &mut c);
                }
            }
            ctx.add_states(c.states, c.transitions, c.runs);
        });
    }
}
