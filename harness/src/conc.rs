//! Explicit-state exploration of atomic read-modify-write routines.
//!
//! A thread is one call of a routine under test. Its state is the list of answers its requests got so far: the
//! next request is found by running the real routine again on that list (`fake_core::co::run`), and is kept.
//! All interleavings of the requests are explored, with exclusive monitors, bounded spurious failures and
//! nondeterministic feature flags; visited states are stored in full.

use fake_core::co::{self, Kind, Out, Req};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Rmw {
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Umax,
    Min,
    Umin,
    Swap,
    Cas,
    /// a plain store of another part of the program, not a routine under test
    Plain,
    /// bits given are cleared
    Clr,
}

#[derive(Clone, Copy, Debug)]
pub struct Spec {
    pub op: Rmw,
    pub size: u8,
    pub addr: u64,
    pub a: u128,
    pub b: u128,
    pub new: bool,
    pub acquire: bool,
    pub release: bool,
    /// a barrier on both sides is required
    pub fenced: bool,
    /// accesses must stay inside the object rather than its aligned word
    pub exact: bool,
}

pub fn bits(size: u8) -> u128 {
    u128::MAX >> (128 - 8 * size as u32)
}
fn sext(v: u128, size: u8) -> i128 {
    let s = 128 - 8 * size as u32;
    (v << s) as i128 >> s
}

impl Spec {
    pub fn new(op: Rmw, size: u8, addr: u64, a: u128, b: u128, new: bool) -> Self {
        Spec { op, size, addr, a, b, new, acquire: false, release: false, fenced: false, exact: true }
    }
    pub fn apply(&self, v: u128) -> u128 {
        let (a, m) = (self.a & bits(self.size), bits(self.size));
        let s = |x| sext(x, self.size);
        m & match self.op {
            Rmw::Add => v.wrapping_add(a),
            Rmw::Sub => v.wrapping_sub(a),
            Rmw::And => v & a,
            Rmw::Or => v | a,
            Rmw::Xor => v ^ a,
            Rmw::Nand => !(v & a),
            Rmw::Max => if s(v) > s(a) { v } else { a },
            Rmw::Min => if s(v) < s(a) { v } else { a },
            Rmw::Umax => v.max(a),
            Rmw::Umin => v.min(a),
            Rmw::Swap | Rmw::Plain => a,
            Rmw::Cas => if v == a { self.b } else { v },
            Rmw::Clr => v & !a,
        }
    }
    pub fn ret(&self, v: u128) -> u128 {
        if self.new { self.apply(v) } else { v }
    }
}

pub const BASE: u64 = 0x1000_0000;
/// Address of a feature flag read by the routine.
pub const FLAG: u64 = 0x2345_6789;

pub fn get(mem: &[u8], off: usize, size: usize, be: bool) -> u128 {
    let mut v = 0;
    for i in 0..size {
        let b = mem[off + i] as u128;
        v |= b << (8 * if be { size - 1 - i } else { i });
    }
    v
}
pub fn put(mem: &mut [u8], off: usize, size: usize, be: bool, v: u128) {
    for i in 0..size {
        mem[off + i] = (v >> (8 * if be { size - 1 - i } else { i })) as u8;
    }
}

/// What a single-instruction atomic stores: `order` bit 7 tells operation from compare-and-swap.
fn lse_value(r: &Req, old: u128) -> u128 {
    if r.order & 0x80 == 0 {
        return if old == r.a { r.b } else { old };
    }
    bits(r.size)
        & match r.b {
            1 => r.a,
            2 => old.wrapping_add(r.a),
            3 => old & !r.a,
            4 => old ^ r.a,
            5 => old | r.a,
            _ => unreachable!(),
        }
}

pub struct Thread<'a> {
    pub spec: Spec,
    pub body: Box<dyn Fn() -> u128 + 'a>,
}

#[derive(Clone, Debug)]
pub struct World {
    pub mem: Vec<u8>,
    pub be: bool,
    /// answers a flag read may get
    pub flags: Vec<u128>,
    pub spurious: u8,
}

#[derive(Clone, Hash, PartialEq, Eq, Default)]
struct Th {
    node: u32,
    mon: (u64, u8),
    fails: u8,
    started: bool,
    lin: bool,
    done: bool,
    expect: u128,
    seen: Vec<u128>,
    bar_before: bool,
    bar_after: bool,
    acq: bool,
    rel_bar: bool,
}

#[derive(Clone, Hash, PartialEq, Eq)]
struct St {
    mem: Vec<u8>,
    th: Vec<Th>,
}

struct Node {
    hist: Vec<u128>,
    out: Out,
    kids: HashMap<u128, u32>,
}

#[derive(Default, Debug, Clone, Copy)]
pub struct Count {
    pub states: u64,
    pub transitions: u64,
    pub ends: u64,
    pub runs: u64,
}

struct Explorer<'a, 'b> {
    w: &'a World,
    t: &'a [Thread<'b>],
    nodes: Vec<Vec<Node>>,
    n: Count,
}

impl Explorer<'_, '_> {
    fn child(&mut self, t: usize, node: u32, ans: u128) -> u32 {
        if let Some(k) = self.nodes[t][node as usize].kids.get(&ans) {
            return *k;
        }
        let mut hist = self.nodes[t][node as usize].hist.clone();
        hist.push(ans);
        let k = self.nodes[t].len() as u32;
        let out = self.exec(t, &hist);
        self.nodes[t].push(Node { hist, out, kids: HashMap::new() });
        self.nodes[t][node as usize].kids.insert(ans, k);
        k
    }
    fn exec(&mut self, t: usize, hist: &[u128]) -> Out {
        self.n.runs += 1;
        co::run(hist, &*self.t[t].body)
    }

    /// A write by thread `i`; checks that it is that thread's operation on the current value.
    fn write(&self, s: &mut St, i: usize, r: &Req, v: u128, rel: bool) -> Result<(), String> {
        let sp = &self.t[i].spec;
        let (o, n) = ((sp.addr - BASE) as usize, sp.size as usize);
        let before = s.mem.clone();
        put(&mut s.mem, (r.addr - BASE) as usize, r.size as usize, self.w.be, v);
        for k in 0..s.mem.len() {
            if (k < o || k >= o + n) && s.mem[k] != before[k] {
                return Err(format!("thread {i} changed byte {k} outside of its object: {before:02x?} -> {:02x?}", s.mem));
            }
        }
        let (old, new) = (get(&before, o, n, self.w.be), get(&s.mem, o, n, self.w.be));
        if s.th[i].lin {
            if old != new {
                return Err(format!("thread {i} wrote a second time: {old:#x} -> {new:#x}"));
            }
        } else {
            if new != sp.apply(old) {
                return Err(format!("thread {i} wrote {new:#x} over {old:#x}, its operation gives {:#x}", sp.apply(old)));
            }
            if sp.fenced && !s.th[i].bar_before && old != new {
                return Err(format!("thread {i} wrote {new:#x} without a barrier before it"));
            }
            if sp.release && !rel && old != new {
                return Err(format!("thread {i} wrote {new:#x} without release ordering"));
            }
            s.th[i].lin = true;
            s.th[i].expect = sp.ret(old);
            s.th[i].seen.clear();
        }
        // The write ends other threads' reservations on these bytes and the writer's own.
        for (k, t) in s.th.iter_mut().enumerate() {
            if k != i && t.mon.1 != 0 && t.mon.0 < r.addr + r.size as u64 && r.addr < t.mon.0 + t.mon.1 as u64 {
                t.mon = (0, 0);
            }
        }
        // Values other pending operations may have read.
        for (k, t) in s.th.iter_mut().enumerate() {
            let sp = &self.t[k].spec;
            if t.started && !t.lin && !t.done {
                let v = get(&s.mem, (sp.addr - BASE) as usize, sp.size as usize, self.w.be);
                if let Err(p) = t.seen.binary_search(&v) {
                    t.seen.insert(p, v);
                }
            }
        }
        Ok(())
    }

    fn step(&mut self, s: &St, i: usize, next: &mut Vec<St>) -> Result<(), String> {
        let sp = self.t[i].spec;
        let node = s.th[i].node;
        let mut s = s.clone();
        if !s.th[i].started {
            s.th[i].started = true;
            s.th[i].seen = vec![get(&s.mem, (sp.addr - BASE) as usize, sp.size as usize, self.w.be)];
        }
        let r = match self.nodes[i][node as usize].out.clone() {
            Out::Need(r) => r,
            Out::Done(got) => {
                let t = &mut s.th[i];
                if sp.op != Rmw::Plain {
                    if t.lin {
                        if got != t.expect {
                            return Err(format!("thread {i} returned {got:#x}, its operation gave {:#x}", t.expect));
                        }
                    } else if !t.seen.iter().any(|v| sp.apply(*v) == *v && sp.ret(*v) == got) {
                        return Err(format!("thread {i} returned {got:#x} without taking effect; values during the call: {:#x?}", t.seen));
                    }
                    if sp.fenced && !t.bar_after {
                        return Err(format!("thread {i} returned without a barrier after its last access"));
                    }
                    if sp.acquire && !t.acq {
                        return Err(format!("thread {i} returned without acquire ordering"));
                    }
                }
                // Only the fact of completion matters from here on.
                *t = Th { done: true, ..Th::default() };
                next.push(s);
                return Ok(());
            }
            Out::Naked(..) => return Err("assembly routine called where none was expected".into()),
        };
        let end = BASE + s.mem.len() as u64;
        if r.kind != Kind::Barrier && r.kind != Kind::ClearEx && r.addr != FLAG {
            let inside = if sp.exact {
                r.addr >= sp.addr && r.addr + r.size as u64 <= sp.addr + sp.size as u64
            } else {
                r.addr & !3 == sp.addr & !3
            };
            if r.addr < BASE || r.addr + r.size as u64 > end || !inside || r.addr % r.size as u64 != 0 {
                return Err(format!("thread {i}: access outside of its object: {r:x?}"));
            }
        }
        let off = r.addr.wrapping_sub(BASE) as usize;
        let go = |me: &mut Self, mut s: St, ans: u128, next: &mut Vec<St>| {
            s.th[i].node = me.child(i, node, ans);
            next.push(s);
        };
        match r.kind {
            Kind::Load if r.addr == FLAG => {
                for f in self.w.flags.clone() {
                    go(self, s.clone(), f, next);
                }
            }
            Kind::Load | Kind::AtomicLoad | Kind::LoadEx => {
                let v = get(&s.mem, off, r.size as usize, self.w.be);
                if r.kind == Kind::LoadEx {
                    s.th[i].mon = (r.addr, r.size);
                }
                s.th[i].bar_after = false;
                s.th[i].acq = r.order & 1 != 0;
                go(self, s, v, next);
            }
            Kind::ClearEx => {
                s.th[i].mon = (0, 0);
                go(self, s, 0, next);
            }
            Kind::Barrier => {
                let t = &mut s.th[i];
                t.bar_before = true;
                t.bar_after = true;
                t.acq |= r.order & 1 != 0;
                t.rel_bar |= r.order & 2 != 0;
                go(self, s, 0, next);
            }
            Kind::StoreEx => {
                let held = s.th[i].mon == (r.addr, r.size);
                s.th[i].mon = (0, 0);
                s.th[i].bar_after = false;
                if !held || s.th[i].fails < self.w.spurious {
                    let mut f = s.clone();
                    f.th[i].fails += held as u8;
                    go(self, f, 1, next);
                }
                if held {
                    let rel = r.order & 2 != 0 || s.th[i].rel_bar;
                    self.write(&mut s, i, &r, r.a, rel)?;
                    go(self, s, 0, next);
                }
            }
            Kind::Store | Kind::AtomicStore => {
                s.th[i].bar_after = false;
                let rel = r.order & 2 != 0 || s.th[i].rel_bar;
                self.write(&mut s, i, &r, r.a, rel)?;
                go(self, s, 0, next);
            }
            Kind::KuserCas => {
                let v = get(&s.mem, off, r.size as usize, self.w.be);
                if v != r.a {
                    go(self, s, 1, next);
                } else {
                    if s.th[i].fails < self.w.spurious {
                        let mut f = s.clone();
                        f.th[i].fails += 1;
                        go(self, f, 0xffff_ffff, next);
                    }
                    self.write(&mut s, i, &r, r.b, true)?;
                    go(self, s, 0, next);
                }
            }
            Kind::AtomicSwap | Kind::AtomicCas | Kind::AtomicOr | Kind::AtomicAdd => {
                return Err(format!("thread {i}: {r:x?} is not expected here"));
            }
            Kind::Lse => {
                let v = get(&s.mem, off, r.size as usize, self.w.be);
                s.th[i].acq = r.order & 1 != 0;
                s.th[i].bar_after = false;
                let n = lse_value(&r, v);
                if r.order & 0x80 != 0 || v == r.a {
                    let rel = r.order & 2 != 0 || s.th[i].rel_bar;
                    self.write(&mut s, i, &r, n, rel)?;
                }
                go(self, s, v, next);
            }
            Kind::None | Kind::Naked => unreachable!(),
        }
        Ok(())
    }
}

/// Explores every interleaving; the error describes the first violation found.
pub fn explore(w: &World, t: &[Thread]) -> Result<Count, String> {
    let mut e = Explorer { w, t, nodes: vec![], n: Count::default() };
    for i in 0..t.len() {
        let out = e.exec(i, &[]);
        e.nodes.push(vec![Node { hist: vec![], out, kids: HashMap::new() }]);
    }
    let s0 = St { mem: w.mem.clone(), th: vec![Th::default(); t.len()] };
    let mut seen = HashSet::new();
    seen.insert(s0.clone());
    let mut stack = vec![(s0, Vec::<u8>::new())];
    let mut next = vec![];
    while let Some((s, path)) = stack.pop() {
        let mut any = false;
        for i in 0..t.len() {
            if s.th[i].done {
                continue;
            }
            any = true;
            e.step(&s, i, &mut next).map_err(|m| format!("{m}; schedule so far {path:?} then {i}"))?;
            for n in next.drain(..) {
                e.n.transitions += 1;
                if seen.len() > 5_000_000 {
                    return Err("state space larger than expected: retries do not end".into());
                }
                if seen.insert(n.clone()) {
                    let mut p = path.clone();
                    p.push(i as u8);
                    stack.push((n, p));
                }
            }
        }
        if !any {
            e.n.ends += 1;
        }
    }
    e.n.states = seen.len() as u64;
    Ok(e.n)
}

/// One call alone, requests answered at once; returns the result.
pub fn alone(mem: &mut [u8], be: bool, flag: u128, sp: &Spec, body: &dyn Fn() -> u128) -> Result<u128, String> {
    let mut err = None;
    let mut mon = (0u64, 0u8);
    let mut steps = 0;
    let len = mem.len() as u64;
    let o = co::run_sync(body, &mut |r: Req| {
        steps += 1;
        if steps > 10_000 {
            eprintln!("a single call does not end: {sp:x?}");
            panic!("retries do not end");
        }
        match r.kind {
            Kind::Barrier => return 0,
            Kind::ClearEx => {
                mon = (0, 0);
                return 0;
            }
            Kind::Load if r.addr == FLAG => return flag,
            _ => {}
        }
        if r.addr < BASE || r.addr + r.size as u64 > BASE + len || r.addr % r.size as u64 != 0 {
            err = Some(format!("access outside of its object: {r:x?}"));
            return 0;
        }
        let (o, n) = ((r.addr - BASE) as usize, r.size as usize);
        let v = get(mem, o, n, be);
        match r.kind {
            Kind::Load | Kind::AtomicLoad => v,
            Kind::LoadEx => {
                mon = (r.addr, r.size);
                v
            }
            Kind::StoreEx => {
                let ok = mon == (r.addr, r.size);
                mon = (0, 0);
                if ok {
                    put(mem, o, n, be, r.a);
                }
                !ok as u128
            }
            Kind::Store | Kind::AtomicStore => {
                put(mem, o, n, be, r.a);
                0
            }
            Kind::KuserCas => {
                if v == r.a {
                    put(mem, o, n, be, r.b);
                }
                (v != r.a) as u128
            }
            Kind::Lse => {
                put(mem, o, n, be, lse_value(&r, v));
                v
            }
            _ => {
                err = Some(format!("unexpected {r:x?}"));
                0
            }
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    match o {
        Out::Done(v) => Ok(v),
        _ => Err("the call did not end".into()),
    }
}

/// Checks one lone call against the operation.
pub fn check_alone(mem0: &[u8], be: bool, flag: u128, sp: &Spec, body: &dyn Fn() -> u128) -> Result<bool, String> {
    let mut m = mem0.to_vec();
    let (o, n) = ((sp.addr - BASE) as usize, sp.size as usize);
    let old = get(mem0, o, n, be);
    let got = alone(&mut m, be, flag, sp, body)?;
    let mut want = mem0.to_vec();
    put(&mut want, o, n, be, sp.apply(old));
    if m != want {
        return Err(format!("memory {m:02x?}, expected {want:02x?}"));
    }
    if got != sp.ret(old) {
        return Err(format!("returned {got:#x}, expected {:#x}", sp.ret(old)));
    }
    Ok(sp.apply(old) != old)
}
