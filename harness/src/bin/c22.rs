//! Lazily initialised run-time selection under every interleaving and every value a relaxed load may see.
#[cfg(feature = "arch")]
fn main() {
    use archasm::math::arch::x86::detect::{cpu_flags as cf, get_cpu_features};
    use archasm::math::arch::x86::fma;
    use archasm::support::feature_detect::{Flags, get_or_init_flags_cache};
    use fake_core::co::{self, Kind, Out, Req};
    use std::collections::{HashMap, HashSet};
    use vh::run;
    use vh::xfma::*;

    type View = Vec<u8>;
    #[derive(Clone, Hash, PartialEq, Eq)]
    struct Msg {
        val: u128,
        view: View,
        /// the next message must directly follow the one it read
        taken: bool,
    }
    #[derive(Clone, Hash, PartialEq, Eq, Default)]
    struct Th {
        node: u32,
        done: bool,
        view: View,
        acq: View,
        rel: View,
    }
    #[derive(Clone, Hash, PartialEq, Eq)]
    struct St {
        loc: Vec<Vec<Msg>>,
        th: Vec<Th>,
    }
    struct Node {
        hist: Vec<u128>,
        out: Out,
        kids: HashMap<u128, u32>,
    }
    struct Body<'a> {
        f: Box<dyn Fn() -> u128 + 'a>,
        want: u128,
        what: String,
    }
    fn at(v: &View, l: usize) -> u8 {
        v.get(l).copied().unwrap_or(0)
    }
    fn set(v: &mut View, l: usize, x: u8) {
        while v.len() <= l {
            v.push(0);
        }
        v[l] = x;
    }
    fn join(a: &mut View, b: &View) {
        for (l, x) in b.iter().enumerate() {
            if at(a, l) < *x {
                set(a, l, *x);
            }
        }
    }

    struct Ex<'a, 'b> {
        t: &'a [Body<'b>],
        nodes: Vec<Vec<Node>>,
        locs: Vec<(u64, u8)>,
        counts: [u64; 3],
    }
    impl Ex<'_, '_> {
        fn child(&mut self, t: usize, node: u32, ans: u128) -> u32 {
            if let Some(k) = self.nodes[t][node as usize].kids.get(&ans) {
                return *k;
            }
            let mut hist = self.nodes[t][node as usize].hist.clone();
            hist.push(ans);
            let out = co::run(&hist, &*self.t[t].f);
            self.counts[2] += 1;
            let k = self.nodes[t].len() as u32;
            self.nodes[t].push(Node { hist, out, kids: HashMap::new() });
            self.nodes[t][node as usize].kids.insert(ans, k);
            k
        }
        fn loc(&mut self, s: &mut St, r: &Req) -> usize {
            let l = self.locs.iter().position(|x| x.0 == r.addr).unwrap_or_else(|| {
                self.locs.push((r.addr, r.size));
                self.locs.len() - 1
            });
            while s.loc.len() <= l {
                let (a, size) = self.locs[s.loc.len()];
                let v = unsafe { if size == 4 { *(a as *const u32) as u128 } else { *(a as *const u64) as u128 } };
                s.loc.push(vec![Msg { val: v, view: vec![], taken: false }]);
            }
            l
        }
        /// Puts a message into the order of its location and renumbers all views behind it.
        fn insert(s: &mut St, l: usize, pos: usize, m: Msg) {
            s.loc[l].insert(pos, m);
            let fix = |v: &mut View| {
                if at(v, l) as usize >= pos && v.len() > l {
                    v[l] += 1;
                }
            };
            for t in s.th.iter_mut() {
                fix(&mut t.view);
                fix(&mut t.acq);
                fix(&mut t.rel);
            }
            for m in s.loc.iter_mut().flatten() {
                fix(&mut m.view);
            }
        }
        fn step(&mut self, s: &St, i: usize, next: &mut Vec<St>) -> Result<(), String> {
            let node = s.th[i].node;
            let r = match self.nodes[i][node as usize].out.clone() {
                Out::Need(r) => r,
                Out::Done(v) => {
                    if v != self.t[i].want {
                        return Err(format!("thread {i} ({}) got {v:#x}, expected {:#x}", self.t[i].what, self.t[i].want));
                    }
                    let mut s = s.clone();
                    s.th[i] = Th { done: true, ..Th::default() };
                    next.push(s);
                    return Ok(());
                }
                Out::Naked(..) => return Err("assembly routine called where none was expected".into()),
            };
            let (acq, rel) = (r.order & 1 != 0, r.order & 2 != 0);
            if r.kind == Kind::Barrier {
                let mut s = s.clone();
                let t = &mut s.th[i];
                if acq {
                    let a = t.acq.clone();
                    join(&mut t.view, &a);
                }
                if rel {
                    t.rel = t.view.clone();
                }
                s.th[i].node = self.child(i, node, 0);
                next.push(s);
                return Ok(());
            }
            let mut s = s.clone();
            let l = self.loc(&mut s, &r);
            let low = at(&s.th[i].view, l) as usize;
            let n = s.loc[l].len();
            if n > 40 {
                return Err("stores do not end".into());
            }
            let read = |s: &mut St, k: usize| {
                let m = s.loc[l][k].clone();
                let t = &mut s.th[i];
                set(&mut t.view, l, k as u8);
                join(&mut t.acq, &m.view);
                if acq {
                    join(&mut t.view, &m.view);
                }
                m.val
            };
            let stamp = |s: &mut St, pos: usize, val: u128| {
                Ex::insert(s, l, pos, Msg { val, view: vec![], taken: false });
                let t = &mut s.th[i];
                set(&mut t.view, l, pos as u8);
                let mut v = t.rel.clone();
                if rel {
                    join(&mut v, &t.view);
                }
                set(&mut v, l, pos as u8);
                s.loc[l][pos].view = v;
            };
            match r.kind {
                Kind::AtomicLoad => {
                    for k in low..n {
                        let mut s = s.clone();
                        let v = read(&mut s, k);
                        s.th[i].node = self.child(i, node, v);
                        next.push(s);
                    }
                }
                Kind::AtomicStore => {
                    for pos in low + 1..=n {
                        if s.loc[l][pos - 1].taken {
                            continue;
                        }
                        let mut s = s.clone();
                        stamp(&mut s, pos, r.a);
                        s.th[i].node = self.child(i, node, 0);
                        next.push(s);
                    }
                }
                Kind::AtomicSwap | Kind::AtomicCas | Kind::AtomicOr | Kind::AtomicAdd => {
                    for k in low..n {
                        let mut s = s.clone();
                        let v = read(&mut s, k);
                        let new = match r.kind {
                            Kind::AtomicSwap => Some(r.a),
                            Kind::AtomicCas => (v == r.a).then_some(r.b),
                            Kind::AtomicOr => Some(v | r.a),
                            _ => Some((v + r.a) as u32 as u128),
                        };
                        if let Some(x) = new {
                            if s.loc[l][k].taken {
                                continue;
                            }
                            s.loc[l][k].taken = true;
                            stamp(&mut s, k + 1, x);
                        }
                        s.th[i].node = self.child(i, node, v);
                        next.push(s);
                    }
                }
                _ => return Err(format!("unexpected {r:x?}")),
            }
            Ok(())
        }
    }
    fn explore(t: &[Body]) -> Result<[u64; 3], String> {
        let mut e = Ex { t, nodes: vec![], locs: vec![], counts: [0; 3] };
        for b in t {
            e.nodes.push(vec![Node { hist: vec![], out: co::run(&[], &*b.f), kids: HashMap::new() }]);
        }
        let s0 = St { loc: vec![], th: vec![Th::default(); t.len()] };
        let mut seen = HashSet::from([s0.clone()]);
        let mut stack = vec![(s0, Vec::<u8>::new())];
        let mut next = vec![];
        while let Some((s, path)) = stack.pop() {
            for i in 0..t.len() {
                if s.th[i].done {
                    continue;
                }
                e.step(&s, i, &mut next).map_err(|m| format!("{m}; schedule {path:?} then {i}"))?;
                for n in next.drain(..) {
                    e.counts[1] += 1;
                    if seen.insert(n.clone()) {
                        let mut p = path.clone();
                        p.push(i as u8);
                        stack.push((n, p));
                    }
                }
            }
        }
        e.counts[0] = seen.len() as u64;
        Ok(e.counts)
    }

    // ---- programs
    const X: (f64, f64, f64) = (1.1, 3.3, -3.7);
    const Y: (f32, f32, f32) = (1.1, 3.3, -3.7);
    fn code(u: Used) -> u128 {
        match u {
            Used::Fma => 1,
            Used::Fma4 => 2,
            Used::Other => 3,
        }
    }
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Act {
        Fma,
        Fmaf,
        Feat,
    }
    /// Calls in order; the result packs what each returned and which instruction it used.
    fn program(acts: Vec<Act>, m: Machine) -> Body<'static> {
        let feats = {
            let mut v = 0u32;
            for (n, b) in [("SSE3", cf::SSE3), ("F16C", cf::F16C), ("SSE", cf::SSE), ("SSE2", cf::SSE2), ("ERMSB", cf::ERMSB), ("MOVRS", cf::MOVRS), ("FMA", cf::FMA), ("FMA4", cf::FMA4), ("AVX512FP16", cf::AVX512FP16), ("AVX512BF16", cf::AVX512BF16)] {
                if m.usable(n) {
                    v |= b;
                }
            }
            v as u128
        };
        let choice = if m.usable("FMA") { 1u128 } else if m.usable("FMA4") { 2 } else { 0 };
        let mix = |acc: u128, v: u128| acc.wrapping_mul(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835).wrapping_add(v ^ acc >> 64);
        let want = acts.iter().fold(1u128, |a, x| match x {
            Act::Fma => mix(mix(a, X.0.mul_add(X.1, X.2).to_bits() as u128), choice),
            Act::Fmaf => mix(mix(a, Y.0.mul_add(Y.1, Y.2).to_bits() as u128), choice),
            Act::Feat => mix(a, feats),
        });
        let what = format!("{acts:?} on {m:x?}");
        Body {
            f: Box::new(move || {
                let mut a = 1u128;
                for x in &acts {
                    LOG.with_borrow_mut(|l| l.clear());
                    match x {
                        Act::Feat => a = mix(a, (get_cpu_features().bits() & 0x7fff_ffff) as u128),
                        _ => {
                            let v = if *x == Act::Fma { fma::fma(X.0, X.1, X.2).to_bits() as u128 } else { fma::fmaf(Y.0, Y.1, Y.2).to_bits() as u128 };
                            let c = LOG.with_borrow(|l| l.iter().fold(0, |c, u| c * 4 + code(*u)));
                            a = mix(mix(a, v), c);
                        }
                    }
                }
                a
            }),
            want,
            what,
        }
    }
    static CACHES: [fake_core::sync::atomic::AtomicU32; 2] = [const { fake_core::sync::atomic::AtomicU32::new(0) }; 2];
    fn cache_user(calls: Vec<usize>, vals: [u32; 2]) -> Body<'static> {
        let want = calls.iter().fold(1u128, |a, c| a * 0x1_0000_0001 ^ vals[*c] as u128);
        let what = format!("flag caches {calls:?} of {vals:x?}");
        Body {
            f: Box::new(move || {
                calls.iter().fold(1u128, |a, c| {
                    let v = get_or_init_flags_cache(&CACHES[*c], || Flags::from_bits(vals[*c])).bits() & 0x7fff_ffff;
                    a * 0x1_0000_0001 ^ v as u128
                })
            }),
            want,
            what,
        }
    }

    run("C22", "model_checking", |ctx| {
        ctx.rule("a case is one set of concurrent callers on one machine; all interleavings and all values a load may see under the orderings used are explored; nontrivial = different schedules meet in one state");
        ctx.assume("memory model: per-location total store order with per-thread views (relaxed, acquire, release, fences); no load buffering cycles");
        let all = 0x1ffff;
        let machines: Vec<Machine> = {
            let (i, a) = (*b"GenuineIntel", *b"AuthenticAMD");
            let m = |vendor, bits| Machine { vendor, max_basic: 0x1f, max_ext: 0x8000_0008, bits, ground: false };
            vec![
                m(i, all),
                m(i, all & !(1 << 1)),
                m(i, 0),
                m(a, all & !(1 << 1)),
                m(a, all),
                m(a, all & !(1 << 13)),
                m(i, 1 << 5 | 1 << 6),
            ]
        };
        let acts = [Act::Fma, Act::Fmaf, Act::Feat];
        let mut seqs: Vec<Vec<Act>> = vec![];
        for a in acts {
            seqs.push(vec![a]);
            for b in acts {
                seqs.push(vec![a, b]);
            }
        }
        if ctx.thorough {
            for a in acts {
                for b in acts {
                    for c in acts {
                        seqs.push(vec![a, b, c]);
                    }
                }
            }
        }
        let n = seqs.len() as u64;
        let go = |w: &mut vh::Worker, t: &[Body]| {
            w.beat();
            match explore(t) {
                Ok(c) => {
                    ctx.add_states(c[0], c[1], c[2]);
                    w.done(c[1] >= c[0]);
                }
                Err(e) => {
                    let s: Vec<&str> = t.iter().map(|b| b.what.as_str()).collect();
                    ctx.violate("run-time selection", &s.join(" || "), "every caller gets the initialised choice", &e);
                }
            }
        };
        ctx.par("two callers", machines.len() as u64 * n * n, |i, w| {
            let m = machines[(i / (n * n)) as usize];
            m.install();
            co::set_asm(asm);
            let (a, b) = (&seqs[(i / n % n) as usize], &seqs[(i % n) as usize]);
            if a.len() + b.len() <= 4 || ctx.thorough {
                go(w, &[program(a.clone(), m), program(b.clone(), m)]);
            }
        });
        ctx.par("three callers", machines.len() as u64 * 64, |i, w| {
            let m = machines[(i / 64) as usize];
            m.install();
            co::set_asm(asm);
            let k = i % 64;
            if k >= 27 {
                return;
            }
            let pick = |j: u64| acts[(k / 3u64.pow(j as u32) % 3) as usize];
            go(w, &[program(vec![pick(0)], m), program(vec![pick(1)], m), program(vec![pick(2)], m)]);
            if ctx.thorough {
                go(w, &[program(vec![pick(0), pick(1)], m), program(vec![pick(1), pick(2)], m), program(vec![pick(2)], m)]);
            }
        });
        let vals = [0u32, 1, 2, 0x4000_0000, 0x7fff_ffff, 0x5555_5555];
        ctx.par("flag caches", 36, |i, w| {
            let v = [vals[i as usize / 6], vals[i as usize % 6]];
            go(w, &[cache_user(vec![0, 0], v), cache_user(vec![0, 0], v)]);
            go(w, &[cache_user(vec![0, 1], v), cache_user(vec![1, 0], v)]);
            go(w, &[cache_user(vec![0, 1, 0], v), cache_user(vec![1, 0, 1], v)]);
            go(w, &[cache_user(vec![0], v), cache_user(vec![0], v), cache_user(vec![0], v)]);
            go(w, &[cache_user(vec![0, 1], v), cache_user(vec![1, 0], v), cache_user(vec![0, 0], v)]);
        });
    })
}
#[cfg(not(feature = "arch"))]
fn main() {
    println!("the files this check needs do not build");
    std::process::exit(2)
}
