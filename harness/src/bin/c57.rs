//! C57: clearing the instruction cache on Hexagon.
#[cfg(feature = "arch")]
fn main() {
    use fake_core::co::{self, Ops, Tmpl};
    use std::cell::RefCell;
    use vh::asmi::unsupported;
    use vh::run;

    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Ev {
        /// data line written back
        Clean(u64),
        /// instruction line dropped
        Drop(u64),
        Sync,
    }
    thread_local!(static LOG: RefCell<Vec<Ev>> = const { RefCell::new(vec![]) });

    fn cache_asm(t: &Tmpl, o: &mut Ops) {
        for l in t.lines().flat_map(|l| l.split(';')) {
            let l = l.split("//").next().unwrap().trim().trim_start_matches("{{").trim_end_matches("}}").trim();
            if l.is_empty() {
                continue;
            }
            let (mn, arg) = l.split_once('(').map_or((l, ""), |(a, b)| (a.trim(), b.trim().trim_end_matches(')').trim_matches([' ', '{', '}'])));
            let addr = || {
                let n = arg.split(':').next().unwrap();
                o.v[..o.n].iter().position(|x| x.name == n).or_else(|| n.parse().ok().filter(|i| *i < o.n)).map(|i| o.v[i].val).unwrap_or_else(|| unsupported(l))
            };
            let e = match mn {
                "dccleaninva" | "dccleana" => Ev::Clean(addr()),
                "icinva" => Ev::Drop(addr()),
                "isync" => Ev::Sync,
                "syncht" | "barrier" | "nop" => continue,
                _ => unsupported(l),
            };
            LOG.with_borrow_mut(|v| v.push(e));
        }
    }

    run("C57", "exploration", |ctx| {
        ctx.rule("every start within two lines x every length up to the bound, at several places; nontrivial = range not empty");
        ctx.assume("cache lines are 32 bytes; an instruction acts on the line holding the address");
        let max = if ctx.thorough { 4096u64 } else { 512 };
        for base in [0x1000u64, 0x7fff_ff80, 0x20] {
            ctx.par(&format!("ranges from {base:#x}"), max + 1, |len, w| {
                co::set_asm(cache_asm);
                w.func("__clear_cache");
                for off in 0..64u64 {
                    let (start, end) = (base + off, base + off + len);
                    w.args([start, end]);
                    LOG.with_borrow_mut(|v| v.clear());
                    unsafe { archasm::hexagon::__clear_cache(start as *mut u8, end as *mut u8) };
                    let log = LOG.take();
                    let mut bad = None;
                    if len > 0 {
                        for line in (start / 32..=(end - 1) / 32).map(|n| n * 32) {
                            let c = log.iter().position(|e| matches!(e, Ev::Clean(a) if a / 32 * 32 == line));
                            let d = log.iter().rposition(|e| matches!(e, Ev::Drop(a) if a / 32 * 32 == line));
                            match (c, d) {
                                (Some(c), Some(d)) if c < d => {}
                                _ => bad = bad.or(Some(format!("line {line:#x}: written back at step {c:?}, dropped at step {d:?}"))),
                            }
                        }
                    }
                    for e in &log {
                        if let Ev::Clean(a) | Ev::Drop(a) = e
                            && (*a / 32 < start / 32 || *a >= end.max(start + 1))
                        {
                            bad = bad.or(Some(format!("address {a:#x} outside of the range")));
                        }
                    }
                    if log.last() != Some(&Ev::Sync) {
                        bad = bad.or(Some("no synchronisation at the end".into()));
                    }
                    if let Some(b) = bad {
                        w.fail("__clear_cache", &format!("{start:#x}..{end:#x}"), "every line written back, then dropped, then a synchronisation", &b);
                    }
                    w.done(len > 0);
                }
            });
        }
    })
}

#[cfg(not(feature = "arch"))]
fn main() {
    println!("the machine-specific files do not build");
    std::process::exit(2)
}
