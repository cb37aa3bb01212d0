//! Prints one digest per routine and block of its domain, or the results of one block.
#![feature(f16, f128)]
#[path = "../../harness/src/alpha.rs"]
mod alpha;
#[path = "../../harness/src/rf.rs"]
mod rf;
#[path = "../../harness/src/table.rs"]
mod table;

use std::fmt::Write as _;
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};
use rf::*;
use table::*;

fn visit(e: &Entry, dom: &[std::sync::Arc<Vec<u128>>], block: usize, mut f: impl FnMut([u128; 3], [u128; 2])) -> u64 {
    let (per, _) = blocks(dom);
    let n = dom[0].len() * dom[1].len() * dom[2].len();
    let mut done = 0;
    for i in block * per..n.min((block + 1) * per) {
        let z = dom[2][i % dom[2].len()];
        let y = dom[1][i / dom[2].len() % dom[1].len()];
        let x = [dom[0][i / dom[2].len() / dom[1].len()], y, z];
        let r = std::hint::black_box(e.f)(std::hint::black_box(x));
        f(x, [canon(e.ret[0], r[0]), canon(e.ret[1], r[1])]);
        done += 1;
    }
    done
}

fn blocks(dom: &[std::sync::Arc<Vec<u128>>]) -> (usize, usize) {
    let n: usize = dom.iter().map(|d| d.len()).product();
    (1 << 12, n.div_ceil(1 << 12))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let size: u32 = args[1].parse().unwrap();
    let dom = Domains::default();
    // The libraries in this build, and whether they stand for the same library.
    let builds = [
        ("libm", math_table!(libm)),
        ("libm_gen", math_table!(libm_gen)),
        ("libm_intr", math_table!(libm_intr)),
        ("runtime", runtime_table!(compiler_builtins)),
        ("runtime_gen", runtime_table!(cb_gen)),
    ];
    if args.len() > 2 {
        let (lib, name, block) = (&args[2], &args[3], args[4].parse::<usize>().unwrap());
        let e = builds.iter().find(|b| b.0 == *lib).unwrap().1.iter().find(|e| e.name == *name).unwrap();
        let mut s = String::new();
        visit(e, &dom.of(e, size), block, |x, r| writeln!(s, "{:#x} {:#x} {:#x} = {:#x} {:#x}", x[0], x[1], x[2], r[0], r[1]).unwrap());
        print!("{s}");
        return;
    }
    let mut jobs = vec![];
    for (lib, t) in &builds {
        for e in t {
            let d = dom.of(e, size);
            for b in 0..blocks(&d).1 {
                jobs.push((*lib, e, d.clone(), b));
            }
        }
    }
    let next = AtomicUsize::new(0);
    let out = Mutex::new(vec![String::new(); jobs.len()]);
    std::thread::scope(|s| {
        for _ in 0..std::thread::available_parallelism().map_or(1, |n| n.get()) {
            s.spawn(|| {
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    let Some((lib, e, d, b)) = jobs.get(i) else { break };
                    let mut h = 0xcbf29ce484222325u64;
                    let n = visit(e, d, *b, |_, r| {
                        for v in [r[0] as u64, (r[0] >> 64) as u64, r[1] as u64, (r[1] >> 64) as u64] {
                            h = (h ^ v).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(29);
                        }
                    });
                    out.lock().unwrap()[i] = format!("{lib} {} {} {b} {n} {h:016x}", e.name, e.exact);
                }
            });
        }
    });
    println!("{}", out.lock().unwrap().join("\n"));
}
