//! C51: exported symbols of the runtime library. The library is built in several configurations, the symbol tables of
//! the archives are read, and the symbols are linked and called.
#![feature(f16, f128)]
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int};
use std::process::{Command, exit};
use vh::archive::*;
use vh::ctx::ROOT;
use vh::linked::{self, NAMES};
use vh::rf::*;
use vh::table::*;
use vh::{Ctx, math_table, run, runtime_table};

const MEM: [&str; 6] = ["bcmp", "memcmp", "memcpy", "memmove", "memset", "strlen"];

#[derive(Clone, Copy)]
struct Config {
    dir: &'static str,
    arch: bool,
    mem: bool,
    release: bool,
}
const CONFIGS: [Config; 8] = [
    Config { dir: "exports0", arch: true, mem: true, release: true },
    Config { dir: "exports1", arch: true, mem: true, release: false },
    Config { dir: "exports2", arch: false, mem: true, release: true },
    Config { dir: "exports3", arch: false, mem: true, release: false },
    Config { dir: "exports4", arch: true, mem: false, release: true },
    Config { dir: "exports5", arch: true, mem: false, release: false },
    Config { dir: "exports6", arch: false, mem: false, release: true },
    Config { dir: "exports7", arch: false, mem: false, release: false },
];

impl Config {
    fn name(&self) -> String {
        format!("{}{}{}", if self.release { "release" } else { "debug" }, if self.arch { ", arch" } else { "" }, if self.mem { ", mem" } else { "" })
    }
    fn archive(&self) -> String {
        format!("{ROOT}/target/{}/{}/libcompiler_builtins.rlib", self.dir, if self.release { "release" } else { "debug" })
    }
    fn command(&self) -> Command {
        let mut c = Command::new("cargo");
        c.args(["-Zchecksum-freshness", "build", "--locked", "--manifest-path", "/repo/builtins-shim/Cargo.toml", "--no-default-features", "--features"]);
        let mut f = "compiler-builtins".to_string();
        if self.arch {
            f += ",arch";
        }
        if self.mem {
            f += ",mem";
        }
        c.arg(f);
        if self.release {
            c.arg("--release");
        }
        c.env("CARGO_TARGET_DIR", format!("{ROOT}/target/{}", self.dir)).current_dir("/repo/builtins-shim");
        c
    }
}

fn table(ctx: &Ctx, c: Config) {
    let (defs, undef) = contents(&c.archive());
    ctx.seq(&format!("symbols, {}", c.name()), |w| {
        for n in NAMES {
            let want = c.mem || !MEM.contains(&n);
            w.func("symbol table");
            w.text(n);
            let input = format!("{n} in the archive built with {}", c.name());
            match defs.get(n) {
                None if want => w.fail("symbol table", &input, "defined once", "not defined"),
                Some(_) if !want => w.fail("symbol table", &input, "not defined without the mem feature", "defined"),
                Some(v) => {
                    if v.len() != 1 {
                        w.fail("symbol table", &input, "defined once", &format!("defined {} times", v.len()));
                    }
                    for s in v {
                        if !(s.weak && s.func && s.vis == 2) {
                            w.fail("symbol table", &input, "a weak hidden function", &format!("weak {}, function {}, visibility {}", s.weak, s.func, s.vis));
                        }
                    }
                }
                None => {}
            }
            w.done(want);
        }
        for (n, v) in &defs {
            w.text(n);
            let input = format!("{n} in the archive built with {}", c.name());
            if plain(n) && !NAMES.contains(&n.as_str()) {
                w.fail("symbol table", &input, "no other exported symbol", "defined");
            }
            if v.len() > 1 {
                w.fail("symbol table", &input, "defined once", &format!("defined {} times", v.len()));
            }
            if v.iter().any(|s| s.vis != 2) {
                w.fail("symbol table", &input, "hidden", "visible");
            }
            w.done(plain(n));
        }
        for n in &undef {
            w.text(n);
            let from_outside = MEM.contains(&n.as_str()) && !c.mem;
            if !defs.contains_key(n) && !from_outside && n != "_GLOBAL_OFFSET_TABLE_" {
                w.fail("symbol table", &format!("{n} in the archive built with {}", c.name()), "resolved inside the archive", "undefined");
            }
            w.done(true);
        }
    });
}

fn index(n: &str) -> usize {
    linked::at(NAMES.iter().position(|m| *m == n).unwrap())
}

fn memory(ctx: &Ctx, c: Config) {
    type Copy = unsafe extern "C" fn(*mut u8, *const u8, usize) -> *mut u8;
    type Set = unsafe extern "C" fn(*mut u8, c_int, usize) -> *mut u8;
    type Cmp = unsafe extern "C" fn(*const u8, *const u8, usize) -> c_int;
    let (cpy, mv, set, cmp, bc, len): (Copy, Copy, Set, Cmp, Cmp, unsafe extern "C" fn(*const c_char) -> usize) = unsafe {
        use std::mem::transmute as t;
        (t(index("memcpy")), t(index("memmove")), t(index("memset")), t(index("memcmp")), t(index("bcmp")), t(index("strlen")))
    };
    const N: usize = 96;
    ctx.par(&format!("memory symbols, {}", c.name()), 41, |n, w| {
        let n = n as usize;
        w.args([n as u64]);
        let src: Vec<u8> = (0..N as u8).map(|i| i.wrapping_mul(37) | 1).collect();
        for a in 0..24 {
            for b in 0..24 {
                let place = || format!("{n} bytes from offset {a} to offset {b}, {}", c.name());
                w.func("memmove");
                let (mut x, mut y) = (src.clone(), src.clone());
                let r = unsafe { mv(x.as_mut_ptr().add(b), x.as_ptr().add(a), n) };
                y.copy_within(a..a + n, b);
                if x != y || r != x.as_mut_ptr().wrapping_add(b) {
                    w.fail("memmove", &place(), &format!("{y:x?}"), &format!("{x:x?}"));
                }
                w.func("memcpy");
                let (mut x, mut y) = (vec![0u8; N], vec![0u8; N]);
                let r = unsafe { cpy(x.as_mut_ptr().add(b), src.as_ptr().add(a), n) };
                y[b..b + n].copy_from_slice(&src[a..a + n]);
                if x != y || r != x.as_mut_ptr().wrapping_add(b) {
                    w.fail("memcpy", &place(), &format!("{y:x?}"), &format!("{x:x?}"));
                }
                w.func("memset");
                let value = (a * 11) as c_int - 256;
                let r = unsafe { set(x.as_mut_ptr().add(b), value, n) };
                y[b..b + n].fill(value as u8);
                if x != y || r != x.as_mut_ptr().wrapping_add(b) {
                    w.fail("memset", &place(), &format!("{y:x?}"), &format!("{x:x?}"));
                }
                w.func("memcmp");
                for d in 0..=n {
                    let mut other = src.clone();
                    if d < n {
                        other[a + d] ^= if b % 2 == 0 { 0x80 } else { 2 };
                    }
                    let want = src[a..a + n].cmp(&other[a..a + n]) as c_int;
                    let (m, e) = unsafe { (cmp(src.as_ptr().add(a), other.as_ptr().add(a), n), bc(src.as_ptr().add(a), other.as_ptr().add(a), n)) };
                    if m.signum() != want || (e != 0) != (want != 0) {
                        w.fail("memcmp, bcmp", &format!("{} differing at {d}", place()), &format!("{want}"), &format!("{m} {e}"));
                    }
                    w.done(true);
                }
                w.func("strlen");
                let mut text = src.clone();
                text[a + n] = 0;
                let l = unsafe { len(text.as_ptr().add(a) as *const c_char) };
                if l != n {
                    w.fail("strlen", &place(), &format!("{n}"), &format!("{l}"));
                }
                w.done(true);
            }
        }
    });
}

fn bound(ctx: &Ctx, c: Config) {
    let names: Vec<_> = NAMES.iter().map(|n| Some(*n)).collect();
    let p = match link(&format!("{ROOT}/target/{}", c.dir), &c.archive(), &names, &[]) {
        Ok(p) => p,
        Err(text) => return ctx.violate("link", &format!("an object that refers to all exported symbols, {}", c.name()), "links", &text),
    };
    unsafe { linked::set(p) };
    let mut reference: BTreeMap<&str, Entry> = BTreeMap::new();
    for e in runtime_table!(compiler_builtins).into_iter().chain(math_table!(libm)) {
        reference.insert(e.name, e);
    }
    let size = if ctx.thorough && c.release { 1 } else { 0 };
    let dom = Domains::default();
    struct Job<'a> {
        e: Entry,
        r: &'a Entry,
        d: Vec<std::sync::Arc<Vec<u128>>>,
    }
    let jobs: Vec<Job> = linked::entries()
        .into_iter()
        .map(|e| {
            let r = &reference[e.name];
            let d = dom.of(&e, size);
            Job { e, r, d }
        })
        .collect();
    let blocks: Vec<(usize, usize)> = jobs.iter().enumerate().flat_map(|(i, j)| (0..j.d[0].len()).step_by(8).map(move |k| (i, k))).collect();
    ctx.par(&format!("calls through the symbols, {}", c.name()), blocks.len() as u64, |i, w| {
        let (j, k) = blocks[i as usize];
        let j = &jobs[j];
        w.func(j.e.name);
        for &a in &j.d[0][k..j.d[0].len().min(k + 8)] {
            for &b in j.d[1].iter() {
                w.args([a as u64, (a >> 64) as u64, b as u64, (b >> 64) as u64]);
                for &z in j.d[2].iter() {
                    let x = [a, b, z];
                    let (got, want) = ((j.e.f)(x), (j.r.f)(x));
                    if !(0..2).all(|i| agree(j.e.ret[i], want[i], got[i])) {
                        w.fail(j.e.name, &format!("{:x?} through the symbol, {}", &x[..j.e.args.len()], c.name()), &format!("{want:x?}"), &format!("{got:x?}"));
                    }
                    w.done(true);
                }
            }
        }
    });
    memory(ctx, c);
}

fn main() {
    let mut kids: Vec<_> = CONFIGS
        .iter()
        .map(|c| (c, c.command().stdout(std::process::Stdio::null()).stderr(std::process::Stdio::piped()).spawn().unwrap()))
        .collect();
    for (c, k) in kids.drain(..) {
        let o = k.wait_with_output().unwrap();
        if !o.status.success() {
            println!("{}: {}", c.name(), String::from_utf8_lossy(&o.stderr));
            exit(2);
        }
    }
    if std::env::args().nth(1).as_deref() == Some("build") {
        return;
    }
    run("C51", "exploration", |ctx| {
        ctx.rule("each archive defines every symbol of the committed list once, as a weak hidden function, no other plain name, and refers to nothing it does not define (memory symbols excepted without the mem feature); a call through a symbol returns what the routine of that name returns");
        ctx.assume("the host target only; other targets cannot be compiled here");
        for c in CONFIGS {
            table(ctx, c);
        }
        for c in CONFIGS.into_iter().filter(|c| c.mem) {
            bound(ctx, c);
        }
    });
}
