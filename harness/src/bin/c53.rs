//! C53: the symbol checker rejects exactly the faulty archives. Small objects and archives are written byte by byte
//! and given to the tool built from /repo; its exit status is compared with the documented rules.
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio, exit};
use vh::ctx::ROOT;
use vh::elfw::*;
use vh::{Ctx, run};

#[derive(Clone, Debug)]
struct Case {
    objs: Vec<Obj>,
    /// A plain object instead of an archive.
    raw: bool,
    target: Machine,
    no_visibility: bool,
    no_os: bool,
}

const CORE: [&str; 3] = ["_ZN4core3str8converts9from_utf817hd4454ac14cbbb790E", "_RNvNtNtCscK9O3IwVk7N_4core3str8converts9from_utf8", "__ZN4core9panicking5panic17h0123456789abcdefE"];
/// Names that may be defined more than once.
const REPEATED: [&str; 4] = ["__x86.get_pc_thunk.bx", "__real@3f800000", "__xmm@00", ".refptr.x"];

/// The first rule a file breaks, or nothing if it is sound. Err: not settled by the documentation.
fn judge(c: &Case) -> Result<Option<&'static str>, ()> {
    let mut bad = None;
    let mut defined: BTreeMap<&str, u32> = BTreeMap::new();
    let mut any = false;
    for o in &c.objs {
        let same_machine = o.m.em == c.target.em && o.m.wide == c.target.wide && o.m.big == c.target.big;
        if !same_machine || (o.osabi != 0 && o.osabi != c.target.os) {
            bad = Some("an object for another target");
        }
        if !c.no_os {
            let exec = match o.exe {
                Some((_, Some(f))) if f & 1 == 1 => true,
                Some((true, _)) => false,
                _ => match o.stack {
                    Stack::Exec => true,
                    Stack::Plain => false,
                    Stack::Missing => o.exec && !(o.m.em == 21 && o.m.flags & 3 != 2),
                },
            };
            if exec {
                bad = Some("an executable stack");
            }
        }
        for s in &o.syms {
            if s.bind == Local && s.def == Undef {
                return Err(());
            }
            if s.def == Undef || s.bind == Local {
                continue;
            }
            if !REPEATED.contains(&s.name) {
                any = true;
            }
            if s.vis != Hidden && !c.no_visibility {
                bad = Some("a visible symbol");
            }
            let n = defined.entry(s.name).or_default();
            *n += 1;
            if *n > 1 && !REPEATED.contains(&s.name) {
                if o.syms.iter().filter(|t| t.name == s.name).count() > 1 {
                    return Err(());
                }
                let all = c.objs.iter().flat_map(|o| &o.syms).filter(|t| t.name == s.name && t.def != Undef && t.bind != Local);
                let (count, scripts) = all.fold((0, 0), |(n, g), t| (n + 1, g + (t.def == Gdb && t.bind == Weak) as u32));
                // Debugger script markers may repeat.
                if scripts == count {
                    continue;
                }
                if scripts > 0 {
                    return Err(());
                }
                bad = Some("a symbol defined twice");
            }
        }
    }
    for o in &c.objs {
        for s in o.syms.iter().filter(|s| s.def == Undef && CORE.contains(&s.name)) {
            if o.syms.iter().filter(|t| t.name == s.name).count() > 1 {
                return Err(());
            }
            if !defined.contains_key(s.name) {
                if c.objs.iter().any(|o| o.syms.iter().any(|t| t.name == s.name && t.def != Undef)) {
                    return Err(());
                }
                bad = Some("an undefined symbol of core");
            }
        }
    }
    if !any {
        return Err(());
    }
    Ok(bad)
}

struct Env {
    dir: PathBuf,
    tool: PathBuf,
}

impl Env {
    fn tool(&self, c: &Case, files: &[PathBuf]) -> (bool, String) {
        let mut cmd = Command::new(&self.tool);
        cmd.arg("--check").arg("--target").arg(c.target.triple);
        if c.no_visibility {
            cmd.arg("--no-visibility");
        }
        if c.no_os {
            cmd.arg("--no-os");
        }
        let path = format!("{}:{}", self.dir.join("bin").display(), std::env::var("PATH").unwrap());
        let o = cmd.args(files).env("PATH", path).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).output().unwrap();
        // The tool reports by panicking, which is an abort in some profiles.
        if o.status.signal().is_some_and(|s| s != 6) {
            return (false, format!("ended by {}", o.status));
        }
        let text = String::from_utf8_lossy(&o.stderr).lines().take(4).collect::<Vec<_>>().join(" / ");
        (o.status.success(), text)
    }

    fn group(&self, ctx: &Ctx, name: &str, cases: Vec<Case>) {
        let judged: Vec<(Case, Option<&str>)> = cases.into_iter().filter_map(|c| judge(&c).ok().map(|j| (c, j))).collect();
        // Sound files of the same settings are checked together.
        let mut jobs: Vec<(bool, Vec<&Case>, &str)> = vec![];
        let mut open: BTreeMap<(&str, bool, bool), Vec<&Case>> = BTreeMap::new();
        for (c, j) in &judged {
            match j {
                Some(r) => jobs.push((false, vec![c], r)),
                None => {
                    let v = open.entry((c.target.triple, c.no_visibility, c.no_os)).or_default();
                    v.push(c);
                    if v.len() == 64 {
                        jobs.push((true, std::mem::take(v), "a sound file"));
                    }
                }
            }
        }
        jobs.extend(open.into_values().filter(|v| !v.is_empty()).map(|v| (true, v, "a sound file")));
        ctx.par(name, jobs.len() as u64, |i, w| {
            w.func("symcheck");
            w.args([i]);
            let (good, cases, rule) = &jobs[i as usize];
            let sub = self.dir.join(format!("{i}"));
            fs::create_dir_all(&sub).unwrap();
            let files: Vec<PathBuf> = cases
                .iter()
                .enumerate()
                .map(|(k, c)| {
                    let f = sub.join(if c.raw { format!("f{k}.o") } else { format!("lib{k}.rlib") });
                    fs::write(&f, if c.raw { elf(&c.objs[0]) } else { archive(&c.objs) }).unwrap();
                    f
                })
                .collect();
            let (ok, text) = self.tool(cases[0], &files);
            if ok != *good || text.starts_with("ended by") {
                for (c, f) in cases.iter().zip(&files) {
                    let (ok, text) = self.tool(c, std::slice::from_ref(f));
                    if ok != *good || text.starts_with("ended by") {
                        let want = if *good { "accepted: a sound file".to_string() } else { format!("rejected: {rule}") };
                        w.fail("symcheck", &format!("{c:?}"), &want, &format!("{} {text}", if ok { "accepted" } else { "rejected" }));
                    }
                }
            }
            for _ in cases {
                w.done(!good);
            }
            fs::remove_dir_all(&sub).unwrap();
        });
    }

    /// A faulty file at every place among sound ones.
    fn mixed(&self, ctx: &Ctx, sound: &Case, faulty: &[Case]) {
        assert!(judge(sound) == Ok(None));
        let jobs: Vec<(&Case, usize, usize)> = faulty.iter().filter(|c| matches!(judge(c), Ok(Some(_)))).flat_map(|c| (1..=4).flat_map(move |n| (0..2 * n).map(move |at| (c, n, at / 2)))).collect();
        ctx.par("several files, one of them faulty", jobs.len() as u64, |i, w| {
            w.func("symcheck");
            w.args([i]);
            let (c, n, at) = jobs[i as usize];
            let sub = self.dir.join(format!("{i}"));
            fs::create_dir_all(&sub).unwrap();
            let files: Vec<PathBuf> = (0..n)
                .map(|k| {
                    let objs = if k == at { &c.objs } else { &sound.objs };
                    let raw = objs.len() == 1 && i % 2 == 0;
                    let f = sub.join(if raw { ["x.o", "x", "x.exe", "x.elf"][k] } else { ["x.rlib", "x.a", "y", "y.lib"][k] });
                    fs::write(&f, if raw { elf(&objs[0]) } else { archive(objs) }).unwrap();
                    f
                })
                .collect();
            let (ok, text) = self.tool(c, &files);
            if ok || text.starts_with("ended by") {
                w.fail("symcheck", &format!("file {at} of {n} is {c:?}, the others sound"), "rejected", &format!("accepted {text}"));
            }
            w.done(true);
            fs::remove_dir_all(&sub).unwrap();
        });
    }
}

fn all_syms(names: &[&'static str], vis: &[Vis], defs: &[Def]) -> Vec<Sym> {
    let mut v = vec![];
    for &name in names {
        for bind in [Local, Global, Weak] {
            for &vis in vis {
                for &def in defs {
                    v.push(Sym { name, bind, vis, def });
                }
            }
        }
    }
    v
}

const BASE: Sym = Sym { name: "base", bind: Global, vis: Hidden, def: Text };

fn obj(syms: Vec<Sym>) -> Obj {
    Obj { m: X64, osabi: 0, syms, stack: Stack::Plain, exec: true, exe: None }
}

fn cases(ctx: &Ctx, e: &Env) {
    let th = ctx.thorough;
    let names = ["plain", CORE[0], CORE[1], CORE[2], "_ZN5alloc5alloc17h0123456789abcdefE", "my4core", REPEATED[0], "memcpy"];
    let case = |objs: Vec<Obj>, raw: bool, nv: bool, no: bool| Case { objs, raw, target: X64, no_visibility: nv, no_os: no };
    // One symbol beside a sound one, all kinds of symbols, sections and settings.
    let mut v = vec![];
    for s in all_syms(&names, &[Default, Hidden, Protected], &[Undef, Text, Data, Abs, Common, Gdb]) {
        for raw in [false, true] {
            for (nv, no) in [(false, false), (true, false), (false, true), (true, true)] {
                for stack in [Stack::Plain, Stack::Missing, Stack::Exec] {
                    for exec in [true, false] {
                        if !th && (stack != Stack::Plain || !exec) && (raw || s.vis == Protected || s.name.starts_with("_R")) {
                            continue;
                        }
                        let mut o = obj(vec![BASE, s]);
                        (o.stack, o.exec) = (stack, exec);
                        v.push(case(vec![o], raw, nv, no));
                    }
                }
            }
        }
    }
    e.group(ctx, "one symbol, all sections and settings", v);
    // Two symbols in one or two objects, in both orders.
    let mut v = vec![];
    let syms = all_syms(&["a", "b", CORE[0], REPEATED[0]], if th { &[Default, Hidden, Protected] } else { &[Default, Hidden] }, &[Undef, Text]);
    for &s in &syms {
        for &t in &syms {
            for nv in &[false, true] {
                v.push(case(vec![obj(vec![BASE, s, t])], false, *nv, false));
                v.push(case(vec![obj(vec![BASE, s]), obj(vec![t])], false, *nv, false));
                v.push(case(vec![obj(vec![s]), obj(vec![t, BASE])], false, *nv, false));
            }
        }
    }
    e.group(ctx, "two symbols", v);
    // One name in two objects, all kinds of definitions.
    let mut v = vec![];
    for name in ["a", CORE[1]] {
        let syms = all_syms(&[name], &[Default, Hidden], &[Undef, Text, Data, Abs, Common, Gdb]);
        for &s in &syms {
            for &t in &syms {
                v.push(case(vec![obj(vec![BASE, s]), obj(vec![t])], false, true, false));
                if th {
                    v.push(case(vec![obj(vec![BASE, s]), obj(vec![t])], false, false, false));
                }
            }
        }
    }
    e.group(ctx, "one name in two objects, all kinds", v);
    // A fault at every place of a long archive or a long symbol table.
    const MANY: [&str; 12] = ["s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11"];
    let own = |name| Sym { name, ..BASE };
    let mut v = vec![];
    for n in [5, 12] {
        let base: Vec<Obj> = MANY[..n].iter().map(|&s| obj(vec![own(s)])).collect();
        v.push(case(base.clone(), false, false, false));
        for at in 0..n {
            let mut push = |f: &dyn Fn(&mut Obj)| {
                let mut objs = base.clone();
                f(&mut objs[at]);
                v.push(case(objs, false, false, false));
            };
            push(&|o| o.stack = Stack::Exec);
            push(&|o| o.stack = Stack::Missing);
            push(&|o| o.osabi = 9);
            push(&|o| o.m = MACHINES[2]);
            push(&|o| o.syms[0].vis = Default);
            push(&|o| o.syms.push(Sym { name: CORE[0], def: Undef, ..BASE }));
            for other in 0..n {
                push(&|o| o.syms[0].name = MANY[other]);
            }
        }
        let one: Vec<Sym> = MANY[..n].iter().map(|&s| own(s)).collect();
        for raw in [false, true] {
            for at in 0..n {
                let mut push = |f: &dyn Fn(&mut Sym)| {
                    let mut syms = one.clone();
                    f(&mut syms[at]);
                    v.push(case(vec![obj(syms)], raw, false, false));
                };
                push(&|s| s.vis = Default);
                push(&|s| s.vis = Protected);
                push(&|s| s.bind = Weak);
                push(&|s| (s.name, s.def) = (CORE[0], Undef));
                push(&|s| (s.name, s.def) = (CORE[1], Undef));
            }
        }
    }
    e.group(ctx, "a fault at every place", v);
    // Three objects, each with one symbol and one state of the stack note.
    let mut v = vec![];
    let mut alpha = vec![];
    for name in ["a", CORE[1]] {
        for bind in [Global, Weak] {
            for def in [Undef, Text] {
                alpha.push((Sym { name, bind, vis: Hidden, def }, Stack::Plain));
            }
        }
    }
    alpha.push((Sym { name: "b", bind: Global, vis: Hidden, def: Data }, Stack::Plain));
    alpha.push((Sym { name: "b", bind: Global, vis: Default, def: Text }, Stack::Plain));
    alpha.push((Sym { name: "a", bind: Local, vis: Default, def: Text }, Stack::Exec));
    alpha.push((Sym { name: "a", bind: Local, vis: Default, def: Text }, Stack::Missing));
    if th {
        for def in [Undef, Abs, Common, Gdb] {
            for bind in [Global, Weak] {
                for vis in [Default, Hidden] {
                    alpha.push((Sym { name: "b", bind, vis, def }, Stack::Plain));
                    alpha.push((Sym { name: "c", bind, vis, def }, Stack::Missing));
                }
            }
        }
    }
    alpha.push((Sym { name: REPEATED[1], bind: Weak, vis: Hidden, def: Data }, Stack::Plain));
    for &x in &alpha {
        for &y in &alpha {
            for &z in &alpha {
                let objs = [(x, true), (y, false), (z, false)]
                    .map(|((s, stack), first)| {
                        let mut o = obj(if first { vec![s, BASE] } else { vec![s] });
                        o.stack = stack;
                        o
                    })
                    .to_vec();
                v.push(case(objs, false, false, false));
            }
        }
    }
    e.group(ctx, "three objects", v);
    // Names that may repeat, and those that only look like it.
    let mut v = vec![];
    for name in REPEATED.into_iter().chain(["__x86_get_pc_thunk.bx", "x__real@3f800000", "_xmm@00", "refptr", "__ymm@1", "??_C@_0A@"]) {
        if name == "__ymm@1" || name.starts_with("??") {
            continue;
        }
        for b in [Global, Weak] {
            for n in 1..=3 {
                let mut objs = vec![obj(vec![BASE])];
                objs.extend((0..n).map(|_| obj(vec![Sym { name, bind: b, vis: Hidden, def: Data }])));
                v.push(case(objs, false, false, false));
            }
        }
    }
    e.group(ctx, "names that may repeat", v);
    // Every machine against every target.
    let mut v = vec![];
    for target in MACHINES {
        for m in MACHINES {
            for osabi in if th || m.em == target.em { &[0, 2, 3, 6, 9, 12][..] } else { &[0, 3] } {
                for stack in [Stack::Plain, Stack::Missing, Stack::Exec] {
                    for second in [false, true] {
                        if !th && second && stack != Stack::Plain {
                            continue;
                        }
                        let o = Obj { m, osabi: *osabi, syms: vec![BASE], stack, exec: true, exe: None };
                        // Alone, or behind an object of the right machine.
                        let first = Obj { m: target, osabi: 0, syms: vec![Sym { name: "first", ..BASE }], stack: Stack::Plain, exec: true, exe: None };
                        let objs = if second { vec![first, o] } else { vec![o] };
                        v.push(Case { objs, raw: !second, target, no_visibility: false, no_os: false });
                    }
                }
            }
        }
    }
    e.group(ctx, "machines and operating systems", v);
    // Executables.
    let mut v = vec![];
    for m in MACHINES {
        for interp in [false, true] {
            for flags in [None, Some(4), Some(6), Some(7), Some(5), Some(1)] {
                for stack in [Stack::Plain, Stack::Missing, Stack::Exec] {
                    for no_os in [false, true] {
                        let o = Obj { m, osabi: 0, syms: vec![BASE], stack, exec: true, exe: Some((interp, flags)) };
                        v.push(Case { objs: vec![o], raw: true, target: m, no_visibility: false, no_os });
                    }
                }
            }
        }
    }
    e.group(ctx, "executables", v);
    let sound = case(vec![obj(vec![BASE])], false, false, false);
    let mut faulty = vec![];
    let a = Sym { name: "a", ..BASE };
    faulty.push(case(vec![obj(vec![a]), obj(vec![a])], false, false, false));
    faulty.push(case(vec![obj(vec![BASE, Sym { name: CORE[0], def: Undef, ..BASE }])], false, false, false));
    faulty.push(case(vec![Obj { m: MACHINES[1], ..obj(vec![BASE]) }], false, false, false));
    faulty.push(case(vec![Obj { osabi: 9, ..obj(vec![BASE]) }], false, false, false));
    faulty.push(case(vec![Obj { stack: Stack::Exec, ..obj(vec![BASE]) }], false, false, false));
    faulty.push(case(vec![Obj { stack: Stack::Missing, ..obj(vec![BASE]) }], false, false, false));
    faulty.push(case(vec![obj(vec![BASE, Sym { vis: Default, ..a }])], false, false, false));
    e.mixed(ctx, &sound, &faulty);
}

/// Answers target questions from a list made once by the real compiler.
fn stand_in(dir: &PathBuf) {
    let bin = dir.join("bin");
    fs::create_dir_all(&bin).unwrap();
    for m in MACHINES {
        let o = Command::new("rustc").args(["--target", m.triple, "--print=cfg"]).output().unwrap();
        if !o.status.success() {
            println!("{}", String::from_utf8_lossy(&o.stderr));
            exit(3);
        }
        fs::write(bin.join(format!("{}.cfg", m.triple)), o.stdout).unwrap();
    }
    let script = bin.join("rustc");
    let d = bin.display();
    fs::write(&script, format!("#!/bin/sh\nfor a; do [ -f \"{d}/$a.cfg\" ] && exec cat \"{d}/$a.cfg\"; done\necho 'unexpected question' >&2\nexit 1\n")).unwrap();
    fs::set_permissions(&script, fs::Permissions::from_mode(0o755)).unwrap();
}

fn main() {
    let target = format!("{ROOT}/target/tools");
    let o = Command::new("cargo")
        .args(["-Zchecksum-freshness", "build", "--release", "--locked", "--manifest-path", "/repo/Cargo.toml", "-p", "symcheck"])
        .env("CARGO_TARGET_DIR", &target)
        .current_dir("/repo")
        .output()
        .unwrap();
    if !o.status.success() {
        println!("{}", String::from_utf8_lossy(&o.stderr));
        exit(2);
    }
    if std::env::args().nth(1).as_deref() == Some("build") {
        return;
    }
    run("C53", "exploration", |ctx| {
        ctx.rule("files are rejected exactly when a symbol is defined twice, a symbol of core is undefined, an object is for another target, an executable stack is asked for (unless there is no operating system) or a symbol is visible (unless that is not asked for); nontrivial = a file that has to be rejected");
        ctx.assume("the compiler's description of each target is recorded once and replayed to the tool");
        ctx.assume("ELF files only");
        let dir = PathBuf::from(format!("{ROOT}/target/c53-{}", std::process::id()));
        let _ = fs::remove_dir_all(&dir);
        stand_in(&dir);
        cases(ctx, &Env { dir: dir.clone(), tool: PathBuf::from(format!("{target}/release/symcheck")) });
        fs::remove_dir_all(&dir).unwrap();
    });
}
