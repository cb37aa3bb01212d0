//! C64: the symbol checker on files of Windows, Apple and WebAssembly targets. As in C53, small files are written
//! byte by byte and given to the tool built from /repo; its exit status is compared with the documented rules.
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio, exit};
use vh::ctx::ROOT;
use vh::{Ctx, run};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bind {
    Local,
    Global,
    Weak,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Def {
    Undef,
    Text,
    Data,
    Abs,
    Common,
}
use {Bind::*, Def::*};

#[derive(Clone, Copy, Debug)]
struct Sym {
    name: &'static str,
    bind: Bind,
    hidden: bool,
    def: Def,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Form {
    Coff,
    BigCoff,
    Pe,
    Mach,
    Wasm,
}
use Form::*;

/// Form, machine number, width. The number stands for the processor and, on Windows, its calling convention.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Machine {
    form: Form,
    cpu: u32,
    sub: u32,
    wide: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Target {
    triple: &'static str,
    m: Machine,
    /// Mach-O platforms of this system.
    platforms: &'static [u32],
}

const fn coff(cpu: u32, wide: bool) -> Machine {
    Machine { form: Coff, cpu, sub: 0, wide }
}
const fn mach(cpu: u32, sub: u32, wide: bool) -> Machine {
    Machine { form: Mach, cpu, sub, wide }
}
const AMD64: Machine = coff(0x8664, true);
const I386: Machine = coff(0x14c, false);
const ARM64: Machine = coff(0xaa64, true);
const ARM64EC: Machine = coff(0xa641, true);
const ARMNT: Machine = coff(0x1c4, false);
const MX64: Machine = mach(0x1000007, 3, true);
const MARM64: Machine = mach(0x100000c, 0, true);
const MX86: Machine = mach(7, 3, false);
const MARM: Machine = mach(12, 9, false);
const W32: Machine = Machine { form: Wasm, cpu: 0, sub: 0, wide: false };
const W64: Machine = Machine { form: Wasm, cpu: 0, sub: 0, wide: true };
const MAC: &[u32] = &[1];
const IOS: &[u32] = &[2, 6, 7];
const TV: &[u32] = &[3, 8];
const WATCH: &[u32] = &[4, 9];
const VISION: &[u32] = &[11, 12];

const TARGETS: [Target; 21] = [
    Target { triple: "x86_64-pc-windows-msvc", m: AMD64, platforms: &[] },
    Target { triple: "x86_64-pc-windows-gnu", m: AMD64, platforms: &[] },
    Target { triple: "x86_64-pc-cygwin", m: AMD64, platforms: &[] },
    Target { triple: "i686-pc-windows-msvc", m: I386, platforms: &[] },
    Target { triple: "aarch64-pc-windows-msvc", m: ARM64, platforms: &[] },
    Target { triple: "arm64ec-pc-windows-msvc", m: ARM64EC, platforms: &[] },
    Target { triple: "thumbv7a-pc-windows-msvc", m: ARMNT, platforms: &[] },
    Target { triple: "x86_64-apple-darwin", m: MX64, platforms: MAC },
    Target { triple: "aarch64-apple-darwin", m: MARM64, platforms: MAC },
    Target { triple: "i686-apple-darwin", m: MX86, platforms: MAC },
    Target { triple: "aarch64-apple-ios", m: MARM64, platforms: IOS },
    Target { triple: "aarch64-apple-ios-sim", m: MARM64, platforms: IOS },
    Target { triple: "x86_64-apple-ios-macabi", m: MX64, platforms: IOS },
    Target { triple: "aarch64-apple-tvos", m: MARM64, platforms: TV },
    Target { triple: "armv7k-apple-watchos", m: MARM, platforms: WATCH },
    Target { triple: "aarch64-apple-watchos-sim", m: MARM64, platforms: WATCH },
    Target { triple: "aarch64-apple-visionos", m: MARM64, platforms: VISION },
    Target { triple: "wasm32-unknown-unknown", m: W32, platforms: &[] },
    Target { triple: "wasm32-wasip1", m: W32, platforms: &[] },
    Target { triple: "wasm64-unknown-unknown", m: W64, platforms: &[] },
    // No file of these forms is for this one.
    Target { triple: "x86_64-unknown-linux-gnu", m: Machine { form: Pe, cpu: 0, sub: 0, wide: true }, platforms: &[] },
];
const MACHINES: [Machine; 11] = [AMD64, I386, ARM64, ARM64EC, ARMNT, MX64, MARM64, MX86, MARM, W32, W64];

#[derive(Clone, Debug)]
struct Obj {
    m: Machine,
    /// Mach-O: platform, if named. Windows executables: subsystem.
    platform: Option<u32>,
    syms: Vec<Sym>,
}

struct Out(Vec<u8>);
impl Out {
    fn u8(&mut self, v: u32) {
        self.0.push(v as u8);
    }
    fn u16(&mut self, v: u32) {
        self.0.extend((v as u16).to_le_bytes());
    }
    fn u32(&mut self, v: u32) {
        self.0.extend(v.to_le_bytes());
    }
    fn word(&mut self, wide: bool, v: u64) {
        if wide { self.0.extend(v.to_le_bytes()) } else { self.u32(v as u32) }
    }
    fn pad(&mut self, s: &str, n: usize) {
        assert!(s.len() <= n);
        self.0.extend(s.bytes());
        self.0.extend(vec![0; n - s.len()]);
    }
    fn leb(&mut self, mut v: usize) {
        loop {
            let b = v & 127;
            v >>= 7;
            self.0.push(b as u8 | if v > 0 { 128 } else { 0 });
            if v == 0 {
                return;
            }
        }
    }
    fn str(&mut self, s: &str) {
        self.leb(s.len());
        self.0.extend(s.bytes());
    }
    fn section(&mut self, id: u8, body: Out) {
        self.0.push(id);
        self.leb(body.0.len());
        self.0.extend(body.0);
    }
}

fn coff_file(o: &Obj) -> Vec<u8> {
    let big = o.m.form == BigCoff;
    let mut tab = Out(vec![]);
    let mut strings = Out(vec![]);
    let mut count = 0u32;
    let mut put = |name: &str, value: u32, section: i32, class: u32, aux: Option<u32>| {
        if name.len() <= 8 {
            tab.pad(name, 8);
        } else {
            tab.u32(0);
            tab.u32(4 + strings.0.len() as u32);
            strings.0.extend(name.bytes());
            strings.0.push(0);
        }
        tab.u32(value);
        if big { tab.u32(section as u32) } else { tab.u16(section as u32) }
        tab.u16(0x20);
        tab.u8(class);
        tab.u8(aux.is_some() as u32);
        count += 1 + aux.is_some() as u32;
        if let Some(i) = aux {
            tab.u32(i);
            tab.u32(3);
            tab.0.extend(vec![0; if big { 12 } else { 10 }]);
        }
        count
    };
    for s in &o.syms {
        let (section, value) = match s.def {
            Undef => (0, 0),
            Text => (1, 0),
            Data => (2, 0),
            Abs => (-1, 7),
            Common => (0, 4),
        };
        match s.bind {
            Local => put(s.name, value, section, 3, None),
            Global => put(s.name, value, section, 2, None),
            // The definition has a name of its own, which the weak one points to.
            Weak => {
                let n = put(".weak.default", value, section, 3, None);
                put(s.name, 0, 0, 105, Some(n - 1))
            }
        };
    }
    let head = if big { 56 } else { 20 };
    let at = head + 2 * 40 + 32;
    let mut f = Out(vec![]);
    if big {
        f.u16(0);
        f.u16(0xffff);
        f.u16(2);
        f.u16(o.m.cpu);
        f.u32(0);
        f.0.extend([0xc7, 0xa1, 0xba, 0xd1, 0xee, 0xba, 0xa9, 0x4b, 0xaf, 0x20, 0xfa, 0xf6, 0x6a, 0xa4, 0xdc, 0xb8]);
        f.0.extend([0; 16]);
        f.u32(2);
        f.u32(at as u32);
        f.u32(count);
    } else {
        f.u16(o.m.cpu);
        f.u16(2);
        f.u32(0);
        f.u32(at as u32);
        f.u32(count);
        f.u32(0);
    }
    for (i, (name, flags)) in [(".text", 0x60500020u32), (".data", 0xc0300040)].into_iter().enumerate() {
        f.pad(name, 8);
        for v in [0, 0, 16, (head + 80 + 16 * i) as u32, 0, 0, 0, flags] {
            f.u32(v);
        }
    }
    f.0.extend([0x90; 32]);
    assert_eq!(f.0.len(), at);
    f.0.extend(tab.0);
    f.u32(4 + strings.0.len() as u32);
    f.0.extend(strings.0);
    f.0
}

fn pe_file(o: &Obj) -> Vec<u8> {
    let mut f = Out(vec![]);
    f.pad("MZ", 60);
    f.u32(64);
    f.pad("PE", 4);
    f.u16(o.m.cpu);
    f.u16(1);
    for _ in 0..3 {
        f.u32(0);
    }
    f.u16(if o.m.wide { 240 } else { 224 });
    f.u16(0x22);
    f.u16(if o.m.wide { 0x20b } else { 0x10b });
    f.u16(14);
    for v in [0x200, 0, 0, 0x1000, 0x1000] {
        f.u32(v);
    }
    if !o.m.wide {
        f.u32(0x2000);
    }
    f.word(o.m.wide, 0x400000);
    for v in [0x1000, 0x200, 6, 0, 6, 0, 0x2000, 0x200, 0] {
        f.u32(v);
    }
    f.u16(o.platform.unwrap());
    f.u16(0);
    for v in [0x100000, 0x1000, 0x100000, 0x1000] {
        f.word(o.m.wide, v);
    }
    f.u32(0);
    f.u32(16);
    f.0.extend([0; 128]);
    f.pad(".text", 8);
    for v in [16, 0x1000, 0x200, 0x200, 0, 0, 0, 0x60000020] {
        f.u32(v);
    }
    f.0.resize(0x200, 0);
    f.0.resize(0x400, 0x90);
    f.0
}

fn mach_file(o: &Obj) -> Vec<u8> {
    let wide = o.m.wide;
    let mut tab = Out(vec![]);
    let mut strings = vec![0u8];
    for s in &o.syms {
        tab.u32(strings.len() as u32);
        strings.extend(s.name.bytes());
        strings.push(0);
        let (kind, section, value) = match s.def {
            Undef => (0, 0, 0),
            Text => (0xe, 1, 0),
            Data => (0xe, 2, 16),
            Abs => (2, 0, 7),
            Common => (0, 0, 4),
        };
        let defined = s.def != Undef;
        tab.u8(kind | if s.bind != Local { 1 } else { 0 } | if s.bind != Local && s.hidden && defined { 0x10 } else { 0 });
        tab.u8(section);
        tab.u16(if s.bind != Weak {
            0
        } else if defined {
            0x80
        } else {
            0x40
        });
        tab.word(wide, value);
    }
    let (head, seg, sec) = if wide { (32, 72, 80) } else { (28, 56, 68) };
    let cmds = seg + 2 * sec + 24 + if o.platform.is_some() { 24 } else { 0 };
    let at = head + cmds;
    let mut f = Out(vec![]);
    f.u32(if wide { 0xfeedfacf } else { 0xfeedface });
    f.u32(o.m.cpu);
    f.u32(o.m.sub);
    f.u32(1);
    f.u32(2 + o.platform.is_some() as u32);
    f.u32(cmds as u32);
    f.u32(0x2000);
    if wide {
        f.u32(0);
    }
    f.u32(if wide { 0x19 } else { 1 });
    f.u32((seg + 2 * sec) as u32);
    f.pad("", 16);
    for v in [0, 32, at as u64, 32] {
        f.word(wide, v);
    }
    for v in [7, 7, 2, 0] {
        f.u32(v);
    }
    for (i, (name, segment, flags)) in [("__text", "__TEXT", 0x80000400u32), ("__data", "__DATA", 0)].into_iter().enumerate() {
        f.pad(name, 16);
        f.pad(segment, 16);
        f.word(wide, 16 * i as u64);
        f.word(wide, 16);
        for v in [(at + 16 * i) as u32, 2, 0, 0, flags, 0, 0] {
            f.u32(v);
        }
        if wide {
            f.u32(0);
        }
    }
    if let Some(p) = o.platform {
        for v in [0x32, 24, p, 0xb0000, 0xb0000, 0] {
            f.u32(v);
        }
    }
    let symoff = at + 32;
    for v in [2, 24, symoff, o.syms.len(), symoff + tab.0.len(), strings.len()] {
        f.u32(v as u32);
    }
    assert_eq!(f.0.len(), at);
    f.0.extend([0x90; 32]);
    f.0.extend(tab.0);
    f.0.extend(strings);
    f.0
}

fn wasm_file(o: &Obj) -> Vec<u8> {
    let mut f = Out(b"\0asm\x01\0\0\0".to_vec());
    f.section(1, Out(vec![1, 0x60, 0, 0]));
    let undef: Vec<&Sym> = o.syms.iter().filter(|s| s.def == Undef).collect();
    let funcs = o.syms.iter().filter(|s| s.def == Text).count();
    let mut b = Out(vec![]);
    b.leb(undef.len() + 1);
    b.str("env");
    b.str("__linear_memory");
    b.0.extend([2, if o.m.wide { 4 } else { 0 }, 0]);
    for s in &undef {
        b.str("env");
        b.str(s.name);
        b.0.extend([0, 0]);
    }
    f.section(2, b);
    let mut b = Out(vec![]);
    b.leb(funcs);
    b.0.extend(vec![0; funcs]);
    f.section(3, b);
    let mut b = Out(vec![]);
    b.leb(funcs);
    for _ in 0..funcs {
        b.0.extend([2, 0, 0xb]);
    }
    f.section(10, b);
    let mut t = Out(vec![]);
    t.leb(o.syms.len());
    let (mut next_undef, mut next_func) = (0, undef.len());
    for s in &o.syms {
        let flags = match s.bind {
            Global => 0,
            Weak => 1,
            Local => 2,
        } | if s.hidden { 4 } else { 0 };
        match s.def {
            Undef => {
                t.leb(0);
                t.leb(flags | 0x10);
                t.leb(next_undef);
                next_undef += 1;
            }
            Text => {
                t.leb(0);
                t.leb(flags);
                t.leb(next_func);
                next_func += 1;
                t.str(s.name);
            }
            _ => {
                t.leb(1);
                t.leb(flags);
                t.str(s.name);
                t.0.extend([0, 0, 4]);
            }
        }
    }
    let mut b = Out(vec![]);
    b.str("linking");
    b.leb(2);
    b.section(8, t);
    f.section(0, b);
    f.0
}

fn file(o: &Obj) -> Vec<u8> {
    match o.m.form {
        Coff | BigCoff => coff_file(o),
        Pe => pe_file(o),
        Mach => mach_file(o),
        Wasm => wasm_file(o),
    }
}

/// An archive, with the names of the members as Apple's tools write them if asked for.
fn archive(objs: &[Obj], bsd: bool) -> Vec<u8> {
    let mut out = b"!<arch>\n".to_vec();
    for (i, o) in objs.iter().enumerate() {
        let mut d = file(o);
        let name = if bsd {
            let mut long = format!("member-{i}.rcgu.o").into_bytes();
            long.resize(24, 0);
            long.extend(d);
            d = long;
            "#1/24".to_string()
        } else {
            format!("m{i}.o/")
        };
        out.extend(format!("{name:<16}{:<12}{:<6}{:<6}{:<8}{:<10}`\n", 0, 0, 0, 644, d.len()).as_bytes());
        out.extend(&d);
        if d.len() % 2 == 1 {
            out.push(b'\n');
        }
    }
    out
}

#[derive(Clone, Debug)]
struct Case {
    objs: Vec<Obj>,
    /// A plain object or executable instead of an archive.
    raw: bool,
    bsd: bool,
    target: Target,
    no_visibility: bool,
}

const CORE: [&str; 4] = [
    "_ZN4core3str8converts9from_utf817hd4454ac14cbbb790E",
    "__ZN4core9panicking5panic17h0123456789abcdefE",
    "_RNvNtNtCscK9O3IwVk7N_4core3str8converts9from_utf8",
    "__RNvNtCs1a2b3c4d5e_4core9panicking5panic",
];
/// Names that may be defined more than once.
const REPEATED: [&str; 6] = ["__x86.get_pc_thunk.bx", "__real@3f800000", "__xmm@00112233445566778899aabbccddeeff", "__ymm@01", "??_C@_02DKCKIIND@?$CFs@", ".refptr.__image_base__"];

/// The first rule a file breaks, or nothing if it is sound. Err: not settled by the documentation.
fn judge(c: &Case) -> Result<Option<&'static str>, ()> {
    let mut bad = None;
    let mut defined: BTreeMap<&str, u32> = BTreeMap::new();
    let mut any = false;
    for o in &c.objs {
        let windows = matches!(o.m.form, Coff | BigCoff | Pe);
        let t = c.target.m;
        let fits = match (o.m.form, t.form) {
            (Coff | BigCoff | Pe, Coff) => o.m.cpu == t.cpu && (o.m.form != Pe || matches!(o.platform, Some(2 | 3))),
            // Without a system in the file, the processor decides.
            (Mach, Mach) => o.m.cpu == t.cpu && o.platform.is_none_or(|p| p == 0 || c.target.platforms.contains(&p)),
            (Wasm, Wasm) => o.m.wide == t.wide,
            (Mach, _) if o.platform.is_none_or(|p| p == 0) => return Err(()),
            _ => false,
        };
        if !fits {
            bad = Some("an object for another target");
        }
        if o.m.form == Pe {
            any = true;
        }
        for s in &o.syms {
            if o.syms.iter().filter(|t| t.name == s.name).count() > 1 || (s.bind == Local && matches!(s.def, Undef | Common)) {
                return Err(());
            }
            match o.m.form {
                Coff | BigCoff if s.bind == Weak && !matches!(s.def, Text | Data) => return Err(()),
                Mach if s.bind == Weak && matches!(s.def, Abs | Common) => return Err(()),
                Wasm if matches!(s.def, Abs | Common) => return Err(()),
                _ => (),
            }
            if s.def == Undef || s.bind == Local {
                continue;
            }
            if !REPEATED.contains(&s.name) {
                any = true;
            }
            if !windows && !s.hidden && !c.no_visibility {
                bad = Some("a visible symbol");
            }
            let n = defined.entry(s.name).or_default();
            *n += 1;
            if *n > 1 && !REPEATED.contains(&s.name) {
                bad = Some("a symbol defined twice");
            }
        }
    }
    for o in &c.objs {
        for s in o.syms.iter().filter(|s| s.def == Undef && CORE.contains(&s.name)) {
            if !defined.contains_key(s.name) {
                if c.objs.iter().any(|o| o.syms.iter().any(|t| t.name == s.name && t.def != Undef)) {
                    return Err(());
                }
                bad = Some("an undefined symbol of core");
            }
        }
    }
    if !any {
        return Err(());
    }
    Ok(bad)
}

struct Env {
    dir: PathBuf,
    tool: PathBuf,
}

impl Env {
    fn tool(&self, c: &Case, files: &[PathBuf]) -> (bool, String) {
        let mut cmd = Command::new(&self.tool);
        cmd.arg("--check").arg("--target").arg(c.target.triple);
        if c.no_visibility {
            cmd.arg("--no-visibility");
        }
        let path = format!("{}:{}", self.dir.join("bin").display(), std::env::var("PATH").unwrap());
        let o = cmd.args(files).env("PATH", path).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).output().unwrap();
        // The tool reports by panicking, which is an abort in some profiles.
        if o.status.signal().is_some_and(|s| s != 6) {
            return (false, format!("ended by {}", o.status));
        }
        let text = String::from_utf8_lossy(&o.stderr).lines().take(4).collect::<Vec<_>>().join(" / ");
        (o.status.success(), text)
    }

    fn group(&self, ctx: &Ctx, name: &str, cases: Vec<Case>) {
        let judged: Vec<(Case, Option<&str>)> = cases.into_iter().filter_map(|c| judge(&c).ok().map(|j| (c, j))).collect();
        // Sound files of the same settings are checked together.
        let mut jobs: Vec<(bool, Vec<&Case>, &str)> = vec![];
        let mut open: BTreeMap<(&str, bool), Vec<&Case>> = BTreeMap::new();
        for (c, j) in &judged {
            match j {
                Some(r) => jobs.push((false, vec![c], r)),
                None => {
                    let v = open.entry((c.target.triple, c.no_visibility)).or_default();
                    v.push(c);
                    if v.len() == 64 {
                        jobs.push((true, std::mem::take(v), "a sound file"));
                    }
                }
            }
        }
        jobs.extend(open.into_values().filter(|v| !v.is_empty()).map(|v| (true, v, "a sound file")));
        ctx.par(name, jobs.len() as u64, |i, w| {
            w.func("symcheck");
            w.args([i]);
            let (good, cases, rule) = &jobs[i as usize];
            let sub = self.dir.join(format!("{i}"));
            fs::create_dir_all(&sub).unwrap();
            let files: Vec<PathBuf> = cases
                .iter()
                .enumerate()
                .map(|(k, c)| {
                    let f = sub.join(if c.raw { format!("f{k}.o") } else { format!("lib{k}.rlib") });
                    fs::write(&f, if c.raw { file(&c.objs[0]) } else { archive(&c.objs, c.bsd) }).unwrap();
                    f
                })
                .collect();
            let (ok, text) = self.tool(cases[0], &files);
            if ok != *good || text.starts_with("ended by") {
                for (c, f) in cases.iter().zip(&files) {
                    let (ok, text) = self.tool(c, std::slice::from_ref(f));
                    if ok != *good || text.starts_with("ended by") {
                        let want = if *good { "accepted: a sound file".to_string() } else { format!("rejected: {rule}") };
                        w.fail("symcheck", &format!("{c:?}"), &want, &format!("{} {text}", if ok { "accepted" } else { "rejected" }));
                    }
                }
            }
            for _ in cases {
                w.done(!good);
            }
            fs::remove_dir_all(&sub).unwrap();
        });
    }

    /// A faulty file at every place among sound ones.
    fn mixed(&self, ctx: &Ctx, sound: &Case, faulty: &[Case]) {
        assert!(judge(sound) == Ok(None));
        let jobs: Vec<(&Case, usize, usize)> = faulty.iter().filter(|c| matches!(judge(c), Ok(Some(_)))).flat_map(|c| (1..=4).flat_map(move |n| (0..n).map(move |at| (c, n, at)))).collect();
        ctx.par("several files, one of them faulty", jobs.len() as u64, |i, w| {
            w.func("symcheck");
            w.args([i]);
            let (c, n, at) = jobs[i as usize];
            let sub = self.dir.join(format!("{i}"));
            fs::create_dir_all(&sub).unwrap();
            let files: Vec<PathBuf> = (0..n)
                .map(|k| {
                    let f = sub.join(format!("lib{k}.rlib"));
                    fs::write(&f, archive(if k == at { &c.objs } else { &sound.objs }, c.bsd)).unwrap();
                    f
                })
                .collect();
            let (ok, text) = self.tool(c, &files);
            if ok || text.starts_with("ended by") {
                w.fail("symcheck", &format!("file {at} of {n} is {c:?}, the others sound"), "rejected", &format!("accepted {text}"));
            }
            w.done(true);
            fs::remove_dir_all(&sub).unwrap();
        });
    }
}

const BASE: Sym = Sym { name: "_base", bind: Global, hidden: true, def: Text };

fn all_syms(names: &[&'static str], defs: &[Def]) -> Vec<Sym> {
    let mut v = vec![];
    for &name in names {
        for bind in [Local, Global, Weak] {
            for hidden in [true, false] {
                for &def in defs {
                    v.push(Sym { name, bind, hidden, def });
                }
            }
        }
    }
    v
}

fn cases(ctx: &Ctx, e: &Env) {
    let th = ctx.thorough;
    let forms: Vec<(&str, Target, Form)> = [("COFF", 0, Coff), ("COFF i386", 3, Coff), ("large COFF", 0, BigCoff), ("Mach-O", 8, Mach), ("Mach-O 32", 9, Mach), ("Wasm", 17, Wasm)]
        .map(|(n, t, f)| (n, TARGETS[t], f))
        .to_vec();
    for (label, target, form) in forms {
        let m = Machine { form, ..target.m };
        let bsd = form == Mach;
        let obj = |syms: Vec<Sym>| Obj { m, platform: None, syms };
        let case = |objs: Vec<Obj>, raw: bool, nv: bool| Case { objs, raw, bsd, target, no_visibility: nv };
        // One symbol beside a sound one.
        let mut v = vec![];
        let names = ["plain", CORE[0], CORE[1], CORE[2], CORE[3], "_ZN5alloc5alloc17h0123456789abcdefE", "my4core", "___4core", REPEATED[0], REPEATED[4], "memcpy"];
        for s in all_syms(&names, &[Undef, Text, Data, Abs, Common]) {
            for raw in [false, true] {
                for nv in [false, true] {
                    v.push(case(vec![obj(vec![BASE, s])], raw, nv));
                    v.push(case(vec![obj(vec![s, BASE])], raw, nv));
                }
            }
        }
        e.group(ctx, &format!("{label}: one symbol"), v);
        // Two symbols in two objects, with the sound one on either side.
        let mut v = vec![];
        let syms = all_syms(&["a", "a_name_that_is_long", CORE[1], CORE[2], REPEATED[1]], if th { &[Undef, Text, Data, Abs, Common] } else { &[Undef, Text] });
        for &s in &syms {
            for &t in &syms {
                for nv in [false, true] {
                    v.push(case(vec![obj(vec![BASE, s]), obj(vec![t])], false, nv));
                    if th {
                        v.push(case(vec![obj(vec![s]), obj(vec![t, BASE])], false, nv));
                    }
                }
            }
        }
        e.group(ctx, &format!("{label}: two objects"), v);
        // Three objects.
        let mut v = vec![];
        let mut alpha = all_syms(&["a", CORE[3]], &[Undef, Text]);
        alpha.retain(|s| s.hidden && s.bind != Local);
        alpha.push(Sym { name: REPEATED[2], bind: Global, hidden: true, def: Data });
        alpha.push(Sym { name: "b", bind: Global, hidden: false, def: Data });
        if th {
            alpha.extend([Abs, Common, Data].map(|def| Sym { name: "a", bind: Global, hidden: true, def }));
            alpha.push(Sym { name: "a", bind: Local, hidden: false, def: Text });
        }
        for &x in &alpha {
            for &y in &alpha {
                for &z in &alpha {
                    v.push(case(vec![obj(vec![x, BASE]), obj(vec![y]), obj(vec![z])], false, false));
                }
            }
        }
        e.group(ctx, &format!("{label}: three objects"), v);
        // Names that may repeat, and those that only look like it.
        let mut v = vec![];
        for name in REPEATED.into_iter().chain(["__x86_get_pc_thunk.bx", "x__real@3f800000", "_xmm@00", "__ymm_01", "_real@00", "?_C@_02", "??_D@_02", "refptr.x", "_.refptr.x"]) {
            for bind in [Global, Weak] {
                for def in [Text, Data] {
                    for n in 1..=3 {
                        let mut objs = vec![obj(vec![BASE])];
                        objs.extend((0..n).map(|_| obj(vec![Sym { name, bind, hidden: true, def }])));
                        v.push(case(objs, false, false));
                    }
                }
            }
        }
        e.group(ctx, &format!("{label}: names that may repeat"), v);
        let a = Sym { name: "a", ..BASE };
        let faulty = [
            case(vec![obj(vec![a]), obj(vec![a])], false, false),
            case(vec![obj(vec![BASE, Sym { name: CORE[0], def: Undef, ..BASE }])], false, false),
            case(vec![obj(vec![BASE, Sym { hidden: false, ..a }])], false, false),
            case(vec![Obj { m: ARMNT, ..obj(vec![BASE]) }], false, false),
        ];
        e.mixed(ctx, &case(vec![obj(vec![BASE])], false, false), &faulty);
    }
    // Every machine and system against every target.
    let mut v = vec![];
    let mut kinds: Vec<(Machine, Option<u32>)> = vec![];
    for m in MACHINES {
        match m.form {
            Mach => kinds.extend([None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(6), Some(7), Some(8), Some(9), Some(11), Some(12)].map(|p| (m, p))),
            Coff => {
                kinds.push((m, None));
                kinds.push((Machine { form: BigCoff, ..m }, None));
            }
            _ => kinds.push((m, None)),
        }
    }
    for target in TARGETS {
        for &(m, platform) in &kinds {
            for second in [false, true] {
                // Alone, or behind an object of the right machine.
                let o = Obj { m, platform, syms: vec![BASE] };
                let first = Obj { m: target.m, platform: None, syms: vec![Sym { name: "first", ..BASE }] };
                if second && target.m.form == Pe {
                    continue;
                }
                let objs = if second { vec![first, o] } else { vec![o] };
                v.push(Case { objs, raw: !second, bsd: m.form == Mach, target, no_visibility: false });
            }
        }
        for m in [AMD64, I386, ARM64, ARMNT] {
            for subsystem in [0, 1, 2, 3, 5, 7, 8, 9, 10, 11, 12, 13, 14, 16] {
                let o = Obj { m: Machine { form: Pe, ..m }, platform: Some(subsystem), syms: vec![] };
                v.push(Case { objs: vec![o], raw: true, bsd: false, target, no_visibility: false });
            }
        }
    }
    e.group(ctx, "machines and systems", v);
}

/// Answers target questions from a list made once by the real compiler.
fn stand_in(dir: &PathBuf) {
    let bin = dir.join("bin");
    fs::create_dir_all(&bin).unwrap();
    for t in TARGETS {
        let o = Command::new("rustc").args(["--target", t.triple, "--print=cfg"]).output().unwrap();
        if !o.status.success() {
            println!("{}", String::from_utf8_lossy(&o.stderr));
            exit(3);
        }
        fs::write(bin.join(format!("{}.cfg", t.triple)), o.stdout).unwrap();
    }
    let script = bin.join("rustc");
    let d = bin.display();
    fs::write(&script, format!("#!/bin/sh\nfor a; do [ -f \"{d}/$a.cfg\" ] && exec cat \"{d}/$a.cfg\"; done\necho 'unexpected question' >&2\nexit 1\n")).unwrap();
    fs::set_permissions(&script, fs::Permissions::from_mode(0o755)).unwrap();
}

fn main() {
    let target = format!("{ROOT}/target/tools");
    let o = Command::new("cargo")
        .args(["-Zchecksum-freshness", "build", "--release", "--locked", "--manifest-path", "/repo/Cargo.toml", "-p", "symcheck"])
        .env("CARGO_TARGET_DIR", &target)
        .current_dir("/repo")
        .output()
        .unwrap();
    if !o.status.success() {
        println!("{}", String::from_utf8_lossy(&o.stderr));
        exit(2);
    }
    if std::env::args().nth(1).as_deref() == Some("build") {
        return;
    }
    run("C64", "exploration", |ctx| {
        ctx.rule("files are rejected exactly when a symbol is defined twice, a symbol of core is undefined, an object or executable is for another target or a symbol is visible (unless that is not asked for, and not on Windows); nontrivial = a file that has to be rejected");
        ctx.assume("the compiler's description of each target is recorded once and replayed to the tool");
        let dir = PathBuf::from(format!("{ROOT}/target/c64-{}", std::process::id()));
        let _ = fs::remove_dir_all(&dir);
        stand_in(&dir);
        cases(ctx, &Env { dir: dir.clone(), tool: PathBuf::from(format!("{target}/release/symcheck")) });
        fs::remove_dir_all(&dir).unwrap();
    });
}
