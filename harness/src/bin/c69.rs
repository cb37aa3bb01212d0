//! C69: names the runtime library exports on other platforms. The library is built as it is for each of them on the
//! host, the symbol table is compared with the names the platform documents, and every name is linked and called.
#![feature(f16, f128)]
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::mem::transmute;
use std::path::Path;
use std::process::{Command, Stdio, exit};
use std::sync::atomic::{AtomicPtr, Ordering};
use vh::archive::*;
use vh::ctx::ROOT;
use vh::linked::{self, NAMES};
use vh::rf::*;
use vh::table::*;
use vh::{Ctx, Worker, math_table, run, runtime_table};

/// Names of the run-time ABI for the ARM architecture and the generic name of the same operation.
const AEABI: [(&str, &str); 39] = [
    ("__aeabi_dadd", "__adddf3"),
    ("__aeabi_ddiv", "__divdf3"),
    ("__aeabi_dmul", "__muldf3"),
    ("__aeabi_dsub", "__subdf3"),
    ("__aeabi_dcmpun", "__unorddf2"),
    ("__aeabi_fadd", "__addsf3"),
    ("__aeabi_fdiv", "__divsf3"),
    ("__aeabi_fmul", "__mulsf3"),
    ("__aeabi_fsub", "__subsf3"),
    ("__aeabi_fcmpun", "__unordsf2"),
    ("__aeabi_d2iz", "__fixdfsi"),
    ("__aeabi_d2uiz", "__fixunsdfsi"),
    ("__aeabi_d2lz", "__fixdfdi"),
    ("__aeabi_d2ulz", "__fixunsdfdi"),
    ("__aeabi_f2iz", "__fixsfsi"),
    ("__aeabi_f2uiz", "__fixunssfsi"),
    ("__aeabi_f2lz", "__fixsfdi"),
    ("__aeabi_f2ulz", "__fixunssfdi"),
    ("__aeabi_d2f", "__truncdfsf2"),
    ("__aeabi_f2d", "__extendsfdf2"),
    ("__aeabi_f2h", "__truncsfhf2"),
    ("__aeabi_d2h", "__truncdfhf2"),
    ("__aeabi_h2f", "__extendhfsf2"),
    ("__aeabi_i2d", "__floatsidf"),
    ("__aeabi_ui2d", "__floatunsidf"),
    ("__aeabi_l2d", "__floatdidf"),
    ("__aeabi_ul2d", "__floatundidf"),
    ("__aeabi_i2f", "__floatsisf"),
    ("__aeabi_ui2f", "__floatunsisf"),
    ("__aeabi_l2f", "__floatdisf"),
    ("__aeabi_ul2f", "__floatundisf"),
    ("__aeabi_lmul", "__muldi3"),
    ("__aeabi_llsl", "__ashldi3"),
    ("__aeabi_llsr", "__lshrdi3"),
    ("__aeabi_lasr", "__ashrdi3"),
    ("__aeabi_idiv", "__divsi3"),
    ("__aeabi_uidiv", "__udivsi3"),
    ("__divsf3vfp", "__divsf3"),
    ("__divdf3vfp", "__divdf3"),
];

/// Comparisons of the same ABI, which return one or zero; here in the order of [`compare`].
const COMPARE: [&str; 10] = [
    "__aeabi_fcmpeq", "__aeabi_fcmplt", "__aeabi_fcmple", "__aeabi_fcmpgt", "__aeabi_fcmpge", "__aeabi_dcmpeq", "__aeabi_dcmplt", "__aeabi_dcmple",
    "__aeabi_dcmpgt", "__aeabi_dcmpge",
];

/// Single and double precision functions that the system library of every hosted platform has.
const HOSTED: [&str; 28] = [
    "cbrt", "cbrtf", "ceil", "ceilf", "copysign", "copysignf", "fabs", "fabsf", "fdim", "fdimf", "floor", "floorf", "fma", "fmaf", "fmax", "fmaxf", "fmin",
    "fminf", "fmod", "fmodf", "rint", "rintf", "round", "roundf", "sqrt", "sqrtf", "trunc", "truncf",
];

static EXTRA: AtomicPtr<usize> = AtomicPtr::new(std::ptr::null_mut());
fn extra(name: &str) -> usize {
    let i = EXTRA_NAMES.iter().position(|n| *n == name).unwrap();
    unsafe { *EXTRA.load(Ordering::Relaxed).add(i) }
}
macro_rules! extras {
    ($($n:ident: $(($t:ty, $k:expr))* => $r:ty;)*) => {
        /// Functions exported where no system library can be expected.
        const EXTRA_NAMES: &[&str] = &[$(stringify!($n),)* "lgamma_r", "lgammaf_r"];
        fn extra_entries() -> Vec<Entry> {
            use Kind::*;
            let mut v = vec![$(extras!(@ $n $(($t, $k))* => $r),)*];
            vh::entry!(v, "lgamma_r", false, |x: f64| {
                let mut s = 77i32;
                let r = unsafe { transmute::<usize, extern "C" fn(f64, &mut i32) -> f64>(extra("lgamma_r")) }(x, &mut s);
                (r, s)
            }, (f64, F(F64)));
            vh::entry!(v, "lgammaf_r", false, |x: f32| {
                let mut s = 77i32;
                let r = unsafe { transmute::<usize, extern "C" fn(f32, &mut i32) -> f32>(extra("lgammaf_r")) }(x, &mut s);
                (r, s)
            }, (f32, F(F32)));
            v
        }
    };
    (@ $n:ident ($t:ty, $k:expr) => $r:ty) => {
        Entry {
            name: stringify!($n),
            exact: false,
            args: vec![$k],
            ret: [<$r as Arg>::KIND, Kind::None],
            f: |x| [unsafe { transmute::<usize, extern "C" fn($t) -> $r>(extra(stringify!($n))) }(<$t as Arg>::of(x[0])).bits(), 0],
        }
    };
    (@ $n:ident ($t:ty, $k:expr) ($s:ty, $l:expr) => $r:ty) => {
        Entry {
            name: stringify!($n),
            exact: false,
            args: vec![$k, $l],
            ret: [<$r as Arg>::KIND, Kind::None],
            f: |x| [unsafe { transmute::<usize, extern "C" fn($t, $s) -> $r>(extra(stringify!($n))) }(<$t as Arg>::of(x[0]), <$s as Arg>::of(x[1])).bits(), 0],
        }
    };
}
extras! {
    acos: (f64, F(F64)) => f64;
    acosf: (f32, F(F32)) => f32;
    acosh: (f64, F(F64)) => f64;
    acoshf: (f32, F(F32)) => f32;
    asin: (f64, F(F64)) => f64;
    asinf: (f32, F(F32)) => f32;
    asinh: (f64, F(F64)) => f64;
    asinhf: (f32, F(F32)) => f32;
    atan: (f64, F(F64)) => f64;
    atan2: (f64, F(F64)) (f64, F(F64)) => f64;
    atan2f: (f32, F(F32)) (f32, F(F32)) => f32;
    atanf: (f32, F(F32)) => f32;
    cos: (f64, F(F64)) => f64;
    cosf: (f32, F(F32)) => f32;
    cosh: (f64, F(F64)) => f64;
    coshf: (f32, F(F32)) => f32;
    erf: (f64, F(F64)) => f64;
    erfc: (f64, F(F64)) => f64;
    erfcf: (f32, F(F32)) => f32;
    erff: (f32, F(F32)) => f32;
    exp: (f64, F(F64)) => f64;
    exp2: (f64, F(F64)) => f64;
    exp2f: (f32, F(F32)) => f32;
    expf: (f32, F(F32)) => f32;
    expm1: (f64, F(F64)) => f64;
    expm1f: (f32, F(F32)) => f32;
    hypot: (f64, F(F64)) (f64, F(F64)) => f64;
    hypotf: (f32, F(F32)) (f32, F(F32)) => f32;
    ldexp: (f64, F(F64)) (i32, Scale) => f64;
    ldexpf: (f32, F(F32)) (i32, Scale) => f32;
    log: (f64, F(F64)) => f64;
    log10: (f64, F(F64)) => f64;
    log10f: (f32, F(F32)) => f32;
    log1p: (f64, F(F64)) => f64;
    log1pf: (f32, F(F32)) => f32;
    log2: (f64, F(F64)) => f64;
    log2f: (f32, F(F32)) => f32;
    logf: (f32, F(F32)) => f32;
    pow: (f64, F(F64)) (f64, F(F64)) => f64;
    powf: (f32, F(F32)) (f32, F(F32)) => f32;
    sin: (f64, F(F64)) => f64;
    sinf: (f32, F(F32)) => f32;
    sinh: (f64, F(F64)) => f64;
    sinhf: (f32, F(F32)) => f32;
    tan: (f64, F(F64)) => f64;
    tanf: (f32, F(F32)) => f32;
    tanh: (f64, F(F64)) => f64;
    tanhf: (f32, F(F32)) => f32;
    tgamma: (f64, F(F64)) => f64;
    tgammaf: (f32, F(F32)) => f32;
}

#[derive(Clone, Copy, PartialEq)]
enum Platform {
    Arm,
    PowerPc,
    PowerPc64,
    Apple,
    Windows,
    Cygwin,
    Uefi,
    OldX86,
    OldX86Uefi,
    Bare,
}
use Platform::*;
const ALL: [Platform; 10] = [Arm, PowerPc, PowerPc64, Apple, Windows, Cygwin, Uefi, OldX86, OldX86Uefi, Bare];

impl Platform {
    fn name(self) -> &'static str {
        match self {
            Arm => "ARM without an operating system",
            PowerPc => "PowerPC",
            PowerPc64 => "64-bit PowerPC",
            Apple => "Apple x86",
            Windows => "Windows with the GNU environment",
            Cygwin => "Cygwin",
            Uefi => "UEFI",
            OldX86 => "x86 without SSE2 and operating system",
            OldX86Uefi => "x86 without SSE2, UEFI",
            Bare => "no operating system",
        }
    }
    fn dir(self) -> String {
        format!("{ROOT}/target/names{}", self as u32)
    }
    fn archive(self) -> String {
        format!("{}/release/libcompiler_builtins.rlib", self.dir())
    }
    /// What rustc is told about the platform in addition to the host.
    fn cfg(self) -> &'static [&'static str] {
        match self {
            PowerPc => &["target_arch=\"powerpc\""],
            PowerPc64 => &["target_arch=\"powerpc64\""],
            Apple => &["target_vendor=\"apple\""],
            Windows => &["windows"],
            Cygwin => &["target_os=\"cygwin\""],
            Uefi | OldX86Uefi => &["target_os=\"uefi\""],
            Arm | OldX86 | Bare => &[],
        }
    }
    /// What cannot be said by additional settings is said in a copy of the sources.
    fn copied(self) -> bool {
        !matches!(self, PowerPc | PowerPc64 | Apple | Cygwin)
    }
    fn tree(self) -> String {
        if self.copied() { format!("{}/tree", self.dir()) } else { "/repo".into() }
    }
    fn edit(self, path: &str, text: String) -> String {
        if !path.starts_with("compiler-builtins/src/") {
            return text;
        }
        // Settings only: whether this is a hosted system and which processor it has. The modules that consist of
        // instructions of the processor are left out.
        let mut text = word(&text.replace("target_family = \"unix\"", "any()"), "unix", "any()");
        if self == Arm && !path.ends_with("src/lib.rs") && !path.contains("/sync/") && !path.contains("/arm") {
            text = text.replace("target_arch = \"arm\"", "all()").replace("\"aapcs\"", "\"C\"");
        }
        if matches!(self, OldX86 | OldX86Uefi) && path.contains("/math/") {
            text = text.replace("target_arch = \"x86\"", "all()").replace("target_feature = \"sse2\"", "any()");
        }
        text
    }
    fn spawn(self) -> std::process::Child {
        if self.copied() {
            for d in ["compiler-builtins", "libm", "builtins-shim"] {
                copy(self, Path::new("/repo"), Path::new(d));
            }
            // The copy is a workspace of its own with the same profiles.
            let shim = Path::new(&self.tree()).join("builtins-shim");
            let mut text = fs::read_to_string("/repo/builtins-shim/Cargo.toml").unwrap() + "\n[workspace]\n";
            let mut profile = false;
            for l in fs::read_to_string("/repo/Cargo.toml").unwrap().lines() {
                if l.starts_with('[') {
                    profile = l.starts_with("[profile.") && !l.contains(".package.");
                }
                if profile {
                    text += &format!("{l}\n");
                }
            }
            put(shim.join("Cargo.toml"), Some(text.into_bytes()));
            if !shim.join("Cargo.lock").exists() {
                put(shim.join("Cargo.lock"), fs::read("/repo/Cargo.lock").ok());
            }
        }
        let mut c = Command::new("cargo");
        c.args(["-Zchecksum-freshness", "rustc", "--offline", "--no-default-features", "--features", "compiler-builtins,arch,mem", "--release", "--", "-A", "explicit_builtin_cfgs_in_flags"]);
        for s in self.cfg() {
            c.args(["--cfg", s]);
        }
        c.env("CARGO_TARGET_DIR", self.dir()).current_dir(format!("{}/builtins-shim", self.tree()));
        c.stdout(Stdio::null()).stderr(Stdio::piped()).spawn().unwrap()
    }
    /// The exported names; for each the generic name of the operation.
    fn names(self) -> BTreeMap<String, &'static str> {
        let mut m = BTreeMap::new();
        for n in NAMES {
            let p = match self {
                PowerPc | PowerPc64 if n.starts_with("__") && n.contains("tf") => n.replace("tf", "kf"),
                Apple | Windows if HOSTED.contains(&n) => continue,
                _ => n.to_string(),
            };
            m.insert(p, n);
        }
        match self {
            Arm => {
                m.extend(EXTRA_NAMES.iter().map(|n| (n.to_string(), *n)));
                m.extend(AEABI.iter().map(|(a, n)| (a.to_string(), *n)));
                m.extend(COMPARE.iter().map(|n| (n.to_string(), *n)));
            }
            Cygwin => {
                m.insert("___chkstk_ms".into(), "___chkstk_ms");
            }
            Uefi | OldX86Uefi => {
                m.extend(EXTRA_NAMES.iter().map(|n| (n.to_string(), *n)));
                m.insert("___chkstk_ms".into(), "___chkstk_ms");
            }
            Bare => m.extend(EXTRA_NAMES.iter().map(|n| (n.to_string(), *n))),
            Windows => {
                m.extend(["lgamma_r", "lgammaf_r"].map(|n| (n.to_string(), n)));
                m.insert("___chkstk_ms".into(), "___chkstk_ms");
            }
            _ => {}
        }
        m
    }
}

/// Replaces a word.
fn word(text: &str, old: &str, new: &str) -> String {
    let mut out = String::new();
    let mut rest = text;
    while let Some(i) = rest.find(old) {
        let part = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '"' || c == '-');
        let end = i + old.len();
        let whole = !part(rest[..i].chars().next_back()) && !part(rest[end..].chars().next());
        out += &rest[..i];
        out += if whole { new } else { old };
        rest = &rest[end..];
    }
    out + rest
}

fn put(to: std::path::PathBuf, text: Option<Vec<u8>>) {
    let Some(text) = text else { return };
    fs::create_dir_all(to.parent().unwrap()).unwrap();
    if fs::read(&to).ok().as_ref() != Some(&text) {
        fs::write(&to, text).unwrap();
    }
}

/// Brings the copy of a directory up to date.
fn copy(p: Platform, root: &Path, dir: &Path) {
    let Ok(list) = fs::read_dir(root.join(dir)) else { return };
    let to = Path::new(&p.tree()).join(dir);
    let mut seen = BTreeSet::new();
    for e in list {
        let e = e.unwrap();
        let path = dir.join(e.file_name());
        seen.insert(e.file_name());
        if dir == Path::new("builtins-shim") && e.file_name() == "Cargo.toml" {
            continue;
        }
        let kind = e.file_type().unwrap();
        if kind.is_dir() {
            if e.file_name() != "target" && e.file_name() != ".git" {
                copy(p, root, &path);
            }
        } else if kind.is_symlink() {
            let t = to.join(e.file_name());
            if t.symlink_metadata().is_err() {
                fs::create_dir_all(&to).unwrap();
                std::os::unix::fs::symlink(fs::read_link(root.join(&path)).unwrap(), t).unwrap();
            }
        } else {
            let data = fs::read(root.join(&path)).unwrap();
            let data = match String::from_utf8(data) {
                Ok(t) if path.extension().is_some_and(|x| x == "rs") => p.edit(path.to_str().unwrap(), t).into_bytes(),
                Ok(t) => t.into_bytes(),
                Err(e) => e.into_bytes(),
            };
            put(to.join(e.file_name()), Some(data));
        }
    }
    for e in fs::read_dir(&to).into_iter().flatten() {
        let e = e.unwrap();
        if !seen.contains(&e.file_name()) && e.file_name() != "Cargo.lock" && e.file_type().unwrap().is_file() {
            fs::remove_file(e.path()).unwrap();
        }
    }
}

fn table(ctx: &Ctx, p: Platform) -> BTreeSet<String> {
    let (defs, undef) = contents(&p.archive());
    let names = p.names();
    ctx.seq(&format!("symbols, {}", p.name()), |w| {
        w.func("symbol table");
        for n in names.keys() {
            w.text(n);
            let input = format!("{n} in the archive for {}", p.name());
            match defs.get(n) {
                None => w.fail("symbol table", &input, "defined once", "not defined"),
                Some(v) => {
                    if v.len() != 1 {
                        w.fail("symbol table", &input, "defined once", &format!("defined {} times", v.len()));
                    }
                    for s in v {
                        if !s.func || s.vis != 2 || s.weak == matches!(p, Windows | Cygwin) {
                            let want = if matches!(p, Windows | Cygwin) { "a strong hidden function" } else { "a weak hidden function" };
                            w.fail("symbol table", &input, want, &format!("weak {}, function {}, visibility {}", s.weak, s.func, s.vis));
                        }
                    }
                }
            }
            w.done(true);
        }
        for n in defs.keys() {
            w.text(n);
            // A variable that code for UEFI with floating point refers to.
            if plain(n) && !names.contains_key(n) && !(matches!(p, Uefi | OldX86Uefi) && n == "_fltused") {
                w.fail("symbol table", &format!("{n} in the archive for {}", p.name()), "no other exported symbol", "defined");
            }
            w.done(plain(n));
        }
        for n in &undef {
            w.text(n);
            // The compiler of the host refers to the names of the host, and the system library may be used where there is one.
            let host = NAMES.contains(&n.as_str()) && names.values().any(|b| b == n) || matches!(p, Apple | Windows) && HOSTED.contains(&n.as_str());
            if !defs.contains_key(n) && !host && n != "_GLOBAL_OFFSET_TABLE_" {
                w.fail("symbol table", &format!("{n} in the archive for {}", p.name()), "resolved inside the archive", "undefined");
            }
            w.done(true);
        }
    });
    defs.into_keys().collect()
}

/// One round links one name for each operation.
fn calls(ctx: &Ctx, p: Platform, reference: &BTreeMap<&str, Entry>, defs: &BTreeSet<String>, special: bool) {
    let names = p.names();
    // Where an operation has several names, the special ones are called in their own rounds.
    let pick = |base: &&'static str| -> Option<String> {
        let mut all = names.iter().filter(|(n, b)| *b == base && defs.contains(*n)).map(|(n, _)| n.clone());
        match special {
            false => all.find(|n| n == base || p != Arm),
            true => all.rfind(|n| n != base),
        }
    };
    let mut rounds: Vec<BTreeMap<&'static str, String>> = vec![BTreeMap::new()];
    for base in NAMES.iter().chain(EXTRA_NAMES).chain(&COMPARE) {
        if let Some(n) = pick(base) {
            rounds[0].insert(base, n);
        }
    }
    if special {
        let second = names.iter().filter(|(n, b)| *n != *b && defs.contains(*n) && rounds[0].get(*b) != Some(*n)).map(|(n, b)| (*b, n.clone())).collect();
        rounds.push(second);
    }
    for (number, chosen) in rounds.iter().enumerate() {
        if chosen.is_empty() {
            continue;
        }
        let list: Vec<Option<&str>> = NAMES.iter().chain(EXTRA_NAMES).chain(&COMPARE).map(|b| chosen.get(b).map(|n| n.as_str())).collect();
        let dir = format!("{}/link{}{number}", p.dir(), special as u32);
        fs::create_dir_all(&dir).unwrap();
        // The compiler of the host refers to the names of the host.
        let more: Vec<String> = match p {
            PowerPc | PowerPc64 => names.iter().filter(|(n, b)| *n != *b && defs.contains(*n)).map(|(n, b)| format!("-Wl,--defsym={b}={n}")).collect(),
            Apple | Windows => vec!["-lm".into()],
            _ => vec![],
        };
        let t = match link(&dir, &p.archive(), &list, &more) {
            Ok(t) => t,
            Err(text) => return ctx.violate("link", &format!("an object that refers to the exported symbols for {}", p.name()), "links", &text),
        };
        unsafe { linked::set(t) };
        EXTRA.store(unsafe { t.add(NAMES.len()) }, Ordering::SeqCst);
        let size = if ctx.thorough { 1 } else { 0 };
        let dom = Domains::default();
        let jobs: Vec<_> = linked::entries()
            .into_iter()
            .chain(extra_entries())
            .filter(|e| chosen.contains_key(e.name))
            // There, the code the host compiler makes for halves in other routines does not go with the conversions.
            .filter(|e| p != Apple || e.name.ends_with("tfhf2") || e.name.ends_with("hftf2") || !e.args.iter().chain(&e.ret).any(|k| *k == Kind::F(F16)))
            .map(|e| {
                let d = dom.of(&e, size);
                (&chosen[e.name], &reference[e.name], d, e)
            })
            .collect();
        let blocks: Vec<(usize, usize)> = jobs.iter().enumerate().flat_map(|(i, j)| (0..j.2[0].len()).step_by(8).map(move |k| (i, k))).collect();
        let kind = if special { "platform names" } else { "generic names" };
        ctx.par(&format!("calls through {kind} {number}, {}", p.name()), blocks.len() as u64, |i, w| {
            let (j, k) = blocks[i as usize];
            let (n, r, d, e) = &jobs[j];
            w.func(e.name);
            for &a in &d[0][k..d[0].len().min(k + 8)] {
                for &b in d[1].iter() {
                    w.args([a as u64, (a >> 64) as u64, b as u64, (b >> 64) as u64]);
                    for &z in d[2].iter() {
                        let x = [a, b, z];
                        let (got, want) = ((e.f)(x), (r.f)(x));
                        if !(0..2).all(|i| agree(e.ret[i], want[i], got[i])) {
                            w.fail(e.name, &format!("{:x?} through {n} for {}", &x[..e.args.len()], p.name()), &format!("{want:x?}"), &format!("{got:x?}"));
                        }
                        w.done(true);
                    }
                }
            }
        });
        if p == Arm && !special {
            compare(ctx, p, unsafe { std::slice::from_raw_parts(t.add(NAMES.len() + EXTRA_NAMES.len()), COMPARE.len()) });
        }
        if p == Apple {
            half(ctx, p, reference);
        }
    }
}

/// The comparisons that return one or zero.
fn compare(ctx: &Ctx, p: Platform, at: &[usize]) {
    let dom = Domains::default();
    fn judge(w: &mut Worker, name: &'static str, a: f64, b: f64, k: usize, got: i32) {
        let want = [a == b, a < b, a <= b, a > b, a >= b][k] as i32;
        if got != want {
            w.fail(name, &format!("{:016x} {:016x}", a.to_bits(), b.to_bits()), &format!("{want}"), &format!("{got}"));
        }
        w.done(true);
    }
    let d = [dom.get(Kind::F(F32), 2, ctx.thorough as u32), dom.get(Kind::F(F64), 2, ctx.thorough as u32)];
    for (f, d) in d.iter().enumerate() {
        ctx.par(&format!("comparisons of {} bits, {}", 32 << f, p.name()), d.len() as u64, |i, w| {
            let a = d[i as usize];
            for &b in d.iter() {
                w.args([a as u64, b as u64]);
                for k in 0..5 {
                    let name = COMPARE[5 * f + k];
                    if at[5 * f + k] == 0 {
                        continue;
                    }
                    w.func(name);
                    if f == 0 {
                        let g: extern "C" fn(f32, f32) -> i32 = unsafe { transmute(at[k]) };
                        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                        judge(w, name, x as f64, y as f64, k, g(x, y));
                    } else {
                        let g: extern "C" fn(f64, f64) -> i32 = unsafe { transmute(at[5 + k]) };
                        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                        judge(w, name, x, y, k, g(x, y));
                    }
                }
            }
        });
    }
}

/// Conversions between half precision and single or double precision: the half is an integer of 16 bits there.
const HALF: [&str; 6] = ["__extendhfsf2", "__gnu_h2f_ieee", "__extendhfdf2", "__truncsfhf2", "__gnu_f2h_ieee", "__truncdfhf2"];
fn half(ctx: &Ctx, p: Platform, reference: &BTreeMap<&str, Entry>) {
    let at = |n: &str| linked::at(NAMES.iter().position(|m| *m == n).unwrap());
    let dom = Domains::default();
    for n in HALF {
        let a = at(n);
        if a == 0 {
            continue;
        }
        let r = &reference[n];
        let d = if n.starts_with("__trunc") || n == "__gnu_f2h_ieee" { dom.of(r, 2)[0].to_vec() } else { (0..1 << 16).collect() };
        ctx.par(&format!("{n}, {}", p.name()), d.len() as u64, |i, w| {
            let x = d[i as usize];
            w.func(n);
            w.args([x as u64]);
            let got = unsafe {
                match n {
                    // The rest of the register is not part of the argument.
                    "__extendhfsf2" | "__gnu_h2f_ieee" => transmute::<usize, extern "C" fn(u32) -> f32>(a)(x as u32).to_bits() as u128,
                    "__extendhfdf2" => transmute::<usize, extern "C" fn(u32) -> f64>(a)(x as u32).to_bits() as u128,
                    "__truncdfhf2" => transmute::<usize, extern "C" fn(f64) -> u16>(a)(f64::from_bits(x as u64)) as u128,
                    _ => transmute::<usize, extern "C" fn(f32) -> u16>(a)(f32::from_bits(x as u32)) as u128,
                }
            };
            let want = (r.f)([x, 0, 0])[0];
            if !agree(r.ret[0], want, got) {
                w.fail(n, &format!("{x:x} for {}", p.name()), &format!("{want:x}"), &format!("{got:x}"));
            }
            w.done(true);
        });
    }
}

fn main() {
    let kids = ALL.map(|p| (p, p.spawn()));
    for (p, k) in kids {
        let o = k.wait_with_output().unwrap();
        if !o.status.success() {
            println!("{}: {}", p.name(), String::from_utf8_lossy(&o.stderr));
            exit(2);
        }
    }
    if std::env::args().nth(1).as_deref() == Some("build") {
        return;
    }
    run("C69", "exploration", |ctx| {
        ctx.rule("the archive built for each platform defines exactly the names documented for it, each once, and a call through each name returns what the generic routine of that operation returns (one or zero for the ARM comparisons)");
        ctx.assume("the host compiles the sources as they are for the platform: the settings of the platform are given in addition to those of the host, or, for ARM and for systems that are not hosted, in a copy; the calling convention is that of the host");
        let mut reference: BTreeMap<&str, Entry> = BTreeMap::new();
        for e in runtime_table!(compiler_builtins).into_iter().chain(math_table!(libm)) {
            reference.insert(e.name, e);
        }
        for p in ALL {
            let defs = table(ctx, p);
            calls(ctx, p, &reference, &defs, false);
            if p == Arm {
                calls(ctx, p, &reference, &defs, true);
            }
        }
    });
}
