//! C68: routines taken from C. The build script of /repo runs for every target with the C sources switched on, a made-up
//! source tree and stand-ins for the C compiler and the archiver; what it compiles and which routines it leaves out of
//! the Rust library are compared with each other and with the target's description.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use vh::ctx::ROOT;
use vh::scripts::*;
use vh::{Ctx, Worker, run};

const DIR: &str = "/repo/compiler-builtins";
const INTS: [&str; 18] = [
    "absvdi2", "absvsi2", "addvdi3", "addvsi3", "cmpdi2", "int_util", "mulvdi3", "mulvsi3", "negdi2", "negvdi2", "negvsi2", "paritydi2", "paritysi2", "popcountdi2", "popcountsi2", "subvdi3", "subvsi3",
    "ucmpdi2",
];
const WIDE: [&str; 10] = ["absvti2", "addvti3", "cmpti2", "ffsti2", "mulvti3", "negti2", "parityti2", "popcountti2", "subvti3", "ucmpti2"];
const FLOATS: [&str; 6] = ["divdc3", "divsc3", "muldc3", "mulsc3", "negdf2", "negsf2"];
const OTHER: [&str; 14] = [
    "negvti2", "fp_mode", "multc3", "bswapsi2", "bswapdi2", "emutls", "clear_cache", "atomic_flag_clear", "atomic_flag_clear_explicit", "atomic_flag_test_and_set", "atomic_flag_test_and_set_explicit",
    "atomic_signal_fence", "atomic_thread_fence", "cpu_model",
];
const I386: [&str; 8] = ["ashldi3", "ashrdi3", "divdi3", "lshrdi3", "moddi3", "muldi3", "udivdi3", "umoddi3"];
const ARM_C: [&str; 5] = ["aeabi_div0", "aeabi_drsub", "aeabi_frsub", "aeabi_cdcmpeq_check_nan", "aeabi_cfcmpeq_check_nan"];
const ARM_S: [&str; 33] = [
    "aeabi_uread4", "aeabi_uread8", "aeabi_uwrite4", "aeabi_uwrite8", "bswapdi2", "bswapsi2", "divmodsi4", "divsi3", "modsi3", "switch16", "switch32", "switch8", "switchu8", "sync_synchronize", "udivmodsi4",
    "udivsi3", "umodsi3", "aeabi_cdcmp", "aeabi_cfcmp", "fixdfsivfp", "fixunsdfsivfp", "floatsidfvfp", "floatunssidfvfp", "fixsfsivfp", "fixunssfsivfp", "floatsisfvfp", "floatunssisfvfp",
    "restore_vfp_d8_d15_regs", "save_vfp_d8_d15_regs", "negdf2vfp", "negsf2vfp", "comparesf2", "addsf3",
];
const SYNC: [&str; 10] = ["add", "and", "max", "min", "nand", "or", "sub", "umax", "umin", "xor"];
const DOUBLE: [&str; 4] = ["fixdfsivfp", "fixunsdfsivfp", "floatsidfvfp", "floatunssidfvfp"];
const OPS: [&str; 6] = ["cas", "swp", "ldadd", "ldclr", "ldeor", "ldset"];
const ORDERS: [&str; 4] = ["relax", "acq", "rel", "acq_rel"];

fn lse() -> Vec<(String, [String; 3])> {
    let mut v = vec![];
    for op in OPS {
        for size in [1, 2, 4, 8, 16] {
            if size == 16 && op != "cas" {
                continue;
            }
            for (m, o) in ORDERS.iter().enumerate() {
                v.push((format!("__aarch64_{op}{size}_{o}"), [format!("#define L_{op}"), format!("#define SIZE {size}"), format!("#define MODEL {}", m + 1)]));
            }
        }
    }
    v
}

/// The source that defines a routine, without directory and extension.
fn source_of(sym: &str, lse: &BTreeSet<String>) -> String {
    match sym {
        "__fe_getround" | "__fe_raise_inexact" => "fp_mode".into(),
        "__emutls_get_address" => "emutls".into(),
        "__aarch64_have_lse_atomics" => "cpu_model".into(),
        s if lse.contains(s) => s.to_string(),
        s => s.strip_prefix("__").unwrap_or(s).into(),
    }
}

struct Env {
    dir: PathBuf,
    script: PathBuf,
    mangled: PathBuf,
    lse: Vec<(String, [String; 3])>,
    lse_names: BTreeSet<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    /// Compile the sources.
    Sources,
    /// Link a library made before.
    Prebuilt,
}

/// One command of the compiler or archiver.
struct Call {
    tool: String,
    args: Vec<String>,
}

fn calls(out: &Path) -> Vec<Call> {
    let t = fs::read_to_string(out.join("calls")).unwrap_or_default();
    t.lines()
        .map(|l| {
            let mut p = l.split('\u{2}').map(|s| s.to_string());
            Call { tool: p.next().unwrap(), args: p.collect() }
        })
        .collect()
}

impl Env {
    fn go(&self, script: &Path, t: &Target, out: &Path, vars: &[(String, String)]) -> Said {
        let feats = ["c", "unmangled-names", "arch"];
        let mut c = command(script, DIR, t, &feats, "3", out);
        let bin = self.dir.join("bin");
        c.env("CC", bin.join("clang")).env("AR", bin.join("ar")).env("RANLIB", bin.join("ar")).env("STAND_IN_LOG", out.join("calls")).env("NUM_JOBS", "2").env("SDKROOT", "/nonexistent").env("PAUTHTEST_SYSROOT", "/nonexistent").env("PAUTHTEST_RESOURCE_DIR", "/nonexistent");
        for (k, v) in vars {
            c.env(k, v);
        }
        Said::new(c.output().unwrap())
    }

    fn one(&self, w: &mut Worker, id: u64, t: &Target, mode: Mode, cflags: Option<&str>, model_dir: bool) {
        let out = self.dir.join(format!("{id}"));
        fs::create_dir_all(&out).unwrap();
        let root = self.dir.join(if model_dir { "new" } else { "old" });
        let lib = self.dir.join("lib/libmade-before.a");
        let mut vars = vec![];
        match mode {
            Mode::Sources => vars.push(("RUST_COMPILER_RT_ROOT".to_string(), root.display().to_string())),
            Mode::Prebuilt => vars.push(("LLVM_COMPILER_RT_LIB".to_string(), lib.display().to_string())),
        }
        if let Some(f) = cflags {
            vars.push((format!("CFLAGS_{}", t.triple.replace('-', "_")), f.to_string()));
        }
        let said = self.go(&self.script, t, &out, &vars);
        let input = format!("{} {mode:?} flags {cflags:?} new tree {model_dir}", t.triple);
        let mut bad = |want: &str, got: &str| w.fail("build script", &input, want, got);
        if !said.ok {
            bad("a finished build", &said.errors);
            w.done(true);
            return;
        }
        let taken: BTreeSet<&str> = said.cfgs.iter().filter_map(|c| c.strip_suffix("=\"optimized-c\"")).collect();
        let calls = calls(&out);
        let none = matches!(t.os(), "emscripten" | "openbsd") || t.arch().starts_with("nvptx");
        if t.os() == "openbsd" && !(said.lines.iter().any(|l| l == "rustc-link-lib=compiler_rt") && said.lines.iter().any(|l| l == "rustc-link-search=native=/usr/lib")) {
            bad("the system's library is linked", "it is not");
        }
        if none {
            if !taken.is_empty() || !calls.is_empty() {
                bad("nothing from C", &format!("{taken:?} {} commands", calls.len()));
            }
            w.done(true);
            fs::remove_dir_all(&out).unwrap();
            return;
        }

        // What is taken over follows from the target.
        let (arch, os) = (t.arch(), t.os());
        let apple = t.is("target_vendor", "apple");
        let msvc = t.is("target_env", "msvc");
        let floats = !(arch == "aarch64" && cflags.is_some_and(|f| f.contains("+nofp") || f.contains("+nosimd")));
        let has = |s: &str| taken.contains(format!("__{s}").as_str());
        let mut rule = |what: &str, names: &[&str], want: bool| {
            for n in names {
                if has(n) != want {
                    w.fail("build script", &input, &format!("{n} {} ({what})", if want { "from C" } else { "not from C" }), "the opposite");
                }
            }
        };
        rule("every target", &INTS, true);
        rule("every target with wide integers", &WIDE, !(apple && arch == "x86"));
        rule("complex arithmetic where floats are allowed", &FLOATS, floats);
        rule("emulated thread-local storage", &["emutls_get_address"], matches!(os, "android" | "cygwin") || t.is("target_env", "ohos"));
        let no_asm = os == "uefi" || arch == "arm" && t.feature("mclass") && !t.feature("thumb2");
        rule("x86 assembly", &I386, arch == "x86" && !msvc && !no_asm);
        let arm = arch == "arm" && !apple && !msvc;
        rule("ARM helpers", &["aeabi_div0", "aeabi_drsub", "aeabi_frsub"], arm);
        rule("ARM assembly", &["aeabi_uread4", "aeabi_uwrite8", "switch16", "divsi3", "udivmodsi4", "sync_synchronize", "bswapdi2"], arm && !no_asm);
        rule("little-endian ARM", &["aeabi_cdcmpeq_check_nan", "aeabi_cfcmpeq_check_nan"], arm && t.is("target_endian", "little"));
        let v7m = ["thumbv7m-", "thumbv7em-"].iter().any(|p| t.triple.starts_with(p));
        rule("little-endian ARM comparisons", &["aeabi_cdcmp", "aeabi_cfcmp"], arm && t.is("target_endian", "little") && !no_asm && !v7m);
        rule("AArch64 rounding mode", &["fe_raise_inexact"], matches!(arch, "aarch64" | "arm64ec") && floats);
        rule("rounding mode", &["fe_getround"], matches!(arch, "aarch64" | "arm64ec") && floats || matches!(arch, "mips64" | "loongarch64"));
        rule("binary128 complex product", &["multc3"], matches!(arch, "aarch64" | "arm64ec") && floats && !matches!(os, "windows" | "cygwin"));
        let hard = t.triple.ends_with("eabihf");
        let single = ["thumbv7em", "thumbv8m.main"].iter().any(|p| t.triple.starts_with(p));
        rule("hard float conversions", &["fixsfsivfp", "floatsisfvfp", "negsf2vfp", "save_vfp_d8_d15_regs", "restore_vfp_d8_d15_regs"], hard && !no_asm);
        rule("double precision hard float conversions", &DOUBLE, hard && !single && !no_asm);
        rule("Apple and other systems' flags", &["clear_cache"], arm && os == "freebsd");
        let outlined = arch == "aarch64" && !msvc && os != "uefi";
        let lse: Vec<&str> = self.lse.iter().map(|l| l.0.strip_prefix("__").unwrap()).collect();
        rule("outlined atomics", &lse, outlined);
        rule("detection for outlined atomics", &["aarch64_have_lse_atomics"], outlined);
        let mut bad = |want: &str, got: &str| w.fail("build script", &input, want, got);
        for n in ["atomic_flag_clear", "atomic_signal_fence", "atomic_thread_fence", "atomic_flag_test_and_set_explicit"] {
            if taken.contains(n) != apple {
                bad(&format!("{n} from C only on Apple systems"), "the opposite");
            }
        }

        match mode {
            Mode::Prebuilt => {
                if !calls.is_empty() {
                    bad("nothing compiled", &format!("{} commands", calls.len()));
                }
                for l in [format!("rustc-link-search=native={}", lib.parent().unwrap().display()), "rustc-link-lib=static:+verbatim=libmade-before.a".to_string()] {
                    if !said.lines.contains(&l) {
                        bad(&l, "not said");
                    }
                }
            }
            Mode::Sources => {
                // Every routine left to C is compiled from its source, once, and nothing else is.
                let builtins = root.join("lib/builtins");
                let mut seen: BTreeMap<String, u32> = BTreeMap::new();
                let mut objects = BTreeSet::new();
                for c in calls.iter().filter(|c| c.tool.ends_with("/clang")) {
                    let Some(src) = c.args.iter().find(|a| a.ends_with(".c") || a.ends_with(".S")) else { continue };
                    if src.contains("detect_compiler_family") || src.contains("flag_check") || !c.args.iter().any(|a| a == "-c") {
                        continue;
                    }
                    let p = Path::new(src);
                    let stem = p.file_stem().unwrap().to_str().unwrap().to_string();
                    let name = if let Ok(rel) = p.strip_prefix(&builtins) {
                        if !p.exists() {
                            bad("a source of the tree", src);
                        }
                        let from = rel.parent().unwrap().to_str().unwrap();
                        let ok = match from {
                            "" => true,
                            "i386" => arch == "x86",
                            "arm" => arch == "arm",
                            "aarch64" => arch == "aarch64",
                            "cpu_model" => stem == arch,
                            _ => false,
                        };
                        if !ok {
                            bad("a source for this machine", src);
                        }
                        if from == "cpu_model" { "cpu_model".to_string() } else { stem }
                    } else {
                        let text = fs::read_to_string(p).unwrap_or_default();
                        let found = self.lse.iter().find(|l| l.1.iter().all(|d| text.lines().any(|x| x == d)));
                        let inc = text.lines().any(|l| l.starts_with("#include") && l.contains("aarch64/lse.S"));
                        match found {
                            Some(l) if inc && text.lines().filter(|l| l.starts_with("#define")).count() == 3 => l.0.clone(),
                            _ => {
                                bad("a source of the tree or a wrapper of it", &format!("{src}: {text}"));
                                continue;
                            }
                        }
                    };
                    *seen.entry(name).or_default() += 1;
                    if src.ends_with(".S") && no_asm {
                        bad("no assembly source", src);
                    }
                    if !msvc {
                        for f in ["-fno-builtin", "-fvisibility=hidden", "-ffreestanding"] {
                            if !c.args.iter().any(|a| a == f) {
                                bad(&format!("{f} for {src}"), "not given");
                            }
                        }
                        if !c.args.iter().any(|a| a.starts_with("-DVISIBILITY_HIDDEN")) {
                            bad("hidden symbols", src);
                        }
                    }
                    if let Some(o) = c.args.iter().position(|a| a == "-o").and_then(|i| c.args.get(i + 1)) {
                        if !objects.insert(o.clone()) {
                            bad("objects of their own", o);
                        }
                    }
                }
                let want: BTreeSet<String> = taken.iter().map(|s| source_of(s, &self.lse_names)).collect();
                let got: BTreeSet<String> = seen.keys().cloned().collect();
                if want != got {
                    bad("sources of exactly the routines left to C", &format!("missing {:?}, extra {:?}", want.difference(&got).collect::<Vec<_>>(), got.difference(&want).collect::<Vec<_>>()));
                }
                if let Some((s, n)) = seen.iter().find(|x| *x.1 != 1) {
                    bad(&format!("{s} compiled once"), &format!("{n} times"));
                }
                let put: BTreeSet<String> = calls.iter().filter(|c| c.tool.ends_with("/ar")).flat_map(|c| c.args.iter().filter(|a| a.ends_with(".o")).cloned()).collect();
                if put != objects {
                    bad("every object in the archive", &format!("{} of {}", put.len(), objects.len()));
                }
                if !said.lines.iter().any(|l| l == "rustc-link-lib=static=compiler-rt") {
                    bad("the archive is linked", "it is not");
                }
                if os == "uefi" && !out.join("include/stdlib.h").exists() {
                    bad("a header in place of the system's", "none");
                }
            }
        }
        w.done(true);
        fs::remove_dir_all(&out).unwrap();
    }
}

fn cases(ctx: &Ctx, e: &Env) {
    let ts = targets();
    ctx.par("linking a library made before", ts.len() as u64, |i, w| {
        w.func("build script");
        w.args([i]);
        e.one(w, i, &ts[i as usize], Mode::Prebuilt, None, false);
    });

    let a64: Vec<&Target> = ts.iter().filter(|t| ctx.thorough || matches!(t.arch(), "aarch64" | "arm64ec") || t.triple.ends_with("linux-gnu")).collect();
    let flags = ["-mcpu=generic", "-march=armv8-a+nofp", "-march=armv8-a+nosimd -O2", "-march=armv8-a+nofp+nosimd", ""];
    ctx.par("compiler flags without floats", (a64.len() * flags.len()) as u64, |i, w| {
        w.func("build script");
        w.args([i]);
        let i = i as usize;
        e.one(w, i as u64, a64[i / flags.len()], Mode::Prebuilt, Some(flags[i % flags.len()]), false);
    });

    // cc asks for the tools of the machine on Apple, Microsoft and a few other systems.
    let some: Vec<&Target> = ts.iter().filter(|t| !t.is("target_vendor", "apple") && !t.is("target_env", "msvc") && !t.arch().starts_with("wasm") && !matches!(t.os(), "vxworks" | "nto")).collect();
    ctx.par("compiling the sources", some.len() as u64, |i, w| {
        w.func("build script");
        w.args([i]);
        e.one(w, i, some[i as usize], Mode::Sources, None, i % 2 == 0);
    });
    if ctx.thorough {
        let a64: Vec<&&Target> = some.iter().filter(|t| t.arch() == "aarch64").collect();
        ctx.par("compiling the sources without floats", a64.len() as u64 * 2, |i, w| {
            w.func("build script");
            w.args([i]);
            e.one(w, i, a64[i as usize / 2], Mode::Sources, Some("-march=armv8-a+nofp"), i % 2 == 0);
        });
    }

    // Without the C sources, or with nothing to use.
    ctx.par("nothing to build from", ts.len() as u64, |i, w| {
        w.func("build script");
        w.args([i]);
        let t = &ts[i as usize];
        let out = e.dir.join(format!("{i}"));
        fs::create_dir_all(&out).unwrap();
        let none = matches!(t.os(), "emscripten" | "openbsd") || t.arch().starts_with("nvptx");
        let lib = e.dir.join("lib/libmade-before.a").display().to_string();
        let missing = e.dir.join("lib/no-such.a").display().to_string();
        let runs: [(&str, &Path, Vec<(String, String)>, bool); 5] = [
            ("names mangled", &e.mangled, vec![("LLVM_COMPILER_RT_LIB".into(), lib.clone())], true),
            ("names mangled, no tree", &e.mangled, vec![], true),
            ("no tree", &e.script, vec![], none),
            ("a tree that is not there", &e.script, vec![("RUST_COMPILER_RT_ROOT".into(), missing.clone())], none),
            ("a library that is not there", &e.script, vec![("LLVM_COMPILER_RT_LIB".into(), missing.clone())], none),
        ];
        for (what, script, vars, ok) in runs {
            let said = e.go(script, t, &out, &vars);
            if said.ok != ok {
                w.fail("build script", &format!("{} {what}", t.triple), if ok { "success" } else { "failure" }, &format!("{} {}", said.ok, said.errors));
            }
            if ok && (said.cfgs.iter().any(|c| c.contains("optimized-c")) || !calls(&out).is_empty()) {
                w.fail("build script", &format!("{} {what}", t.triple), "nothing from C", "something is");
            }
            w.done(!ok);
        }
        fs::remove_dir_all(&out).unwrap();
    });
}

fn scratch(dir: &Path) {
    fs::create_dir_all(dir.join("bin")).unwrap();
    fs::create_dir_all(dir.join("lib")).unwrap();
    fs::write(dir.join("lib/libmade-before.a"), "!<arch>\n").unwrap();
    for tree in ["old", "new"] {
        let b = dir.join(tree).join("lib/builtins");
        for d in ["arm", "i386", "aarch64", "cpu_model"] {
            fs::create_dir_all(b.join(d)).unwrap();
        }
        let touch = |f: String| fs::write(b.join(f), "").unwrap();
        for s in INTS.iter().chain(&WIDE).chain(&FLOATS).chain(&OTHER).chain(&I386) {
            if *s == "cpu_model" && tree == "new" {
                continue;
            }
            touch(format!("{s}.c"));
        }
        I386.iter().for_each(|s| touch(format!("i386/{s}.S")));
        ARM_C.iter().for_each(|s| touch(format!("arm/{s}.c")));
        ARM_S.iter().for_each(|s| touch(format!("arm/{s}.S")));
        for op in SYNC {
            for n in [4, 8] {
                touch(format!("arm/sync_fetch_and_{op}_{n}.S"));
            }
        }
        touch("aarch64/lse.S".into());
        if tree == "new" {
            touch("cpu_model/aarch64.c".into());
        }
    }
    let put = |name: &str, rest: &str| {
        let f = dir.join("bin").join(name);
        let log = "line=$0\nfor a; do line=\"$line\u{2}$a\"; done\nprintf '%s\\n' \"$line\" >>\"$STAND_IN_LOG\"\n";
        fs::write(&f, format!("#!/bin/sh\n{log}{rest}")).unwrap();
        fs::set_permissions(&f, fs::Permissions::from_mode(0o755)).unwrap();
    };
    put("clang", "[ \"$1\" = '-?' ] && exit 1\n[ \"$1\" = -E ] && printf '#pragma message \"clang\"\\n#pragma message \"gcc\"\\n'\no=\nfor a; do [ \"$o\" ] && { : >\"$a\"; break; }; [ \"$a\" = -o ] && o=1; done\nexit 0\n");
    put("ar", "for a; do case $a in *.a) : >>\"$a\";; esac; done\nexit 0\n");
}

fn main() {
    let script = build(&["c", "unmangled-names"]).join("script-builtins");
    let mangled = build(&["c"]).join("script-builtins");
    if std::env::args().nth(1).as_deref() == Some("build") {
        return;
    }
    run("C68", "exploration", |ctx| {
        ctx.rule("for every target the routines left to C are those its description calls for, each is compiled exactly once from its own source with hidden visibility and put in the linked archive, and nothing else is");
        ctx.assume("a source of the C library defines the routine it is named after");
        ctx.assume("the C compiler and the archiver are stand-ins that record their commands; Apple, Microsoft, WebAssembly, VxWorks and QNX targets are judged with the prebuilt library only");
        let dir = PathBuf::from(format!("{ROOT}/target/c68-{}", std::process::id()));
        let _ = fs::remove_dir_all(&dir);
        scratch(&dir);
        let lse = lse();
        let lse_names = lse.iter().map(|l| l.0.clone()).collect();
        cases(ctx, &Env { dir: dir.clone(), script: script.clone(), mangled: mangled.clone(), lse, lse_names });
        fs::remove_dir_all(&dir).unwrap();
    });
}
