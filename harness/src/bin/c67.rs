//! C67: settings chosen by the build scripts. The scripts of /repo are built as programs and run for every target the
//! compiler knows, with the environment Cargo would give them; the settings are compared with what follows from the
//! compiler's own description of the target.
use std::path::PathBuf;
use vh::ctx::ROOT;
use vh::scripts::*;
use vh::{Ctx, Worker, run};

const FEATURES: [&str; 3] = ["arch", "unstable-float", "unstable-intrinsics"];
const SCRIPTS: [(&str, &str); 6] = [
    ("script-builtins", "/repo/compiler-builtins"),
    ("script-libm", "/repo/libm"),
    ("script-util", "/repo/crates/util"),
    ("script-builtins-test", "/repo/builtins-test"),
    ("script-intrinsics", "/repo/builtins-test-intrinsics"),
    ("script-libm-test", "/repo/libm-test"),
];

fn sets() -> Vec<Vec<&'static str>> {
    (0..8).map(|k| (0..3).filter(|i| k >> i & 1 == 1).map(|i| FEATURES[i]).collect()).collect()
}

/// Setting, and whether it has to be on. None: not settled.
fn expected(script: &str, t: &Target, features: &[&str], opt: &str, no_panic: Option<&str>) -> Vec<(&'static str, Option<bool>)> {
    let on = |f: &str| features.contains(&f);
    let arm = t.arch() == "arm";
    let mut v = vec![
        ("thumb", Some(arm && t.triple.starts_with("thumb"))),
        ("thumb_1", Some(arm && t.feature("thumb-mode") && t.feature("mclass") && !t.feature("thumb2"))),
        ("x86_no_sse2", Some(t.arch() == "x86" && !t.feature("sse2"))),
    ];
    let (f16, f128) = (t.has("target_has_reliable_f16"), t.has("target_has_reliable_f128"));
    let always = matches!(script, "script-builtins" | "script-builtins-test" | "script-intrinsics");
    v.push(("f16_enabled", Some(f16 && (always || on("unstable-float")))));
    v.push(("f128_enabled", Some(f128 && (always || on("unstable-float")))));
    if matches!(script, "script-builtins" | "script-libm" | "script-util" | "script-libm-test") {
        v.push(("optimizations_enabled", Some(!matches!(opt, "0" | "1"))));
    }
    if matches!(script, "script-builtins" | "script-libm" | "script-util") {
        v.push(("assert_no_panic", Some(no_panic.is_some_and(|x| x != "0"))));
        v.push(("intrinsics_enabled", Some(script == "script-builtins" || on("arch") && on("unstable-intrinsics"))));
    }
    if script == "script-builtins" {
        let wasm = t.arch().starts_with("wasm");
        let alone = t.triple.ends_with("-none") || matches!(t.os(), "none" | "uefi" | "xous" | "cuda") || t.is("target_env", "sgx") || wasm && t.os() != "wasi";
        v.push(("feature=\"mem\"", Some(alone)));
        v.push(("mem_unaligned", Some(matches!(t.arch(), "x86" | "x86_64" | "aarch64" | "bpf"))));
        let linux = matches!(t.os(), "linux" | "android");
        v.push(("kernel_user_helpers", if !arm { Some(false) } else if linux { Some(!t.feature("v6")) } else { None }));
    }
    v
}

struct Env {
    kept: Vec<PathBuf>,
    out: PathBuf,
}

impl Env {
    fn one(&self, w: &mut Worker, t: &Target, s: usize, set: usize, opt: &str, no_panic: Option<&str>) {
        let (script, dir) = SCRIPTS[s];
        let features = &sets()[set];
        let mut c = command(&self.kept[set].join(script), dir, t, features, opt, &self.out);
        if let Some(x) = no_panic {
            c.env("ENSURE_NO_PANIC", x);
        }
        let said = Said::new(c.output().unwrap());
        let input = || format!("{script} for {} with {features:?} at level {opt}, no-panic {no_panic:?}, {:?}", t.triple, t.cfg.get("target_feature"));
        if !said.ok {
            w.fail(script, &input(), "settings", &format!("failure {}", said.errors));
        }
        let mut any = false;
        for (name, want) in expected(script, t, features, opt, no_panic) {
            let got = said.cfgs.contains(name);
            any |= got;
            if want.is_some_and(|x| x != got) {
                w.fail(script, &input(), &format!("{name} {}", if got { "off" } else { "on" }), if got { "on" } else { "off" });
            }
            // A setting the compiler has not been told about is refused when warnings are errors.
            if !name.starts_with("feature") && !said.checks.contains(name) {
                w.fail(script, &input(), &format!("{name} is declared"), "it is not");
            }
        }
        if script == "script-builtins-test" {
            let has = |n: &str| said.cfgs.contains(n);
            for (a, b) in [
                ("no_sys_f128", "no_sys_f128_int_convert"),
                ("no_sys_f128", "no_sys_f16_f128_convert"),
                ("no_sys_f16", "no_sys_f16_f64_convert"),
                ("no_sys_f16", "no_sys_f16_f128_convert"),
            ] {
                if has(a) && !has(b) {
                    w.fail(script, &input(), &format!("{b} along with {a}"), "it is off");
                }
            }
        }
        w.done(any);
    }
}

fn cases(ctx: &Ctx, e: &Env) {
    let ts = targets();
    ctx.sample(format!("{} targets", ts.len()));
    let n = (ts.len() * SCRIPTS.len() * 8) as u64;
    ctx.par("every target, script and feature set", n, |i, w| {
        w.func("build script");
        w.args([i]);
        let i = i as usize;
        e.one(w, &ts[i / 8 / SCRIPTS.len()], i / 8 % SCRIPTS.len(), i % 8, "3", None);
    });

    const OPT: [&str; 6] = ["0", "1", "2", "3", "s", "z"];
    const PANIC: [Option<&str>; 4] = [None, Some("0"), Some("1"), Some("")];
    let few: Vec<&Target> = if ctx.thorough { ts.iter().collect() } else { ts.iter().filter(|t| ["x86_64-unknown-linux-gnu", "thumbv6m-none-eabi", "i586-unknown-linux-gnu"].contains(&t.triple.as_str())).collect() };
    let sets: &[usize] = if ctx.thorough { &[0, 3, 7] } else { &[0, 1, 2, 3, 4, 5, 6, 7] };
    let n = few.len() * SCRIPTS.len() * sets.len() * OPT.len() * PANIC.len();
    ctx.par("every optimization level", n as u64, |i, w| {
        w.func("build script");
        w.args([i]);
        let mut i = i as usize;
        let mut next = |n: usize| {
            let r = i % n;
            i /= n;
            r
        };
        let (p, o, k, s) = (next(PANIC.len()), next(OPT.len()), next(sets.len()), next(SCRIPTS.len()));
        e.one(w, few[next(few.len())], s, sets[k], OPT[o], PANIC[p]);
    });

    // Targets with single properties changed.
    let mut v = vec![];
    for t in &ts {
        if !ctx.thorough && !t.triple.contains("linux-gnu") {
            continue;
        }
        for k in 0..16 {
            let mut u = t.clone();
            for (i, name) in ["target_has_reliable_f16", "target_has_reliable_f128"].iter().enumerate() {
                u.cfg.remove(*name);
                if k >> i & 1 == 1 {
                    u.cfg.insert(name.to_string(), vec![String::new()]);
                }
            }
            let f = u.cfg.entry("target_feature".to_string()).or_default();
            f.retain(|x| !x.starts_with("sse"));
            for (i, names) in [["sse", "sse2"], ["sse3", "sse4.2"]].iter().enumerate() {
                if k >> (2 + i) & 1 == 1 && matches!(t.arch(), "x86" | "x86_64") {
                    f.extend(names.iter().map(|s| s.to_string()));
                }
            }
            if f.is_empty() {
                u.cfg.remove("target_feature");
            }
            v.push(u);
        }
    }
    ctx.par("changed targets", (v.len() * SCRIPTS.len()) as u64, |i, w| {
        w.func("build script");
        w.args([i]);
        let i = i as usize;
        e.one(w, &v[i / SCRIPTS.len()], i % SCRIPTS.len(), [7, 3, 2, 0][i % 4], "3", None);
    });
}

fn main() {
    let kept: Vec<PathBuf> = sets().iter().map(|f| build(f)).collect();
    if std::env::args().nth(1).as_deref() == Some("build") {
        return;
    }
    run("C67", "exploration", |ctx| {
        ctx.rule("every script's settings for every target, feature set and optimization level equal those that follow from the compiler's description of the target; nontrivial = a run that turns something on");
        ctx.assume("the scripts see the environment Cargo documents for build scripts");
        let out = PathBuf::from(format!("{ROOT}/target/c67-{}", std::process::id()));
        std::fs::create_dir_all(&out).unwrap();
        cases(ctx, &Env { kept: kept.clone(), out: out.clone() });
        std::fs::remove_dir_all(&out).unwrap();
    });
}
