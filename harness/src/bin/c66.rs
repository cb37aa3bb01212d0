//! C66: building and checking in one go. The symbol checker built from /repo is run with a stand-in for Cargo that
//! reports made-up build results; its exit status and the build it asks for are compared with the documented rules.
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio, exit};
use vh::ctx::ROOT;
use vh::elfw::*;
use vh::{Ctx, Worker, run};

const HOST: Machine = X64;

/// What a file holds.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Hold {
    Sound,
    Twice,
    Core,
    Other,
    ExecStack,
    Visible,
    Junk,
    Missing,
}
use Hold::*;
const FAULTS: [Hold; 7] = [Twice, Core, Other, ExecStack, Visible, Junk, Missing];

#[derive(Clone, Debug)]
struct Out {
    name: String,
    hold: Hold,
}

/// One line of the build's report.
#[derive(Clone, Debug)]
enum Msg {
    Artifact(Vec<Out>),
    /// A diagnostic with this text and level.
    Diag(&'static str, &'static str),
    Script(Vec<Out>),
    Finished(bool),
    /// A kind of message of a later Cargo that names files.
    Unknown(Vec<Out>),
}

#[derive(Clone, Debug)]
struct Case {
    msgs: Vec<Msg>,
    code: u8,
    target: Option<Machine>,
    no_visibility: bool,
    no_os: bool,
    /// Options after the arguments of the build.
    free: Vec<&'static str>,
}

fn bytes(h: Hold, m: Machine, raw: bool) -> Option<Vec<u8>> {
    let s = |name, vis, def| Sym { name, bind: Global, vis, def };
    let ob = |syms| Obj { m, osabi: 0, syms, stack: Stack::Plain, exec: true, exe: None };
    let good = ob(vec![s("__a", Hidden, Text), s("memcpy", Hidden, Text)]);
    let mut two = vec![good.clone(), ob(vec![s("__b", Hidden, Text)])];
    match h {
        Sound => {}
        Twice => two[1].syms.push(s("__a", Hidden, Text)),
        Core => two[1].syms.push(s("_ZN4core9panicking5panic17h0123456789abcdefE", Default, Undef)),
        Other => two[1].m = if m.em == 183 { X64 } else { MACHINES[2] },
        ExecStack => two[1].stack = Stack::Exec,
        Visible => two[1].syms[0].vis = Default,
        Junk => return Some(b"neither an object nor an archive".to_vec()),
        Missing => return None,
    }
    Some(if raw { elf(&good) } else { archive(&two) })
}

fn files(m: &Msg) -> &[Out] {
    match m {
        Msg::Artifact(v) | Msg::Script(v) | Msg::Unknown(v) => v,
        _ => &[],
    }
}

/// Whether a file is one of the checked libraries or programs, by its name.
fn chosen(name: &str) -> bool {
    let base = name.rsplit('/').next().unwrap();
    let ext = base.rfind('.').filter(|&d| d > 0).map(|d| &base[d + 1..]);
    matches!(ext, None | Some("rlib" | "a" | "exe")) && (base.contains("compiler_builtins") || base.contains("builtins_test_intrinsics"))
}

fn judge(c: &Case) -> Result<(), String> {
    if c.free.iter().any(|a| a.contains("--target")) {
        return Err("another target among the arguments of the build".into());
    }
    if c.code != 0 {
        return Err("the build failed".into());
    }
    let mut any = false;
    for o in c.msgs.iter().filter(|m| matches!(m, Msg::Artifact(_))).flat_map(files).filter(|o| chosen(&o.name)) {
        any = true;
        let skip = match o.hold {
            Sound => true,
            ExecStack => c.no_os,
            Visible => c.no_visibility,
            _ => false,
        };
        if !skip {
            return Err(format!("{} has fault {:?}", o.name, o.hold));
        }
    }
    if any { Ok(()) } else { Err("nothing to check".into()) }
}

struct Env {
    dir: PathBuf,
    triples: Vec<String>,
    tool: PathBuf,
}

impl Env {
    fn one(&self, w: &mut Worker, id: &str, c: &Case) {
        let sub = self.dir.join(id);
        let outs = sub.join("out");
        fs::create_dir_all(&outs).unwrap();
        let m = c.target.unwrap_or(HOST);
        let mut report = String::new();
        let mut n = 0;
        let mut names = |v: &[Out]| {
            let mut l = vec![];
            for o in v {
                // Every file in a directory of its own, so that names may repeat.
                let f = outs.join(format!("{n}/{}", o.name));
                n += 1;
                fs::create_dir_all(f.parent().unwrap()).unwrap();
                if let Some(b) = bytes(o.hold, m, n % 2 == 0 && o.hold == Sound) {
                    fs::write(&f, b).unwrap();
                }
                l.push(format!("\"{}\"", f.display()));
            }
            l.join(",")
        };
        for g in &c.msgs {
            let id = "path+file:///r/compiler_builtins#0.1.160";
            report += &match g {
                Msg::Artifact(v) => format!(
                    "{{\"reason\":\"compiler-artifact\",\"package_id\":\"{id}\",\"manifest_path\":\"/r/Cargo.toml\",\"target\":{{\"kind\":[\"lib\"],\"crate_types\":[\"lib\"],\"name\":\"compiler_builtins\"}},\"profile\":{{\"opt_level\":\"3\"}},\"features\":[],\"filenames\":[{}],\"executable\":null,\"fresh\":true}}\n",
                    names(v)
                ),
                Msg::Diag(t, level) => format!("{{\"reason\":\"compiler-message\",\"package_id\":\"{id}\",\"message\":{{\"rendered\":\"{t}\",\"level\":\"{level}\"}}}}\n"),
                Msg::Script(v) => format!(
                    "{{\"reason\":\"build-script-executed\",\"package_id\":\"{id}\",\"linked_libs\":[],\"linked_paths\":[],\"cfgs\":[],\"env\":[],\"out_dir\":\"/r/out\",\"filenames\":[{}]}}\n",
                    names(v)
                ),
                Msg::Finished(ok) => format!("{{\"reason\":\"build-finished\",\"success\":{ok}}}\n"),
                Msg::Unknown(v) => format!("{{\"reason\":\"timing-info\",\"filenames\":[{}]}}\n", names(v)),
            };
        }
        fs::write(sub.join("report"), &report).unwrap();
        let mut cmd = Command::new(&self.tool);
        cmd.arg("--build-and-check");
        if let Some(t) = c.target {
            cmd.args(["--target", t.triple]);
        }
        if c.no_visibility {
            cmd.arg("--no-visibility");
        }
        if c.no_os {
            cmd.arg("--no-os");
        }
        if !c.free.is_empty() {
            cmd.arg("--").args(&c.free);
        }
        let (ok, text, shown) = self.go(cmd, &sub, c.code);
        let want = judge(c);
        if ok != want.is_ok() || text.starts_with("ended by") {
            let want = match &want {
                Ok(()) => "success".to_string(),
                Err(e) => format!("failure: {e}"),
            };
            w.fail("symcheck", &format!("{c:?}"), &want, &format!("{} {text}", if ok { "success" } else { "failure" }));
        }
        let asked = self.asked(&sub);
        if c.free.iter().any(|a| a.contains("--target")) {
            if !asked.is_empty() {
                w.fail("symcheck", &format!("{c:?}"), "no build", &format!("{asked:?}"));
            }
        } else {
            let good = asked.len() == 1 && build_ok(&asked[0], m.triple, &c.free);
            if !good {
                w.fail("symcheck", &format!("{c:?}"), &format!("one build for {} with {:?}", m.triple, c.free), &format!("{asked:?}"));
            }
            for g in &c.msgs {
                if let Msg::Diag(t, _) = g {
                    if !shown.contains(t) {
                        w.fail("symcheck", &format!("{c:?}"), &format!("the diagnostic {t:?} is shown"), "it is not");
                    }
                }
            }
        }
        w.done(want.is_err());
        fs::remove_dir_all(&sub).unwrap();
    }

    fn go(&self, mut cmd: Command, sub: &PathBuf, code: u8) -> (bool, String, String) {
        let bin = self.dir.join("bin");
        let path = format!("{}:{}", bin.display(), std::env::var("PATH").unwrap());
        let o = cmd
            .env("PATH", path)
            .env("CARGO", bin.join("cargo"))
            .env("RUSTC", bin.join("rustc"))
            .env("STAND_IN_DIR", sub)
            .env("STAND_IN_CODE", code.to_string())
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null())
            .output()
            .unwrap();
        let shown = format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
        // The tool reports by panicking, which is an abort in some profiles.
        if o.status.signal().is_some_and(|s| s != 6) {
            return (false, format!("ended by {}", o.status), shown);
        }
        let text = String::from_utf8_lossy(&o.stderr).lines().take(4).collect::<Vec<_>>().join(" / ");
        (o.status.success(), text, shown)
    }

    /// The builds asked for.
    fn asked(&self, sub: &PathBuf) -> Vec<Vec<String>> {
        let Ok(t) = fs::read_to_string(sub.join("asked")) else { return vec![] };
        t.split_terminator("\u{1}end\u{1}").map(|l| l.split_terminator('\u{2}').map(|s| s.to_string()).collect()).collect()
    }
}

/// A build for the target with these arguments in this order, reported as JSON.
fn build_ok(a: &[String], triple: &str, free: &[&str]) -> bool {
    let mut targets = vec![];
    for (i, x) in a.iter().enumerate() {
        if x == "--target" {
            targets.push(a.get(i + 1).map_or("", |s| s.as_str()));
        } else if let Some(t) = x.strip_prefix("--target=") {
            targets.push(t);
        }
    }
    let mut it = a.iter();
    let in_order = free.iter().all(|f| it.any(|x| x == f));
    let extra = a.iter().filter(|x| !free.contains(&x.as_str())).all(|x| x == "build" || x == triple || x.starts_with("--target") || x.starts_with("--message-format") || x.starts_with("json"));
    a.first().is_some_and(|x| x == "build") && targets == [triple] && in_order && extra && a.iter().any(|x| x.contains("json"))
}

fn out(name: &str, hold: Hold) -> Out {
    Out { name: name.to_string(), hold }
}

fn plain(msgs: Vec<Msg>) -> Case {
    Case { msgs, code: 0, target: Some(X64), no_visibility: false, no_os: false, free: vec![] }
}

const BASE: [&str; 12] = [
    "libcompiler_builtins-0123456789abcdef",
    "compiler_builtins",
    "libcompiler_builtins",
    "builtins_test_intrinsics",
    "builtins_test_intrinsics-0123456789abcdef",
    "libbuiltins_test_intrinsics-0",
    "compiler_builtins_extra",
    "liblibm-0123456789abcdef",
    "libcore-0123456789abcdef",
    "compiler-builtins",
    "builtins_test-0123456789abcdef",
    "panic_handler",
];
const EXT: [&str; 14] = ["", ".rlib", ".a", ".exe", ".rmeta", ".so", ".d", ".wasm", ".o", ".dll", ".pdb", ".rlib.d", ".d.rlib", ".0.a"];
const PLACES: [&str; 3] = ["", "compiler_builtins/", "x.d/"];

fn cases(ctx: &Ctx, e: &Env) {
    let group = |name: &str, cases: Vec<Case>| {
        ctx.par(name, cases.len() as u64, |i, w| {
            w.func("symcheck");
            w.args([i]);
            e.one(w, &format!("{i}"), &cases[i as usize]);
        })
    };

    // Every name, faulty or sound, alone and after a sound library.
    let mut v = vec![];
    for p in PLACES {
        for b in BASE {
            for x in EXT {
                let name = format!("{p}{b}{x}");
                let holds: &[Hold] = if ctx.thorough { &[Sound, Twice, Visible, Junk] } else { &[Sound, Twice] };
                for &h in holds {
                    let o = out(&name, h);
                    v.push(plain(vec![Msg::Artifact(vec![o.clone()]), Msg::Finished(true)]));
                    if h != Sound {
                        v.push(plain(vec![Msg::Artifact(vec![out("libcompiler_builtins-1.rlib", Sound), o]), Msg::Finished(true)]));
                    }
                }
            }
        }
    }
    group("every file name", v);

    // Every fault under every setting and target.
    let mut v = vec![];
    for target in [None, Some(X64), Some(MACHINES[1]), Some(MACHINES[2]), Some(MACHINES[6])] {
        for f in [Sound].into_iter().chain(FAULTS) {
            for flags in 0..4 {
                for name in ["libcompiler_builtins-1.rlib", "libbuiltins_test_intrinsics.a", "builtins_test_intrinsics", "compiler_builtins.exe"] {
                    let msgs = vec![Msg::Artifact(vec![out(name, f)]), Msg::Finished(true)];
                    v.push(Case { target, no_visibility: flags & 1 == 1, no_os: flags & 2 == 2, ..plain(msgs) });
                }
            }
        }
    }
    group("every fault, setting and target", v);

    // All lists of files in all divisions into messages.
    let kinds = |k: usize, at: usize| match k {
        0 => out(["libcompiler_builtins-1.rlib", "builtins_test_intrinsics", "compiler_builtins.a"][at % 3], Sound),
        1 => out(["libcompiler_builtins-1.rlib", "builtins_test_intrinsics.exe", "compiler_builtins.a"][at % 3], FAULTS[at % 5]),
        2 => out(["libcompiler_builtins-1.rmeta", "libcore-1.rlib", "build-script-build"][at % 3], Sound),
        _ => out(["libcompiler_builtins-1.rmeta", "libcore-1.rlib", "build-script-build"][at % 3], FAULTS[at % 7]),
    };
    let most = if ctx.thorough { 5 } else { 4 };
    let mut v = vec![];
    for n in 0..=most {
        for k in 0..4usize.pow(n as u32) {
            for cut in 0..1usize << n.max(1) - 1 {
                let mut msgs = vec![Msg::Artifact(vec![])];
                for i in 0..n {
                    if i > 0 && cut >> (i - 1) & 1 == 1 {
                        msgs.push(Msg::Artifact(vec![]));
                    }
                    let Msg::Artifact(l) = msgs.last_mut().unwrap() else { unreachable!() };
                    l.push(kinds(k / 4usize.pow(i as u32) % 4, i));
                }
                msgs.push(Msg::Finished(true));
                v.push(plain(msgs));
            }
        }
    }
    group("every list of files", v);

    // Long lists with one fault, at every place.
    let most = if ctx.thorough { 40 } else { 20 };
    let mut v = vec![];
    for n in 5..=most {
        for at in 0..=n {
            let list: Vec<Out> = (0..n).map(|i| out("libcompiler_builtins-1.rlib", if i == at { FAULTS[(n + at) % 7] } else { Sound })).collect();
            let msgs = if at % 2 == 0 { vec![Msg::Artifact(list)] } else { list.into_iter().map(|o| Msg::Artifact(vec![o])).collect() };
            v.push(plain(msgs));
        }
    }
    group("one fault in a long list of files", v);

    // Diagnostics of every level between files, and none of them lost.
    let mut v = vec![];
    for level in ["error: internal compiler error", "error", "warning", "note", "help", "failure-note"] {
        for k in 0..8 {
            let mut msgs = vec![];
            for i in 0..4 {
                if k >> i & 1 == 1 || i == 3 {
                    msgs.push(Msg::Diag(["one of them", "another one", "one more", "the last of them"][i], level));
                }
                msgs.push(Msg::Artifact(vec![out("libcompiler_builtins-1.rlib", Sound)]));
            }
            for code in [0, 101] {
                v.push(Case { code, ..plain(msgs.clone()) });
            }
        }
    }
    group("diagnostics of every level", v);

    // Every target the compiler knows.
    ctx.par("every target", e.triples.len() as u64, |i, w| {
        w.func("symcheck");
        let triple = &e.triples[i as usize];
        w.text(triple);
        let sub = e.dir.join(format!("t{i}"));
        fs::create_dir_all(&sub).unwrap();
        fs::write(sub.join("report"), "").unwrap();
        let mut cmd = Command::new(&e.tool);
        cmd.args(["--build-and-check", "--target", triple, "--", "-p", "compiler_builtins"]);
        let (ok, text, _) = e.go(cmd, &sub, 0);
        if ok {
            w.fail("symcheck", triple, "failure: nothing to check", "success");
        }
        let asked = e.asked(&sub);
        if asked.len() != 1 || !build_ok(&asked[0], triple, &["-p", "compiler_builtins"]) {
            w.fail("symcheck", triple, "one build for this target", &format!("{asked:?} {text}"));
        }
        w.done(true);
        fs::remove_dir_all(&sub).unwrap();
    });

    // All short sequences of messages with all outcomes of the build.
    let msg = |k: usize, i: usize| match k {
        0 => Msg::Artifact(vec![out("libcompiler_builtins-1.rlib", Sound)]),
        1 => Msg::Artifact(vec![out("libcompiler_builtins-1.rlib", FAULTS[i % 7])]),
        2 => Msg::Artifact(vec![out("libcore-1.rlib", Junk)]),
        3 => Msg::Diag(["first one", "second one", "unused variable: `compiler_builtins`"][i % 3], ["warning", "error", "note"][i % 3]),
        4 => Msg::Script(vec![out("libcompiler_builtins-1.rlib", FAULTS[i % 7])]),
        5 => Msg::Unknown(vec![out("libcompiler_builtins-1.rlib", FAULTS[i % 7])]),
        6 => Msg::Unknown(vec![out("libcompiler_builtins-1.rlib", Sound)]),
        _ => Msg::Finished(i % 2 == 0),
    };
    let most = if ctx.thorough { 4 } else { 3 };
    let mut v = vec![];
    for n in 0..=most {
        for k in 0..8usize.pow(n as u32) {
            for code in [0, 1, 101] {
                if code == 1 && n == most {
                    continue;
                }
                let mut msgs: Vec<Msg> = (0..n).map(|i| msg(k / 8usize.pow(i as u32) % 8, i)).collect();
                msgs.push(Msg::Finished(code == 0));
                v.push(Case { code, ..plain(msgs) });
            }
        }
    }
    group("every sequence of messages", v);

    // Arguments of the build.
    const ARGS: [&str; 9] = ["-p", "compiler_builtins", "--no-default-features", "--features=arch", "--release", "-Zbuild-std=core", "--target", "--target=i686-unknown-linux-gnu", "--profile=release-opt"];
    let most = if ctx.thorough { 4 } else { 3 };
    let mut v = vec![];
    for n in 1..=most {
        for k in 0..9usize.pow(n as u32) {
            let free: Vec<&'static str> = (0..n).map(|i| ARGS[k / 9usize.pow(i as u32) % 9]).collect();
            let target = [None, Some(X64), Some(MACHINES[2])][k % 3];
            let hold = if k % 5 == 0 { Twice } else { Sound };
            v.push(Case { free, target, ..plain(vec![Msg::Artifact(vec![out("libcompiler_builtins-1.rlib", hold)]), Msg::Finished(true)]) });
        }
    }
    group("every short list of build arguments", v);

    // Command lines without a build.
    let sub = e.dir.join("use");
    let (good, bad) = (sub.join("good.rlib"), sub.join("bad.rlib"));
    let g = good.display().to_string();
    let b = bad.display().to_string();
    let lines: Vec<(Vec<&str>, bool)> = vec![
        (vec![], false),
        (vec!["--help"], true),
        (vec!["-h"], true),
        (vec!["--help", "--check"], true),
        (vec!["--check", "--help", &b], true),
        (vec!["--build-and-check", "-h"], true),
        (vec!["--target", X64.triple, "--help"], true),
        (vec!["--check"], false),
        (vec!["--check", "--no-os"], false),
        (vec!["--check", "--target", X64.triple], false),
        (vec!["--check", "--target"], false),
        (vec!["--no-os"], false),
        (vec!["--no-visibility"], false),
        (vec![&g], false),
        (vec!["--target", X64.triple, &g], false),
        (vec!["--no-visibility", &g], false),
        (vec!["--unknown", "--check", &g], false),
        (vec!["--check", &g], true),
        (vec![&g, "--check"], true),
        (vec!["--check", "--", &g], true),
        (vec!["--check", &b], false),
        (vec!["--check", &g, &b], false),
        (vec!["--check", &b, &g], false),
        (vec!["--check", &g, &g], true),
        (vec!["--no-os", "--check", &g], true),
        (vec!["--check", "--no-visibility", &g], true),
        (vec!["--check", "--target", X64.triple, &g], true),
        (vec!["--target=x86_64-unknown-linux-gnu", "--check", &g], true),
        (vec!["--check", "--target", MACHINES[2].triple, &g], false),
        (vec!["--check", "--target", X64.triple, "--target", X64.triple, &g], false),
        (vec!["--check", "--", &g, "--target=x86_64-unknown-linux-gnu"], false),
    ];
    fs::create_dir_all(&sub).unwrap();
    fs::write(&good, bytes(Sound, X64, false).unwrap()).unwrap();
    fs::write(&bad, bytes(Twice, X64, false).unwrap()).unwrap();
    ctx.par("command lines without a build", lines.len() as u64, |i, w| {
        w.func("symcheck");
        w.args([i]);
        let (args, want) = &lines[i as usize];
        let own = e.dir.join(format!("l{i}"));
        fs::create_dir_all(&own).unwrap();
        fs::write(own.join("report"), "").unwrap();
        let mut cmd = Command::new(&e.tool);
        cmd.args(args);
        let (ok, text, _) = e.go(cmd, &own, 0);
        if ok != *want || text.starts_with("ended by") {
            w.fail("symcheck", &format!("{args:?}"), if *want { "success" } else { "failure" }, &format!("{} {text}", if ok { "success" } else { "failure" }));
        }
        if !e.asked(&own).is_empty() {
            w.fail("symcheck", &format!("{args:?}"), "no build", "a build was asked for");
        }
        w.done(!want);
    });
}

fn stand_in(dir: &PathBuf) -> Vec<String> {
    let bin = dir.join("bin");
    fs::create_dir_all(&bin).unwrap();
    let all = vh::scripts::targets();
    for t in &all {
        let text: String = t.cfg.iter().flat_map(|(k, v)| v.iter().map(move |v| if v.is_empty() { format!("{k}\n") } else { format!("{k}=\"{v}\"\n") })).collect();
        fs::write(bin.join(format!("{}.cfg", t.triple)), text).unwrap();
    }
    let d = bin.display();
    let put = |name: &str, text: String| {
        let script = bin.join(name);
        fs::write(&script, text).unwrap();
        fs::set_permissions(&script, fs::Permissions::from_mode(0o755)).unwrap();
    };
    put("rustc", format!("#!/bin/sh\nfor a; do a=${{a#--target=}}; [ -f \"{d}/$a.cfg\" ] && exec cat \"{d}/$a.cfg\"; done\necho 'unexpected question' >&2\nexit 1\n"));
    put("cargo", "#!/bin/sh\n{ printf '%s\\002' \"$@\"; printf '\\001end\\001'; } >>\"$STAND_IN_DIR/asked\"\ncat \"$STAND_IN_DIR/report\"\nexit \"$STAND_IN_CODE\"\n".to_string());
    // Refused on purpose: machines without object files and a system newer than the checker.
    all.into_iter().filter(|t| t.os() != "qnx" && !matches!(t.arch(), "amdgpu" | "nvptx64")).map(|t| t.triple).collect()
}

fn main() {
    let target = format!("{ROOT}/target/tools");
    let o = Command::new("cargo")
        .args(["-Zchecksum-freshness", "build", "--release", "--locked", "--manifest-path", "/repo/Cargo.toml", "-p", "symcheck"])
        .env("CARGO_TARGET_DIR", &target)
        .current_dir("/repo")
        .output()
        .unwrap();
    if !o.status.success() {
        println!("{}", String::from_utf8_lossy(&o.stderr));
        exit(2);
    }
    run("C66", "exploration", |ctx| {
        ctx.rule("one build of the requested target with the given arguments is asked for; the run succeeds exactly when that build does and reports at least one library or program of the checked names and every such file is sound; nontrivial = a run that has to fail");
        ctx.assume("the build is a stand-in that reports what the case says; the checker refuses GPU targets and the newer QNX on purpose");
        let dir = PathBuf::from(format!("{ROOT}/target/c66-{}", std::process::id()));
        let _ = fs::remove_dir_all(&dir);
        let triples = stand_in(&dir);
        cases(ctx, &Env { dir: dir.clone(), triples, tool: PathBuf::from(format!("{target}/release/symcheck")) });
        fs::remove_dir_all(&dir).unwrap();
    });
}
