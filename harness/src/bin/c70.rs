//! Test scripts of the continuous integration: each is run as a process in a scratch tree with stand-ins for every
//! program that does the work, which note how they were called and fail on request.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::os::unix::fs::{PermissionsExt, symlink};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use vh::{Ctx, Worker, ctx::ROOT, run};

/// Notes name, interesting variables and arguments; fails if this call's number is in FAIL.
const STAND_IN: &str = r#"#!/bin/bash
name=${0##*/}
line=$name
for v in LIBM_EXTENSIVE_TESTS SYMCHECK_TEST_TARGET CARGO_PROFILE_DEV_LTO CARGO_PROFILE_RELEASE_LTO ENSURE_NO_PANIC; do
    line+=$'\x1e'$v=${!v-}
done
line+=$'\x1d'
for a in "$@"; do line+=$a$'\x1f'; done
printf '%s\n' "$line" >>"$LOG"
mapfile -t all <"$LOG"
case ",$FAIL," in *",${#all[@]},"*) exit 1 ;; esac
case "$name $*" in "rustup target list"*) printf '%s\n' "$INSTALLED" ;; esac
exit 0
"#;
const RUSTC: &str = "#!/bin/bash\nprintf 'rustc 1.0\\nhost: x86_64-unknown-linux-gnu\\nrelease: 1.0\\n'\n";

#[derive(Clone, Debug)]
struct Call {
    name: String,
    env: BTreeMap<String, String>,
    args: Vec<String>,
}
impl Call {
    fn has(&self, a: &str) -> bool {
        self.args.iter().any(|x| x == a)
    }
    /// Values of an option in any of its spellings, before the first of the `--` with this number.
    fn opt(&self, long: &str, short: &str) -> Vec<String> {
        let mut v = vec![];
        let mut it = self.args.iter();
        while let Some(a) = it.next() {
            if a == long || a == short {
                v.extend(it.next().cloned());
            } else if let Some(x) = a.strip_prefix(&format!("{long}=")) {
                v.push(x.to_string());
            }
        }
        v
    }
    fn features(&self) -> BTreeSet<String> {
        self.opt("--features", "-F").iter().flat_map(|f| f.split([',', ' ']).map(|x| x.to_string()).collect::<Vec<_>>()).filter(|f| !f.is_empty()).collect()
    }
    fn packages(&self) -> Vec<String> {
        self.opt("--package", "-p")
    }
    /// The part after the n-th `--`.
    fn after(&self, n: usize) -> Call {
        let mut c = self.clone();
        for _ in 0..n {
            let i = c.args.iter().position(|a| a == "--");
            c.args = i.map_or(vec![], |i| c.args[i + 1..].to_vec());
        }
        c
    }
    fn before(&self) -> Call {
        let mut c = self.clone();
        c.args = self.args.iter().take_while(|a| *a != "--").cloned().collect();
        c
    }
    fn on(&self, k: &str) -> bool {
        self.env.get(k).is_some_and(|v| !v.is_empty())
    }
}

struct Ran {
    ok: bool,
    calls: Vec<Call>,
    out: String,
}

/// Everything executable, written once before the first process starts: a file still open for writing in a process
/// being started cannot be executed.
struct Shared {
    dir: PathBuf,
}
impl Shared {
    fn new(at: &Path) -> Shared {
        fs::create_dir_all(at.join("ci")).unwrap();
        let put = |p: PathBuf, text: &str| {
            fs::write(&p, text).unwrap();
            fs::set_permissions(&p, fs::Permissions::from_mode(0o755)).unwrap();
        };
        for bin in ["bin", "bin-nextest"].map(|b| at.join(b)) {
            fs::create_dir_all(&bin).unwrap();
            for n in ["cargo", "rustup", "tar", "docker", "sudo", "curl", "git", "python3", "mv"] {
                put(bin.join(n), STAND_IN);
            }
            put(bin.join("rustc"), RUSTC);
            put(bin.join("cmd.exe"), "#!/bin/bash\necho 'X:\\target2'\n");
            for n in ["lscpu", "cc"] {
                put(bin.join(n), "#!/bin/bash\nexit 1\n");
            }
            for n in ["awk", "cut", "grep", "sed", "date", "uname", "cat", "basename", "dirname", "tr", "sort", "head", "tail", "wc", "id", "env", "bash", "sh", "printf", "true", "false", "mkdir", "xargs", "uniq", "paste", "seq", "tee"] {
                if let Some(p) = ["/usr/bin", "/bin"].iter().map(|d| Path::new(d).join(n)).find(|p| p.exists()) {
                    symlink(p, bin.join(n)).unwrap();
                }
            }
        }
        put(at.join("bin-nextest/cargo-nextest"), STAND_IN);
        for e in fs::read_dir("/repo/ci").unwrap() {
            let e = e.unwrap();
            if e.file_type().unwrap().is_file() {
                put(at.join("ci").join(e.file_name()), &fs::read_to_string(e.path()).unwrap());
            }
        }
        put(at.join("ci/ci-util.py"), STAND_IN);
        Shared { dir: at.to_path_buf() }
    }
    fn place(&self, name: &str, nextest: bool) -> Place {
        let dir = self.dir.join(name);
        fs::create_dir_all(dir.join("tree")).unwrap();
        symlink(self.dir.join("ci"), dir.join("tree/ci")).unwrap();
        Place { bin: self.dir.join(if nextest { "bin-nextest" } else { "bin" }), dir }
    }
}

struct Place {
    bin: PathBuf,
    dir: PathBuf,
}
impl Place {
    fn run(&self, script: &str, args: &[&str], env: &[(&str, &str)], fail: &[usize]) -> Ran {
        let log = self.dir.join("log");
        fs::write(&log, "").unwrap();
        fs::write(self.dir.join("github_env"), "EARLIER=1\n").unwrap();
        let o = Command::new(self.dir.join("tree/ci").join(script))
            .args(args)
            .env_clear()
            .env("PATH", &self.bin)
            .env("HOME", &self.dir)
            .env("LOG", &log)
            .env("FAIL", fail.iter().map(|f| f.to_string()).collect::<Vec<_>>().join(","))
            .env("INSTALLED", "")
            .env("GITHUB_ENV", self.dir.join("github_env"))
            .envs(env.iter().copied())
            .current_dir(self.dir.join("tree"))
            .stdin(Stdio::null())
            .output()
            .unwrap();
        let calls = fs::read_to_string(&log)
            .unwrap()
            .lines()
            .map(|l| {
                let (head, args) = l.split_once('\x1d').unwrap();
                let mut head = head.split('\x1e');
                Call {
                    name: head.next().unwrap().into(),
                    env: head.filter_map(|v| v.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect(),
                    args: args.split('\x1f').map(|a| a.to_string()).collect::<Vec<_>>().split_last().unwrap().1.to_vec(),
                }
            })
            .collect();
        Ran { ok: o.status.success(), calls, out: String::from_utf8_lossy(&o.stderr).lines().rev().take(3).collect::<Vec<_>>().join(" / ") }
    }
}

/// Runs a script once without a fault and judges the calls, then once for every call with a fault there.
fn faults(w: &mut Worker, p: &Place, script: &'static str, args: &[&str], env: &[(&str, &str)], judge: impl Fn(&[Call]) -> Result<(), String>) {
    let input = format!("{script} {} with {}", args.join(" "), env.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" "));
    w.func(script);
    w.text(&input);
    w.beat();
    let r = p.run(script, args, env, &[]);
    if !r.ok {
        w.fail(script, &input, "success, as every step succeeds", &format!("failure: {}", r.out));
    }
    if let Err(e) = judge(&r.calls) {
        let (want, got) = e.split_once('|').unwrap_or((&e, ""));
        w.fail(script, &input, want, &format!("{got} among {} calls", r.calls.len()));
    }
    w.done(true);
    for (i, c) in r.calls.iter().enumerate() {
        if c.name == "rustup" && c.has("list") {
            continue;
        }
        w.beat();
        let f = p.run(script, args, env, &[i + 1]);
        if f.ok {
            w.fail(script, &format!("{input}, step {} ({} {}) failing", i + 1, c.name, c.args.join(" ")), "failure", "success");
        }
        w.done(true);
    }
}

fn need(ok: bool, want: &str) -> Result<(), String> {
    if ok { Ok(()) } else { Err(format!("{want}|no such call")) }
}

/// The script for one target.
fn target(calls: &[Call], t: &str, build_only: bool, skip: bool, nextest: bool, install: bool) -> Result<(), String> {
    let cargo: Vec<&Call> = calls.iter().filter(|c| c.name == "cargo").collect();
    let added = calls.iter().any(|c| c.name == "rustup" && c.args == ["target", "add", t]);
    if added != install {
        return Err(format!("the target is installed: {install}|{added}"));
    }
    let aimed = |c: &Call| c.opt("--target", "--target") == [t];
    let tests = |c: &Call| matches!(c.args[0].as_str(), "test" | "nextest");
    if let Some(c) = cargo.iter().find(|c| c.has("nextest") && !nextest) {
        return Err(format!("the ordinary test runner, as there is no other|{:?}", c.args));
    }
    // Runtime library.
    let lib: Vec<&&Call> = cargo.iter().filter(|c| tests(c) && c.packages() == ["builtins-test"]).collect();
    if build_only && !lib.is_empty() {
        return Err(format!("no tests where they cannot run|{:?}", lib[0].args));
    }
    if !build_only {
        for release in [false, true] {
            for (c, bare) in [(false, false), (true, false), (false, true)] {
                need(
                    lib.iter().any(|x| aimed(x) && x.has("--release") == release && x.features().contains("c") == c && x.has("--no-default-features") == bare && !x.has("--benches")),
                    &format!("tests of the runtime library for {t}: optimised {release}, C sources {c}, without architecture code {bare}"),
                )?;
            }
        }
        need(lib.iter().any(|x| aimed(x) && x.has("--benches")), "benchmarks of the runtime library tried")?;
    }
    // Symbols.
    need(cargo.iter().any(|c| c.args[0] == "test" && c.packages() == ["symcheck"] && c.env["SYMCHECK_TEST_TARGET"] == t), "tests of the symbol checker for the target")?;
    let sym: Vec<&&Call> = cargo.iter().filter(|c| c.args[0] == "run" && c.before().packages() == ["symcheck"]).collect();
    for c in &sym {
        let own = c.after(1).before();
        if !own.has("--build-and-check") || own.opt("--target", "--target") != [t] || own.has("--no-os") != t.contains("-none") {
            return Err(format!("building and checking for {t}, with a system unless there is none|{:?}", c.args));
        }
    }
    let builds: Vec<Call> = sym.iter().map(|c| c.after(2)).collect();
    for release in [false, true] {
        for (c, bare) in [(false, false), (true, false), (false, true)] {
            need(
                builds.iter().any(|x| {
                    x.packages() == ["compiler_builtins"] && x.features().contains("compiler-builtins") && x.has("--release") == release && x.features().contains("c") == c && x.has("--no-default-features") == bare
                }),
                &format!("symbols of the runtime library checked: optimised {release}, C sources {c}, without architecture code {bare}"),
            )?;
        }
    }
    let intrinsics = |x: &Call| x.opt("--manifest-path", "--manifest-path") == ["builtins-test-intrinsics/Cargo.toml"];
    let runs: Vec<Call> = cargo.iter().filter(|c| c.args[0] == "run" && c.packages().is_empty() && intrinsics(c)).map(|c| (*c).clone()).collect();
    let may_run = !build_only && !t.contains("windows");
    if !may_run && !runs.is_empty() {
        return Err(format!("the intrinsics program is not run here|{:?}", runs[0].args));
    }
    for (set, list) in [("checked", &builds), ("run", &runs)] {
        if set == "run" && !may_run {
            continue;
        }
        for release in [false, true] {
            let lto = if release { "CARGO_PROFILE_RELEASE_LTO" } else { "CARGO_PROFILE_DEV_LTO" };
            for (c, l) in [(false, false), (true, false), (false, true)] {
                need(
                    list.iter().any(|x| intrinsics(x) && x.has("--release") == release && x.features().contains("c") == c && x.on(lto) == l && (set == "checked" || aimed(x))),
                    &format!("intrinsics program {set}: optimised {release}, C sources {c}, at link time {l}"),
                )?;
            }
        }
    }
    // Math library.
    need(cargo.iter().any(|c| c.args[0] == "check" && c.packages() == ["libm"] && aimed(c) && c.has("--no-default-features")), "the math library built without features")?;
    let all: Vec<&&Call> = cargo.iter().filter(|c| tests(c) && c.has("--workspace")).collect();
    if (skip || build_only) && !all.is_empty() {
        return Err(format!("no tests of the math library|{:?}", all[0].args));
    }
    if skip {
        return Ok(());
    }
    if build_only {
        for i in [false, true] {
            need(
                cargo.iter().any(|c| c.args[0] == "build" && c.packages() == ["libm"] && aimed(c) && c.features().contains("unstable-intrinsics") == i),
                &format!("the math library built, intrinsics {i}"),
            )?;
        }
        return Ok(());
    }
    for (release, arch, intr) in [(false, false, false), (false, true, true), (true, false, false), (true, true, false), (true, true, true)] {
        need(
            all.iter().any(|c| {
                let profile = [c.opt("--profile", "--profile"), c.opt("--cargo-profile", "--cargo-profile")].concat();
                let f = c.features();
                aimed(c)
                    && !c.has("--doc")
                    && !c.has("--benches")
                    && c.has("--no-default-features")
                    && (profile == ["release-checked"]) == release
                    && (profile.is_empty() || release)
                    && f.contains("arch") == arch
                    && f.contains("unstable-intrinsics") == intr
                    && !c.opt("--exclude", "--exclude").iter().any(|x| x == "libm-test" || x == "libm")
            }),
            &format!("tests of the math library: optimised {release}, architecture code {arch}, intrinsics {intr}"),
        )?;
    }
    need(all.iter().any(|c| aimed(c) && c.has("--benches")), "benchmarks of the math library tried")?;
    need(!nextest || all.iter().any(|c| c.args[0] == "test" && c.has("--doc")), "documentation tests, which the other runner leaves out")?;
    need(
        cargo.iter().any(|c| c.on("ENSURE_NO_PANIC") && c.args[0] == "build" && c.packages() == ["libm"] && aimed(c) && c.has("--tests") && c.opt("--profile", "--profile") == ["release-opt"]),
        "the check that no routine of the math library can panic",
    )
}

fn extensive(list: &[&str], calls: &[Call]) -> Result<(), String> {
    if list.is_empty() {
        return if calls.is_empty() { Ok(()) } else { Err("nothing to run|something".into()) };
    }
    let filters = |c: &Call| c.after(1).args;
    let first: Vec<&Call> = calls.iter().take_while(|c| !c.on("LIBM_EXTENSIVE_TESTS")).collect();
    let then: Vec<&Call> = calls.iter().filter(|c| c.on("LIBM_EXTENSIVE_TESTS")).collect();
    for f in list {
        // A test runs if its name has one of the filters in it.
        let test = format!("mp_quickspace_{f}");
        need(first.iter().any(|c| c.args[0] == "test" && filters(c).iter().any(|x| !x.is_empty() && test.contains(x.as_str()))), &format!("the ordinary tests of {f} run first"))?;
    }
    let asked: BTreeSet<&str> = then.iter().flat_map(|c| c.env["LIBM_EXTENSIVE_TESTS"].split(',')).collect();
    if asked != list.iter().copied().collect() {
        return Err(format!("extensive tests of {list:?}|{asked:?}"));
    }
    need(then.iter().all(|c| c.args[0] == "test" && filters(c).iter().any(|x| "mp_extensive".contains(x.as_str()))), "the extensive tests run")
}

fn benches(ctx: &Ctx, shared: &Shared) {
    // Target, pull request, each of the two runs, the answer on regressions, baseline, packing.
    let cases: Vec<u32> = (0..1 << 7).collect();
    ctx.par("benchmark script", cases.len() as u64, |i, w| {
        let b = cases[i as usize];
        let bit = |k: u32| b >> k & 1 == 1;
        let p = shared.place(&format!("b{i}"), false);
        let env: Vec<(&str, &str)> = [("GITHUB_SHA", "0123456789abcdef0123")].into_iter().chain(bit(1).then_some(("PR_NUMBER", "17"))).collect();
        let args: &[&str] = if bit(0) { &["i686-unknown-linux-gnu"] } else { &[] };
        let arch = if bit(0) { "i686" } else { "x86_64" };
        let s = "bench-icount.sh";
        w.func(s);
        w.args([b as u64]);
        // The calls in the order of the statement; numbers of the failing ones.
        let baseline_ok = !bit(5);
        let mut fail = vec![];
        let mut want = vec!["locate-baseline"];
        let mut ok = baseline_ok;
        if !baseline_ok {
            fail.push(1);
        } else {
            for k in [2, 3] {
                want.push("bench");
                if bit(k) {
                    fail.push(want.len());
                    if bit(1) {
                        want.push("handle-bench-regressions");
                        if bit(4) {
                            fail.push(want.len());
                            ok = false;
                        }
                    }
                }
            }
            if ok {
                want.push("pack");
                if bit(6) {
                    fail.push(want.len());
                    ok = false;
                }
            }
        }
        let input = format!("{s} {args:?} {env:?}, failing steps {fail:?} of {want:?}");
        let r = p.run(s, args, &env, &fail);
        let got: Vec<&str> = r
            .calls
            .iter()
            .map(|c| match (c.name.as_str(), c.args.first().map_or("", |a| a.as_str())) {
                ("ci-util.py", a @ ("locate-baseline" | "handle-bench-regressions")) => a,
                ("cargo", "bench") => "bench",
                ("tar", _) => "pack",
                _ => "other",
            })
            .collect();
        if r.ok != ok || got != want {
            w.fail(s, &input, &format!("success {ok} after {want:?}"), &format!("success {} after {got:?}; {}", r.ok, r.out));
        }
        let runs: Vec<&Call> = r.calls.iter().filter(|c| c.name == "cargo").collect();
        if runs.len() == 2 {
            let f: Vec<bool> = runs.iter().map(|c| c.before().features().contains("arch")).collect();
            let base: Vec<Vec<String>> = runs.iter().map(|c| c.after(1).opt("--save-baseline", "--save-baseline")).collect();
            if !(f.contains(&true) && f.contains(&false)) || base[0] == base[1] || base[0].is_empty() || runs.iter().any(|c| !c.before().opt("--target", "--target").iter().all(|t| t.starts_with(arch))) {
                w.fail(s, &input, "one run with and one without architecture code, kept apart", &format!("{:?} {:?}", runs[0].args, runs[1].args));
            }
        }
        if let Some(c) = r.calls.iter().find(|c| c.has("locate-baseline")) {
            if c.opt("--tag", "--tag") != [arch] || !c.has("--download") || !c.has("--extract") {
                w.fail(s, &input, &format!("the baseline of {arch}"), &format!("{:?}", c.args));
            }
        }
        if let Some(c) = r.calls.iter().find(|c| c.has("handle-bench-regressions")) {
            if c.args.get(1).map_or("", |a| a.as_str()) != "17" {
                w.fail(s, &input, "the request's number", &format!("{:?}", c.args));
            }
        }
        if ok {
            let said = fs::read_to_string(p.dir.join("github_env")).unwrap();
            let name = said.trim().strip_prefix("EARLIER=1\nBASELINE_NAME=").unwrap_or("").to_string();
            let packed = r.calls.iter().filter(|c| c.name == "tar").any(|c| c.has(&format!("{name}.tar.xz")));
            if !(packed && name.starts_with(&format!("baseline-icount-{arch}-")) && name.ends_with("-0123456789ab")) {
                w.fail(s, &input, "a new baseline named by architecture, time and commit, told to the service after what was told before", &format!("{said:?}"));
            }
        }
        w.done(true);
        fs::remove_dir_all(&p.dir).unwrap();
    });
}

fn main() {
    run("C70", "exploration", |ctx| {
        ctx.rule("a script succeeds if every step does and fails if any single step fails (benchmark regressions: only inside a request that does not allow them), and the steps it starts are those named by the property");
        ctx.assume("cargo, rustup, tar and the tools in Python are stand-ins that note their arguments; test names are chosen as the test harness does, by substring");
        let dir = PathBuf::from(format!("{ROOT}/target/c70-{}", std::process::id()));
        // What an earlier run that ended with a violation left behind.
        for e in fs::read_dir(format!("{ROOT}/target")).unwrap().flatten() {
            if e.file_name().to_string_lossy().starts_with("c70-") {
                let _ = fs::remove_dir_all(e.path());
            }
        }
        let shared = Shared::new(&dir);

        let names = ["cosf", "cos", "sinf", "fmaf16", "powf128", "sqrt"];
        ctx.par("extensive tests", 1 << 7, |i, w| {
            let mut list: Vec<&str> = (0..6).filter(|k| i >> k & 1 == 1).map(|k| names[k]).collect();
            if i >> 6 & 1 == 1 {
                list.reverse();
            }
            let p = shared.place(&format!("e{i}"), false);
            faults(w, &p, "run-extensive.sh", &[], &[("TO_TEST", &list.join(","))], |c| extensive(&list, c));
            fs::remove_dir_all(&p.dir).unwrap();
        });

        let targets = [
            "",
            "x86_64-unknown-linux-gnu",
            "i586-unknown-linux-gnu",
            "thumbv7em-none-eabi",
            "aarch64-unknown-none",
            "x86_64-pc-windows-gnu",
            "x86_64-pc-windows-msvc",
            "wasm32-unknown-unknown",
            "aarch64-apple-darwin",
            "powerpc64le-unknown-linux-gnu",
        ];
        let (only, skips) = (["-", "1", "0"], ["-", "true", "false"]);
        let mut cases = vec![];
        for t in targets {
            for b in only {
                for s in skips {
                    for nextest in [false, true] {
                        if !ctx.thorough && (b == "0" || s == "false") && (nextest || t != targets[2]) {
                            continue;
                        }
                        cases.push((t, b, s, nextest, "-"));
                    }
                }
            }
        }
        for own in ["0", "1", "2", "3", "4"] {
            cases.push((targets[2], "-", "true", false, own));
        }
        ctx.par("tests of a target", cases.len() as u64, |i, w| {
            let (t, b, s, nextest, own) = cases[i as usize];
            let real = if t.is_empty() { "x86_64-unknown-linux-gnu" } else { t };
            let (longer, before) = (format!("{real}hf"), format!("my{real}"));
            let mut env = vec![];
            for (k, v) in [("BUILD_ONLY", b), ("MAY_SKIP_LIBM_CI", s)] {
                if v != "-" {
                    env.push((k, v));
                }
            }
            // In a container the target is installed unless it is there; a longer name is another target.
            let installed = match own {
                "1" => "x86_64-unknown-linux-gnu",
                "2" => real,
                "4" => before.as_str(),
                _ => longer.as_str(),
            };
            if own != "-" {
                env.push(("USING_CONTAINER_RUSTC", if own == "0" { "0" } else { "1" }));
                env.push(("INSTALLED", installed));
            }
            let p = shared.place(&format!("t{i}"), nextest);
            let args: Vec<&str> = if t.is_empty() { vec![] } else { vec![t] };
            faults(w, &p, "run.sh", &args, &env, |c| target(c, real, b == "1", s == "true", nextest, ["1", "3", "4"].contains(&own)));
            fs::remove_dir_all(&p.dir).unwrap();
        });

        ctx.par("tests in the interpreter", 1, |_, w| {
            let p = shared.place("m", false);
            faults(w, &p, "miri.sh", &[], &[], |calls| {
                let aims: BTreeSet<String> = calls.iter().flat_map(|c| c.opt("--target", "--target")).collect();
                need(aims.iter().any(|t| t.starts_with("x86_64")) && aims.iter().any(|t| t.starts_with("s390x")), "a target with unaligned accesses and a big-endian one")?;
                for t in &aims {
                    for m in ["builtins-test/Cargo.toml", "libm/Cargo.toml"] {
                        need(calls.iter().any(|c| c.args[..2] == ["miri", "test"] && c.opt("--target", "--target") == [t.as_str()] && c.opt("--manifest-path", "--manifest-path") == [m]), &format!("{m} for {t}"))?;
                    }
                }
                Ok(())
            });
            fs::remove_dir_all(&p.dir).unwrap();
        });

        benches(ctx, &shared);
        fs::remove_dir_all(&dir).unwrap();
    });
}
