//! Choice of the extensive tests for a change: the tool is run as a process on scratch histories, with a stand-in for
//! the service that knows the pull requests.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Write;
use std::process::{Command, Stdio};
use vh::{Ctx, Worker, ctx::ROOT, run};

/// Just enough JSON for the definitions and the printed matrix.
#[derive(Clone, Debug)]
enum J {
    S(String),
    L(Vec<J>),
    O(Vec<(String, J)>),
    Other,
}
fn json(s: &[u8], i: &mut usize) -> Option<J> {
    let ws = |i: &mut usize| {
        while s.get(*i).is_some_and(|c| c.is_ascii_whitespace()) {
            *i += 1
        }
    };
    ws(i);
    match *s.get(*i)? {
        b'"' => {
            let mut o = vec![];
            *i += 1;
            while *s.get(*i)? != b'"' {
                if s[*i] == b'\\' {
                    *i += 1;
                }
                o.push(*s.get(*i)?);
                *i += 1;
            }
            *i += 1;
            Some(J::S(String::from_utf8(o).ok()?))
        }
        c @ (b'[' | b'{') => {
            let end = if c == b'[' { b']' } else { b'}' };
            let (mut l, mut o) = (vec![], vec![]);
            *i += 1;
            loop {
                ws(i);
                if *s.get(*i)? == end {
                    *i += 1;
                    return Some(if c == b'[' { J::L(l) } else { J::O(o) });
                }
                if s[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let v = json(s, i)?;
                if c == b'[' {
                    l.push(v)
                } else {
                    ws(i);
                    if *s.get(*i)? != b':' {
                        return None;
                    }
                    *i += 1;
                    let J::S(k) = v else { return None };
                    o.push((k, json(s, i)?));
                }
            }
        }
        _ => {
            while s.get(*i).is_some_and(|c| c.is_ascii_alphanumeric() || b"+-.".contains(c)) {
                *i += 1
            }
            Some(J::Other)
        }
    }
}
impl J {
    fn get(&self, k: &str) -> Option<&J> {
        let J::O(o) = self else { return None };
        o.iter().find(|x| x.0 == k).map(|x| &x.1)
    }
    fn s(&self) -> Option<&str> {
        let J::S(s) = self else { return None };
        Some(s)
    }
}

type Defs = BTreeMap<String, (String, Vec<String>)>;
type Picked = BTreeMap<String, (BTreeSet<String>, BTreeSet<String>)>;
const TYPES: [&str; 4] = ["f16", "f32", "f64", "f128"];

fn read_defs(t: &str) -> Defs {
    let J::O(o) = json(t.as_bytes(), &mut 0).expect("function definitions") else { panic!("function definitions") };
    o.iter()
        .filter_map(|(k, v)| {
            let J::L(l) = v.get("sources")? else { return None };
            Some((k.clone(), (v.get("type")?.s()?.to_string(), l.iter().map(|x| x.s().unwrap().to_string()).collect())))
        })
        .collect()
}

/// What a change is: files per commit of the branch (true = changed, false = taken back), text of the request.
#[derive(Clone, Default)]
struct Case {
    commits: Vec<Vec<(String, bool)>>,
    body: Option<String>,
    /// directives meant by the body; None = the body has to be refused
    cfg: Option<Cfg>,
    merge: bool,
}
#[derive(Clone, Default, Debug, PartialEq)]
struct Cfg {
    regressions: bool,
    skip: bool,
    many: bool,
    libm: bool,
    extra: Vec<String>,
}
fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c => o.push(c),
        }
    }
    o + "\""
}

/// A scratch tree with the tool, and the history of all cases in one go. The main branch has gone on after the branches
/// were made: `ahead` changed there.
fn build(dir: &str, defs: &str, files: &BTreeSet<String>, ahead: &str, cases: &[Case]) {
    for d in ["ci", "etc", "home", "bin", "pr"] {
        fs::create_dir_all(format!("{dir}/{d}")).unwrap();
    }
    for e in fs::read_dir("/repo/ci").unwrap().flatten() {
        if e.path().is_file() {
            fs::copy(e.path(), format!("{dir}/ci/{}", e.file_name().to_str().unwrap())).unwrap();
        }
    }
    fs::write(format!("{dir}/etc/function-definitions.json"), defs).unwrap();
    let gh = format!("{dir}/bin/gh");
    fs::write(&gh, GH).unwrap();
    Command::new("chmod").args(["755", &gh]).status().unwrap();
    let mut s = String::from("blob\nmark :1\ndata 1\na\nblob\nmark :2\ndata 1\nb\nblob\nmark :3\ndata 1\nc\n");
    let who = "committer a <a@a> 1700000000 +0000\ndata 0\n";
    s += &format!("commit refs/heads/old\nmark :10\n{who}");
    for f in files {
        s += &format!("M 100644 :1 {f}\n");
    }
    s += &format!("\ncommit refs/heads/main\nmark :11\n{who}from :10\nM 100644 :3 {ahead}\n\n");
    let mut n = 20;
    for (i, c) in cases.iter().enumerate() {
        let mut from = 10;
        for l in &c.commits {
            s += &format!("commit refs/heads/b{i}\nmark :{n}\n{who}from :{from}\n");
            for (f, set) in l {
                s += &format!("M 100644 :{} {f}\n", if *set { 2 } else { 1 });
            }
            s += "\n";
            from = n;
            n += 1;
        }
        s += &format!("commit refs/pull/{i}/merge\nmark :{n}\n{who}from :11\nmerge :{from}\n");
        for (f, set) in c.commits.iter().flatten() {
            s += &format!("M 100644 :{} {f}\n", if *set { 2 } else { 1 });
        }
        s += "\n";
        n += 1;
        if let Some(b) = &c.body {
            fs::write(format!("{dir}/pr/{i}"), format!("{{\"number\":{i},\"commits\":[],\"body\":{},\"created_at\":\"2024-01-01T00:00:00Z\"}}\n", q(b))).unwrap();
        }
    }
    let git = |a: &[&str]| Command::new("git").arg("-C").arg(dir).args(a).env("HOME", format!("{dir}/home")).stdout(Stdio::null()).stderr(Stdio::null()).stdin(Stdio::piped()).spawn().unwrap();
    assert!(git(&["init", "-q"]).wait().unwrap().success());
    let mut p = git(&["fast-import", "--quiet"]);
    p.stdin.take().unwrap().write_all(s.as_bytes()).unwrap();
    assert!(p.wait().unwrap().success(), "fast-import");
}

const GH: &str = r#"#!/bin/sh
# Stand-in for the service's command.
case "$1 $2" in
"pr view") exec cat "$GH_DIR/pr/$3" ;;
"run list")
    [ -n "$GH_LIST_FAIL" ] && exit 1
    printf '%s\n' "$GH_LIST" ;;
"run download")
    [ "$3" = 4711 ] || exit 1
    for a in "$@"; do case $a in --pattern=*) pat=${a#--pattern=} ;; esac; done
    for n in $GH_ART; do
        case $n in $pat) mkdir "$n" && cp "$GH_DIR/store/$n.tar.xz" "$n/" ;; esac
    done ;;
*) exit 1 ;;
esac
"#;

fn tool(dir: &str, cwd: &str, args: &[&str], env: &[(&str, &str)]) -> (Option<i32>, String) {
    let mut c = Command::new("python3");
    c.arg(format!("{dir}/ci/ci-util.py")).args(args).current_dir(cwd).env_clear().stdin(Stdio::null()).stderr(Stdio::null());
    c.env("PATH", format!("{dir}/bin:{}", std::env::var("PATH").unwrap_or_default())).env("HOME", format!("{dir}/home")).env("GH_DIR", dir).env("PYTHONDONTWRITEBYTECODE", "1");
    for (k, v) in env {
        c.env(k, v);
    }
    let o = c.output().unwrap();
    (o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned())
}

fn ty_of(f: &str) -> &'static str {
    match f {
        "erf" | "modf" | "lgamma_r" => "f64",
        "lgammaf_r" => "f32",
        _ if f.ends_with("f16") => "f16",
        _ if f.ends_with("f128") => "f128",
        _ if f.ends_with("f64") => "f64",
        _ if f.ends_with("f32") || f.ends_with('f') => "f32",
        _ => "f64",
    }
}

/// Functions by type: changed and to be tested; whether the whole library may be skipped; whether it is too much.
fn expect(defs: &Defs, c: &Case) -> (Picked, bool, bool) {
    let mut last: BTreeMap<&str, bool> = BTreeMap::new();
    if c.merge {
        for (f, set) in c.commits.iter().flatten() {
            last.insert(f, *set);
        }
    }
    let changed: BTreeSet<&str> = last.iter().filter(|x| *x.1).map(|x| *x.0).collect();
    let none = Cfg { many: true, ..Cfg::default() };
    let cfg = if c.body.is_some() { c.cfg.clone().unwrap() } else { none };
    let mut p: Picked = TYPES.iter().map(|t| (t.to_string(), Default::default())).collect();
    for (n, (t, src)) in defs {
        let ignored = |f: &str| f.starts_with("libm/src/math/support/") || f.starts_with("libm/src/libm_helper.rs") || f.starts_with("libm/src/math/arch/intrinsics.rs");
        if src.iter().any(|f| changed.contains(f.as_str()) && !ignored(f)) {
            let e = p.get_mut(t).unwrap();
            e.0.insert(n.clone());
            if !cfg.skip {
                e.1.insert(n.clone());
            }
        }
    }
    for f in &cfg.extra {
        p.get_mut(ty_of(f)).unwrap().1.insert(f.clone());
    }
    let total: usize = p.values().map(|x| x.1.len()).sum();
    let skip = c.merge && !cfg.libm && !changed.iter().any(|f| f.contains("libm") || f.contains("musl"));
    (p, skip, total > 20 && !cfg.many)
}

fn judge(w: &mut Worker, dir: &str, defs: &Defs, i: usize, c: &Case) {
    let r = format!("refs/pull/{i}/merge");
    let n = i.to_string();
    let mut env = vec![("GITHUB_REF", if c.merge { r.as_str() } else { "refs/heads/main" })];
    if c.body.is_some() {
        env.push(("PR_NUMBER", &n));
    }
    let name = "generate-matrix";
    w.func(name);
    let input = format!("{}changed {:?} text {:?}", if c.merge { "" } else { "not a request; " }, c.commits, c.body);
    w.text(&input);
    let (code, out) = tool(dir, dir, &[name], &env);
    if c.body.is_some() && c.cfg.is_none() {
        if code == Some(0) {
            w.fail(name, &input, "refused", &out);
        }
        w.done(true);
        return;
    }
    let (want, skip, much) = expect(defs, c);
    if code != Some(much as i32) {
        w.fail(name, &input, &format!("exit status {}", much as i32), &format!("{code:?}"));
    }
    let value = |k: &str| out.lines().find_map(|l| l.strip_prefix(k)?.strip_prefix('=')).unwrap_or("").to_string();
    let mut got: Option<Picked> = Some(BTreeMap::new());
    let m = value("extensive_matrix");
    match json(m.as_bytes(), &mut 0).as_ref().and_then(|j| j.get("extensive_matrix")) {
        Some(J::L(l)) => {
            for e in l {
                let set = |k: &str| e.get(k).and_then(J::s).map(|s| s.split(',').filter(|x| !x.is_empty()).map(String::from).collect::<BTreeSet<_>>());
                match (e.get("ty").and_then(J::s), set("changed"), set("to_test"), &mut got) {
                    (Some(t), Some(a), Some(b), Some(g)) if !g.contains_key(t) => {
                        g.insert(t.to_string(), (a, b));
                    }
                    _ => got = None,
                }
            }
        }
        _ => got = None,
    }
    if got.as_ref() != Some(&want) {
        w.fail(name, &input, &format!("{want:?}"), &m);
    }
    if value("may_skip_libm_ci") != skip.to_string() {
        w.fail(name, &input, &format!("may_skip_libm_ci={skip}"), &out);
    }
    w.done(want.values().any(|x| !x.0.is_empty() || !x.1.is_empty()));
}

fn one(f: &[&str]) -> Vec<Vec<(String, bool)>> {
    vec![f.iter().map(|x| (x.to_string(), true)).collect()]
}

/// Texts with what they mean.
fn bodies() -> Vec<(String, Option<Cfg>)> {
    let d = |k: usize, c: &mut Cfg| -> String {
        match k {
            0 => c.regressions = true,
            1 => c.skip = true,
            2 => c.many = true,
            3 => c.libm = true,
            _ => c.extra = vec!["sinf".into(), "fmodf128".into(), "ceilf16".into(), "erf".into(), "lgammaf_r".into(), "modff".into(), "exp2".into()],
        }
        ["allow-regressions", "skip-extensive", "allow-many-extensive", "test-libm", "extra-extensive = sinf, fmodf128,ceilf16 , erf,lgammaf_r,modff,exp2"][k].into()
    };
    let mut v = vec![];
    // Every set of directives, in two layouts.
    for m in 0..32usize {
        for nl in ["\n", "\r\n"] {
            let mut c = Cfg::default();
            let mut t = format!("Some text{nl}{nl}");
            for k in (0..5).filter(|k| m >> k & 1 == 1) {
                t += &format!("ci: {}{nl}", d(k, &mut c));
            }
            t += &format!("{nl}more text");
            v.push((t, Some(c)));
        }
    }
    // Each one in other places and spellings, alone.
    for k in 0..5 {
        let mut c = Cfg::default();
        let t = d(k, &mut c);
        for s in [format!("ci: {t}"), format!("  ci: {t}\n"), format!("\tci: {t}"), format!("ci:{t}"), format!("ci:   {t}\nend"), format!("\n\nci: {t}\n\n"), format!("a ci: word\nci: {t}\n")] {
            v.push((s, Some(c.clone())));
        }
        for s in [format!("see ci: {t}"), format!("`ci: {t}`"), format!("CI: {t}"), format!("- ci: {t}"), format!("cci: {t}"), format!("ci {t}")] {
            v.push((s, Some(Cfg::default())));
        }
        if k < 4 {
            for s in [format!("ci: {t}=x"), format!("ci: {t} = 1"), format!("ci: {t}="), format!("ci: x{t}"), format!("ci: {t}x"), format!("ci: {}", &t[1..]), format!("ci: {}", t.to_uppercase())] {
                v.push((s, None));
            }
        }
    }
    for s in ["ci: unknown", "ci: skip_extensive", "ci: skip-extensive\nci: what\n", "ci: what\nci: skip-extensive\n", "ci: =x"] {
        v.push((s.into(), None));
    }
    for s in ["", "\n", "nothing here", "ci", "skip-extensive"] {
        v.push((s.into(), Some(Cfg::default())));
    }
    v
}

fn matrix(ctx: &Ctx, name: &str, dir: &str, text: &str, files: &[String], ahead: &str, cases: Vec<Case>) {
    let defs = read_defs(text);
    let mut all: BTreeSet<String> = files.iter().cloned().collect();
    all.extend(defs.values().flat_map(|x| x.1.clone()));
    build(dir, text, &all, ahead, &cases);
    ctx.par(name, cases.len() as u64, |i, w| judge(w, dir, &defs, i as usize, &cases[i as usize]));
}

fn real(ctx: &Ctx, dir: &str) {
    let text = fs::read_to_string("/repo/etc/function-definitions.json").unwrap();
    let defs = read_defs(&text);
    let src: Vec<String> = defs.values().flat_map(|x| x.1.clone()).collect::<BTreeSet<_>>().into_iter().collect();
    let other = ["README.md", "libm/src/libm_helper.rs", "libm/src/math/support/big.rs", "libm/src/math/arch/intrinsics.rs", "libm-test/src/lib.rs", "crates/musl-math-sys/src/lib.rs", "compiler-builtins/src/lib.rs", "ci/run.sh", "Cargo.toml"];
    let files: Vec<String> = src.iter().cloned().chain(other.iter().map(|x| x.to_string())).collect();
    let mut cases = vec![];
    let free = Cfg { many: true, ..Cfg::default() };
    let case = |f: &[&str]| Case { commits: one(f), body: Some("ci: allow-many-extensive".into()), cfg: Some(free.clone()), merge: true };
    for (i, f) in files.iter().enumerate() {
        cases.push(case(&[f]));
        if ctx.thorough {
            for d in [1, 7, 40] {
                cases.push(case(&[f, &files[(i + d) % files.len()]]));
            }
        }
    }
    // Growing changes, with and without leave to test much.
    let mut step = vec![];
    for n in 0..src.len().min(if ctx.thorough { 124 } else { 40 }) {
        step.push(src[n].as_str());
        cases.push(Case { body: Some("text".into()), cfg: Some(Cfg::default()), ..case(&step) });
        if n % 8 == 0 {
            cases.push(case(&step));
            cases.push(Case { body: Some("ci: skip-extensive".into()), cfg: Some(Cfg { skip: true, ..Cfg::default() }), ..case(&step) });
        }
    }
    // Not a request.
    for f in ["README.md", &src[0], &src[50]] {
        cases.push(Case { merge: false, body: None, ..case(&[f]) });
    }
    matrix(ctx, "the repository's functions", dir, &text, &files, &src[3], cases);
}

/// Made-up definitions: every function has a subset of eight files, every subset of the files changes.
fn made(ctx: &Ctx, dir: &str) {
    let files: Vec<String> = ["libm/src/math/a.rs", "libm/src/math/generic/a.rs", "libm/src/math/support.rs", "libm/src/math/support/a.rs", "libm/src/libm_helper.rs", "libm/src/math/arch/intrinsics.rs", "libm/src/math/arch/x86.rs", "src/libm/src/math/support/a.rs"].iter().map(|x| x.to_string()).collect();
    let mut t = String::from("{\"__comment\": \"made up\"");
    for m in 1..256usize {
        if m.count_ones() <= 2 {
            let l: Vec<String> = (0..8).filter(|k| m >> k & 1 == 1).map(|k| format!("\"{}\"", files[k])).collect();
            t += &format!(", \"fn{m}\": {{\"sources\": [{}], \"type\": \"{}\"}}", l.join(", "), TYPES[m % 4]);
        }
    }
    t += "}";
    let mut cases = vec![];
    for m in (0..256usize).filter(|m| ctx.thorough || m.count_ones() <= 2 || m.count_ones() >= 7) {
        let f: Vec<(String, bool)> = (0..8).filter(|k| m >> k & 1 == 1).map(|k| (files[k].clone(), true)).collect();
        cases.push(Case { commits: vec![f.clone()], body: Some("ci: allow-many-extensive".into()), cfg: Some(Cfg { many: true, ..Cfg::default() }), merge: true });
        // In several steps, the first one taken back.
        let mut steps: Vec<Vec<(String, bool)>> = f.iter().map(|x| vec![x.clone()]).collect();
        steps.extend(f.first().map(|x| vec![(x.0.clone(), false)]));
        if steps.is_empty() {
            steps.push(vec![]);
        }
        cases.push(Case { commits: steps, body: Some("ci: allow-many-extensive".into()), cfg: Some(Cfg { many: true, ..Cfg::default() }), merge: true });
    }
    for (b, c) in bodies() {
        for f in [&[][..], &["libm/src/math/a.rs"], &["src/a.rs"], &["README.md"], &["crates/musl-math-sys/x.c"]] {
            if ctx.thorough || f.len() + b.len() % 3 > 0 {
                cases.push(Case { commits: one(f), body: Some(b.clone()), cfg: c.clone(), merge: true });
            }
        }
    }
    matrix(ctx, "made-up functions", dir, &t, &files, "libm/src/math/arch/x86.rs", cases);
}

/// Around the limit: changed functions, asked-for ones that are new, already changed or named twice.
fn limit(ctx: &Ctx, dir: &str) {
    let names: Vec<String> = (0..32).map(|i| format!("g{i}{}", ["", "f", "f16", "f128"][i % 4])).collect();
    let files: Vec<String> = (0..32).map(|i| format!("libm/src/math/g{i}.rs")).collect();
    let mut t = String::from("{\"__comment\": \"made up\"");
    for (n, f) in names.iter().zip(&files) {
        t += &format!(", \"{n}\": {{\"sources\": [\"{f}\"], \"type\": \"{}\"}}", ty_of(n));
    }
    t += "}";
    let mut cases = vec![];
    let (lo, hi, most) = if ctx.thorough { (0, 26, 5) } else { (17, 22, 3) };
    for n in lo..=hi {
        let change: Vec<&str> = files[..n].iter().map(|s| s.as_str()).collect();
        for new in 0..=most {
            for known in 0..=(most - new).min(n) {
                for twice in [false, true] {
                    if twice && new + known == 0 {
                        continue;
                    }
                    let mut extra: Vec<String> = names[32 - new..].to_vec();
                    extra.extend(names[..known].iter().cloned());
                    if twice {
                        extra.push(extra[0].clone());
                    }
                    for flags in 0..4 {
                        let mut c = Cfg { extra: extra.clone(), ..Cfg::default() };
                        let mut b = String::from("text\n");
                        if !extra.is_empty() {
                            b += &format!("ci: extra-extensive = {}\n", extra.join(","));
                        }
                        if flags & 1 == 1 {
                            c.skip = true;
                            b += "ci: skip-extensive\n";
                        }
                        if flags & 2 == 2 {
                            c.many = true;
                            b += "ci: allow-many-extensive\n";
                        }
                        if flags == 0 || ctx.thorough && n % 5 == 0 {
                            cases.push(Case { commits: one(&change), body: Some(b), cfg: Some(c), merge: true });
                        }
                    }
                }
            }
        }
    }
    matrix(ctx, "around the limit", dir, &t, &files, "libm/src/math/g31.rs", cases);
}

fn regressions(ctx: &Ctx, dir: &str) {
    let b = bodies();
    let cases: Vec<Case> = b.iter().map(|x| Case { commits: one(&[]), body: Some(x.0.clone()), cfg: x.1.clone(), merge: true }).collect();
    build(dir, "{}", &["a".to_string()].into(), "a", &cases);
    let name = "handle-bench-regressions";
    ctx.par(name, b.len() as u64, |i, w| {
        w.func(name);
        let (t, c) = &b[i as usize];
        w.text(t);
        let want = c.as_ref().is_some_and(|c| c.regressions);
        let (code, _) = tool(dir, dir, &[name, &i.to_string()], &[]);
        if (code == Some(0)) != want {
            w.fail(name, &format!("{t:?}"), if want { "success" } else { "failure" }, &format!("{code:?}"));
        }
        w.done(want);
    });
    ctx.seq("wrong uses", |w| {
        for a in [&[][..], &["x"], &["generate-matrix", "x"], &[name], &[name, "1", "2"], &["locate-baseline", "--what"], &["locate-baseline", "--extract"], &["locate-baseline", "x"]] {
            let (code, _) = tool(dir, dir, a, &[]);
            if code == Some(0) {
                w.fail("ci-util", &format!("{a:?}"), "failure", "success");
            }
            w.done(true);
        }
        for a in ["--help", "-h"] {
            let (code, out) = tool(dir, dir, &[a], &[]);
            if code != Some(0) || out.is_empty() {
                w.fail("ci-util", a, "text and success", &format!("{code:?} {out}"));
            }
            w.done(true);
        }
    });
}

/// The archive that is unpacked is the newest one with the tag.
fn baseline(ctx: &Ctx, dir: &str) {
    build(dir, "{}", &["a".to_string()].into(), "a", &[]);
    fs::create_dir_all(format!("{dir}/store")).unwrap();
    let arts = ["baseline-icount-x-20240101-aaaa", "baseline-icount-x-20240301-9999", "baseline-icount-y-20240201-ffff", "baseline-walltime-x-20250101-aaaa"];
    for a in arts {
        let h = format!("{dir}/store/{a}.d/gungraun-home/sub");
        fs::create_dir_all(&h).unwrap();
        fs::write(format!("{h}/mark"), a).unwrap();
        let ok = Command::new("tar").args(["cJf", &format!("{dir}/store/{a}.tar.xz"), "-C", &format!("{dir}/store/{a}.d"), "gungraun-home"]).status().unwrap().success();
        assert!(ok);
    }
    let lists = ["{\"databaseId\": 4711, \"url\": \"u\"}", "", "no json {", "{\"url\": \"u\"}", "fail", "{\"databaseId\": 4712}"];
    let flags: [&[&str]; 3] = [&[], &["--download"], &["--download", "--extract"]];
    let tags = ["", "x", "y", "z"];
    let name = "locate-baseline";
    ctx.par(name, (16 * lists.len() * 3 * 4) as u64, |i, w| {
        w.func(name);
        let i = i as usize;
        let (m, l, f, t) = (i % 16, lists[i / 16 % lists.len()], flags[i / 16 / lists.len() % 3], tags[i / 48 / lists.len()]);
        if !ctx.thorough && l != lists[0] && m != 0 && m != 15 {
            return;
        }
        let have: Vec<&str> = (0..4).filter(|k| m >> k & 1 == 1).map(|k| arts[k]).collect();
        let cwd = format!("{dir}/w{i}");
        fs::create_dir_all(&cwd).unwrap();
        let mut a = vec![name];
        a.extend(f);
        if !t.is_empty() {
            a.extend(["--tag", t]);
        }
        let input = format!("{a:?}, newest run {l:?}, artifacts {have:?}");
        w.text(&input);
        let env = [("GH_LIST", l), ("GH_LIST_FAIL", if l == "fail" { "1" } else { "" }), ("GH_ART", &have.join(" "))];
        let (code, _) = tool(dir, &cwd, &a, &env);
        // The newest matching one; with no tag the names of different tags have no order, any of them will do.
        let fits: Vec<&str> = have.iter().copied().filter(|n| n.starts_with(&if t.is_empty() { "baseline-icount".to_string() } else { format!("baseline-icount-{t}-") })).collect();
        let got = fs::read_to_string(format!("{cwd}/gungraun-home/sub/mark")).ok();
        let down: BTreeSet<String> = fs::read_dir(&cwd).unwrap().flatten().map(|e| e.file_name().into_string().unwrap()).filter(|n| n != "gungraun-home").collect();
        let live = l == lists[0];
        let want_down: BTreeSet<String> = if live && !f.is_empty() { fits.iter().map(|x| x.to_string()).collect() } else { BTreeSet::new() };
        let good = if live && f.len() == 2 && !fits.is_empty() {
            let g = got.clone().unwrap_or_default();
            if t.is_empty() { fits.contains(&g.as_str()) && g != arts[0].to_string().repeat((have.contains(&arts[1])) as usize) } else { Some(&g.as_str()) == fits.iter().max() }
        } else {
            got.is_none()
        };
        fs::remove_dir_all(&cwd).unwrap();
        if code != Some(0) || !good || down != want_down {
            w.fail(name, &input, &format!("success, downloaded {want_down:?}, unpacked the newest of them if asked"), &format!("{code:?}, downloaded {down:?}, unpacked {got:?}"));
        }
        w.done(!fits.is_empty());
    });
}

fn main() {
    run("C62", "exploration", |ctx| {
        ctx.rule("changes: every source file of a function alone (thorough: with three others), growing sets of them, all subsets (quick: small and nearly full ones) of eight files of which made-up functions have every one or two, in one step or in several with the first taken back; around the limit of tests: numbers of changed functions x asked-for ones that are new, changed too or named twice; texts: all sets of directives, each in other places and spellings, refused ones; baselines: all sets of four artifacts x tags x flags x answers of the service; nontrivial = a function is selected, the text refused or an artifact fits");
        ctx.assume("the service is replaced by a stand-in that answers from files; git is the real one on a scratch history");
        ctx.assume("which functions a source file belongs to is read from the committed definition list");
        let dir = format!("{ROOT}/target/c62");
        let _ = fs::remove_dir_all(&dir);
        for (n, f) in [("real", real as fn(&Ctx, &str)), ("made", made), ("limit", limit), ("regressions", regressions), ("baseline", baseline)] {
            f(ctx, &format!("{dir}/{n}"));
        }
        fs::remove_dir_all(&dir).unwrap();
    });
}
