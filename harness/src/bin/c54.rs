//! C54: the list of functions and the macros that iterate over it. Programs that use the macros are generated,
//! compiled with the crates built from /repo and run; what they print is compared with a model of the macros. The
//! list itself is compared with what the documentation generator says is public.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, exit};
use vh::ctx::ROOT;
use vh::{Ctx, run};

/// Enough of a JSON reader for the documentation generator's output.
#[derive(Debug, Clone)]
enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    fn parse(b: &[u8], i: &mut usize) -> J {
        let ws = |i: &mut usize| {
            while b[*i].is_ascii_whitespace() {
                *i += 1;
            }
        };
        ws(i);
        match b[*i] {
            b'{' => {
                let mut m = BTreeMap::new();
                *i += 1;
                loop {
                    ws(i);
                    if b[*i] == b'}' {
                        *i += 1;
                        return J::Obj(m);
                    }
                    if b[*i] == b',' {
                        *i += 1;
                        continue;
                    }
                    let J::Str(k) = J::parse(b, i) else { panic!("key") };
                    ws(i);
                    assert_eq!(b[*i], b':');
                    *i += 1;
                    m.insert(k, J::parse(b, i));
                }
            }
            b'[' => {
                let mut v = vec![];
                *i += 1;
                loop {
                    ws(i);
                    if b[*i] == b']' {
                        *i += 1;
                        return J::Arr(v);
                    }
                    if b[*i] == b',' {
                        *i += 1;
                        continue;
                    }
                    v.push(J::parse(b, i));
                }
            }
            b'"' => {
                *i += 1;
                let mut s = vec![];
                while b[*i] != b'"' {
                    if b[*i] == b'\\' {
                        *i += 1;
                        match b[*i] {
                            b'n' => s.push(b'\n'),
                            b't' => s.push(b'\t'),
                            b'u' => {
                                s.push(b'?');
                                *i += 4;
                            }
                            c => s.push(c),
                        }
                    } else {
                        s.push(b[*i]);
                    }
                    *i += 1;
                }
                *i += 1;
                J::Str(String::from_utf8(s).unwrap())
            }
            _ => {
                let s = *i;
                while *i < b.len() && !matches!(b[*i], b',' | b'}' | b']' | b' ' | b'\n') {
                    *i += 1;
                }
                match std::str::from_utf8(&b[s..*i]).unwrap() {
                    "null" => J::Null,
                    "true" => J::Bool(true),
                    "false" => J::Bool(false),
                    n => J::Num(n.into()),
                }
            }
        }
    }
    fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    fn text(&self) -> String {
        match self {
            J::Str(s) | J::Num(s) => s.clone(),
            J::Bool(b) => b.to_string(),
            _ => String::new(),
        }
    }
}

struct Op {
    name: String,
    builtins: bool,
    rargs: Vec<String>,
    rrets: Vec<String>,
    cargs: Vec<String>,
    crets: Vec<String>,
    path: String,
    base: String,
}

impl Op {
    fn types(&self) -> impl Iterator<Item = &String> {
        self.rargs.iter().chain(&self.rrets)
    }
    /// Class of the function: its first float, integer if there is none.
    fn group(&self) -> &str {
        self.types().map(|s| s.as_str()).find(|s| s.starts_with('f')).unwrap_or("int")
    }
    fn has(&self, t: &str) -> bool {
        self.types().any(|s| s == t)
    }
    fn field(&self, f: &str) -> String {
        let list = |v: &[String], one: bool| match v {
            [] => "()".to_string(),
            [x] if one => format!("({x},)"),
            [x] => x.clone(),
            v => format!("({})", v.join(", ")),
        };
        let func = |a: &[String], r: &[String]| format!("fn({}){}", a.join(", "), if r.is_empty() { String::new() } else { format!(" -> {}", list(r, false)) });
        match f {
            "CFn" => func(&self.cargs, &self.crets),
            "CArgs" => list(&self.cargs, true),
            "CRet" => list(&self.crets, false),
            "RustFn" => func(&self.rargs, &self.rrets),
            "RustArgs" => list(&self.rargs, true),
            "RustRet" => list(&self.rrets, false),
            _ => self.path.clone(),
        }
    }
}

const TYPES: [&str; 7] = ["CFn", "CArgs", "CRet", "RustFn", "RustArgs", "RustRet", "path"];
const PRE: &str = r#"
#![feature(f16, f128)]
#![allow(warnings)]
use std::any::type_name;
fn n(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
fn case(i: usize) { println!("case {i}"); }
fn f(k: &str, v: &str) { println!("{k} {v}"); }
macro_rules! cb {
    (fn_name: $n:ident, $($r:tt)*) => { crate::f("fn", stringify!($n)); cb2! { $($r)* } };
}
macro_rules! cb2 {
    () => {};
    (CFn: $t:ty, $($r:tt)*) => { { type X<'a> = $t; crate::f("CFn", type_name::<X<'static>>()); } cb2! { $($r)* } };
    (CArgs: $t:ty, $($r:tt)*) => { { type X<'a> = $t; crate::f("CArgs", type_name::<X<'static>>()); } cb2! { $($r)* } };
    (CRet: $t:ty, $($r:tt)*) => { { type X<'a> = $t; crate::f("CRet", type_name::<X<'static>>()); } cb2! { $($r)* } };
    (RustFn: $t:ty, $($r:tt)*) => { { type X<'a> = $t; crate::f("RustFn", type_name::<X<'static>>()); } cb2! { $($r)* } };
    (RustArgs: $t:ty, $($r:tt)*) => { { type X<'a> = $t; crate::f("RustArgs", type_name::<X<'static>>()); } cb2! { $($r)* } };
    (RustRet: $t:ty, $($r:tt)*) => { { type X<'a> = $t; crate::f("RustRet", type_name::<X<'static>>()); } cb2! { $($r)* } };
    (path: $p:path, $($r:tt)*) => { crate::f("path", &crate::n(stringify!($p))); cb2! { $($r)* } };
    (attrs: [$($a:meta),* $(,)?], $($r:tt)*) => { $( crate::f("attr", &crate::n(stringify!($a))); )* cb2! { $($r)* } };
    (extra: $e:expr, $($r:tt)*) => { crate::f("extra", &crate::n(stringify!($e))); cb2! { $($r)* } };
    (fn_extra: $e:expr, $($r:tt)*) => { crate::f("fn_extra", &crate::n(stringify!($e))); cb2! { $($r)* } };
}
macro_rules! short {
    (fn_name: $n:ident, $($r:tt)*) => { crate::f("fn", stringify!($n)); };
}
"#;

/// One use of `for_each_function!` with what the callback has to see.
struct Use {
    text: String,
    short: bool,
    want: Vec<String>,
}

#[derive(Default, Clone)]
struct Cfg {
    only: Option<Vec<usize>>,
    skip: Option<Vec<usize>>,
    nof: Option<bool>,
    nob: Option<bool>,
    emit: Option<Vec<&'static str>>,
    all: bool,
    /// attribute texts with their functions
    attrs: Vec<(Vec<&'static str>, Vec<usize>)>,
    extra: Option<&'static str>,
    /// keys with their expression; keys are names, `ALL_*` or `_`
    fn_extra: Option<Vec<(Vec<String>, String)>>,
    short: bool,
    reverse: bool,
}

fn in_group(o: &Op, k: &str) -> bool {
    match k {
        "ALL_F16" => o.group() == "f16",
        "ALL_F32" => o.group() == "f32",
        "ALL_F64" => o.group() == "f64",
        "ALL_F128" => o.group() == "f128",
        "ALL_INT" => o.group() == "int",
        "ALL_BUILTINS" => o.builtins,
        _ => o.name == k,
    }
}

fn fill(s: &str, o: &Op) -> String {
    s.replace("MACRO_FN_NAME_NORMALIZED", &o.base).replace("MACRO_FN_NAME", &o.name).chars().filter(|c| !c.is_whitespace()).collect()
}

fn make(ops: &[Op], c: &Cfg) -> Use {
    let names = |v: &[usize]| v.iter().map(|&i| ops[i].name.as_str()).collect::<Vec<_>>().join(", ");
    let mut f = vec![format!("callback: {}", if c.short { "short" } else { "cb" })];
    if c.all {
        f.push("emit_types: all".into());
    } else if let Some(e) = &c.emit {
        f.push(if e.len() == 1 { format!("emit_types: {}", e[0]) } else { format!("emit_types: [{}]", e.join(", ")) });
    }
    if let Some(v) = &c.skip {
        f.push(format!("skip: [{}]", names(v)));
    }
    if let Some(v) = &c.only {
        f.push(format!("only: [{}]", names(v)));
    }
    if let Some(b) = c.nof {
        f.push(format!("skip_f16_f128: {b}"));
    }
    if let Some(b) = c.nob {
        f.push(format!("skip_builtins: {b}"));
    }
    if !c.attrs.is_empty() {
        let l: Vec<String> = c.attrs.iter().map(|(m, v)| format!("{} [{}]", m.iter().map(|m| format!("#[{m}]")).collect::<String>(), names(v))).collect();
        f.push(format!("attributes: [{}]", l.join(", ")));
    }
    if let Some(e) = c.extra {
        f.push(format!("extra: {e}"));
    }
    if let Some(m) = &c.fn_extra {
        let l: Vec<String> = m.iter().map(|(k, e)| format!("{} => {e}", k.join(" | "))).collect();
        f.push(format!("fn_extra: match MACRO_FN_NAME {{ {} }}", l.join(", ")));
    }
    if c.reverse {
        f.reverse();
    }
    let mut want = vec![];
    for (i, o) in ops.iter().enumerate() {
        if c.only.as_ref().is_some_and(|v| !v.contains(&i)) || c.skip.as_ref().is_some_and(|v| v.contains(&i)) {
            continue;
        }
        if c.nof == Some(true) && (o.has("f16") || o.has("f128")) || c.nob == Some(true) && o.builtins {
            continue;
        }
        want.push(format!("fn {}", o.name));
        if c.short {
            continue;
        }
        let all = TYPES.to_vec();
        for t in if c.all { &all } else { c.emit.as_ref().unwrap_or(const { &vec![] }) } {
            want.push(format!("{t} {}", o.field(t)));
        }
        for (m, v) in &c.attrs {
            if v.contains(&i) {
                want.extend(m.iter().map(|m| format!("attr {}", fill(m, o))));
            }
        }
        for (t, a) in [("f16", "attr cfg(f16_enabled)"), ("f128", "attr cfg(f128_enabled)")] {
            if o.has(t) {
                want.push(a.into());
            }
        }
        if let Some(e) = c.extra {
            want.push(format!("extra {}", fill(e, o)));
        }
        if let Some(m) = &c.fn_extra {
            let e = m.iter().find(|(k, _)| k.iter().any(|k| in_group(o, k))).or_else(|| m.iter().find(|(k, _)| k[0] == "_")).unwrap();
            want.push(format!("fn_extra {}", fill(&e.1, o)));
        }
    }
    Use { text: format!("libm_macros::for_each_function! {{ {} }}", f.join(", ")), short: c.short, want }
}

struct Env {
    dir: PathBuf,
    macros: String,
    api: (String, String),
    deps: String,
}

fn rustc(e: &Env, src: &Path, out: Option<&Path>) -> (bool, String) {
    let mut c = Command::new("rustc");
    c.args(["--edition=2024", "-Copt-level=0", "-Cdebuginfo=0", "--error-format=json", "-Awarnings"]);
    c.arg(src).arg("-L").arg(format!("dependency={}", e.deps));
    c.args(["--extern", &format!("libm_macros={}", e.macros), "--extern", &format!("api_list_common={}", e.api.0), "--extern", &format!("api_list_common={}", e.api.1)]);
    match out {
        Some(o) => c.arg("-o").arg(o),
        None => c.args(["--emit=metadata", "-o"]).arg(e.dir.join("x.rmeta")),
    };
    let o = c.current_dir(&e.dir).output().unwrap();
    (o.status.success(), String::from_utf8_lossy(&o.stderr).into_owned())
}

/// Lines of the source an error was reported for.
fn error_lines(log: &str) -> BTreeMap<usize, String> {
    let mut m = BTreeMap::new();
    for l in log.lines().filter(|l| l.contains("\"level\":\"error\"")) {
        let j = J::parse(l.as_bytes(), &mut 0);
        if j.get("level").text() != "error" {
            continue;
        }
        fn spans(j: &J, v: &mut Vec<usize>) {
            if let Ok(n) = j.get("line_start").text().parse() {
                v.push(n);
            }
            if let s @ J::Obj(_) = j.get("expansion").get("span") {
                spans(s, v);
            }
        }
        let mut v = vec![];
        for s in j.get("spans").arr() {
            spans(s, &mut v);
        }
        for n in v {
            m.entry(n).or_insert(j.get("message").text());
        }
    }
    m
}

fn run_uses(ctx: &Ctx, env: &Env, name: &str, uses: Vec<Use>) {
    let parts = 8.min(uses.len());
    let cuts: Vec<Vec<(usize, &Use)>> = (0..parts).map(|p| uses.iter().enumerate().filter(|(i, _)| i % parts == p).collect()).collect();
    let results: Vec<Result<BTreeMap<usize, Vec<String>>, (usize, String)>> = std::thread::scope(|s| {
        let h: Vec<_> = cuts
            .iter()
            .enumerate()
            .map(|(p, cut)| {
                s.spawn(move || {
                    let mut t = String::from(PRE);
                    let first = t.lines().count() + 1;
                    for (i, u) in cut {
                        writeln!(t, "fn case{i}() {{ case({i}); {} }}", u.text).unwrap();
                    }
                    t += "fn main() {";
                    for (i, _) in cut {
                        write!(t, " case{i}();").unwrap();
                    }
                    t += "}\n";
                    let src = env.dir.join(format!("{name}{p}.rs").replace(' ', "_"));
                    let bin = src.with_extension("bin");
                    fs::write(&src, t).unwrap();
                    let (ok, log) = rustc(env, &src, Some(&bin));
                    if !ok {
                        let lines = error_lines(&log);
                        let (l, m) = lines.iter().next().map(|(a, b)| (*a, b.clone())).unwrap_or((0, log.chars().take(500).collect()));
                        return Err((if l >= first && l - first < cut.len() { cut[l - first].0 } else { cut[0].0 }, m));
                    }
                    let o = Command::new(&bin).output().unwrap();
                    assert!(o.status.success());
                    let mut m: BTreeMap<usize, Vec<String>> = BTreeMap::new();
                    let mut cur = 0;
                    for l in String::from_utf8(o.stdout).unwrap().lines() {
                        match l.strip_prefix("case ") {
                            Some(n) => {
                                cur = n.parse().unwrap();
                                m.insert(cur, vec![]);
                            }
                            None => m.get_mut(&cur).unwrap().push(l.to_string()),
                        }
                    }
                    Ok(m)
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut got = BTreeMap::new();
    for r in results {
        match r {
            Ok(m) => got.extend(m),
            Err((i, m)) => {
                ctx.violate("for_each_function", &uses[i].text, "an accepted invocation", &m);
                return;
            }
        }
    }
    ctx.seq(name, |w| {
        w.func("for_each_function");
        for (i, u) in uses.iter().enumerate() {
            let g = &got[&i];
            w.text(&u.text);
            if *g != u.want {
                let k = (0..).find(|&k| g.get(k) != u.want.get(k)).unwrap();
                let at = u.want[..k.min(u.want.len())].iter().rev().find(|s| s.starts_with("fn ")).cloned().unwrap_or_default();
                w.fail("for_each_function", &u.text, &format!("after {at:?}: {:?}", u.want.get(k)), &format!("{:?}", g.get(k)));
            }
            w.done(!u.want.is_empty());
        }
    });
}

fn good(ctx: &Ctx, env: &Env, ops: &[Op]) {
    let n = ops.len();
    let t = ctx.thorough;
    let at = |s: &str| ops.iter().position(|o| o.name == s).unwrap();
    let few: Vec<usize> = ["sin", "sinf", "frexp", "sincosf", "addf16", "ftoi_f128_i32", "idivmod_u64", "lgammaf_r", "fmaf128", "extend_f16_f32", "remquo", "modff"].iter().filter(|s| ops.iter().any(|o| o.name == **s)).map(|s| at(s)).collect();
    let mut v = vec![];
    let base = Cfg::default();
    // The whole list, with all types.
    v.push(make(ops, &Cfg { all: true, ..base.clone() }));
    v.push(make(ops, &base));
    // Each function alone, with everything.
    for i in 0..n {
        v.push(make(ops, &Cfg { only: Some(vec![i]), all: true, extra: Some("[MACRO_FN_NAME, MACRO_FN_NAME_NORMALIZED, 3]"), attrs: vec![(vec!["allow(unused)"], vec![i])], fn_extra: Some(vec![(vec![ops[i].name.clone()], "MACRO_FN_NAME(1)".into())]), ..base.clone() }));
    }
    run_uses(ctx, env, "single functions", v);

    // All sets of types, in both orders; all ordered pairs.
    let mut v = vec![];
    for m in 0..128u32 {
        let mut e: Vec<&'static str> = (0..7).filter(|i| m >> i & 1 == 1).map(|i| TYPES[i]).collect();
        for _ in 0..2 {
            v.push(make(ops, &Cfg { only: Some(few.clone()), emit: Some(e.clone()), ..base.clone() }));
            e.reverse();
        }
    }
    for a in 0..7 {
        for b in 0..7 {
            if a != b {
                v.push(make(ops, &Cfg { only: Some(few.clone()), emit: Some(vec![TYPES[a], TYPES[b]]), reverse: true, ..base.clone() }));
            }
        }
    }
    run_uses(ctx, env, "emitted types", v);

    // Filters.
    let mut v = vec![];
    for nof in [None, Some(false), Some(true)] {
        for nob in [None, Some(false), Some(true)] {
            for (only, skip) in [(None, None), (Some(few.clone()), None), (None, Some(few.clone())), (Some(vec![]), None), (None, Some(vec![])), (Some((0..n).collect()), None), (None, Some((0..n).rev().collect())), (Some(few.iter().rev().copied().chain(few.iter().copied()).collect()), None)] {
                for reverse in [false, true] {
                    v.push(make(ops, &Cfg { only: only.clone(), skip: skip.clone(), nof, nob, short: true, reverse, ..base.clone() }));
                }
            }
        }
    }
    run_uses(ctx, env, "filters", v);
    let mut v = vec![];
    for i in (0..n).step_by(if t { 1 } else { 3 }) {
        v.push(make(ops, &Cfg { skip: Some(vec![i]), short: true, ..base.clone() }));
    }
    run_uses(ctx, env, "one function skipped", v);
    let mut v = vec![];
    for i in 0..n {
        for j in 0..n {
            if i != j && (t || (i + n - j) % n < 4 || (i * 7 + j) % 61 == 0) {
                v.push(make(ops, &Cfg { only: Some(vec![i, j]), short: true, ..base.clone() }));
            }
        }
    }
    run_uses(ctx, env, "pairs of functions", v);

    // Attributes.
    let mut v = vec![];
    let metas: [Vec<&'static str>; 4] = [vec!["allow(unused)"], vec!["cfg(a)", "cfg(not(b))"], vec!["doc = \"x\""], vec![]];
    for a in 0..4 {
        for b in 0..4 {
            for (x, y) in [(few.clone(), few[..3].to_vec()), (few[4..].to_vec(), few.clone()), (vec![], few.clone()), (vec![few[0]], vec![few[4]])] {
                v.push(make(ops, &Cfg { only: Some(few.clone()), attrs: vec![(metas[a].clone(), x), (metas[b].clone(), y)], ..base.clone() }));
            }
        }
    }
    for i in 0..n {
        v.push(make(ops, &Cfg { only: Some(vec![i, (i + 1) % n]), attrs: vec![(vec!["cfg(a)"], vec![i])], ..base.clone() }));
    }
    run_uses(ctx, env, "attributes", v);

    // Expressions passed on, with names filled in.
    let mut v = vec![];
    for e in ["[foo]", "[]", "MACRO_FN_NAME", "MACRO_FN_NAME_NORMALIZED", "|x: f32| x.MACRO_FN_NAME_NORMALIZED()", "a::MACRO_FN_NAME::<b>(MACRO_FN_NAME_NORMALIZED, 1 + MACRO_FN_NAME)", "{ let MACRO_FN_NAME = 1; MACRO_FN_NAME }"] {
        v.push(make(ops, &Cfg { extra: Some(e), ..base.clone() }));
        v.push(make(ops, &Cfg { fn_extra: Some(vec![(vec!["_".into()], e.into())]), ..base.clone() }));
    }
    run_uses(ctx, env, "expressions", v);
    let mut v = vec![];
    let groups = ["ALL_F16", "ALL_F32", "ALL_F64", "ALL_F128", "ALL_INT"];
    for m in 0..32u32 {
        for joined in [false, true] {
            for default in [false, true] {
                let keys: Vec<String> = (0..5).filter(|i| m >> i & 1 == 1).map(|i| groups[i].to_string()).collect();
                let mut map: Vec<(Vec<String>, String)> = if joined && !keys.is_empty() { vec![(keys, "group(MACRO_FN_NAME)".into())] } else { keys.into_iter().map(|k| (vec![k.clone()], format!("{}(MACRO_FN_NAME)", k.to_lowercase()))).collect() };
                if default || m != 31 {
                    map.insert(if default { 0 } else { map.len() }, (vec!["_".into()], "other(MACRO_FN_NAME_NORMALIZED)".into()));
                }
                v.push(make(ops, &Cfg { fn_extra: Some(map), ..base.clone() }));
            }
        }
    }
    v.push(make(ops, &Cfg { fn_extra: Some(vec![(vec!["ALL_BUILTINS".into()], "b(MACRO_FN_NAME)".into()), (vec!["_".into()], "m(MACRO_FN_NAME)".into())]), ..base.clone() }));
    v.push(make(ops, &Cfg { nob: Some(false), only: Some((0..n).filter(|&i| ops[i].builtins).collect()), fn_extra: Some(vec![(vec!["ALL_BUILTINS".into()], "b(MACRO_FN_NAME)".into())]), ..base.clone() }));
    for w in [1usize, 2, 5] {
        for i in (0..n).step_by(if t { 1 } else { 7 }) {
            let keys: Vec<String> = (0..w).map(|k| ops[(i + k * 37) % n].name.clone()).collect::<BTreeSet<_>>().into_iter().collect();
            v.push(make(ops, &Cfg { only: Some(vec![i, (i + 37) % n, (i + 5) % n]), fn_extra: Some(vec![(keys, "listed(MACRO_FN_NAME)".into()), (vec!["_".into()], "1".into())]), ..base.clone() }));
        }
    }
    // No default needed if every function left is covered.
    for i in 0..n {
        v.push(make(ops, &Cfg { only: Some(vec![i]), fn_extra: Some(vec![(vec![ops[i].name.clone()], "1".into()), (vec![ops[(i + 1) % n].name.clone()], "2".into())]), ..base.clone() }));
    }
    run_uses(ctx, env, "expressions by function", v);
}

fn bad(ctx: &Ctx, env: &Env, ops: &[Op]) {
    let n = ops.len();
    let each = |s: &str| format!("libm_macros::for_each_function! {{ {s} }}");
    // (text, has to be rejected)
    let mut v: Vec<(String, bool)> = vec![];
    let names: BTreeSet<&str> = ops.iter().map(|o| o.name.as_str()).collect();
    let mut wrong = BTreeSet::new();
    for o in ops {
        let s = &o.name;
        for w in [format!("{s}x"), s[..s.len() - 1].to_string(), format!("{s}f"), s.to_uppercase(), s[1..].to_string(), format!("r#{s}_")] {
            if !names.contains(w.as_str()) && w.starts_with(|c: char| c.is_ascii_alphabetic()) && !["if", "do", "as", "in", "fn", "for", "ALL_F16"].contains(&w.as_str()) {
                wrong.insert(w);
            }
        }
    }
    for (i, w) in wrong.iter().enumerate() {
        for k in 0..4 {
            if k != i % 4 && !ctx.thorough {
                continue;
            }
            v.push((
                each(&match k {
                    0 => format!("callback: no, only: [sin, {w}]"),
                    1 => format!("callback: no, skip: [{w}, cos]"),
                    2 => format!("callback: no, attributes: [#[a] [sin, {w}]]"),
                    _ => format!("callback: no, fn_extra: match MACRO_FN_NAME {{ {w} => 1, _ => 2 }}"),
                }),
                true,
            ));
        }
    }
    // Fields missing, unknown or given twice; conflicting fields.
    let fields = ["callback: no", "emit_types: [CFn]", "skip: [sin]", "skip_f16_f128: true", "skip_builtins: true", "only: [sin]", "attributes: [#[a] [sin]]", "extra: 1", "fn_extra: match MACRO_FN_NAME { _ => 1 }"];
    for m in 0..512u32 {
        let l: Vec<&str> = (0..9).filter(|i| m >> i & 1 == 1).map(|i| fields[i]).collect();
        v.push((each(&l.join(", ")), m & 1 == 0 || m & 0x24 == 0x24));
    }
    for a in 1..9 {
        v.push((each(&format!("callback: no, {}, {}", fields[a], fields[a])), true));
        v.push((each(&format!("{}, callback: no, callback: no", fields[a])), true));
        v.push((each(&format!("callback: no, {}, unknown: 1", fields[a])), true));
        v.push((each(&format!("callback: no, {},", fields[a])), false));
        v.push((each(&format!("callback: no; {}", fields[a])), true));
    }
    for (s, e) in [
        ("emit_types: [all]", false),
        ("emit_types: all", false),
        ("emit_types: []", false),
        ("emit_types: [all, CFn]", true),
        ("emit_types: [CFn, all]", true),
        ("emit_types: [all, all]", true),
        ("emit_types: none", true),
        ("emit_types: [cfn]", true),
        ("emit_types: [RustFn, Path]", true),
        ("emit_types: (CFn)", true),
        ("skip: sin", true),
        ("skip: [1]", true),
        ("only: sin", true),
        ("only: [sin, 2]", true),
        ("skip_f16_f128: 1", true),
        ("skip_f16_f128: yes", true),
        ("skip_builtins: 0", true),
        ("skip_builtins: [true]", true),
        ("extra: MACRO", true),
        ("extra: MACRO_FN", true),
        ("extra: [1, MACRO_FN_NAMES]", true),
        ("extra: |x| x.MACRO_FN_NAME_NORMALISED()", true),
        ("extra: MACRO_FN_NAME", false),
        ("extra: AMACRO", false),
        ("fn_extra: 1", true),
        ("fn_extra: MACRO_FN_NAME", true),
        ("fn_extra: match sin { _ => 1 }", true),
        ("fn_extra: match MACRO_FN_NAME_NORMALIZED { _ => 1 }", true),
        ("fn_extra: match MACRO_FN_NAME { 1 => 1, _ => 1 }", true),
        ("fn_extra: match MACRO_FN_NAME { sin => 1, sin => 2, _ => 1 }", true),
        ("fn_extra: match MACRO_FN_NAME { sin | sin => 1, _ => 1 }", true),
        ("fn_extra: match MACRO_FN_NAME { sin | cos => 1, tan | cos => 2, _ => 1 }", true),
        ("fn_extra: match MACRO_FN_NAME { _ => 1, _ => 2 }", true),
        ("fn_extra: match MACRO_FN_NAME { sin => MACRO_NAME, _ => 1 }", true),
        ("fn_extra: match MACRO_FN_NAME { sin => 1, _ => MACRO_NAME }", true),
        ("fn_extra: match MACRO_FN_NAME { #[a] sin => 1, _ => 1 }", true),
        ("fn_extra: match MACRO_FN_NAME { ALL_F32 => 1, ALL_F64 => 1 }", true),
        ("fn_extra: match MACRO_FN_NAME { ALL_F80 => 1, _ => 1 }", true),
        ("fn_extra: match MACRO_FN_NAME { ALL_F16 | ALL_F32 | ALL_F64 | ALL_F128 | ALL_INT => 1 }", false),
        ("fn_extra: match MACRO_FN_NAME { ALL_BUILTINS => 1, _ => 1 }", false),
        ("fn_extra: match MACRO_FN_NAME { ALL_BUILTINS => 1 }", true),
        ("fn_extra: match MACRO_FN_NAME { }", true),
        ("only: [], fn_extra: match MACRO_FN_NAME { }", false),
        ("attributes: 1", true),
        ("attributes: [sin]", true),
        ("attributes: [#[a] sin]", true),
        ("attributes: [#[a] [sin], #[b] [cosine]]", true),
        ("attributes: [#[a] [sin], #[b] [cos]]", false),
    ] {
        v.push((each(&format!("callback: no, {s}")), e));
        v.push((each(&format!("{s}, callback: no")), e));
    }
    // Each function alone left uncovered, and all but each group.
    for i in 0..n {
        let rest: Vec<&str> = (0..n).filter(|&j| j != i).map(|j| ops[j].name.as_str()).collect();
        v.push((each(&format!("callback: no, fn_extra: match MACRO_FN_NAME {{ {} => 1 }}", rest.join(" | "))), true));
        v.push((each(&format!("callback: no, skip: [{}], fn_extra: match MACRO_FN_NAME {{ {} => 1 }}", ops[i].name, rest.join(" | "))), false));
    }
    let g = ["ALL_F16", "ALL_F32", "ALL_F64", "ALL_F128", "ALL_INT"];
    for m in 0..31u32 {
        let l: Vec<String> = (0..5).filter(|i| m >> i & 1 == 1).map(|i| format!("{} => 1", g[i])).collect();
        v.push((each(&format!("callback: no, fn_extra: match MACRO_FN_NAME {{ {} }}", l.join(", "))), true));
    }
    for (s, e) in [
        ("#[libm_macros::function_enum(B)] pub enum E {} #[libm_macros::base_name_enum] pub enum B {}", false),
        ("#[libm_macros::function_enum] pub enum E {} #[libm_macros::base_name_enum] pub enum B {}", true),
        ("#[libm_macros::function_enum(1)] pub enum E {} #[libm_macros::base_name_enum] pub enum B {}", true),
        ("#[libm_macros::function_enum(B, B)] pub enum E {} #[libm_macros::base_name_enum] pub enum B {}", true),
        ("#[libm_macros::function_enum(B)] pub enum E { Sin } #[libm_macros::base_name_enum] pub enum B {}", true),
        ("#[libm_macros::function_enum(B)] pub enum E { A } #[libm_macros::base_name_enum] pub enum B {}", true),
        ("#[libm_macros::base_name_enum(B)] pub enum B {}", true),
        ("#[libm_macros::base_name_enum] pub enum B { A }", true),
        ("#[libm_macros::base_name_enum] pub enum B {}", false),
        ("#[libm_macros::base_name_enum] pub struct B;", true),
        ("#[libm_macros::function_enum(B)] pub struct B;", true),
    ] {
        v.push((s.to_string(), e));
    }
    let parts = 8;
    let mut at: Vec<Vec<usize>> = vec![vec![]; parts];
    for i in 0..v.len() {
        at[i % parts].push(i);
    }
    let v = &v;
    let got: Vec<(BTreeMap<usize, String>, Vec<usize>)> = std::thread::scope(|s| {
        let h: Vec<_> = at
            .into_iter()
            .enumerate()
            .map(|(p, l)| {
                s.spawn(move || {
                    // One case to a line; line 1 is the preamble.
                    let mut t = String::from("#![feature(f16, f128)] #![allow(warnings)] macro_rules! no { ($($t:tt)*) => {} }\n");
                    for &i in &l {
                        writeln!(t, "mod m{i} {{ {} }}", v[i].0).unwrap();
                    }
                    t += "fn main() {}\n";
                    let src = env.dir.join(format!("bad{p}.rs"));
                    fs::write(&src, t).unwrap();
                    let e = Env { dir: env.dir.join(format!("bad{p}")), macros: env.macros.clone(), api: env.api.clone(), deps: env.deps.clone() };
                    fs::create_dir_all(&e.dir).unwrap();
                    let (_, log) = rustc(&e, &src, None);
                    (error_lines(&log), l)
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    ctx.seq("accepted or rejected", |w| {
        w.func("libm_macros");
        for (errs, l) in &got {
            for (k, &i) in l.iter().enumerate() {
                let (text, want) = &v[i];
                w.text(text);
                let e = errs.get(&(k + 2));
                if e.is_some() != *want {
                    w.fail("libm_macros", text, if *want { "a compile error" } else { "accepted" }, &format!("{e:?}"));
                }
                w.done(*want);
            }
        }
    });
}

/// The part of a name left when the type is taken away.
fn base(name: &str, builtins: bool, names: &BTreeSet<String>) -> String {
    const T: [&str; 10] = ["f16", "f32", "f64", "f128", "i32", "i64", "i128", "u32", "u64", "u128"];
    if builtins {
        let mut s = name;
        while let Some(r) = T.iter().find_map(|t| s.strip_suffix(t)) {
            s = r.strip_suffix('_').unwrap_or(r);
        }
        return s.into();
    }
    if let Some(r) = ["f16", "f128"].iter().find_map(|t| name.strip_suffix(t)) {
        return r.into();
    }
    if let Some(r) = name.strip_suffix("f_r") {
        return format!("{r}_r");
    }
    match name.strip_suffix('f') {
        Some(r) if names.contains(r) => r.into(),
        _ => name.into(),
    }
}

fn camel(s: &str) -> String {
    s.split('_').map(|p| p[..1].to_uppercase() + &p[1..]).collect()
}

/// Reads the list through a program linked with the crate, and looks at the enumerations made of it.
fn list(ctx: &Ctx, env: &Env) -> Vec<Op> {
    let src = env.dir.join("list.rs");
    let bin = env.dir.join("list");
    fs::write(
        &src,
        r#"use api_list_common::*;
fn l(v: &[Ty]) -> String { v.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(";") }
fn main() {
    for o in ALL_OPERATIONS.iter() {
        println!("{}|{}|{}|{}|{}|{}|{}|{:?}|{}", o.name, o.scope.defined_in_compiler_builtins(), l(o.rust_sig.args), l(o.rust_sig.returns), l(o.c_sig.args), l(o.c_sig.returns), o.path, o.group, o.rust_sig.args.iter().chain(o.rust_sig.returns).map(|t| t.effective_bits().to_string()).collect::<Vec<_>>().join(";"));
    }
}
"#,
    )
    .unwrap();
    let (ok, log) = rustc(env, &src, Some(&bin));
    if !ok {
        println!("{log}");
        exit(2);
    }
    let o = Command::new(&bin).output().unwrap();
    let mut ops = vec![];
    let mut more = vec![];
    for l in String::from_utf8(o.stdout).unwrap().lines() {
        let f: Vec<&str> = l.split('|').collect();
        let ty = |s: &str| s.split(';').filter(|s| !s.is_empty()).map(|s| s.replace("::core::ffi::c_int", "i32")).collect::<Vec<_>>();
        ops.push(Op { name: f[0].into(), builtins: f[1] == "true", rargs: ty(f[2]), rrets: ty(f[3]), cargs: ty(f[4]), crets: ty(f[5]), path: f[6].into(), base: String::new() });
        more.push((f[7].to_string(), f[8].to_string()));
    }
    let names: BTreeSet<String> = ops.iter().map(|o| o.name.clone()).collect();
    for o in &mut ops {
        o.base = base(&o.name, o.builtins, &names);
    }
    ctx.seq("the list", |w| {
        w.func("ALL_OPERATIONS");
        for (i, o) in ops.iter().enumerate() {
            w.text(&o.name);
            if i > 0 && ops[i - 1].name >= o.name {
                w.fail("ALL_OPERATIONS", &o.name, "sorted, every function once", &format!("after {}", ops[i - 1].name));
            }
            let root = if o.builtins { "crate::builtins_wrapper" } else { "libm" };
            if o.path != format!("{root}::{}", o.name) {
                w.fail("ALL_OPERATIONS", &o.name, &format!("{root}::{}", o.name), &o.path);
            }
            let g = match o.group() {
                "int" => "Integer".to_string(),
                g => g.to_uppercase(),
            };
            if more[i].0 != g {
                w.fail("group", &o.name, &g, &more[i].0);
            }
            let bits: Vec<&str> = o.types().map(|t| if t == "bool" { "1" } else if t == "usize" { "64" } else { t.trim_start_matches(['f', 'i', 'u']) }).collect();
            if more[i].1 != bits.join(";") {
                w.fail("effective_bits", &o.name, &bits.join(";"), &more[i].1);
            }
            // Results after the first are stored through pointers in C; the wrappers are called as they are.
            let (mut a, mut r) = (o.rargs.clone(), o.rrets.clone());
            if !o.builtins && r.len() > 1 {
                let keep = if o.base == "sincos" { 0 } else { 1 };
                for x in r.split_off(keep) {
                    a.push(format!("&mut {x}"));
                }
            }
            if (&a, &r) != (&o.cargs, &o.crets) {
                w.fail("c_sig", &o.name, &format!("{a:?} -> {r:?}"), &format!("{:?} -> {:?}", o.cargs, o.crets));
            }
            // The types named in a wrapper's name are its types.
            if o.builtins {
                let mut s = o.name.as_str();
                let mut suffix = vec![];
                while let Some(t) = ["f16", "f32", "f64", "f128", "i32", "i64", "i128", "u32", "u64", "u128"].iter().find(|t| s.ends_with(**t)) {
                    s = s.strip_suffix(t).unwrap().trim_end_matches('_');
                    suffix.insert(0, *t);
                }
                let ok = match &suffix[..] {
                    [t] => o.rargs[0] == *t,
                    [a, b] => o.rargs == [*a] && o.rrets == [*b],
                    _ => false,
                };
                if !ok {
                    w.fail("rust_sig", &o.name, &format!("{suffix:?}"), &format!("{:?} -> {:?}", o.rargs, o.rrets));
                }
            }
            w.done(true);
        }
    });
    // The enumerations.
    let src = env.dir.join("enums.rs");
    let bin = env.dir.join("enums");
    let mut probes: BTreeSet<String> = names.clone();
    for n in &names {
        probes.extend([format!("{n}f"), format!("{n} "), n[1..].into(), n[..n.len() - 1].into(), n.to_uppercase(), camel(n)]);
    }
    probes.insert(String::new());
    let probes: Vec<String> = probes.into_iter().collect();
    fs::write(
        &src,
        format!(
            r#"#[libm_macros::function_enum(Base)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Func {{}}
#[libm_macros::base_name_enum]
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Base {{}}
fn main() {{
    for (i, f) in Func::ALL.iter().enumerate() {{
        assert_eq!(i, *f as usize);
        println!("f|{{}}|{{:?}}|{{}}|{{:?}}", f.as_str(), f, f.base_name().as_str(), f.base_name());
    }}
    for p in {probes:?} {{
        println!("p|{{p}}|{{:?}}", Func::from_str(p).map(|f| f.as_str()));
    }}
}}
"#
        ),
    )
    .unwrap();
    let (ok, log) = rustc(env, &src, Some(&bin));
    if !ok {
        ctx.violate("function_enum", "empty enumerations", "accepted", &log.chars().take(600).collect::<String>());
        return ops;
    }
    let o = Command::new(&bin).output().unwrap();
    let text = String::from_utf8(o.stdout).unwrap();
    if !o.status.success() {
        ctx.violate("function_enum", "ALL", "all values in order", &String::from_utf8_lossy(&o.stderr));
        return ops;
    }
    ctx.seq("the enumerations", |w| {
        w.func("function_enum");
        let f: Vec<&str> = text.lines().filter_map(|l| l.strip_prefix("f|")).collect();
        for i in 0..f.len().max(ops.len()) {
            let want = ops.get(i).map(|o| format!("{}|{}|{}|{}", o.name, camel(&o.name), o.base, camel(&o.base)));
            w.text(want.as_deref().unwrap_or(""));
            if f.get(i).copied() != want.as_deref() {
                w.fail("function_enum", &ops.get(i).map(|o| o.name.clone()).unwrap_or_default(), &format!("{want:?}"), &format!("{:?}", f.get(i)));
            }
            w.done(true);
        }
        for l in text.lines().filter_map(|l| l.strip_prefix("p|")) {
            let (p, r) = l.split_once('|').unwrap();
            w.text(p);
            let want = if names.contains(p) { format!("Some({p:?})") } else { "None".into() };
            if r != want {
                w.fail("from_str", p, &want, r);
            }
            w.done(names.contains(p));
        }
    });
    ops
}

/// Compares the list with the functions the documentation generator finds in the crate root.
fn public(ctx: &Ctx, ops: &[Op], doc: &str) {
    let t = fs::read(doc).unwrap();
    let j = J::parse(&t, &mut 0);
    let ix = j.get("index");
    fn ty(j: &J) -> String {
        if let J::Str(s) = j.get("primitive") {
            return s.clone();
        }
        if let J::Arr(v) = j.get("tuple") {
            return v.iter().map(ty).collect::<Vec<_>>().join(";");
        }
        match j {
            J::Null => String::new(),
            j => format!("{j:?}"),
        }
    }
    let mut found: BTreeMap<String, (String, String)> = BTreeMap::new();
    let mut todo = vec![j.get("root").text()];
    let mut first = true;
    while let Some(id) = todo.pop() {
        let m = ix.get(&id).get("inner").get("module");
        if !first && matches!(m, J::Null) {
            continue;
        }
        first = false;
        for i in m.get("items").arr() {
            let it = ix.get(&i.text());
            let mut name = it.get("name").text();
            let mut f = it.get("inner").get("function");
            let u = it.get("inner").get("use");
            if let J::Obj(_) = u {
                let id = u.get("id").text();
                if u.get("is_glob").text() == "true" {
                    todo.push(id);
                    continue;
                }
                name = u.get("name").text();
                f = ix.get(&id).get("inner").get("function");
            }
            if let J::Obj(_) = f {
                let a: Vec<String> = f.get("sig").get("inputs").arr().iter().map(|a| ty(&a.arr()[1])).collect();
                found.insert(name, (a.join(";"), ty(f.get("sig").get("output"))));
            }
        }
    }
    let text = fs::read_to_string("/repo/etc/function-list.txt").unwrap();
    let file: Vec<&str> = text.lines().filter(|l| !l.starts_with('#') && !l.is_empty()).collect();
    ctx.seq("the public interface", |w| {
        w.func("ALL_OPERATIONS");
        let listed: BTreeMap<&str, &Op> = ops.iter().filter(|o| !o.builtins).map(|o| (o.name.as_str(), o)).collect();
        let all: BTreeSet<&str> = found.keys().map(|s| s.as_str()).chain(listed.keys().copied()).chain(file.iter().copied()).collect();
        for n in all {
            w.text(n);
            let d = found.get(n).map(|(a, r)| format!("({a}) -> {r}"));
            let l = listed.get(n).map(|o| format!("({}) -> {}", o.rargs.join(";"), o.rrets.join(";")));
            if d != l {
                w.fail("ALL_OPERATIONS", n, &format!("{d:?} as in the public interface"), &format!("{l:?}"));
            }
            let k = file.iter().filter(|f| **f == n).count();
            if k != d.is_some() as usize {
                w.fail("function-list.txt", n, &format!("{} times", d.is_some() as usize), &format!("{k} times"));
            }
            w.done(true);
        }
    });
}

fn main() {
    let target = format!("{ROOT}/target/tools");
    let o = Command::new("cargo")
        .args(["-Zchecksum-freshness", "build", "--release", "--locked", "--manifest-path", "/repo/Cargo.toml", "-p", "libm-macros", "-p", "api-list-common", "--message-format=json"])
        .env("CARGO_TARGET_DIR", &target)
        .current_dir("/repo")
        .output()
        .unwrap();
    let d = Command::new("cargo")
        .args(["-Zchecksum-freshness", "rustdoc", "--locked", "--manifest-path", "/repo/Cargo.toml", "-p", "libm", "--lib", "--features", "unstable-float", "--", "-Zunstable-options", "--output-format", "json"])
        .env("CARGO_TARGET_DIR", &target)
        .current_dir("/repo")
        .output()
        .unwrap();
    for o in [&o, &d] {
        if !o.status.success() {
            println!("{}", String::from_utf8_lossy(&o.stderr));
            exit(2);
        }
    }
    if std::env::args().nth(1).as_deref() == Some("build") {
        return;
    }
    // The compiled crates.
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    let file = |crate_name: &str, ext: &str| {
        text.lines()
            .map(|l| J::parse(l.as_bytes(), &mut 0))
            .filter(|j| j.get("reason").text() == "compiler-artifact" && j.get("target").get("name").text() == crate_name)
            .flat_map(|j| j.get("filenames").arr().to_vec())
            .map(|f| f.text())
            .find(|f| f.ends_with(ext))
            .unwrap()
    };
    let (macros, api) = (file("libm_macros", ".so"), (file("api_list_common", ".rlib"), file("api_list_common", ".rmeta")));
    run("C54", "exploration", |ctx| {
        ctx.rule("every function of the list against the public interface; every function alone, skipped, or paired with others; all sets of emitted types; all filter settings; attributes, passed expressions and match arms over all groups; malformed uses: wrong names made from every right one, all subsets of fields, doubled fields, every function left uncovered; nontrivial = the callback is called, or the use has to be rejected");
        ctx.assume("which arm wins if a function is named both by itself and by a group is not fixed");
        let dir = PathBuf::from(format!("{ROOT}/target/c54-{}", std::process::id()));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).unwrap();
        let deps = Path::new(&macros).parent().unwrap().join("deps").display().to_string();
        let env = Env { dir: dir.clone(), macros: macros.clone(), api: api.clone(), deps };
        let ops = list(ctx, &env);
        public(ctx, &ops, &format!("{target}/doc/libm.json"));
        if ops.len() > 10 {
            good(ctx, &env, &ops);
            bad(ctx, &env, &ops);
        }
        fs::remove_dir_all(&dir).unwrap();
    });
}
