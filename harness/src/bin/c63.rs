//! The generator of the function lists: run as a process on small made-up libraries.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path;
use std::process::{Command, Stdio};
use vh::{Worker, ctx::ROOT, run};

/// One function name with its precisions: names for the four types.
struct Base {
    name: &'static str,
    of: [&'static str; 4],
}
const TYPES: [&str; 4] = ["f16", "f32", "f64", "f128"];
const BASES: [Base; 9] = [
    Base { name: "foo", of: ["foof16", "foof", "foo", "foof128"] },
    Base { name: "bar2", of: ["bar2f16", "bar2f", "bar2", "bar2f128"] },
    Base { name: "bar1", of: ["bar1f16", "bar1f", "bar1", "bar1f128"] },
    Base { name: "log8", of: ["log8f16", "log8f", "log8", "log8f128"] },
    Base { name: "log6", of: ["log6f16", "log6f", "log6", "log6f128"] },
    Base { name: "num_x", of: ["num_xf16", "num_xf", "num_x", "num_xf128"] },
    Base { name: "erf", of: ["", "erff", "erf", ""] },
    Base { name: "modf", of: ["", "modff", "modf", ""] },
    Base { name: "lgamma_r", of: ["", "lgammaf_r", "lgamma_r", ""] },
];

/// A made-up library: per base which precisions are public or private and where the code is.
#[derive(Clone, Default)]
struct Lib {
    files: BTreeMap<String, String>,
    public: BTreeSet<String>,
    /// files that have to be named, and files that may be
    must: BTreeMap<String, BTreeSet<String>>,
    may: BTreeMap<String, BTreeSet<String>>,
    ty: BTreeMap<String, &'static str>,
}
#[derive(Clone, Copy, Debug)]
struct Shape {
    base: usize,
    /// precisions there are (the double form always), and those of them that are public
    has: usize,
    public: usize,
    /// bit 0 generic code, 1 helper with `_round` in the generic file, 2 helper with `_status` in the file of its own,
    /// 3 a file for another machine that is not compiled in, 4 a mention in a file that does not count,
    /// 5 all precisions in one file, 6 a method of the same name in another place,
    /// 7 the files that do not count and those for another machine have every precision, with other signatures,
    /// 8 the functions are exported at the top of the library and not by the math module
    place: usize,
}

fn lib(shapes: &[Shape]) -> Lib {
    let mut l = Lib::default();
    let mut mods = String::new();
    let mut uses = String::new();
    let mut top = String::new();
    let mut generic = String::new();
    let mut arch = String::new();
    let mut helper = String::from("pub fn helper_only() {}\n");
    let mut traits = String::new();
    for s in shapes {
        let b = &BASES[s.base];
        let mut gen_files = BTreeSet::new();
        if s.place & 1 == 1 {
            let f = format!("libm/src/math/generic/{}.rs", b.name);
            let mut t = format!("pub fn {}<T: Copy>(x: T) -> T {{ x }}\n", b.name);
            if s.place & 2 == 2 {
                t += &format!("pub fn {}_round<T: Copy>(x: T) -> T {{ x }}\n", b.name);
            }
            generic += &format!("pub mod {};\n", b.name);
            l.files.insert(f.clone(), t);
            gen_files.insert(f);
        }
        if s.place & 8 == 8 {
            // Not compiled in: only its text is there.
            for (d, q) in [("other/", "pub(crate) unsafe"), ("other/deep/x/", "pub unsafe"), ("", "pub(super)")] {
                let t = if s.place & 128 == 0 { format!("pub fn {}(x: f64) -> f64 {{ x }}\n", b.of[2]) } else { b.of.iter().filter(|n| !n.is_empty()).map(|n| format!("{q} fn {n}(x: f64) -> f64 {{ x }}\n")).collect() };
                l.files.insert(format!("libm/src/math/arch/{d}{}.rs", b.name), t);
            }
            arch += &format!("#[cfg(any())]\npub mod {};\n", b.name);
        }
        if s.place & 16 == 16 {
            for (k, n) in b.of.iter().enumerate().filter(|(k, n)| !n.is_empty() && (*k == 2 || s.place & 128 == 128)) {
                helper += &format!("pub struct H{0}{k};\nimpl H{0}{k} {{ pub fn {n}(x: f64) -> f64 {{ x }} }}\n", s.base);
            }
        }
        if s.place & 64 == 64 {
            for (_, n) in b.of.iter().enumerate().filter(|(k, n)| !n.is_empty() && (*k == 2 || s.place & 128 == 128)) {
                traits += &format!("pub fn {n}(x: f64) -> f64 {{ x }}\n");
            }
        }
        for k in (0..4).filter(|k| s.has >> k & 1 == 1 && !b.of[*k].is_empty()) {
            let n = b.of[k];
            let t = if k == 1 { "f32" } else { "f64" };
            let m = if s.place & 32 == 32 { b.name } else { n };
            let f = format!("libm/src/math/{m}.rs");
            let e = l.files.entry(f.clone()).or_insert_with(|| {
                mods += &format!("pub(crate) mod {m};\n");
                String::new()
            });
            *e += &format!("pub fn {n}(x: {t}) -> {t} {{ x }}\n");
            if s.place & 4 == 4 {
                *e += &format!("pub(crate) fn {n}_status(x: {t}) -> {t} {{ x }}\n");
                for h in ["round", "status", "other"] {
                    l.files.insert(format!("libm/src/math/{n}_in_{h}.rs"), format!("pub(crate) fn {n}_{h}(x: {t}) -> {t} {{ x }}\n"));
                    mods += &format!("mod {n}_in_{h};\n");
                }
            }
            if s.public >> k & 1 == 1 {
                if s.place & 256 == 256 {
                    top += &format!("pub use self::math::{m}::{n};\n");
                } else {
                    uses += &format!("pub use self::{m}::{n};\n");
                }
                l.public.insert(n.into());
                l.ty.insert(n.into(), TYPES[k]);
                let e = l.must.entry(n.into()).or_default();
                e.insert(f);
                e.extend(gen_files.clone());
                if s.place & 4 == 4 {
                    e.extend(["round", "status"].map(|h| format!("libm/src/math/{n}_in_{h}.rs")));
                }
                if s.place & 8 == 8 && (k == 2 || s.place & 128 == 128) {
                    e.extend(["other/", "other/deep/x/", ""].map(|d| format!("libm/src/math/arch/{d}{}.rs", b.name)));
                }
            } else if s.has >> k & 1 == 1 {
                uses += &format!("pub(crate) use self::{m}::{n};\n");
            }
        }
    }
    if !traits.is_empty() {
        l.files.insert("libm/src/math/support/float_traits.rs".into(), traits);
        mods += "pub mod support { pub mod float_traits; }\n";
    }
    l.files.insert("libm/src/math/arch/mod.rs".into(), format!("pub mod other {{\n{arch}}}\n"));
    generic += "pub use self::inner::only_here;\nmod inner { pub fn only_here() {} }\n";
    l.files.insert("libm/src/math/generic/mod.rs".into(), generic);
    l.files.insert("libm/src/math/mod.rs".into(), format!("pub mod generic;\nmod arch;\n{mods}{uses}pub use core::hint::black_box;\npub use self::hidden::Thing;\nmod hidden {{ pub struct Thing; pub fn not_exported() {{}} }}\n"));
    l.files.insert("libm/src/libm_helper.rs".into(), helper);
    l.files.insert("libm/src/lib.rs".into(), format!("#![no_std]\n#![allow(unused)]\nmod math;\nmod libm_helper;\npub use self::math::*;\n{top}"));
    l
}

fn tool(dir: &str, args: &[&str]) -> Option<i32> {
    Command::new("python3").arg(format!("{dir}/etc/update-api-list.py")).args(args).current_dir(dir).env("PYTHONDONTWRITEBYTECODE", "1").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap().code()
}

/// Strings in the order of a JSON object of objects: name, list of sources, type.
fn parse(t: &str) -> Option<BTreeMap<String, (Vec<String>, String)>> {
    let mut tok = vec![];
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '"' => {
                let s: String = it.by_ref().take_while(|c| *c != '"').collect();
                tok.push(format!("\"{s}"));
            }
            '{' | '}' | '[' | ']' | ':' => tok.push(c.to_string()),
            _ => {}
        }
    }
    let mut o = BTreeMap::new();
    let mut i = 1;
    while tok.get(i)? != "}" {
        let name = tok[i].strip_prefix('"')?.to_string();
        if tok.get(i + 2)? != "{" {
            i += 3;
            continue;
        }
        i += 3;
        let (mut src, mut ty) = (None, None);
        while tok.get(i)? != "}" {
            match tok[i].as_str() {
                "\"sources" => {
                    i += 3;
                    let mut v = vec![];
                    while tok.get(i)? != "]" {
                        v.push(tok[i].strip_prefix('"')?.to_string());
                        i += 1;
                    }
                    src = Some(v);
                    i += 1;
                }
                "\"type" => {
                    ty = Some(tok.get(i + 2)?.strip_prefix('"')?.to_string());
                    i += 3;
                }
                _ => return None,
            }
        }
        i += 1;
        o.insert(name, (src?, ty?));
    }
    Some(o)
}

fn judge(w: &mut Worker, dir: &str, shapes: &[Shape], edits: bool) {
    let name = "update-api-list";
    w.func(name);
    let l = lib(shapes);
    let input = shapes.iter().map(|s| format!("{}: has {:04b} public {:04b} place {:b}", BASES[s.base].name, s.has, s.public, s.place)).collect::<Vec<_>>().join("; ");
    w.text(&input);
    w.beat();
    for (f, t) in &l.files {
        let p = format!("{dir}/{f}");
        fs::create_dir_all(Path::new(&p).parent().unwrap()).unwrap();
        fs::write(p, t).unwrap();
    }
    fs::create_dir_all(format!("{dir}/etc")).unwrap();
    fs::copy("/repo/etc/update-api-list.py", format!("{dir}/etc/update-api-list.py")).unwrap();
    let (pl, pd) = (format!("{dir}/etc/function-list.txt"), format!("{dir}/etc/function-definitions.json"));
    let code = tool(dir, &[]);
    if code != Some(0) {
        w.fail(name, &input, "lists written", &format!("{code:?}"));
        return;
    }
    let list = fs::read_to_string(&pl).unwrap();
    let defs = fs::read_to_string(&pd).unwrap();
    let got: Vec<String> = list.lines().filter(|x| !x.starts_with('#')).map(String::from).collect();
    let want: Vec<String> = l.public.iter().cloned().collect();
    if got != want {
        w.fail(name, &input, &format!("{want:?}"), &format!("{got:?}"));
    }
    let d = parse(&defs).unwrap_or_default();
    if d.keys().collect::<Vec<_>>() != l.public.iter().collect::<Vec<_>>() {
        w.fail(name, &input, &format!("definitions of {:?}", l.public), &format!("{:?}", d.keys()));
    }
    for (n, (src, ty)) in &d {
        let s: BTreeSet<String> = src.iter().cloned().collect();
        let may: BTreeSet<String> = l.must[n].union(l.may.get(n).unwrap_or(&BTreeSet::new())).cloned().collect();
        if !s.is_superset(&l.must[n]) || !s.is_subset(&may) || src.len() != s.len() {
            w.fail(name, &format!("{input}; files of {n}"), &format!("{:?}", l.must[n]), &format!("{src:?}"));
        }
        if ty != l.ty[n] {
            w.fail(name, &format!("{input}; type of {n}"), l.ty[n], ty);
        }
    }
    if edits {
        let check = |w: &mut Worker, what: &str, ok: bool| {
            w.beat();
            let (a, b) = (fs::read(&pl).unwrap(), fs::read(&pd).unwrap());
            let code = tool(dir, &["--check"]);
            if (code == Some(0)) != ok || fs::read(&pl).unwrap() != a || fs::read(&pd).unwrap() != b {
                w.fail(name, &format!("{input}; check of {what}"), if ok { "accepted" } else { "refused" }, &format!("{code:?}"));
            }
            w.done(true);
        };
        check(w, "its own lists", true);
        let first = &got[0];
        let gone = list.replacen(&format!("{first}\n"), "", 1);
        let mut turned: Vec<&str> = list.lines().collect();
        turned[1..].reverse();
        let kinds: [(&str, String, String); 9] = [
            ("the reverse order", turned.join("\n") + "\n", defs.clone()),
            ("an empty line more", format!("{list}\n"), defs.clone()),
            ("an empty line more there", list.clone(), format!("{defs}\n")),
            ("a missing function", gone, defs.clone()),
            ("one too many", format!("{list}zzz\n"), defs.clone()),
            ("another order", format!("{first}x\n{list}"), defs.clone()),
            ("a missing file", list.clone(), defs.replacen(".rs\"", ".rx\"", 1)),
            ("another type", list.clone(), defs.replacen("\"f64\"", "\"f32\"", 1)),
            ("no last line", list.clone(), defs.trim_end().trim_end_matches('}').to_string()),
        ];
        for (k, a, b) in &kinds {
            if *a == list && *b == defs {
                continue;
            }
            fs::write(&pl, a).unwrap();
            fs::write(&pd, b).unwrap();
            check(w, k, false);
        }
        // Writing again repairs them.
        if tool(dir, &[]) != Some(0) || fs::read_to_string(&pl).unwrap() != list || fs::read_to_string(&pd).unwrap() != defs {
            w.fail(name, &format!("{input}; written again"), "the same lists", "others");
        }
        for a in [&["check"][..], &["--check", "x"], &["--write"]] {
            if tool(dir, a) == Some(0) {
                w.fail(name, &format!("arguments {a:?}"), "failure", "success");
            }
        }
    }
    w.done(want.len() > 1);
    fs::remove_dir_all(dir).unwrap();
}

fn main() {
    run("C63", "exploration", |ctx| {
        ctx.rule("made-up libraries: nine names (three of them irregular) x which precisions exist and are public x where the code is (own file, one file for all, generic, helpers, other machines, uncounted files), one name at a time or two together; check mode against nine ways of being out of date; nontrivial = two or more public functions");
        ctx.assume("every function has a public double precision form, and the file of a function carries its name");
        let dir = format!("{ROOT}/target/c63");
        let _ = fs::remove_dir_all(&dir);
        let mut v: Vec<(Vec<Shape>, bool)> = vec![];
        for base in 0..9 {
            for has in (0..16usize).filter(|h| h & 4 == 4) {
                if base >= 6 && has & 9 != 0 {
                    continue;
                }
                for public in (0..16usize).filter(|p| p & 4 == 4 && p & !has == 0) {
                    for place in 0..512usize {
                        // All precisions elsewhere, or exported at the top: alone and with everything else.
                        if place >= 128 && !(place & 127 == 127 || matches!(place, 136 | 144 | 192 | 256 | 259 | 384)) {
                            continue;
                        }
                        let simple = place.count_ones() <= 1 || matches!(place & 127, 127 | 3) || place >= 128;
                        let all = has == public && has.count_ones() != 2;
                        // The generic code of a name whose precisions share one file.
                        if place & 3 == 2 || !(ctx.thorough && (all || simple) || simple && (all || base == 2 && place == 1) && (base < 2 || place & 1 == 1 || place >= 128 && base == 2 || base >= 6)) {
                            continue;
                        }
                        v.push((vec![Shape { base, has, public, place }], ctx.thorough && simple && all || base == 0 && has == 15));
                    }
                }
            }
        }
        for a in 0..9 {
            for b in 0..9 {
                if a < b || ctx.thorough && a != b {
                    let s = |base: usize| Shape { base, has: if base >= 6 { 6 } else { 15 }, public: if base >= 6 { 6 } else { 15 }, place: if base % 2 == 0 { 1 } else { 3 } };
                    v.push((vec![s(a), s(b)], false));
                }
            }
        }
        ctx.par("made-up libraries", v.len() as u64, |i, w| {
            let (s, e) = &v[i as usize];
            judge(w, &format!("{dir}/{i}"), s, *e);
        });
        let _ = fs::remove_dir_all(&dir);
    });
}
