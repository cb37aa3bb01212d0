// Copies of sources with build conditions settled as on other machines: the math entry points without "unix", and
// what depends on the width of a pointer with 32 bits.
#[path = "/repo/libm/configure.rs"]
mod configure;

use std::{env, fs};

const SRC: &str = "/repo/compiler-builtins/src/math/mod.rs";
const DIV: &str = "/repo/compiler-builtins/src/float/div.rs";
const PIO2: &str = "/repo/libm/src/math/rem_pio2_large.rs";

fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let cfg = configure::Config::from_env(configure::Library::CompilerBuiltins);
    configure::emit(&cfg);
    let src = fs::read_to_string(SRC).unwrap();
    let mut s = String::new();
    for l in src.lines() {
        if l.starts_with("#![") {
            continue;
        }
        let l = l.replace("target_family = \"unix\"", "any()").replace("\"../../../", "\"/repo/");
        if l.trim_start().starts_with("//") {
            continue;
        }
        let words = |c: char| c.is_alphanumeric() || c == '_' || c == '"';
        let mut rest = l.as_str();
        while let Some(i) = rest.find("unix") {
            let alone = !rest[..i].ends_with(words) && !rest[i + 4..].starts_with(words);
            s += &rest[..i];
            s += if alone { "any()" } else { "unix" };
            rest = &rest[i + 4..];
        }
        s += rest;
        s += "\n";
    }
    fs::write(format!("{out}/math.rs"), s).unwrap();
    let div = fs::read_to_string(DIV).unwrap();
    let div = ["*const ()", "*mut ()", "usize", "&()"].iter().fold(div, |d, t| d.replace(&format!("size_of::<{t}>()"), "4usize"));
    let div = div.replace("usize::BITS", "32u32").replace("target_pointer_width = \"32\"", "all()").replace("target_pointer_width = \"64\"", "any()");
    fs::write(format!("{out}/div.rs"), div).unwrap();
    let pio2 = fs::read_to_string(PIO2).unwrap();
    for (name, a, b) in [("p32", "all()", "any()"), ("p64", "any()", "all()")] {
        let t = pio2.replace("target_pointer_width = \"32\"", a).replace("target_pointer_width = \"16\"", "any()").replace("target_pointer_width = \"64\"", b);
        fs::write(format!("{out}/{name}.rs"), t.replace("pub(crate) fn rem_pio2_large", "pub fn rem_pio2_large")).unwrap();
    }
    fs::write(format!("{out}/div_mod.rs"), format!("#[path = \"{out}/div.rs\"]\nmod imp;\npub use imp::*;\n")).unwrap();
    let pio2_mod: String = ["p32", "p64"].iter().map(|n| format!("#[path = \"{out}/{n}.rs\"]\npub mod {n};\n")).collect();
    fs::write(format!("{out}/pio2_mod.rs"), pio2_mod).unwrap();
    println!("cargo:rerun-if-changed=build.rs");
    for f in [SRC, DIV, PIO2, "/repo/libm/configure.rs"] {
        println!("cargo:rerun-if-changed={f}");
    }
}
