// Rewrites settings in copies of the memory sources: build conditions that hold on other machines, and the
// machine word as a type of the given width and byte order.
use std::{env, fs};

const DIR: &str = "/repo/compiler-builtins/src/mem";

fn module(out: &str, name: &str, imp: String) {
    fs::write(format!("{out}/{name}_impls.rs"), imp).unwrap();
    let m = fs::read_to_string(format!("{DIR}/mod.rs")).unwrap();
    let mut s = String::new();
    for l in m.lines() {
        if l.starts_with("#![") || (l.trim_start().starts_with("#[cfg_attr") && l.contains("path")) {
            continue;
        }
        if l.trim() == "mod impls;" {
            s += &format!("#[path = \"{out}/{name}_impls.rs\"]\nmod impls;\n");
        } else {
            s += l;
            s += "\n";
        }
    }
    fs::write(format!("{out}/{name}.rs"), s).unwrap();
}

fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let x86 = fs::read_to_string(format!("{DIR}/x86_64.rs")).unwrap();
    module(&out, "erms", x86.replace("target_feature = \"ermsb\"", "all()"));
    module(&out, "noerms", x86.replace("target_feature = \"ermsb\"", "any()"));
    module(&out, "nosse", x86.replace("target_feature = \"sse2\"", "any()"));
    let gen_ = fs::read_to_string(format!("{DIR}/impls.rs")).unwrap();
    let word = |w: &str, little: bool, unaligned: bool| {
        let mut s = String::from("use crate::words::*;\n");
        for l in gen_.lines() {
            let mut l = l
                .replace("size_of::<usize>", &format!("size_of::<{w}>"))
                .replace("*mut usize", &format!("*mut {w}"))
                .replace("*const usize", &format!("*const {w}"))
                .replace("usize::from_ne_bytes", &format!("{w}::from_ne_bytes"))
                .replace("0usize", &format!("{w}::zero()"))
                .replace(" c as usize", &format!(" {w}::of(c)"))
                .replace("mem_unaligned", if unaligned { "all()" } else { "any()" })
                .replace("target_endian = \"little\"", if little { "all()" } else { "any()" });
            if l.contains("fn load_aligned") || l.contains("fn read_usize") {
                l = l.replace("-> usize", &format!("-> {w}"));
            }
            s += &l;
            s += "\n";
        }
        s
    };
    for (n, w, le, un) in [
        ("be64", "Be64", false, false),
        ("le32", "Le32", true, false),
        ("be32", "Be32", false, false),
        ("le16", "Le16", true, false),
        ("le32u", "Le32", true, true),
        ("le16u", "Le16", true, true),
    ] {
        module(&out, n, word(w, le, un));
    }
    println!("cargo:rerun-if-changed=build.rs");
    for f in ["mod.rs", "impls.rs", "x86_64.rs"] {
        println!("cargo:rerun-if-changed={DIR}/{f}");
    }
}
