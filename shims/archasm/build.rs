// Copies of /repo files with build conditions and attributes of other machines settled.
use std::{env, fs};

const DIR: &str = "/repo/compiler-builtins/src";

fn main() {
    let out = env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=build.rs");
    let gen_ = |from: &str, to: &str, subst: &[(&str, &str)]| {
        println!("cargo:rerun-if-changed={DIR}/{from}");
        let src = fs::read_to_string(format!("{DIR}/{from}")).unwrap();
        let mut s = String::new();
        for l in src.lines() {
            let t = l.trim();
            if t.starts_with("#![")
                || t.starts_with("//!")
                || t.starts_with("#[instruction_set")
                || t.starts_with("#[rustc_std_internal_symbol]")
                || (t == "#[unsafe(naked)]" && l == t)
            {
                continue;
            }
            s += l;
            s += "\n";
        }
        for (a, b) in subst {
            s = s.replace(a, b);
        }
        fs::write(format!("{out}/{to}"), s).unwrap();
    };
    let big = ("target_endian = \"little\"", "any()");
    gen_("sync/arm_linux.rs", "arm_linux_le.rs", &[]);
    gen_("sync/arm_linux.rs", "arm_linux_be.rs", &[big]);
    gen_("sync/arm_thumb_shared.rs", "arm_thumb_shared.rs", &[]);
    gen_("sync/thumbv6k.rs", "thumbv6k.rs", &[]);
    let custom = ("extern \"custom\"", "extern \"C\"");
    let (x64, x32) = ("target_arch = \"x86_64\"", "target_arch = \"x86\"");
    let (uefi, sgx) = ("target_os = \"uefi\"", "target_env = \"sgx\"");
    let (yes, no) = ("all()", "any()");
    gen_("probestack.rs", "probe64.rs", &[custom, (x64, yes), (x32, no)]);
    gen_("probestack.rs", "probe64sgx.rs", &[custom, (x64, yes), (x32, no), (sgx, yes), ("target_vendor = \"fortanix\"", yes)]);
    gen_("probestack.rs", "probe32.rs", &[custom, (x64, no), (x32, yes), (uefi, no)]);
    gen_("probestack.rs", "probe32uefi.rs", &[custom, (x64, no), (x32, yes), (uefi, yes)]);
    gen_("x86.rs", "chkstk32.rs", &[(uefi, yes)]);
    gen_("x86_64.rs", "chkstk64.rs", &[(uefi, no), ("target_os = \"cygwin\"", yes)]);
    gen_("aarch64.rs", "chkstk_a64.rs", &[(uefi, yes)]);
    let (p64, p32, p16) = ("target_pointer_width = \"64\"", "target_pointer_width = \"32\"", "target_pointer_width = \"16\"");
    let (sparc, riscv, arch, avr) = ("target_arch = \"sparc64\"", "target_arch = \"riscv32\"", ("feature = \"arch\"", yes), "target_arch = \"avr\"");
    let mut paths: Vec<(String, String)> = vec![];
    for m in fs::read_dir(format!("{DIR}/int/specialized_div_rem")).unwrap() {
        let m = m.unwrap().file_name().into_string().unwrap();
        let Some(n) = m.strip_suffix(".rs") else { continue };
        if n != "mod" {
            println!("cargo:rerun-if-changed={DIR}/int/specialized_div_rem/{m}");
            paths.push((format!("\nmod {n};"), format!("\n#[path = \"{DIR}/int/specialized_div_rem/{m}\"]\nmod {n};")));
        }
    }
    let sdr = |to: &str, subst: &[(&str, &str)]| {
        let mut v: Vec<(&str, &str)> = paths.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
        v.extend(subst);
        v.push(arch);
        gen_("int/specialized_div_rem/mod.rs", &format!("{to}.rs"), &v);
    };
    sdr("sdr_p32", &[(x64, no), (p64, no), (p32, yes)]);
    sdr("sdr_p16", &[(x64, no), (p64, no), (p16, yes)]);
    sdr("sdr_x86", &[(x64, no), (x32, yes), (p64, no), (p32, yes)]);
    sdr("sdr_wasm", &[(x64, no), (p64, no), (p32, yes), ("target_family = \"wasm\"", yes)]);
    sdr("sdr_rv", &[(x64, no), (riscv, yes)]);
    sdr("sdr_sparc", &[(x64, no), (sparc, yes)]);
    let int = |n: &str, avr_: &str, sparc_: &str| {
        let (a, b) = (format!("crate::sdr_{n}"), format!("crate::udiv_{}", if n == "p16" { "avr" } else { "sparc" }));
        let (f, g) = if n == "p16" { ("udiv_avr.rs", "sdiv_avr.rs") } else { ("udiv_sparc.rs", "sdiv_sparc.rs") };
        gen_("int/udiv.rs", f, &[(avr, avr_), (sparc, sparc_), ("crate::int::specialized_div_rem", &a)]);
        gen_("int/sdiv.rs", g, &[(avr, avr_), (sparc, sparc_), ("crate::int::udiv", &b)]);
    };
    int("p16", yes, no);
    int("sparc", no, yes);
    gen_("int/mul.rs", "mul_uefi.rs", &[(uefi, yes), (x64, yes)]);
    gen_("float/conv.rs", "conv_uefi.rs", &[(uefi, yes), (x64, yes)]);
    gen_("hexagon.rs", "hexagon.rs", &[]);
    let on: Vec<(String, String)> = ["fp16", "neon", "d", "f", "lsx"].iter().map(|f| (format!("target_feature = \"{f}\""), yes.into())).collect();
    let mut on: Vec<(&str, &str)> = on.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    on.push(("f16_enabled", yes));
    for (a, files) in [("aarch64", &["fma", "rounding", "sqrt"][..]), ("loongarch", &["fma", "rounding", "sqrt"]), ("wasm32", &["fabs", "rounding", "sqrt"])] {
        for f in files {
            gen_(&format!("../../libm/src/math/arch/{a}/{f}.rs"), &format!("{a}_{f}.rs"), &on);
        }
    }
}
