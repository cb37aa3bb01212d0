use std::process::Command;

fn main() {
    println!("cargo:rerun-if-changed=c/hp.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let run = |c: &mut Command| assert!(c.status().expect("cannot start the C compiler").success());
    run(Command::new("gcc").args(["-O2", "-fPIC", "-c", "c/hp.c", "-o", &format!("{out}/hp.o")]));
    run(Command::new("ar").args(["crs", &format!("{out}/libvhhp.a"), &format!("{out}/hp.o")]));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=vhhp");
}
