// Adds the target_arch of ARM to the host's, which selects the portable fallbacks used there.
#[path = "/repo/libm/configure.rs"]
mod configure;

fn main() {
    let cfg = configure::Config::from_env(configure::Library::CompilerBuiltins);
    configure::emit(&cfg);
    println!("cargo:rustc-cfg=target_arch=\"arm\"");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=/repo/libm/configure.rs");
}
