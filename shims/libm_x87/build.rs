#[path = "../../../repo/libm/configure.rs"]
mod configure;
use configure::{Config, Library};

fn main() {
    configure::emit(&Config::from_env(Library::Libm));
    println!("cargo:rustc-cfg=x86_no_sse2");
}
