//! Reading the archives the runtime library is built to and calling what they define.

use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{CStr, CString, c_char, c_int, c_void};
use std::fs;
use std::process::Command;

pub struct Sym {
    pub name: String,
    pub weak: bool,
    pub vis: u8,
    pub defined: bool,
    pub func: bool,
}

fn int(d: &[u8], at: usize, n: usize) -> usize {
    d[at..at + n].iter().rev().fold(0, |a, &b| a << 8 | b as usize)
}

/// Non-local symbols of an ELF object.
pub fn symbols(d: &[u8]) -> Vec<Sym> {
    let mut v = vec![];
    if d.len() < 64 || d[..6] != [0x7f, b'E', b'L', b'F', 2, 1] {
        return v;
    }
    let (off, size, n) = (int(d, 40, 8), int(d, 58, 2), int(d, 60, 2));
    let sec = |i: usize| &d[off + i * size..off + (i + 1) * size];
    for i in 0..n {
        let s = sec(i);
        if int(s, 4, 4) != 2 {
            continue;
        }
        let t = sec(int(s, 40, 4));
        let strs = &d[int(t, 24, 8)..int(t, 24, 8) + int(t, 32, 8)];
        for e in d[int(s, 24, 8)..int(s, 24, 8) + int(s, 32, 8)].chunks(24) {
            if e[4] >> 4 == 0 {
                continue;
            }
            let name = &strs[int(e, 0, 4)..];
            let end = name.iter().position(|&b| b == 0).unwrap();
            v.push(Sym {
                name: String::from_utf8_lossy(&name[..end]).into_owned(),
                weak: e[4] >> 4 == 2,
                vis: e[5] & 3,
                defined: int(e, 6, 2) != 0,
                func: e[4] & 15 == 2,
            });
        }
    }
    v
}

pub fn members(d: &[u8]) -> Vec<&[u8]> {
    assert_eq!(&d[..8], b"!<arch>\n");
    let mut v = vec![];
    let mut at = 8;
    while at + 60 <= d.len() {
        let len: usize = std::str::from_utf8(&d[at + 48..at + 58]).unwrap().trim().parse().unwrap();
        v.push(&d[at + 60..at + 60 + len]);
        at += 60 + len + len % 2;
    }
    v
}

/// A name that is not one the compiler made up.
pub fn plain(n: &str) -> bool {
    !n.starts_with("_R") && !n.starts_with("_ZN") && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
}

/// The non-local definitions of an archive, and the names it refers to.
pub fn contents(archive: &str) -> (BTreeMap<String, Vec<Sym>>, BTreeSet<String>) {
    let d = fs::read(archive).unwrap();
    let mut defs: BTreeMap<String, Vec<Sym>> = BTreeMap::new();
    let mut undef: BTreeSet<String> = BTreeSet::new();
    for m in members(&d) {
        for s in symbols(m) {
            if s.defined {
                defs.entry(s.name.clone()).or_default().push(s);
            } else {
                undef.insert(s.name);
            }
        }
    }
    (defs, undef)
}

unsafe extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}

/// Links an archive into a shared object with a table of the addresses of symbols, zero where there is no name. More
/// arguments can be given to the linker.
pub fn link(dir: &str, archive: &str, names: &[Option<&str>], more: &[String]) -> Result<*mut usize, String> {
    let mut s = String::from(".data\n.p2align 3\n.globl vh_symbols\nvh_symbols:\n");
    for n in names {
        match n {
            Some(n) => s += &format!(".hidden {n}\n.quad {n}\n"),
            None => s += ".quad 0\n",
        }
    }
    s += ".section .note.GNU-stack,\"\",@progbits\n";
    fs::write(format!("{dir}/table.s"), s).unwrap();
    let so = format!("{dir}/symbols.so");
    let o = Command::new("gcc")
        .args(["-shared", "-nostdlib", "-Wl,-z,defs", "-o", &so, &format!("{dir}/table.s"), archive])
        .args(more)
        .output()
        .unwrap();
    if !o.status.success() {
        let text = String::from_utf8_lossy(&o.stderr);
        return Err(text.chars().take(400).collect());
    }
    unsafe {
        let so = CString::new(so).unwrap();
        let h = dlopen(so.as_ptr(), 2);
        if h.is_null() {
            println!("{:?}", CStr::from_ptr(dlerror()));
            std::process::exit(3);
        }
        Ok(dlsym(h, c"vh_symbols".as_ptr()) as *mut usize)
    }
}
