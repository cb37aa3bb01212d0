//! ELF objects and archives written byte by byte.

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bind {
    Local,
    Global,
    Weak,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Vis {
    Default,
    Hidden,
    Protected,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Def {
    Undef,
    Text,
    Data,
    Abs,
    Common,
    Gdb,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stack {
    Missing,
    Plain,
    Exec,
}
pub use {Bind::*, Def::*, Vis::*};

#[derive(Clone, Copy, Debug)]
pub struct Sym {
    pub name: &'static str,
    pub bind: Bind,
    pub vis: Vis,
    pub def: Def,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Machine {
    pub triple: &'static str,
    pub em: u16,
    pub wide: bool,
    pub big: bool,
    pub flags: u32,
    /// ELF identification the operating system of the triple stands for, if it has one.
    pub os: u8,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub m: Machine,
    pub osabi: u8,
    pub syms: Vec<Sym>,
    pub stack: Stack,
    /// The code section is executable.
    pub exec: bool,
    /// Program headers of an executable: interpreter present, stack flags.
    pub exe: Option<(bool, Option<u32>)>,
}

pub const X64: Machine = Machine { triple: "x86_64-unknown-linux-gnu", em: 62, wide: true, big: false, flags: 0, os: 3 };
pub const MACHINES: [Machine; 17] = [
    X64,
    Machine { triple: "i686-unknown-linux-gnu", em: 3, wide: false, big: false, flags: 0, os: 3 },
    Machine { triple: "aarch64-unknown-linux-gnu", em: 183, wide: true, big: false, flags: 0, os: 3 },
    Machine { triple: "aarch64_be-unknown-linux-gnu", em: 183, wide: true, big: true, flags: 0, os: 3 },
    Machine { triple: "armv7-unknown-linux-gnueabihf", em: 40, wide: false, big: false, flags: 0x05000000, os: 3 },
    Machine { triple: "armeb-unknown-linux-gnueabi", em: 40, wide: false, big: true, flags: 0x05000000, os: 3 },
    Machine { triple: "riscv64gc-unknown-linux-gnu", em: 243, wide: true, big: false, flags: 5, os: 3 },
    Machine { triple: "riscv32gc-unknown-linux-gnu", em: 243, wide: false, big: false, flags: 5, os: 3 },
    Machine { triple: "powerpc-unknown-linux-gnu", em: 20, wide: false, big: true, flags: 0, os: 3 },
    Machine { triple: "powerpc64-unknown-linux-gnu", em: 21, wide: true, big: true, flags: 1, os: 3 },
    Machine { triple: "powerpc64le-unknown-linux-gnu", em: 21, wide: true, big: false, flags: 2, os: 3 },
    Machine { triple: "s390x-unknown-linux-gnu", em: 22, wide: true, big: true, flags: 0, os: 3 },
    Machine { triple: "loongarch64-unknown-linux-gnu", em: 258, wide: true, big: false, flags: 0x43, os: 3 },
    Machine { triple: "sparc64-unknown-linux-gnu", em: 43, wide: true, big: true, flags: 0, os: 3 },
    Machine { triple: "x86_64-unknown-freebsd", em: 62, wide: true, big: false, flags: 0, os: 9 },
    Machine { triple: "x86_64-unknown-netbsd", em: 62, wide: true, big: false, flags: 0, os: 2 },
    Machine { triple: "x86_64-pc-solaris", em: 62, wide: true, big: false, flags: 0, os: 6 },
];

/// One ELF object or executable.
pub fn elf(o: &Obj) -> Vec<u8> {
    let (wide, big) = (o.m.wide, o.m.big);
    let mut out: Vec<u8> = vec![];
    let put = |out: &mut Vec<u8>, n: usize, v: u64| {
        let b = if big { v.to_be_bytes()[8 - n..].to_vec() } else { v.to_le_bytes()[..n].to_vec() };
        out.extend(b);
    };
    let w = if wide { 8 } else { 4 };
    let mut shstr = vec![0u8];
    let mut name = |s: &str| {
        let at = shstr.len() as u64;
        shstr.extend(s.as_bytes());
        shstr.push(0);
        at
    };
    let (ehsize, shsize, phsize, symsize) = if wide { (64, 64, 56, 24) } else { (52, 40, 32, 16) };
    // Sections: name, type, flags, contents, link, info, entry size.
    let mut secs: Vec<(u64, u64, u64, Vec<u8>, u64, u64, u64)> = vec![(0, 0, 0, vec![], 0, 0, 0)];
    secs.push((name(".text"), 1, if o.exec { 6 } else { 2 }, vec![0x90; 16], 0, 0, 0));
    secs.push((name(".data"), 1, 3, vec![0; 16], 0, 0, 0));
    secs.push((name(".debug_gdb_scripts"), 1, 0, vec![1; 16], 0, 0, 0));
    if o.stack != Stack::Missing {
        secs.push((name(".note.GNU-stack"), 1, if o.stack == Stack::Exec { 4 } else { 0 }, vec![], 0, 0, 0));
    }
    let mut strtab = vec![0u8];
    let mut symtab = vec![0u8; symsize];
    let (local, other): (Vec<Sym>, Vec<Sym>) = o.syms.iter().copied().partition(|s| s.bind == Local);
    for s in local.iter().chain(&other) {
        let at = strtab.len() as u64;
        strtab.extend(s.name.as_bytes());
        strtab.push(0);
        let info = (match s.bind {
            Local => 0,
            Global => 1,
            Weak => 2,
        }) << 4
            | match s.def {
                Text => 2,
                Data | Common => 1,
                _ => 0,
            };
        let vis = match s.vis {
            Default => 0,
            Hidden => 2,
            Protected => 3,
        };
        let shndx = match s.def {
            Undef => 0,
            Text => 1,
            Data => 2,
            Gdb => 3,
            Abs => 0xfff1,
            Common => 0xfff2,
        };
        let (value, size) = if s.def == Common { (4, 4) } else { (0, 4) };
        put(&mut symtab, 4, at);
        if wide {
            symtab.extend([info, vis]);
            put(&mut symtab, 2, shndx);
            put(&mut symtab, 8, value);
            put(&mut symtab, 8, size);
        } else {
            put(&mut symtab, 4, value);
            put(&mut symtab, 4, size);
            symtab.extend([info, vis]);
            put(&mut symtab, 2, shndx);
        }
    }
    let link = secs.len() as u64 + 1;
    secs.push((name(".symtab"), 2, 0, symtab, link, local.len() as u64 + 1, symsize as u64));
    secs.push((name(".strtab"), 3, 0, strtab, 0, 0, 0));
    let n = name(".shstrtab");
    secs.push((n, 3, 0, shstr, 0, 0, 0));
    let mut ph: Vec<(u32, u32)> = vec![];
    if let Some((interp, stack)) = o.exe {
        ph.push((1, 5));
        if interp {
            ph.push((3, 4));
        }
        if let Some(f) = stack {
            ph.push((0x6474e551, f));
        }
    }
    let phoff = if ph.is_empty() { 0 } else { ehsize };
    let mut at = ehsize + phsize * ph.len();
    let mut offs = vec![];
    for s in &secs {
        at = at.next_multiple_of(8);
        offs.push(at);
        at += s.3.len();
    }
    let shoff = at.next_multiple_of(8);
    out.extend([0x7f, b'E', b'L', b'F', if wide { 2 } else { 1 }, if big { 2 } else { 1 }, 1, o.osabi]);
    out.extend([0; 8]);
    put(&mut out, 2, if o.exe.is_some() { 2 } else { 1 });
    put(&mut out, 2, o.m.em as u64);
    put(&mut out, 4, 1);
    put(&mut out, w, 0);
    put(&mut out, w, phoff as u64);
    put(&mut out, w, shoff as u64);
    put(&mut out, 4, o.m.flags as u64);
    put(&mut out, 2, ehsize as u64);
    put(&mut out, 2, if ph.is_empty() { 0 } else { phsize as u64 });
    put(&mut out, 2, ph.len() as u64);
    put(&mut out, 2, shsize as u64);
    put(&mut out, 2, secs.len() as u64);
    put(&mut out, 2, secs.len() as u64 - 1);
    for (t, f) in ph {
        put(&mut out, 4, t as u64);
        if wide {
            put(&mut out, 4, f as u64);
        }
        for v in [0, 0x400000, 0x400000, 0, 0] {
            put(&mut out, w, v);
        }
        if !wide {
            put(&mut out, 4, f as u64);
        }
        put(&mut out, w, 1);
    }
    for (s, o) in secs.iter().zip(&offs) {
        out.resize(*o, 0);
        out.extend(&s.3);
    }
    out.resize(shoff, 0);
    for (s, o) in secs.iter().zip(&offs) {
        put(&mut out, 4, s.0);
        put(&mut out, 4, s.1);
        put(&mut out, w, s.2);
        put(&mut out, w, 0);
        put(&mut out, w, if s.1 == 0 { 0 } else { *o as u64 });
        put(&mut out, w, s.3.len() as u64);
        put(&mut out, 4, s.4);
        put(&mut out, 4, s.5);
        put(&mut out, w, if s.1 == 0 { 0 } else { 8 });
        put(&mut out, w, s.6);
    }
    out
}

pub fn archive(objs: &[Obj]) -> Vec<u8> {
    let mut out = b"!<arch>\n".to_vec();
    for (i, o) in objs.iter().enumerate() {
        let d = elf(o);
        out.extend(format!("{:<16}{:<12}{:<6}{:<6}{:<8}{:<10}`\n", format!("m{i}.o/"), 0, 0, 0, 644, d.len()).as_bytes());
        out.extend(&d);
        if d.len() % 2 == 1 {
            out.push(b'\n');
        }
    }
    out
}
