//! Interpreters for the assembly texts captured from the code under test: AArch32, AArch64 and AVR.
//!
//! Memory accesses and barriers are requests (`fake_core::co::request`), so an explorer can interleave them.

use fake_core::co::{self, Kind, Ops, Req, Tmpl};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone)]
pub struct Ins {
    pub mn: String,
    pub ops: Vec<String>,
}
#[derive(Debug, Clone, Default)]
pub struct Prog {
    pub ins: Vec<Ins>,
    /// (label, index of the instruction it stands before)
    pub labels: Vec<(String, usize)>,
    /// Directives with the index of the instruction behind them.
    pub dirs: Vec<(usize, String)>,
}

/// Splits operands at commas outside of brackets and braces.
fn split_ops(s: &str) -> Vec<String> {
    let (mut v, mut cur, mut d) = (vec![], String::new(), 0);
    for c in s.chars() {
        match c {
            '[' | '{' | '(' => d += 1,
            ']' | '}' | ')' => d -= 1,
            _ => {}
        }
        if c == ',' && d == 0 {
            v.push(cur.trim().to_string());
            cur.clear();
        } else {
            cur.push(c);
        }
    }
    if !cur.trim().is_empty() {
        v.push(cur.trim().to_string());
    }
    v
}

pub fn parse<'a>(lines: impl Iterator<Item = &'a str>, comment: &[&str]) -> Prog {
    let mut p = Prog::default();
    for l in lines {
        for l in l.lines() {
            let mut l = l;
            for c in comment {
                if let Some(i) = l.find(c) {
                    l = &l[..i];
                }
            }
            for mut st in l.split(';').map(str::trim) {
                while let Some(i) = st.find(':') {
                    let lab = &st[..i];
                    if !lab.is_empty() && lab.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') {
                        p.labels.push((lab.to_string(), p.ins.len()));
                        st = st[i + 1..].trim();
                    } else {
                        break;
                    }
                }
                if st.starts_with('.') {
                    p.dirs.push((p.ins.len(), st.to_string()));
                }
                if st.is_empty() || st.starts_with('.') {
                    continue;
                }
                let (mn, rest) = st.split_once(char::is_whitespace).unwrap_or((st, ""));
                p.ins.push(Ins { mn: mn.to_lowercase(), ops: split_ops(rest.trim()) });
            }
        }
    }
    p
}

impl Prog {
    /// Instruction index of a branch target seen from instruction `at`.
    pub fn target(&self, at: usize, t: &str) -> usize {
        if let Some(n) = t.strip_suffix('f').filter(|n| n.chars().all(|c| c.is_ascii_digit()) && !n.is_empty()) {
            return self.labels.iter().find(|l| l.0 == n && l.1 > at).unwrap_or_else(|| unsupported(t)).1;
        }
        if let Some(n) = t.strip_suffix('b').filter(|n| n.chars().all(|c| c.is_ascii_digit()) && !n.is_empty()) {
            return self.labels.iter().rev().find(|l| l.0 == n && l.1 <= at).unwrap_or_else(|| unsupported(t)).1;
        }
        self.labels.iter().find(|l| l.0 == t).unwrap_or_else(|| unsupported(t)).1
    }
}

/// The interpreter does not know this: an error of the check, not a violation.
pub fn unsupported<T>(what: impl std::fmt::Debug) -> T {
    eprintln!("assembly interpreter: unsupported {what:?}");
    println!("assembly interpreter: unsupported {what:?}");
    std::process::exit(3)
}

pub fn imm(s: &str) -> Option<i64> {
    let s = s.trim().trim_start_matches('#').trim();
    let (neg, s) = s.strip_prefix('-').map_or((false, s), |r| (true, r));
    let v = if let Some(h) = s.strip_prefix("0x") { i64::from_str_radix(h, 16).ok()? } else { s.parse::<i64>().ok()? };
    Some(if neg { -v } else { v })
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Fl {
    pub n: bool,
    pub z: bool,
    pub c: bool,
    pub v: bool,
}
impl Fl {
    pub fn cond(&self, c: &str) -> bool {
        match c {
            "eq" => self.z,
            "ne" => !self.z,
            "cs" | "hs" => self.c,
            "cc" | "lo" => !self.c,
            "mi" => self.n,
            "pl" => !self.n,
            "vs" => self.v,
            "vc" => !self.v,
            "hi" => self.c && !self.z,
            "ls" => !self.c || self.z,
            "ge" => self.n == self.v,
            "lt" => self.n != self.v,
            "gt" => !self.z && self.n == self.v,
            "le" => self.z || self.n != self.v,
            "al" | "" => true,
            _ => unsupported(c),
        }
    }
    pub fn sub(a: u64, b: u64, bits: u32) -> (u64, Fl) {
        let m = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        let (a, b) = (a & m, b & m);
        let r = a.wrapping_sub(b) & m;
        let s = 1u64 << (bits - 1);
        (r, Fl { n: r & s != 0, z: r == 0, c: a >= b, v: (a ^ b) & (a ^ r) & s != 0 })
    }
    pub fn add(a: u64, b: u64, bits: u32) -> (u64, Fl) {
        let m = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        let (a, b) = (a & m, b & m);
        let r = a.wrapping_add(b) & m;
        let s = 1u64 << (bits - 1);
        (r, Fl { n: r & s != 0, z: r == 0, c: r < a, v: !(a ^ b) & (a ^ r) & s != 0 })
    }
}

pub fn mem(kind: Kind, addr: u64, size: u8, a: u128, order: u8) -> u128 {
    co::request(Req { kind, addr, size, a, b: 0, order })
}

/// Limits an interpreted run: loops that retry are cut by the explorer, so this only catches runaway code.
pub const FUEL: u32 = 100_000;

// ---------------------------------------------------------------- AArch32

pub struct A32<'a> {
    /// r0..r15 then the operands of an `asm!` block
    pub r: Vec<u32>,
    pub f: Fl,
    pub prog: Rc<Prog>,
    /// `bl` target
    pub call: Option<&'a mut dyn FnMut(&str, &mut Vec<u32>)>,
    pub syms: Vec<(String, String)>,
    pub names: Vec<String>,
}

impl A32<'_> {
    fn reg(&self, s: &str) -> Option<usize> {
        let s = s.trim();
        if let Some(n) = s.strip_prefix('{').and_then(|s| s.strip_suffix('}')) {
            let n = n.split(':').next().unwrap();
            return self.names.iter().position(|x| x == n).map(|i| 16 + i);
        }
        match s.to_lowercase().as_str() {
            "sp" => Some(13),
            "lr" => Some(14),
            "pc" => Some(15),
            "ip" => Some(12),
            "fp" => Some(11),
            x => x.strip_prefix('r').and_then(|n| n.parse().ok()).filter(|n| *n < 16),
        }
    }
    fn rn(&self, s: &str) -> usize {
        self.reg(s).unwrap_or_else(|| unsupported(s))
    }
    fn val(&self, s: &str) -> u32 {
        match self.reg(s) {
            Some(i) => self.r[i],
            None => imm(s).unwrap_or_else(|| unsupported(s)) as u32,
        }
    }
    /// `[rn]`, `[rn, #imm]`, `[rn, rm]`
    fn addr(&self, s: &str) -> u64 {
        let t = s.trim().strip_prefix('[').and_then(|s| s.strip_suffix(']')).unwrap_or_else(|| unsupported(s));
        split_ops(t).iter().fold(0u32, |a, x| a.wrapping_add(self.val(x))) as u64
    }
    fn list(&self, s: &str) -> Vec<usize> {
        let t = s.trim().trim_start_matches('{').trim_end_matches('}');
        let mut v: Vec<usize> = vec![];
        for p in t.split(',') {
            if let Some((a, b)) = p.split_once('-') {
                v.extend(self.rn(a)..=self.rn(b));
            } else {
                v.push(self.rn(p));
            }
        }
        v.sort();
        v
    }

    /// Runs until the end of the text or a return; true if it returned.
    pub fn run(&mut self) -> bool {
        let p = self.prog.clone();
        let mut pc = 0;
        for _ in 0..FUEL {
            let Some(i) = p.ins.get(pc) else { return false };
            pc += 1;
            let o = &i.ops;
            // condition codes only on branches here
            let (base, size) = |m: &str| -> (String, u8) {
                for (s, n) in [("b", 1u8), ("h", 2)] {
                    for k in ["ldrex", "strex", "ldr", "str"] {
                        if m == format!("{k}{s}") {
                            return (k.to_string(), n);
                        }
                    }
                }
                (m.to_string(), 4)
            }(&i.mn);
            let alu = |me: &Self| -> (u32, u32) {
                if o.len() == 2 { (me.val(&o[0]), me.val(&o[1])) } else { (me.val(&o[1]), me.val(&o[2])) }
            };
            match base.as_str() {
                "ldr" => {
                    let a = self.addr(&o[1]);
                    let d = self.rn(&o[0]);
                    self.r[d] = mem(Kind::Load, a, size, 0, 0) as u32;
                }
                "str" => {
                    let a = self.addr(&o[1]);
                    let v = self.val(&o[0]) as u128 & ((1 << (8 * size)) - 1);
                    mem(Kind::Store, a, size, v, 0);
                }
                "ldrex" => {
                    let a = self.addr(&o[1]);
                    let d = self.rn(&o[0]);
                    self.r[d] = mem(Kind::LoadEx, a, size, 0, 0) as u32;
                }
                "strex" => {
                    let a = self.addr(&o[2]);
                    let v = self.val(&o[1]) as u128 & ((1 << (8 * size)) - 1);
                    let d = self.rn(&o[0]);
                    self.r[d] = mem(Kind::StoreEx, a, size, v, 0) as u32;
                }
                "clrex" => {
                    mem(Kind::ClearEx, 0, 0, 0, 0);
                }
                "mcr" => {
                    // CP15 c7: data memory barrier is c10, 5; other operations do not order memory.
                    let c: Vec<i64> = [1, 5].iter().filter_map(|k| imm(o.get(*k)?)).collect();
                    if o[0] == "p15" && o[3] == "c7" && o[4] == "c10" && (c == [0, 5] || c == [0, 4]) && self.val(&o[2]) == 0 {
                        mem(Kind::Barrier, 0, 0, 0, 3);
                    }
                }
                "dmb" | "dsb" => {
                    mem(Kind::Barrier, 0, 0, 0, 3);
                }
                "isb" | "nop" => {}
                "cmp" => self.f = Fl::sub(self.val(&o[0]) as u64, self.val(&o[1]) as u64, 32).1,
                "cmn" => self.f = Fl::add(self.val(&o[0]) as u64, self.val(&o[1]) as u64, 32).1,
                "tst" | "teq" => {
                    let (a, b) = (self.val(&o[0]), self.val(&o[1]));
                    let r = if base == "tst" { a & b } else { a ^ b };
                    self.f.z = r == 0;
                    self.f.n = r >> 31 != 0;
                }
                "mov" | "movs" | "mvn" | "uxtb" | "uxth" | "sxtb" | "sxth" | "rsb" | "neg" => {
                    let d = self.rn(&o[0]);
                    let x = self.val(&o[1]);
                    self.r[d] = match base.as_str() {
                        "mvn" => !x,
                        "uxtb" => x & 0xff,
                        "uxth" => x & 0xffff,
                        "sxtb" => x as i8 as u32,
                        "sxth" => x as i16 as u32,
                        "neg" => x.wrapping_neg(),
                        "rsb" => self.val(&o[2]).wrapping_sub(x),
                        _ => x,
                    };
                    if base == "movs" {
                        self.f.z = x == 0;
                        self.f.n = x >> 31 != 0;
                    }
                }
                "add" | "adds" | "sub" | "subs" | "mul" | "muls" | "and" | "ands" | "orr" | "orrs" | "eor" | "eors" | "bic" | "bics" => {
                    let (a, b) = alu(self);
                    let d = self.rn(&o[0]);
                    let k = base.trim_end_matches('s');
                    let k = if base == "subs" || base == "sub" { "sub" } else { k };
                    let (r, fl) = match k {
                        "add" => Fl::add(a as u64, b as u64, 32),
                        "sub" => Fl::sub(a as u64, b as u64, 32),
                        "mul" => (a.wrapping_mul(b) as u64, self.f),
                        "and" => ((a & b) as u64, self.f),
                        "orr" => ((a | b) as u64, self.f),
                        "eor" => ((a ^ b) as u64, self.f),
                        _ => ((a & !b) as u64, self.f),
                    };
                    let mut fl = fl;
                    fl.z = r as u32 == 0;
                    fl.n = r as u32 >> 31 != 0;
                    if base.ends_with('s') {
                        self.f = fl;
                    }
                    self.r[d] = r as u32;
                }
                "push" | "pop" => {
                    let l = self.list(&o[0]);
                    if base == "push" {
                        self.r[13] = self.r[13].wrapping_sub(4 * l.len() as u32);
                        for (k, x) in l.iter().enumerate() {
                            mem(Kind::Store, self.r[13] as u64 + 4 * k as u64, 4, self.r[*x] as u128, 0);
                        }
                    } else {
                        let sp = self.r[13];
                        self.r[13] = sp.wrapping_add(4 * l.len() as u32);
                        for (k, x) in l.iter().enumerate() {
                            self.r[*x] = mem(Kind::Load, sp as u64 + 4 * k as u64, 4, 0, 0) as u32;
                        }
                        if l.contains(&15) {
                            return true;
                        }
                    }
                }
                "bl" | "blx" => {
                    let n = o[0].trim_matches(['{', '}']);
                    let s = self.syms.iter().find(|s| s.0 == n).map(|s| s.1.clone()).unwrap_or(n.to_string());
                    self.r[14] = 0x8000_0000 | pc as u32;
                    let mut r = std::mem::take(&mut self.r);
                    (self.call.as_mut().unwrap_or_else(|| unsupported("bl")))(&s, &mut r);
                    self.r = r;
                }
                "bx" => {
                    self.r[15] = self.val(&o[0]);
                    return true;
                }
                "cbz" | "cbnz" => {
                    if (self.val(&o[0]) == 0) == (base == "cbz") {
                        pc = p.target(pc - 1, &o[1]);
                    }
                }
                b if b.starts_with('b') && b.len() != 2 && o.len() == 1 => {
                    if self.f.cond(&b[1..]) {
                        pc = p.target(pc - 1, &o[0]);
                    }
                }
                _ => unsupported(i),
            }
        }
        unsupported("assembly that does not end")
    }
}

thread_local!(static CACHE: RefCell<HashMap<Vec<usize>, Rc<Prog>>> = RefCell::new(HashMap::new()));

/// `asm!` blocks of AArch32 files.
pub fn a32_asm(t: &Tmpl, o: &mut Ops) {
    let prog = {
        let key: Vec<usize> = t.v[..t.n].iter().map(|s| s.as_ptr() as usize ^ s.len() << 48).collect();
        let hit = CACHE.with_borrow(|c| c.get(&key).cloned());
        hit.unwrap_or_else(|| {
            let p = Rc::new(parse(t.lines(), &["@", "//"]));
            CACHE.with_borrow_mut(|c| c.insert(key, p.clone()));
            p
        })
    };
    let mut r = vec![0u32; 16];
    r.extend(o.v[..o.n].iter().map(|x| x.val as u32));
    let names = o.v[..o.n].iter().map(|x| x.name.to_string()).collect();
    let mut m = A32 { r, f: Fl::default(), prog, call: None, syms: vec![], names };
    m.run();
    for i in 0..o.n {
        o.v[i].val = m.r[16 + i] as u64;
    }
}

// ---------------------------------------------------------------- AArch64

pub struct A64 {
    /// x0..x30, then sp
    pub x: [u64; 32],
    pub f: Fl,
    pub prog: Rc<Prog>,
    /// addresses of named symbols
    pub syms: Vec<(String, u64)>,
    /// address of the byte saying that single-instruction atomics exist, and whether it was read as non-zero
    pub lse: Option<(u64, bool)>,
}

impl A64 {
    fn reg(s: &str) -> Option<(usize, u32)> {
        let s = s.trim().to_lowercase();
        match s.as_str() {
            "sp" => return Some((31, 64)),
            "wsp" => return Some((31, 32)),
            "xzr" => return Some((32, 64)),
            "wzr" => return Some((32, 32)),
            "lr" => return Some((30, 64)),
            _ => {}
        }
        let (w, n) = if let Some(n) = s.strip_prefix('x') {
            (64, n)
        } else if let Some(n) = s.strip_prefix('w') {
            (32, n)
        } else {
            return None;
        };
        n.parse().ok().filter(|n: &usize| *n <= 30).map(|n| (n, w))
    }
    fn get(&self, s: &str) -> u64 {
        match Self::reg(s) {
            Some((32, _)) => 0,
            Some((n, 32)) => self.x[n] as u32 as u64,
            Some((n, _)) => self.x[n],
            None => imm(s).unwrap_or_else(|| unsupported(s)) as u64,
        }
    }
    fn set(&mut self, s: &str, v: u64) {
        match Self::reg(s) {
            Some((32, _)) => {}
            Some((n, 32)) => self.x[n] = v as u32 as u64,
            Some((n, _)) => self.x[n] = v,
            None => unsupported(s),
        }
    }
    fn bits(s: &str) -> u32 {
        Self::reg(s).unwrap_or_else(|| unsupported(s)).1
    }
    fn sym(&self, s: &str) -> Option<u64> {
        let n = s.trim().trim_start_matches(":lo12:").trim_end_matches("@PAGEOFF").trim_end_matches("@PAGE").trim_matches(['{', '}']);
        self.syms.iter().find(|x| x.0 == n).map(|x| x.1)
    }
    fn addr(&self, s: &str) -> u64 {
        let t = s.trim().strip_prefix('[').and_then(|s| s.strip_suffix(']')).unwrap_or_else(|| unsupported(s));
        split_ops(t).iter().fold(0u64, |a, x| a.wrapping_add(if x.contains('{') { self.sym(x).unwrap_or_else(|| unsupported(x)) & 0xfff } else { self.get(x) }))
    }

    /// Runs until `ret`; false if the text ends without one or an instruction the processor lacks is met.
    pub fn run(&mut self) -> bool {
        let p = self.prog.clone();
        let mut pc = 0;
        for _ in 0..FUEL {
            let Some(i) = p.ins.get(pc) else { return false };
            pc += 1;
            let o = &i.ops;
            let m = i.mn.as_str();
            // size from a b/h suffix or the register width
            let szreg = |r: &str, m: &str| -> (String, u8) {
                let sb = Self::bits(r) as u8 / 8;
                (m.to_string(), sb)
            };
            // exclusive accesses
            if let Some(rest) = m.strip_prefix("ld").filter(|_| m.contains("xr") || m.contains("xp")) {
                let (acq, rest) = rest.strip_prefix('a').map_or((0, rest), |r| (1, r));
                match rest {
                    "xr" | "xrb" | "xrh" => {
                        let size = match rest {
                            "xrb" => 1,
                            "xrh" => 2,
                            _ => szreg(&o[0], m).1,
                        };
                        let v = mem(Kind::LoadEx, self.addr(&o[1]), size, 0, acq);
                        self.set(&o[0], v as u64);
                        continue;
                    }
                    "xp" => {
                        let b = Self::bits(&o[0]);
                        let v = mem(Kind::LoadEx, self.addr(&o[2]), b as u8 / 4, 0, acq);
                        self.set(&o[0], v as u64 & mask(b));
                        self.set(&o[1], (v >> b) as u64);
                        continue;
                    }
                    _ => {}
                }
            }
            if let Some(rest) = m.strip_prefix("st").filter(|_| m.contains("xr") || m.contains("xp")) {
                let (rel, rest) = rest.strip_prefix('l').map_or((0, rest), |r| (2, r));
                match rest {
                    "xr" | "xrb" | "xrh" => {
                        let size = match rest {
                            "xrb" => 1,
                            "xrh" => 2,
                            _ => szreg(&o[1], m).1,
                        };
                        let v = self.get(&o[1]) as u128 & (u128::MAX >> (128 - 8 * size as u32));
                        let r = mem(Kind::StoreEx, self.addr(&o[2]), size, v, rel);
                        self.set(&o[0], r as u64);
                        continue;
                    }
                    "xp" => {
                        let b = Self::bits(&o[1]);
                        let v = (self.get(&o[1]) as u128) | (self.get(&o[2]) as u128) << b;
                        let r = mem(Kind::StoreEx, self.addr(&o[3]), b as u8 / 4, v, rel);
                        self.set(&o[0], r as u64);
                        continue;
                    }
                    _ => {}
                }
            }
            // single-instruction atomics
            if let Some((op, ord, sz)) = lse(m) {
                if matches!(self.lse, Some((_, false))) {
                    return false;
                }
                let pair = op == 0 && m.starts_with("casp");
                let size = match sz {
                    Some(s) => s,
                    None if pair => Self::bits(&o[0]) as u8 / 4,
                    None => szreg(&o[0], m).1,
                };
                let msk = u128::MAX >> (128 - 8 * size as u32);
                if pair {
                    let b = Self::bits(&o[0]);
                    let even = |k: usize| Self::reg(&o[k]).unwrap().0 % 2 == 0 && Self::reg(&o[k + 1]).unwrap().0 == Self::reg(&o[k]).unwrap().0 + 1;
                    if !even(0) || !even(2) {
                        unsupported::<()>(i);
                    }
                    let e = self.get(&o[0]) as u128 | (self.get(&o[1]) as u128) << b;
                    let n = self.get(&o[2]) as u128 | (self.get(&o[3]) as u128) << b;
                    let v = co::request(Req { kind: Kind::Lse, addr: self.addr(&o[4]), size, a: e, b: n, order: ord });
                    self.set(&o[0], v as u64 & mask(b));
                    self.set(&o[1], (v >> b) as u64);
                } else if op == 0 {
                    let (e, n) = (self.get(&o[0]) as u128 & msk, self.get(&o[1]) as u128 & msk);
                    let v = co::request(Req { kind: Kind::Lse, addr: self.addr(&o[2]), size, a: e, b: n, order: ord });
                    self.set(&o[0], v as u64);
                } else {
                    let s = self.get(&o[0]) as u128 & msk;
                    let v = co::request(Req { kind: Kind::Lse, addr: self.addr(&o[2]), size, a: s, b: op as u128, order: ord | 0x80 });
                    self.set(&o[1], v as u64);
                }
                continue;
            }
            match m {
                "adrp" => {
                    let a = self.sym(&o[1]).unwrap_or_else(|| unsupported(i));
                    self.set(&o[0], a & !0xfff);
                }
                "ldr" | "ldrb" | "ldrh" | "ldar" | "ldarb" | "ldarh" => {
                    let size = if m.ends_with('b') { 1 } else if m.ends_with('h') { 2 } else { Self::bits(&o[0]) as u8 / 8 };
                    let a = self.addr(&o[1]);
                    let v = mem(Kind::Load, a, size, 0, m.starts_with("lda") as u8);
                    if let Some((f, seen)) = &mut self.lse {
                        *seen |= a == *f && v != 0;
                    }
                    self.set(&o[0], v as u64);
                }
                "str" | "strb" | "strh" | "stlr" | "stlrb" | "stlrh" => {
                    let size = if m.ends_with('b') { 1 } else if m.ends_with('h') { 2 } else { Self::bits(&o[0]) as u8 / 8 };
                    let v = self.get(&o[0]) as u128 & (u128::MAX >> (128 - 8 * size as u32));
                    mem(Kind::Store, self.addr(&o[1]), size, v, if m.starts_with("stl") { 2 } else { 0 });
                }
                "ldp" => {
                    let b = Self::bits(&o[0]) as u64 / 8;
                    let a = self.addr(&o[2]);
                    let (v, w) = (mem(Kind::Load, a, b as u8, 0, 0), mem(Kind::Load, a + b, b as u8, 0, 0));
                    self.set(&o[0], v as u64);
                    self.set(&o[1], w as u64);
                }
                "mov" => {
                    let v = self.get(&o[1]);
                    self.set(&o[0], v);
                }
                "uxtb" | "uxth" | "sxtb" | "sxth" => {
                    let v = self.get(&o[1]);
                    let v = match m {
                        "uxtb" => v & 0xff,
                        "uxth" => v & 0xffff,
                        "sxtb" => v as i8 as u64,
                        _ => v as i16 as u64,
                    };
                    self.set(&o[0], v);
                }
                "add" | "adds" | "sub" | "subs" | "and" | "ands" | "orr" | "eor" | "bic" | "orn" | "lsl" | "lsr" => {
                    let (a, b) = (self.get(&o[1]), if o[2].contains('{') { self.sym(&o[2]).unwrap_or_else(|| unsupported(i)) & 0xfff } else { self.get(&o[2]) });
                    let w = Self::bits(&o[0]);
                    let (r, fl) = match m {
                        "add" | "adds" => Fl::add(a, b, w),
                        "sub" | "subs" => Fl::sub(a, b, w),
                        "and" | "ands" => (a & b, Fl { z: a & b & mask(w) == 0, n: (a & b) >> (w - 1) & 1 != 0, c: false, v: false }),
                        "orr" => (a | b, self.f),
                        "eor" => (a ^ b, self.f),
                        "bic" => (a & !b, self.f),
                        "orn" => (a | !b, self.f),
                        "lsl" => (a << (b % w as u64), self.f),
                        _ => (a >> (b % w as u64), self.f),
                    };
                    if m.ends_with('s') && m != "lds" {
                        self.f = fl;
                    }
                    self.set(&o[0], r);
                }
                "mvn" => {
                    let v = !self.get(&o[1]);
                    self.set(&o[0], v);
                }
                "neg" => {
                    let v = self.get(&o[1]).wrapping_neg();
                    self.set(&o[0], v);
                }
                "cmp" => self.f = Fl::sub(self.get(&o[0]), self.get(&o[1]), Self::bits(&o[0])).1,
                "cmn" => self.f = Fl::add(self.get(&o[0]), self.get(&o[1]), Self::bits(&o[0])).1,
                "tst" => {
                    let r = self.get(&o[0]) & self.get(&o[1]) & mask(Self::bits(&o[0]));
                    self.f = Fl { z: r == 0, n: r >> (Self::bits(&o[0]) - 1) & 1 != 0, c: false, v: false };
                }
                "ccmp" => {
                    self.f = if self.f.cond(&o[3]) {
                        Fl::sub(self.get(&o[0]), self.get(&o[1]), Self::bits(&o[0])).1
                    } else {
                        let k = imm(&o[2]).unwrap_or_else(|| unsupported(i));
                        Fl { n: k & 8 != 0, z: k & 4 != 0, c: k & 2 != 0, v: k & 1 != 0 }
                    };
                }
                "csel" => {
                    let v = if self.f.cond(&o[3]) { self.get(&o[1]) } else { self.get(&o[2]) };
                    self.set(&o[0], v);
                }
                "cset" => {
                    let v = self.f.cond(&o[1]) as u64;
                    self.set(&o[0], v);
                }
                "cbz" | "cbnz" => {
                    if (self.get(&o[0]) == 0) == (m == "cbz") {
                        pc = p.target(pc - 1, &o[1]);
                    }
                }
                "tbz" | "tbnz" => {
                    if (self.get(&o[0]) >> imm(&o[1]).unwrap_or_else(|| unsupported(i)) & 1 == 0) == (m == "tbz") {
                        pc = p.target(pc - 1, &o[2]);
                    }
                }
                "dmb" | "dsb" => {
                    let k = if o[0].ends_with("ld") { 1 } else if o[0].ends_with("st") { 0 } else { 3 };
                    mem(Kind::Barrier, 0, 0, 0, k);
                }
                "clrex" => {
                    mem(Kind::ClearEx, 0, 0, 0, 0);
                }
                "nop" | "bti" | "isb" | "hint" => {}
                "ret" => return true,
                _ if m.starts_with("b.") && o.len() == 1 => {
                    if self.f.cond(&m[2..]) {
                        pc = p.target(pc - 1, &o[0]);
                    }
                }
                _ if m.starts_with('b') && o.len() == 1 && m != "bl" && m != "br" && m != "blr" => {
                    if self.f.cond(&m[1..]) {
                        pc = p.target(pc - 1, &o[0]);
                    }
                }
                _ => unsupported(i),
            }
        }
        unsupported("assembly that does not end")
    }
}

fn mask(b: u32) -> u64 {
    if b >= 64 { u64::MAX } else { (1 << b) - 1 }
}

/// (operation, ordering, size suffix); operation 0 = cas, 1 = swp, 2 = add, 3 = clr, 4 = eor, 5 = set
fn lse(m: &str) -> Option<(u8, u8, Option<u8>)> {
    let (op, rest) = [("casp", 0), ("cas", 0), ("swp", 1), ("ldadd", 2), ("ldclr", 3), ("ldeor", 4), ("ldset", 5)]
        .iter()
        .find_map(|(n, k)| m.strip_prefix(n).map(|r| (*k, r)))?;
    let (ord, rest) = if let Some(r) = rest.strip_prefix("al") {
        (3, r)
    } else if let Some(r) = rest.strip_prefix('a') {
        (1, r)
    } else if let Some(r) = rest.strip_prefix('l') {
        (2, r)
    } else {
        (0, rest)
    };
    match rest {
        "" => Some((op, ord, None)),
        "b" => Some((op, ord, Some(1))),
        "h" => Some((op, ord, Some(2))),
        _ => None,
    }
}

// ---------------------------------------------------------------- AVR

/// Decoded AVR instructions; only what integer routines use.
#[derive(Clone, Copy, Debug)]
enum Av {
    Clr(u8),
    Ldi(u8, u8),
    Mov(u8, u8),
    Movw(u8, u8),
    Lsl(u8),
    Rol(u8),
    Lsr(u8),
    Ror(u8),
    Cp(u8, u8),
    Cpc(u8, u8),
    Sub(u8, u8),
    Sbc(u8, u8),
    Add(u8, u8),
    Adc(u8, u8),
    And(u8, u8),
    Or(u8, u8),
    Eor(u8, u8),
    Sbr(u8, u8),
    Cbr(u8, u8),
    Subi(u8, u8),
    Sbci(u8, u8),
    Cpi(u8, u8),
    Dec(u8),
    Inc(u8),
    Com(u8),
    Neg(u8),
    Brcs(usize),
    Brcc(usize),
    Breq(usize),
    Brne(usize),
    Rjmp(usize),
    Nop,
    Ret,
}

pub struct Avr(Vec<Av>);

impl Avr {
    pub fn new(lines: &[String]) -> Self {
        let p = parse(lines.iter().map(|s| s.as_str()), &["//"]);
        let r = |s: &str| -> u8 { s.to_lowercase().strip_prefix('r').and_then(|n| n.parse().ok()).filter(|n| *n < 32).unwrap_or_else(|| unsupported(s)) };
        let k = |s: &str| -> u8 { imm(s).unwrap_or_else(|| unsupported(s)) as u8 };
        let v = p
            .ins
            .iter()
            .enumerate()
            .map(|(n, i)| {
                let o = &i.ops;
                let t = |s: &str| p.target(n, s);
                match i.mn.as_str() {
                    "clr" => Av::Clr(r(&o[0])),
                    "ldi" => Av::Ldi(r(&o[0]), k(&o[1])),
                    "mov" => Av::Mov(r(&o[0]), r(&o[1])),
                    "movw" => Av::Movw(r(&o[0]), r(&o[1])),
                    "lsl" => Av::Lsl(r(&o[0])),
                    "rol" => Av::Rol(r(&o[0])),
                    "lsr" => Av::Lsr(r(&o[0])),
                    "ror" => Av::Ror(r(&o[0])),
                    "cp" => Av::Cp(r(&o[0]), r(&o[1])),
                    "cpc" => Av::Cpc(r(&o[0]), r(&o[1])),
                    "sub" => Av::Sub(r(&o[0]), r(&o[1])),
                    "sbc" => Av::Sbc(r(&o[0]), r(&o[1])),
                    "add" => Av::Add(r(&o[0]), r(&o[1])),
                    "adc" => Av::Adc(r(&o[0]), r(&o[1])),
                    "and" => Av::And(r(&o[0]), r(&o[1])),
                    "or" => Av::Or(r(&o[0]), r(&o[1])),
                    "eor" => Av::Eor(r(&o[0]), r(&o[1])),
                    "sbr" | "ori" => Av::Sbr(r(&o[0]), k(&o[1])),
                    "cbr" => Av::Cbr(r(&o[0]), k(&o[1])),
                    "andi" => Av::Cbr(r(&o[0]), !k(&o[1])),
                    "subi" => Av::Subi(r(&o[0]), k(&o[1])),
                    "sbci" => Av::Sbci(r(&o[0]), k(&o[1])),
                    "cpi" => Av::Cpi(r(&o[0]), k(&o[1])),
                    "dec" => Av::Dec(r(&o[0])),
                    "inc" => Av::Inc(r(&o[0])),
                    "com" => Av::Com(r(&o[0])),
                    "neg" => Av::Neg(r(&o[0])),
                    "tst" => Av::And(r(&o[0]), r(&o[0])),
                    "brlo" | "brcs" => Av::Brcs(t(&o[0])),
                    "brsh" | "brcc" => Av::Brcc(t(&o[0])),
                    "breq" => Av::Breq(t(&o[0])),
                    "brne" => Av::Brne(t(&o[0])),
                    "rjmp" | "jmp" => Av::Rjmp(t(&o[0])),
                    "nop" => Av::Nop,
                    "ret" => Av::Ret,
                    _ => unsupported(i),
                }
            })
            .collect();
        Avr(v)
    }

    /// Runs to `ret`; false if it does not get there.
    pub fn run(&self, r: &mut [u8; 32]) -> bool {
        let (mut c, mut z) = (false, false);
        let mut pc = 0;
        for _ in 0..5000 {
            let Some(i) = self.0.get(pc) else { return false };
            pc += 1;
            macro_rules! put {
                ($d:expr, $v:expr) => {{
                    let v: u8 = $v;
                    r[$d as usize] = v;
                    z = v == 0;
                }};
            }
            match *i {
                Av::Clr(d) => put!(d, 0),
                Av::Ldi(d, k) => r[d as usize] = k,
                Av::Mov(d, s) => r[d as usize] = r[s as usize],
                Av::Movw(d, s) => {
                    r[d as usize] = r[s as usize];
                    r[d as usize + 1] = r[s as usize + 1];
                }
                Av::Lsl(d) => {
                    let x = r[d as usize];
                    c = x >> 7 != 0;
                    put!(d, x << 1);
                }
                Av::Rol(d) => {
                    let x = r[d as usize];
                    put!(d, x << 1 | c as u8);
                    c = x >> 7 != 0;
                }
                Av::Lsr(d) => {
                    let x = r[d as usize];
                    c = x & 1 != 0;
                    put!(d, x >> 1);
                }
                Av::Ror(d) => {
                    let x = r[d as usize];
                    put!(d, x >> 1 | (c as u8) << 7);
                    c = x & 1 != 0;
                }
                Av::Cp(d, s) => {
                    let (x, y) = (r[d as usize], r[s as usize]);
                    c = x < y;
                    z = x == y;
                }
                Av::Cpi(d, y) => {
                    let x = r[d as usize];
                    c = x < y;
                    z = x == y;
                }
                Av::Cpc(d, s) => {
                    let (x, y) = (r[d as usize] as i16, r[s as usize] as i16 + c as i16);
                    c = x < y;
                    z &= x as u8 == y as u8;
                }
                Av::Sub(d, s) => {
                    let (x, y) = (r[d as usize], r[s as usize]);
                    c = x < y;
                    put!(d, x.wrapping_sub(y));
                }
                Av::Subi(d, y) => {
                    let x = r[d as usize];
                    c = x < y;
                    put!(d, x.wrapping_sub(y));
                }
                Av::Sbc(d, s) => {
                    let (x, y) = (r[d as usize] as i16, r[s as usize] as i16 + c as i16);
                    c = x < y;
                    let v = (x - y) as u8;
                    r[d as usize] = v;
                    z &= v == 0;
                }
                Av::Sbci(d, k) => {
                    let (x, y) = (r[d as usize] as i16, k as i16 + c as i16);
                    c = x < y;
                    let v = (x - y) as u8;
                    r[d as usize] = v;
                    z &= v == 0;
                }
                Av::Add(d, s) => {
                    let (v, o) = r[d as usize].overflowing_add(r[s as usize]);
                    c = o;
                    put!(d, v);
                }
                Av::Adc(d, s) => {
                    let v = r[d as usize] as u16 + r[s as usize] as u16 + c as u16;
                    c = v > 255;
                    put!(d, v as u8);
                }
                Av::And(d, s) => put!(d, r[d as usize] & r[s as usize]),
                Av::Or(d, s) => put!(d, r[d as usize] | r[s as usize]),
                Av::Eor(d, s) => put!(d, r[d as usize] ^ r[s as usize]),
                Av::Sbr(d, k) => put!(d, r[d as usize] | k),
                Av::Cbr(d, k) => put!(d, r[d as usize] & !k),
                Av::Dec(d) => put!(d, r[d as usize].wrapping_sub(1)),
                Av::Inc(d) => put!(d, r[d as usize].wrapping_add(1)),
                Av::Com(d) => {
                    put!(d, !r[d as usize]);
                    c = true;
                }
                Av::Neg(d) => {
                    put!(d, r[d as usize].wrapping_neg());
                    c = r[d as usize] != 0;
                }
                Av::Brcs(t) => {
                    if c {
                        pc = t;
                    }
                }
                Av::Brcc(t) => {
                    if !c {
                        pc = t;
                    }
                }
                Av::Breq(t) => {
                    if z {
                        pc = t;
                    }
                }
                Av::Brne(t) => {
                    if !z {
                        pc = t;
                    }
                }
                Av::Rjmp(t) => pc = t,
                Av::Nop => {}
                Av::Ret => return true,
            }
        }
        false
    }
}

// ---------------------------------------------------------------- x86

/// Register names of one family, by index rax, rcx, rdx, rbx, rsp, rbp, rsi, rdi, r8..r15.
const X64: [&str; 16] = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"];
const X32: [&str; 8] = ["eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi"];

#[derive(Clone, Debug)]
enum Xo {
    Reg(usize),
    Imm(i64),
    /// base, index, scale, displacement
    Mem(Option<usize>, Option<(usize, u64)>, i64),
    Label(usize),
    Sym(String),
}
#[derive(Clone, Debug)]
pub struct Xi {
    mn: String,
    o: Vec<Xo>,
}
pub struct X86 {
    ins: Vec<Xi>,
    wide: bool,
    /// Unwind rules in force before each instruction; empty without any.
    pub frames: Vec<Frame>,
}

/// Where the caller's stack pointer and registers are: base register and offset, then offsets from there.
#[derive(Clone, Debug, Default)]
pub struct Frame {
    pub base: usize,
    pub off: i64,
    pub saved: Vec<(usize, i64)>,
}

/// What a stack routine did.
pub struct Trace {
    pub r: [u64; 16],
    /// addresses accessed, in order
    pub touch: Vec<u64>,
    pub mem: Vec<(u64, u64)>,
    /// address jumped to at the end
    pub ret: u64,
    pub end: Option<String>,
}

impl X86 {
    pub fn new(lines: &[String], syms: &[(String, String)], wide: bool) -> Self {
        let p = parse(lines.iter().map(|s| s.as_str()), &["//", "#"]);
        let reg = |s: &str| -> Option<usize> {
            let s = s.trim().to_lowercase();
            if wide { X64.iter().position(|x| *x == s) } else { X32.iter().position(|x| *x == s) }
        };
        let ins = p
            .ins
            .iter()
            .enumerate()
            .map(|(at, i)| {
                let o = i
                    .ops
                    .iter()
                    .map(|s| {
                        let mut s = s.trim();
                        for pre in ["qword ptr", "dword ptr", "word ptr", "byte ptr", "short"] {
                            s = s.strip_prefix(pre).map(str::trim).unwrap_or(s);
                        }
                        if let Some(r) = reg(s) {
                            return Xo::Reg(r);
                        }
                        if let Some(v) = imm(s) {
                            return Xo::Imm(v);
                        }
                        if s.starts_with('{') {
                            let n = s.trim_matches(['{', '}']);
                            let t = syms.iter().find(|x| x.0 == n).or(syms.first()).map(|x| x.1.clone()).unwrap_or_default();
                            return Xo::Sym(t.rsplit("::").next().unwrap().trim().to_string());
                        }
                        if let Some(m) = s.strip_prefix('[').and_then(|s| s.strip_suffix(']')) {
                            let (mut b, mut x, mut d) = (None, None, 0i64);
                            let m = m.replace('-', "+-");
                            for t in m.split('+').map(str::trim).filter(|t| !t.is_empty()) {
                                if let Some(v) = imm(&t.replace(' ', "")) {
                                    d += v;
                                } else if let Some((r, k)) = t.split_once('*') {
                                    x = Some((reg(r).unwrap_or_else(|| unsupported(s)), imm(k).unwrap_or_else(|| unsupported(s)) as u64));
                                } else {
                                    let r = reg(t).unwrap_or_else(|| unsupported(s));
                                    if b.is_none() {
                                        b = Some(r);
                                    } else {
                                        x = Some((r, 1));
                                    }
                                }
                            }
                            return Xo::Mem(b, x, d);
                        }
                        if i.mn.starts_with('j') || i.mn == "call" {
                            return Xo::Label(p.target(at, s));
                        }
                        unsupported(s)
                    })
                    .collect();
                Xi { mn: i.mn.clone(), o }
            })
            .collect();
        let mut frames = Vec::new();
        let mut fr = Frame { base: 4, off: if wide { 8 } else { 4 }, saved: vec![] };
        let initial = fr.clone();
        let mut stack = Vec::new();
        let mut open = false;
        let mut k = 0;
        for at in 0..=p.ins.len() {
            while k < p.dirs.len() && p.dirs[k].0 == at {
                let (d, rest) = p.dirs[k].1.split_once(char::is_whitespace).unwrap_or((&p.dirs[k].1, ""));
                let a: Vec<&str> = rest.split(',').map(str::trim).collect();
                let r = |i: usize| reg(a[i]).unwrap_or_else(|| unsupported(&p.dirs[k].1));
                let n = |i: usize| imm(a[i]).unwrap_or_else(|| unsupported(&p.dirs[k].1));
                match d {
                    ".cfi_startproc" => (open, fr) = (true, initial.clone()),
                    ".cfi_endproc" => open = false,
                    ".cfi_adjust_cfa_offset" => fr.off += n(0),
                    ".cfi_def_cfa_offset" => fr.off = n(0),
                    ".cfi_def_cfa_register" => fr.base = r(0),
                    ".cfi_def_cfa" => (fr.base, fr.off) = (r(0), n(1)),
                    ".cfi_offset" => {
                        fr.saved.retain(|x| x.0 != r(0));
                        fr.saved.push((r(0), n(1)));
                    }
                    ".cfi_rel_offset" => {
                        fr.saved.retain(|x| x.0 != r(0));
                        fr.saved.push((r(0), n(1) - fr.off));
                    }
                    ".cfi_restore" | ".cfi_same_value" => fr.saved.retain(|x| x.0 != r(0)),
                    ".cfi_remember_state" => stack.push(fr.clone()),
                    ".cfi_restore_state" => fr = stack.pop().unwrap_or_else(|| unsupported(d)),
                    d if d.starts_with(".cfi_") => unsupported(&p.dirs[k].1),
                    _ => {}
                }
                k += 1;
            }
            if open {
                frames.resize(at, Frame::default());
                frames.push(fr.clone());
            }
        }
        X86 { ins, wide, frames }
    }

    /// `mem`: words on the stack at entry.
    pub fn run(&self, r: [u64; 16], mem: Vec<(u64, u64)>) -> Trace {
        self.watch(r, mem, |_, _| {})
    }

    /// The same, showing the state before every instruction.
    pub fn watch(&self, r: [u64; 16], mem: Vec<(u64, u64)>, mut see: impl FnMut(usize, &Trace)) -> Trace {
        let (bits, word) = if self.wide { (64, 8u64) } else { (32, 4) };
        let m = mask(bits);
        let mut t = Trace { r, touch: vec![], mem, ret: 0, end: None };
        let mut f = Fl::default(); // c is "no borrow" as on ARM
        let mut pc = 0;
        macro_rules! ea {
            ($o:expr) => {
                match $o {
                    Xo::Mem(b, x, d) => (b.map_or(0, |b| t.r[b]).wrapping_add(x.map_or(0, |x| t.r[x.0].wrapping_mul(x.1))).wrapping_add(*d as u64)) & m,
                    o => unsupported(o),
                }
            };
        }
        fn load(t: &mut Trace, a: u64) -> u64 {
            t.touch.push(a);
            t.mem.iter().rev().find(|x| x.0 == a).map_or(0x1bad_1bad ^ a, |x| x.1)
        }
        fn store(t: &mut Trace, a: u64, v: u64) {
            t.touch.push(a);
            match t.mem.iter_mut().find(|x| x.0 == a) {
                Some(x) => x.1 = v,
                None => t.mem.push((a, v)),
            }
        }
        macro_rules! val {
            ($o:expr) => {
                match $o {
                    Xo::Reg(n) => t.r[*n],
                    Xo::Imm(v) => *v as u64 & m,
                    o @ Xo::Mem(..) => {
                        let a = ea!(o);
                        load(&mut t, a) & m
                    }
                    o => unsupported(o),
                }
            };
        }
        macro_rules! put {
            ($o:expr, $v:expr) => {
                match $o {
                    Xo::Reg(n) => t.r[*n] = $v & m,
                    o @ Xo::Mem(..) => {
                        let a = ea!(o);
                        store(&mut t, a, $v & m)
                    }
                    o => unsupported(o),
                }
            };
        }
        for _ in 0..2_000_000u32 {
            let Some(i) = self.ins.get(pc) else {
                t.end = Some("ran past its end".into());
                return t;
            };
            see(pc, &t);
            pc += 1;
            let o = &i.o;
            match i.mn.as_str() {
                "push" => {
                    let v = val!(&o[0]);
                    t.r[4] = t.r[4].wrapping_sub(word) & m;
                    let sp = t.r[4];
                    store(&mut t, sp, v);
                }
                "pop" => {
                    let sp = t.r[4];
                    let v = load(&mut t, sp);
                    t.r[4] = sp.wrapping_add(word) & m;
                    put!(&o[0], v);
                }
                "mov" => {
                    let v = val!(&o[1]);
                    put!(&o[0], v);
                }
                "lea" => {
                    let v = ea!(&o[1]);
                    put!(&o[0], v);
                }
                "xchg" => {
                    let (a, b) = (val!(&o[0]), val!(&o[1]));
                    put!(&o[0], b);
                    put!(&o[1], a);
                }
                "sub" | "add" | "cmp" | "test" | "and" | "or" | "xor" => {
                    let (a, b) = (val!(&o[0]), val!(&o[1]));
                    let (v, fl) = match i.mn.as_str() {
                        "sub" | "cmp" => Fl::sub(a, b, bits),
                        "add" => {
                            let (v, mut fl) = Fl::add(a, b, bits);
                            fl.c = !fl.c;
                            (v, fl)
                        }
                        k => {
                            let v = match k {
                                "test" | "and" => a & b,
                                "or" => a | b,
                                _ => a ^ b,
                            };
                            (v, Fl { z: v == 0, n: v >> (bits - 1) & 1 != 0, c: true, v: false })
                        }
                    };
                    f = fl;
                    if i.mn != "cmp" && i.mn != "test" {
                        put!(&o[0], v);
                    }
                }
                "inc" | "dec" => {
                    let a = val!(&o[0]);
                    let (v, fl) = if i.mn == "inc" { Fl::add(a, 1, bits) } else { Fl::sub(a, 1, bits) };
                    f = Fl { c: f.c, ..fl };
                    put!(&o[0], v);
                }
                "neg" => {
                    let a = val!(&o[0]);
                    let (v, fl) = Fl::sub(0, a, bits);
                    f = fl;
                    put!(&o[0], v);
                }
                "shr" | "shl" => {
                    let (a, b) = (val!(&o[0]), val!(&o[1]) % bits as u64);
                    let v = if i.mn == "shr" { a >> b } else { a << b & m };
                    f.z = v == 0;
                    put!(&o[0], v);
                }
                "leave" => {
                    let bp = t.r[5];
                    t.r[5] = load(&mut t, bp);
                    t.r[4] = bp.wrapping_add(word) & m;
                }
                "lfence" | "nop" | "mfence" | "endbr64" | "endbr32" | "cld" => {}
                "ret" => {
                    let sp = t.r[4];
                    t.ret = load(&mut t, sp);
                    let extra = o.first().map_or(0, |x| val!(x));
                    t.r[4] = sp.wrapping_add(word).wrapping_add(extra) & m;
                    return t;
                }
                "jmp" => match &o[0] {
                    Xo::Label(l) => pc = *l,
                    Xo::Sym(s) => {
                        t.end = Some(format!("jmp {s}"));
                        return t;
                    }
                    x => {
                        t.ret = val!(x);
                        return t;
                    }
                },
                j if j.starts_with('j') => {
                    let c = match &j[1..] {
                        "a" | "nbe" => "hi",
                        "na" | "be" => "ls",
                        "b" | "c" | "nae" => "lo",
                        "ae" | "nb" | "nc" => "hs",
                        "e" | "z" => "eq",
                        "ne" | "nz" => "ne",
                        "g" | "nle" => "gt",
                        "ge" | "nl" => "ge",
                        "l" | "nge" => "lt",
                        "le" | "ng" => "le",
                        "s" => "mi",
                        "ns" => "pl",
                        _ => unsupported(i),
                    };
                    if f.cond(c) {
                        match &o[0] {
                            Xo::Label(l) => pc = *l,
                            x => unsupported(x),
                        }
                    }
                }
                _ => unsupported(i),
            }
        }
        t.end = Some("does not return".into());
        t
    }
}

// ---------------------------------------------------------------- scalar float instructions (A64, LoongArch)

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fk {
    H,
    S,
    D,
}
fn fp_get(k: Fk, r: u64) -> f64 {
    match k {
        Fk::H => f16::from_bits(r as u16) as f64,
        Fk::S => f32::from_bits(r as u32) as f64,
        Fk::D => f64::from_bits(r),
    }
}
/// Writing a scalar clears the rest of the register on A64 and leaves it undefined on LoongArch.
fn fp_put(k: Fk, v: f64) -> u64 {
    match k {
        Fk::H => (v as f16).to_bits() as u64,
        Fk::S => (v as f32).to_bits() as u64,
        Fk::D => v.to_bits(),
    }
}
fn fp_fma(k: Fk, a: f64, b: f64, c: f64) -> u64 {
    match k {
        Fk::S => (a as f32).mul_add(b as f32, c as f32).to_bits() as u64,
        Fk::D => a.mul_add(b, c).to_bits(),
        Fk::H => unsupported("half precision fused multiply-add"),
    }
}

/// `asm!` blocks made of scalar float instructions.
pub fn fp_asm(t: &Tmpl, o: &mut Ops) {
    let mut r: Vec<u64> = o.v[..o.n].iter().map(|x| x.val).collect();
    for l in t.lines() {
        let l = l.split("//").next().unwrap().trim();
        if l.is_empty() {
            continue;
        }
        let (mn, ops) = l.split_once(char::is_whitespace).unwrap_or((l, ""));
        let ops: Vec<&str> = ops.split(',').map(|x| x.trim().trim_matches(['{', '}'])).collect();
        let slot = |s: &str| -> usize {
            let n = s.split(':').next().unwrap();
            o.v[..o.n].iter().position(|x| x.name == n).or_else(|| n.parse().ok().filter(|i| *i < o.n)).unwrap_or_else(|| unsupported(s))
        };
        let (base, loong) = mn.split_once('.').map_or((mn, None), |(a, b)| (a, Some(b)));
        let kind = |s: &str| -> Fk {
            match loong.or(s.split(':').nth(1)) {
                Some("h") => Fk::H,
                Some("s") => Fk::S,
                Some("d") => Fk::D,
                _ => unsupported(l),
            }
        };
        let k = kind(ops[0]);
        if ops.iter().any(|s| kind(s) != k) {
            unsupported::<()>(l);
        }
        let x: Vec<f64> = ops[1..].iter().map(|s| fp_get(k, r[slot(s)])).collect();
        // sums, products, quotients and roots of narrow operands are correctly rounded when rounded from f64
        let v = match (base, x.len()) {
            ("fmadd", 3) => fp_fma(k, x[0], x[1], x[2]),
            ("fmsub", 3) if loong.is_none() => fp_fma(k, -x[0], x[1], x[2]),
            ("fmsub", 3) => fp_fma(k, x[0], x[1], -x[2]),
            ("fnmadd", 3) if loong.is_none() => fp_fma(k, -x[0], x[1], -x[2]),
            ("fnmsub", 3) if loong.is_none() => fp_fma(k, x[0], x[1], -x[2]),
            ("fnmadd", 3) => fp_put(k, -fp_get(k, fp_fma(k, x[0], x[1], x[2]))),
            ("fnmsub", 3) => fp_put(k, -fp_get(k, fp_fma(k, x[0], x[1], -x[2]))),
            ("frintn" | "vfrintrne" | "frintx" | "frinti" | "frint" | "vfrint", 1) => fp_put(k, x[0].round_ties_even()),
            ("frinta", 1) => fp_put(k, x[0].round()),
            ("frintm" | "vfrintrm", 1) => fp_put(k, x[0].floor()),
            ("frintp" | "vfrintrp", 1) => fp_put(k, x[0].ceil()),
            ("frintz" | "vfrintrz", 1) => fp_put(k, x[0].trunc()),
            ("fsqrt" | "vfsqrt", 1) => fp_put(k, x[0].sqrt()),
            ("fabs", 1) => fp_put(k, x[0].abs()),
            ("fneg", 1) => fp_put(k, -x[0]),
            ("fmov", 1) => r[slot(ops[1])],
            ("fadd" | "vfadd", 2) => fp_put(k, x[0] + x[1]),
            ("fsub" | "vfsub", 2) => fp_put(k, x[0] - x[1]),
            ("fmul" | "vfmul", 2) => fp_put(k, x[0] * x[1]),
            ("fdiv" | "vfdiv", 2) => fp_put(k, x[0] / x[1]),
            _ => unsupported(l),
        };
        r[slot(ops[0])] = v;
    }
    for i in 0..o.n {
        o.v[i].val = r[i];
    }
}
