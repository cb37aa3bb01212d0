//! Stand-ins for the machine under `libm`'s run-time selected routines: instructions executed are recorded.

use fake_core::co::{Ops, Tmpl};
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Used {
    Fma,
    Fma4,
    Other,
}
thread_local!(pub static LOG: RefCell<Vec<Used>> = const { RefCell::new(Vec::new()) });

/// Executes three-operand multiply-add instructions.
pub fn asm(t: &Tmpl, o: &mut Ops) {
    let p = crate::asmi::parse(t.lines(), &["//", "#"]);
    for i in &p.ins {
        let idx = |s: &str| -> usize {
            let n = s.trim_matches(['{', '}']).split(':').next().unwrap();
            o.v[..o.n].iter().position(|x| x.name == n).unwrap_or_else(|| crate::asmi::unsupported(s))
        };
        let k: Vec<usize> = i.ops.iter().map(|s| idx(s)).collect();
        let (f32_, base) = if let Some(b) = i.mn.strip_suffix("sd") {
            (false, b)
        } else if let Some(b) = i.mn.strip_suffix("ss") {
            (true, b)
        } else {
            LOG.with_borrow_mut(|l| l.push(Used::Other));
            crate::asmi::unsupported(i)
        };
        let (used, a, b, c) = match base {
            "vfmadd213" => (Used::Fma, k[1], k[0], k[2]),
            "vfmadd132" => (Used::Fma, k[0], k[2], k[1]),
            "vfmadd231" => (Used::Fma, k[1], k[2], k[0]),
            "vfmadd" => (Used::Fma4, k[1], k[2], k[3]),
            _ => crate::asmi::unsupported(i),
        };
        LOG.with_borrow_mut(|l| l.push(used));
        let v = |j: usize| o.v[j].val;
        let r = if f32_ {
            let f = |j: usize| f32::from_bits(v(j) as u32);
            f(a).mul_add(f(b), f(c)).to_bits() as u64
        } else {
            let f = |j: usize| f64::from_bits(v(j));
            f(a).mul_add(f(b), f(c)).to_bits()
        };
        o.v[k[0]].val = r;
    }
}

/// A processor as the detector sees it.
#[derive(Clone, Copy, Debug)]
pub struct Machine {
    pub vendor: [u8; 12],
    pub max_basic: u32,
    pub max_ext: u32,
    /// bit set, see `BITS`
    pub bits: u32,
    /// value of every bit and register not described
    pub ground: bool,
}

/// (leaf, subleaf, register, bit); leaf 0xffff_ffff = XCR0
pub const BITS: [(u32, u32, usize, u32, &str); 17] = [
    (1, 0, 2, 0, "SSE3"),
    (1, 0, 2, 12, "FMA"),
    (1, 0, 2, 26, "XSAVE"),
    (1, 0, 2, 27, "OSXSAVE"),
    (1, 0, 2, 29, "F16C"),
    (1, 0, 3, 25, "SSE"),
    (1, 0, 3, 26, "SSE2"),
    (7, 0, 1, 9, "ERMSB"),
    (7, 0, 3, 23, "AVX512FP16"),
    (7, 1, 0, 5, "AVX512BF16"),
    (7, 1, 0, 31, "MOVRS"),
    (0x8000_0001, 0, 2, 16, "FMA4"),
    (u32::MAX, 0, 0, 1, "XCR0.SSE"),
    (u32::MAX, 0, 0, 2, "XCR0.AVX"),
    (u32::MAX, 0, 0, 5, "XCR0.opmask"),
    (u32::MAX, 0, 0, 6, "XCR0.ZMM_Hi256"),
    (u32::MAX, 0, 0, 7, "XCR0.Hi16_ZMM"),
];

thread_local!(pub static FAULT: RefCell<Option<String>> = const { RefCell::new(None) });

impl Machine {
    pub fn has(&self, name: &str) -> bool {
        let i = BITS.iter().position(|b| b.4 == name).unwrap();
        let leaf = BITS[i].0;
        let there = if leaf == u32::MAX {
            true
        } else if leaf >= 0x8000_0000 {
            self.max_ext >= leaf
        } else {
            self.max_basic >= leaf
        };
        there && self.bits >> i & 1 != 0
    }
    pub fn cpuid(&self, leaf: u32, sub: u32) -> [u32; 4] {
        let bg = if self.ground { u32::MAX } else { 0 };
        if leaf == 0 {
            let w = |i: usize| u32::from_le_bytes(self.vendor[4 * i..4 * i + 4].try_into().unwrap());
            return [self.max_basic, w(0), w(2), w(1)];
        }
        if leaf == 0x8000_0000 {
            return [self.max_ext, bg, bg, bg];
        }
        // Leaves that do not exist return something without meaning; subleaves of 7 that do not exist return zero.
        if (leaf < 0x8000_0000 && leaf > self.max_basic) || (leaf >= 0x8000_0000 && leaf > self.max_ext) {
            return [bg; 4];
        }
        if leaf == 7 && sub > 1 {
            return [0; 4];
        }
        let mut r = [bg; 4];
        for (i, b) in BITS.iter().enumerate() {
            if b.0 == leaf && b.1 == sub {
                r[b.2] = r[b.2] & !(1 << b.3) | (self.bits >> i & 1) << b.3;
            }
        }
        r
    }
    pub fn xgetbv(&self, n: u32) -> u64 {
        if !self.has("OSXSAVE") || !self.has("XSAVE") || n != 0 {
            FAULT.with_borrow_mut(|f| *f = Some(format!("xgetbv({n}) executed without operating system support")));
        }
        let mut r = if self.ground { u64::MAX } else { 0 };
        for (i, b) in BITS.iter().enumerate() {
            if b.0 == u32::MAX {
                r = r & !(1 << b.3) | ((self.bits >> i & 1) as u64) << b.3;
            }
        }
        r
    }
    pub fn os_avx(&self) -> bool {
        self.max_basic >= 1 && self.has("XSAVE") && self.has("OSXSAVE") && self.has("XCR0.SSE") && self.has("XCR0.AVX")
    }
    pub fn os_avx512(&self) -> bool {
        self.os_avx() && self.has("XCR0.opmask") && self.has("XCR0.ZMM_Hi256") && self.has("XCR0.Hi16_ZMM")
    }
    pub fn amd(&self) -> bool {
        &self.vendor == b"AuthenticAMD" || &self.vendor == b"HygonGenuine"
    }
    /// Instruction sets that can be used.
    pub fn usable(&self, f: &str) -> bool {
        self.max_basic >= 1
            && self.has(f)
            && match f {
                "FMA" | "F16C" => self.os_avx(),
                "FMA4" => self.os_avx() && self.amd(),
                "AVX512FP16" | "AVX512BF16" => self.os_avx512(),
                _ => true,
            }
    }
    pub fn install(self) {
        fake_core::co::set_cpu(fake_core::co::Cpu { cpuid: Box::new(move |l, s| self.cpuid(l, s)), xgetbv: Box::new(move |n| self.xgetbv(n)) });
    }
}
