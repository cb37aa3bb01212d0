//! Guarded buffers and the list of memory-routine builds.

use std::ffi::{c_char, c_int, c_void};

unsafe extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    fn mprotect(a: *mut c_void, n: usize, prot: c_int) -> c_int;
    fn munmap(a: *mut c_void, n: usize) -> c_int;
    fn memfd_create(name: *const c_char, flags: u32) -> c_int;
    fn ftruncate(fd: c_int, n: i64) -> c_int;
    fn close(fd: c_int) -> c_int;
}

pub const PAGE: usize = 4096;

/// Accessible pages between two inaccessible ones.
pub struct Arena {
    pub base: *mut u8,
    pub len: usize,
    map: *mut c_void,
    maplen: usize,
}
unsafe impl Send for Arena {}
unsafe impl Sync for Arena {}

impl Arena {
    pub fn new(pages: usize) -> Self {
        let maplen = (pages + 2) * PAGE;
        unsafe {
            // PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS
            let map = mmap(std::ptr::null_mut(), maplen, 0, 0x22, -1, 0);
            assert!(map as isize > 0, "mmap");
            let base = map.cast::<u8>().add(PAGE);
            assert_eq!(mprotect(base.cast(), pages * PAGE, 3), 0);
            Arena { base, len: pages * PAGE, map, maplen }
        }
    }
    /// The accessible bytes, only while no routine under test is running.
    #[allow(clippy::mut_from_ref)]
    pub fn bytes(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base, self.len) }
    }
    pub fn at(&self, off: usize) -> *mut u8 {
        self.base.wrapping_add(off)
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        unsafe {
            munmap(self.map, self.maplen);
        }
    }
}

/// A range of several gibibytes in few pages: blocks of contents, some of them mapped again and again.
pub struct Long {
    pub base: *mut u8,
    pub blocks: *mut u8,
    pub block: usize,
    /// which block is mapped where
    pub order: Vec<usize>,
    maplen: usize,
}
unsafe impl Send for Long {}

impl Long {
    /// Room for `n` bytes: a first and a last block of their own and one repeated between them. A process may have
    /// some 65000 mappings.
    pub fn new(n: usize) -> Self {
        let block = n.next_power_of_two() >> 11;
        let k = n / block + 1;
        Self::shape(block, (0..k).map(|i| if i == 0 { 0 } else if i == k - 1 { 2 } else { 1 }).collect())
    }
    pub fn shape(block: usize, order: Vec<usize>) -> Self {
        let maplen = order.len() * block;
        let own = order.iter().max().unwrap() + 1;
        unsafe {
            let fd = memfd_create(c"v".as_ptr(), 0);
            assert!(fd >= 0 && ftruncate(fd, (own * block) as i64) == 0, "memfd");
            let map = |at: *mut u8, len: usize, off: usize, fixed: c_int| {
                // MAP_SHARED | MAP_POPULATE
                let r = mmap(at.cast(), len, 3, 0x8001 | fixed, fd, off as i64);
                assert!(r as isize > 0, "mmap");
                r.cast::<u8>()
            };
            let blocks = map(std::ptr::null_mut(), own * block, 0, 0);
            // PROT_NONE with an inaccessible page on either side
            let all = mmap(std::ptr::null_mut(), maplen + 2 * PAGE, 0, 0x4022, -1, 0);
            assert!(all as isize > 0, "mmap");
            let base = all.cast::<u8>().add(PAGE);
            for (i, b) in order.iter().enumerate() {
                map(base.add(i * block), block, b * block, 0x10);
            }
            close(fd);
            Long { base, blocks, block, order, maplen }
        }
    }
    pub fn at(&self, off: usize) -> *mut u8 {
        self.base.wrapping_add(off)
    }
    /// The bytes of the blocks, only while no routine under test is running.
    #[allow(clippy::mut_from_ref)]
    pub fn bytes(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.blocks, self.own() * self.block) }
    }
    fn own(&self) -> usize {
        self.order.iter().max().unwrap() + 1
    }
    /// Where in the blocks the byte at an offset is.
    pub fn place(&self, off: usize) -> usize {
        off % self.block + self.block * self.order[off / self.block]
    }
}
impl Drop for Long {
    fn drop(&mut self) {
        unsafe {
            munmap(self.blocks.cast(), self.own() * self.block);
            munmap(self.base.sub(PAGE).cast(), self.maplen + 2 * PAGE);
        }
    }
}

#[derive(Clone, Copy)]
pub struct Mem {
    pub name: &'static str,
    pub memcpy: unsafe extern "C" fn(*mut u8, *const u8, usize) -> *mut u8,
    pub memmove: unsafe extern "C" fn(*mut u8, *const u8, usize) -> *mut u8,
    pub memset: unsafe extern "C" fn(*mut u8, c_int, usize) -> *mut u8,
    pub memcmp: unsafe extern "C" fn(*const u8, *const u8, usize) -> c_int,
    pub bcmp: unsafe extern "C" fn(*const u8, *const u8, usize) -> c_int,
    pub strlen: unsafe extern "C" fn(*const c_char) -> usize,
}

macro_rules! mem {
    ($v:ident, $name:literal, $($p:ident)::*) => {{
        use $($p)::* as m;
        $v.push(Mem { name: $name, memcpy: m::memcpy, memmove: m::memmove, memset: m::memset, memcmp: m::memcmp, bcmp: m::bcmp, strlen: m::strlen });
    }};
}

pub fn x86() -> Vec<Mem> {
    let mut v = vec![];
    mem!(v, "x86_64", compiler_builtins::mem);
    #[cfg(feature = "memx")]
    {
        mem!(v, "x86_64 fast-string", memx::erms);
        mem!(v, "x86_64 no fast-string", memx::noerms);
        mem!(v, "x86_64 no-SSE2", memx::nosse);
    }
    v
}

pub fn all() -> Vec<Mem> {
    let mut v = x86();
    mem!(v, "portable", cb_gen::mem);
    mem!(v, "portable riscv", cb_rv::mem);
    #[cfg(feature = "inc")]
    mem!(v, "aligned words", armish::mem);
    #[cfg(feature = "memx")]
    {
        mem!(v, "aligned 64-bit big-endian", memx::be64);
        mem!(v, "aligned 32-bit", memx::le32);
        mem!(v, "aligned 32-bit big-endian", memx::be32);
        mem!(v, "aligned 16-bit", memx::le16);
        mem!(v, "unaligned 32-bit", memx::le32u);
        mem!(v, "unaligned 16-bit", memx::le16u);
    }
    v
}

#[inline(always)]
pub fn pat(i: usize) -> u8 {
    (i.wrapping_mul(0x9e37_79b9) >> 11) as u8
}

/// Direction flag of this thread; clears it so that the harness itself keeps working.
#[inline(always)]
pub fn take_df() -> bool {
    let f: u64;
    unsafe { std::arch::asm!("pushfq", "pop {}", "cld", out(reg) f) };
    f >> 10 & 1 != 0
}
