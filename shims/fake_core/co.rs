//! Runs a routine under test until its next request to the machine.
//!
//! `run` calls a function; every request it makes is answered from the given list of earlier answers. The first
//! request beyond that list abandons the call (no destructors are pending in the code under test) and is
//! returned to the explorer.

use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub enum Kind {
    #[default]
    None,
    Load,
    Store,
    LoadEx,
    StoreEx,
    ClearEx,
    Barrier,
    KuserCas,
    Lse,
    AtomicLoad,
    AtomicStore,
    AtomicSwap,
    AtomicCas,
    AtomicOr,
    AtomicAdd,
    Naked,
}

/// `order`: 1 = acquire, 2 = release, 3 = both, 4 = sequentially consistent.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct Req {
    pub kind: Kind,
    pub addr: u64,
    pub size: u8,
    pub a: u128,
    pub b: u128,
    pub order: u8,
}

pub fn order(o: std::sync::atomic::Ordering) -> u8 {
    use std::sync::atomic::Ordering::*;
    match o {
        Relaxed => 0,
        Acquire => 1,
        Release => 2,
        AcqRel => 3,
        _ => 7,
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Need(Req),
    Naked(Vec<String>, Vec<(String, String)>),
    Done(u128),
}

struct State {
    rsp: u64,
    hist: *const u128,
    len: usize,
    next: usize,
    out: Option<Out>,
    trace: Vec<Req>,
    keep_trace: bool,
    active: bool,
}

thread_local! {
    static ST: RefCell<State> = const { RefCell::new(State { rsp: 0, hist: std::ptr::null(), len: 0, next: 0, out: None, trace: Vec::new(), keep_trace: false, active: false }) };
    static BODY: Cell<Option<*const dyn Fn() -> u128>> = const { Cell::new(None) };
    static ASM: Cell<Option<fn(&Tmpl, &mut Ops)>> = const { Cell::new(None) };
    static SYNC: Cell<Option<*mut (dyn FnMut(Req) -> u128)>> = const { Cell::new(None) };
    static CPU: RefCell<Option<Cpu>> = const { RefCell::new(None) };
}

pub struct Cpu {
    pub cpuid: Box<dyn Fn(u32, u32) -> [u32; 4]>,
    pub xgetbv: Box<dyn Fn(u32) -> u64>,
}
pub fn set_cpu(c: Cpu) {
    CPU.with_borrow_mut(|x| *x = Some(c));
}
pub fn with_cpu<R>(f: impl FnOnce(&Cpu) -> R) -> R {
    CPU.with_borrow(|c| f(c.as_ref().expect("no processor model set")))
}

/// Interpreter used for `asm!` in the code under test.
pub fn set_asm(f: fn(&Tmpl, &mut Ops)) {
    ASM.set(Some(f));
}

extern "C" fn entry() {
    let f = BODY.get().unwrap();
    let r = unsafe { (*f)() };
    ST.with_borrow_mut(|s| s.out = Some(Out::Done(r)));
}

/// Leaves the routine under test for good.
fn leave(o: Out) -> ! {
    let rsp = ST.with_borrow_mut(|s| {
        s.out = Some(o);
        s.rsp
    });
    unsafe {
        std::arch::asm!(
            "mov rsp, {0}",
            "ret",
            in(reg) rsp,
            options(noreturn)
        )
    }
}

pub fn run(hist: &[u128], f: &dyn Fn() -> u128) -> Out {
    run_traced(hist, f, false).0
}

/// Also returns the requests made.
pub fn run_traced(hist: &[u128], f: &dyn Fn() -> u128, keep: bool) -> (Out, Vec<Req>) {
    let f: *const dyn Fn() -> u128 = f;
    BODY.set(Some(unsafe { std::mem::transmute::<*const (dyn Fn() -> u128 + '_), *const (dyn Fn() -> u128 + 'static)>(f) }));
    let p = ST.with_borrow_mut(|s| {
        s.hist = hist.as_ptr();
        s.len = hist.len();
        s.next = 0;
        s.out = None;
        s.trace.clear();
        s.keep_trace = keep;
        s.active = true;
        &raw mut s.rsp
    });
    unsafe {
        // The call's return address marks where `leave` comes back to.
        std::arch::asm!(
            "push rbp",
            "push rbx",
            "lea rax, [rsp - 8]",
            "mov [rdi], rax",
            "call rsi",
            "pop rbx",
            "pop rbp",
            in("rdi") p,
            in("rsi") entry as extern "C" fn() as usize,
            lateout("r12") _, lateout("r13") _, lateout("r14") _, lateout("r15") _,
            clobber_abi("C"),
        );
    }
    ST.with_borrow_mut(|s| {
        s.active = false;
        (s.out.take().unwrap(), std::mem::take(&mut s.trace))
    })
}

/// Runs `f` to its end, answering every request directly.
pub fn run_sync(f: &dyn Fn() -> u128, answer: &mut dyn FnMut(Req) -> u128) -> Out {
    let a: *mut (dyn FnMut(Req) -> u128 + '_) = answer;
    SYNC.set(Some(unsafe { std::mem::transmute::<*mut (dyn FnMut(Req) -> u128 + '_), *mut (dyn FnMut(Req) -> u128 + 'static)>(a) }));
    let r = run(&[], f);
    SYNC.set(None);
    r
}

/// A request to the machine; answered from the history or handed to the explorer.
pub fn request(r: Req) -> u128 {
    if let Some(a) = SYNC.get() {
        return unsafe { (*a)(r) };
    }
    let ans = ST.with_borrow_mut(|s| {
        assert!(s.active, "request outside of a run: {r:?}");
        if s.keep_trace {
            s.trace.push(r);
        }
        if s.next < s.len {
            let v = unsafe { *s.hist.add(s.next) };
            s.next += 1;
            Some(v)
        } else {
            None
        }
    });
    match ans {
        Some(v) => v,
        None => leave(Out::Need(r)),
    }
}

/// Templates of one assembly block.
pub struct Tmpl {
    pub v: [&'static str; 64],
    pub n: usize,
}
impl Tmpl {
    pub fn new() -> Self {
        Tmpl { v: [""; 64], n: 0 }
    }
    pub fn push(&mut self, s: &'static str) {
        self.v[self.n] = s;
        self.n += 1;
    }
    pub fn lines(&self) -> impl Iterator<Item = &'static str> + '_ {
        self.v[..self.n].iter().flat_map(|s| s.split('\n'))
    }
}

#[derive(Clone, Copy)]
pub struct Op {
    pub name: &'static str,
    pub val: u64,
    pub sym: &'static str,
    pub kind: u8, // 0 in/inout, 1 out, 2 sym, 3 const
}
pub struct Ops {
    pub v: [Op; 16],
    pub n: usize,
    cur: usize,
}
impl Ops {
    pub fn new() -> Self {
        Ops { v: [Op { name: "", val: 0, sym: "", kind: 0 }; 16], n: 0, cur: 0 }
    }
    fn add(&mut self, o: Op) {
        self.v[self.n] = o;
        self.n += 1;
    }
    pub fn sym(&mut self, name: &'static str, sym: &'static str) {
        self.add(Op { name, val: 0, sym, kind: 2 });
    }
    pub fn konst(&mut self, name: &'static str, v: i64) {
        self.add(Op { name, val: v as u64, sym: "", kind: 3 });
    }
    pub fn input(&mut self, name: &'static str, val: u64) {
        self.add(Op { name, val, sym: "", kind: 0 });
    }
    pub fn output(&mut self, name: &'static str) {
        self.add(Op { name, val: 0xdead_0bad_dead_0bad, sym: "", kind: 1 });
    }
    pub fn skip(&mut self) {
        self.cur += 1;
    }
    pub fn take(&mut self) -> u64 {
        self.cur += 1;
        self.v[self.cur - 1].val
    }
}

/// Register contents of an operand: bits above the operand's width are undefined, so they are set to junk.
pub trait Reg {
    fn to_reg(self) -> u64;
    fn from_reg(r: u64) -> Self;
}
const JUNK: u64 = 0xa5c3_96f0_5a3c_690f;
macro_rules! reg {
    ($($t:ty: $u:ty),*) => {$(
        impl Reg for $t {
            fn to_reg(self) -> u64 {
                let m = <$u>::MAX as u64;
                (self as $u as u64) | (JUNK & !m)
            }
            fn from_reg(r: u64) -> Self { r as $u as $t }
        }
    )*};
}
reg!(u8: u8, i8: u8, u16: u16, i16: u16, u32: u32, i32: u32, u64: u64, i64: u64, usize: u64);
impl<T> Reg for *const T {
    fn to_reg(self) -> u64 {
        self as u64
    }
    fn from_reg(r: u64) -> Self {
        r as *const T
    }
}
impl<T> Reg for *mut T {
    fn to_reg(self) -> u64 {
        self as u64
    }
    fn from_reg(r: u64) -> Self {
        r as *mut T
    }
}
impl Reg for f16 {
    fn to_reg(self) -> u64 {
        self.to_bits() as u64 | (JUNK & !0xffff)
    }
    fn from_reg(r: u64) -> Self {
        f16::from_bits(r as u16)
    }
}
impl Reg for f32 {
    fn to_reg(self) -> u64 {
        self.to_bits() as u64
    }
    fn from_reg(r: u64) -> Self {
        f32::from_bits(r as u32)
    }
}
impl Reg for f64 {
    fn to_reg(self) -> u64 {
        self.to_bits()
    }
    fn from_reg(r: u64) -> Self {
        f64::from_bits(r)
    }
}

pub fn asm(t: &Tmpl, o: &mut Ops) {
    ASM.get().expect("no assembly interpreter set")(t, o)
}

pub fn naked(t: &Tmpl, o: &Ops) -> ! {
    let lines = t.lines().map(|s| s.to_string()).collect();
    let syms = o.v[..o.n].iter().map(|o| (o.name.to_string(), if o.kind == 3 { o.val.to_string() } else { o.sym.to_string() })).collect();
    leave(Out::Naked(lines, syms))
}
