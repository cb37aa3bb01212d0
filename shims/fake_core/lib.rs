//! `core` with assembly, CPU identification and atomics replaced by requests to an explorer.
#![feature(f16, f128)]
#![allow(warnings)]

pub use ::core::*;
pub mod co;

pub mod arch {
    pub use crate::{__fake_asm as asm, __fake_global_asm as global_asm, __fake_naked_asm as naked_asm};
    /// WebAssembly's float instructions by their definition.
    pub mod wasm32 {
        macro_rules! f {
            ($($n:ident $t:ty: $m:ident)*) => {$(
                pub fn $n(x: $t) -> $t {
                    std::hint::black_box(x).$m()
                }
            )*};
        }
        f! {
            f32_ceil f32: ceil f32_floor f32: floor f32_trunc f32: trunc f32_nearest f32: round_ties_even f32_sqrt f32: sqrt f32_abs f32: abs
            f64_ceil f64: ceil f64_floor f64: floor f64_trunc f64: trunc f64_nearest f64: round_ties_even f64_sqrt f64: sqrt f64_abs f64: abs
        }
    }
    pub mod x86_64 {
        pub use ::core::arch::x86_64::CpuidResult;
        pub fn __cpuid(leaf: u32) -> CpuidResult {
            __cpuid_count(leaf, 0)
        }
        pub fn __cpuid_count(leaf: u32, sub: u32) -> CpuidResult {
            let [eax, ebx, ecx, edx] = crate::co::with_cpu(|c| (c.cpuid)(leaf, sub));
            CpuidResult { eax, ebx, ecx, edx }
        }
        pub unsafe fn _xgetbv(n: u32) -> u64 {
            crate::co::with_cpu(|c| (c.xgetbv)(n))
        }
    }
}

pub mod sync {
    pub use ::core::sync::*;
    pub mod atomic {
        pub use ::core::sync::atomic::{AtomicBool, AtomicI32, AtomicU8, AtomicU64, AtomicUsize, Ordering};
        use crate::co::{Kind, Req, order, request};
        use ::core::cell::UnsafeCell;

        pub fn fence(o: Ordering) {
            request(Req { kind: Kind::Barrier, order: order(o), ..Req::default() });
        }

        /// Initial value only; the current one is kept by the explorer under this object's address.
        #[repr(transparent)]
        pub struct AtomicU32(UnsafeCell<u32>);
        #[repr(transparent)]
        pub struct AtomicPtr<T>(UnsafeCell<*mut T>);
        unsafe impl Sync for AtomicU32 {}
        unsafe impl<T> Sync for AtomicPtr<T> {}

        macro_rules! ops {
            ($t:ty, $size:literal, $me:ty, [$($g:tt)*]) => {
                impl $($g)* $me {
                    pub const fn new(v: $t) -> Self {
                        Self(UnsafeCell::new(v))
                    }
                    pub unsafe fn from_ptr<'a>(p: *mut $t) -> &'a Self {
                        unsafe { &*p.cast::<Self>() }
                    }
                    fn req(&self, kind: Kind, a: u64, b: u64, o: Ordering) -> $t {
                        let addr = self.0.get() as u64;
                        request(Req { kind, addr, size: $size, a: a as u128, b: b as u128, order: order(o) }) as u64 as $t
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        self.req(Kind::AtomicLoad, 0, 0, o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        self.req(Kind::AtomicStore, v as u64, 0, o);
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        self.req(Kind::AtomicSwap, v as u64, 0, o)
                    }
                    pub fn compare_exchange(&self, old: $t, new: $t, o: Ordering, _f: Ordering) -> Result<$t, $t> {
                        let r = self.req(Kind::AtomicCas, old as u64, new as u64, o);
                        if r == old { Ok(r) } else { Err(r) }
                    }
                    pub fn compare_exchange_weak(&self, old: $t, new: $t, o: Ordering, f: Ordering) -> Result<$t, $t> {
                        self.compare_exchange(old, new, o, f)
                    }
                }
            };
        }
        ops!(u32, 4, AtomicU32, []);
        ops!(*mut T, 8, AtomicPtr<T>, [<T>]);
        impl AtomicU32 {
            pub fn fetch_or(&self, v: u32, o: Ordering) -> u32 {
                self.req(Kind::AtomicOr, v as u64, 0, o)
            }
            pub fn fetch_add(&self, v: u32, o: Ordering) -> u32 {
                self.req(Kind::AtomicAdd, v as u64, 0, o)
            }
        }
    }
}

#[macro_export]
macro_rules! __fake_asm {
    ($($t:tt)*) => { $crate::__asm_m!(@asm [] [] $($t)*) };
}
#[macro_export]
macro_rules! __fake_global_asm {
    ($($t:tt)*) => {};
}
#[macro_export]
macro_rules! __fake_naked_asm {
    ($($t:tt)*) => { $crate::__asm_m!(@naked [] [] $($t)*) };
}

/// Splits the operands of an assembly macro into templates and operands.
#[macro_export]
macro_rules! __asm_m {
    // end
    (@asm [$({$($tm:tt)*})*] [$($op:tt)*]) => {{
        let mut __t: $crate::co::Tmpl = $crate::co::Tmpl::new();
        $( $crate::__tm!(__t $($tm)*); )*
        let mut __v = $crate::co::Ops::new();
        $( $crate::__op_in!(__v $op); )*
        $crate::co::asm(&__t, &mut __v);
        $( $crate::__op_out!(__v $op); )*
    }};
    (@naked [$({$($tm:tt)*})*] [$($op:tt)*]) => {{
        let mut __t: $crate::co::Tmpl = $crate::co::Tmpl::new();
        $( $crate::__tm!(__t $($tm)*); )*
        let mut __v = $crate::co::Ops::new();
        $( $crate::__op_in!(__v $op); )*
        $crate::co::naked(&__t, &__v)
    }};
    // options and clobbers
    (@$k:ident $t:tt $o:tt options($($x:tt)*) $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t $o $($($r)*)?) };
    (@$k:ident $t:tt $o:tt clobber_abi($($x:tt)*) $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t $o $($($r)*)?) };
    // named operands
    (@$k:ident $t:tt [$($o:tt)*] $n:ident = sym $p:path $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (sym (stringify!($n)) $p)] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] $n:ident = const $e:expr $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (const (stringify!($n)) ($e))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] $n:ident = in($c:tt) $e:expr $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (in (stringify!($n)) ($e))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] $n:ident = out($c:tt) _ $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (outd (stringify!($n)))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] $n:ident = lateout($c:tt) _ $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (outd (stringify!($n)))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] $n:ident = out($c:tt) $e:expr $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (out (stringify!($n)) ($e))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] $n:ident = lateout($c:tt) $e:expr $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (out (stringify!($n)) ($e))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] $n:ident = inout($c:tt) $e:expr => _ $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (in (stringify!($n)) ($e))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] $n:ident = inout($c:tt) $e:expr => $f:expr $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (inout (stringify!($n)) ($e) ($f))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] $n:ident = inout($c:tt) $e:expr $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (inout (stringify!($n)) ($e) ($e))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] $n:ident = inlateout($c:tt) $e:expr => _ $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (in (stringify!($n)) ($e))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] $n:ident = inlateout($c:tt) $e:expr => $f:expr $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (inout (stringify!($n)) ($e) ($f))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] $n:ident = inlateout($c:tt) $e:expr $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (inout (stringify!($n)) ($e) ($e))] $($($r)*)?) };
    // operands without a name: named by their position or by their register
    (@$k:ident $t:tt [$($o:tt)*] sym $p:path $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (sym ("") $p)] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] const $e:expr $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (const ("") ($e))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] in($c:tt) $e:expr $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (in (stringify!($c)) ($e))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] out($c:tt) _ $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (outd (stringify!($c)))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] lateout($c:tt) _ $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (outd (stringify!($c)))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] out($c:tt) $e:expr $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (out (stringify!($c)) ($e))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] lateout($c:tt) $e:expr $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (out (stringify!($c)) ($e))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] inout($c:tt) $e:expr => _ $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (in (stringify!($c)) ($e))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] inout($c:tt) $e:expr => $f:expr $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (inout (stringify!($c)) ($e) ($f))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] inout($c:tt) $e:expr $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (inout (stringify!($c)) ($e) ($e))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] inlateout($c:tt) $e:expr => _ $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (in (stringify!($c)) ($e))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] inlateout($c:tt) $e:expr => $f:expr $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (inout (stringify!($c)) ($e) ($f))] $($($r)*)?) };
    (@$k:ident $t:tt [$($o:tt)*] inlateout($c:tt) $e:expr $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k $t [$($o)* (inout (stringify!($c)) ($e) ($e))] $($($r)*)?) };
    // templates
    (@$k:ident [$($t:tt)*] $o:tt #[cfg($($c:tt)*)] $e:expr $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k [$($t)* {#[cfg($($c)*)] $e}] $o $($($r)*)?) };
    (@$k:ident [$($t:tt)*] $o:tt $e:expr $(, $($r:tt)*)?) => { $crate::__asm_m!(@$k [$($t)* {$e}] $o $($($r)*)?) };
}
#[macro_export]
macro_rules! __tm {
    ($v:ident #[cfg($($c:tt)*)] $e:expr) => { #[cfg($($c)*)] { $v.push($e); } };
    ($v:ident $e:expr) => { $v.push($e); };
}
#[macro_export]
macro_rules! __op_in {
    ($v:ident (sym ($n:expr) $p:path)) => { $v.sym($n, stringify!($p)); };
    ($v:ident (const ($n:expr) ($e:expr))) => { $v.konst($n, $e as i64); };
    ($v:ident (in ($n:expr) ($e:expr))) => { $v.input($n, $crate::co::Reg::to_reg($e)); };
    ($v:ident (outd ($n:expr))) => { $v.output($n); };
    ($v:ident (out ($n:expr) ($f:expr))) => { $v.output($n); };
    ($v:ident (inout ($n:expr) ($e:expr) ($f:expr))) => { $v.input($n, $crate::co::Reg::to_reg($e)); };
}
#[macro_export]
macro_rules! __op_out {
    ($v:ident (sym ($n:expr) $p:path)) => { $v.skip(); };
    ($v:ident (const ($n:expr) ($e:expr))) => { $v.skip(); };
    ($v:ident (in ($n:expr) ($e:expr))) => { $v.skip(); };
    ($v:ident (outd ($n:expr))) => { $v.skip(); };
    ($v:ident (out ($n:expr) ($f:expr))) => { $f = $crate::co::Reg::from_reg($v.take()); };
    ($v:ident (inout ($n:expr) ($e:expr) ($f:expr))) => { $f = $crate::co::Reg::from_reg($v.take()); };
}
