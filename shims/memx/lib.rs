//! Memory routines under settings of other machines: see build.rs.
#![no_builtins]
#![no_std]
#![feature(core_intrinsics, rustc_attrs)]
#![allow(warnings)]

macro_rules! intrinsics {
    ($($t:tt)*) => { armish::intr! { @ [] [] $($t)* } };
}
pub use armish::support;

/// Machine words with a fixed width and byte order: shifts act on the value a machine of that
/// byte order would have loaded.
pub mod words {
    macro_rules! word {
        ($n:ident, $t:ty, $from:ident, $to:ident) => {
            #[derive(Clone, Copy)]
            #[repr(transparent)]
            pub struct $n($t);
            impl $n {
                pub fn zero() -> Self {
                    $n(0)
                }
                pub fn of(c: u8) -> Self {
                    $n((c as $t).$to())
                }
                pub fn from_ne_bytes(b: [u8; core::mem::size_of::<$t>()]) -> Self {
                    $n(<$t>::from_ne_bytes(b))
                }
            }
            impl core::ops::Shl<usize> for $n {
                type Output = Self;
                fn shl(self, s: usize) -> Self {
                    $n((<$t>::$from(self.0) << s).$to())
                }
            }
            impl core::ops::Shr<usize> for $n {
                type Output = Self;
                fn shr(self, s: usize) -> Self {
                    $n((<$t>::$from(self.0) >> s).$to())
                }
            }
            impl core::ops::BitOr for $n {
                type Output = Self;
                fn bitor(self, o: Self) -> Self {
                    $n(self.0 | o.0)
                }
            }
            impl core::ops::BitOrAssign for $n {
                fn bitor_assign(&mut self, o: Self) {
                    self.0 |= o.0
                }
            }
        };
    }
    word!(Be64, u64, from_be, to_be);
    word!(Be32, u32, from_be, to_be);
    word!(Le32, u32, from_le, to_le);
    word!(Le16, u16, from_le, to_le);
}

macro_rules! m {
    ($($n:ident)*) => {$(
        pub mod $n {
            include!(concat!(env!("OUT_DIR"), "/", stringify!($n), ".rs"));
        }
    )*};
}
m!(erms noerms nosse be64 le32 be32 le16 le32u le16u);
