#![feature(f16, f128)]
pub mod alpha;
pub mod archive;
pub mod asmi;
pub mod bf;
pub mod conc;
pub mod ctx;
pub mod elfw;
pub mod scripts;
pub mod fl;
pub mod hexf;
pub mod hexi;
pub mod hp;
pub mod linked;
pub mod lm;
pub mod pio2;
pub mod memt;
pub mod rf;
pub mod table;
pub mod xfma;
#[cfg(feature = "arch")]
pub mod syncops;
pub use ctx::{Ctx, Worker, run};
