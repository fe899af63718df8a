//! `core` for the code under test: the real one with the atomics and spin hints of simstd.
#![allow(ambiguous_glob_reexports, hidden_glob_reexports)]
extern crate core as real;
pub use real::*;

pub mod hint {
    pub use real::hint::*;
    pub use simstd::hint::spin_loop;
}
pub mod sync {
    pub use real::sync::*;
    pub mod atomic { pub use simstd::sync::atomic::*; }
}
