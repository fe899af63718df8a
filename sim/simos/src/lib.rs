#![allow(invalid_runtime_symbol_definitions, unknown_lints, suspicious_runtime_symbol_definitions)]
//! simos: a deterministic simulated operating system for one process. Threads, clocks, futexes, files
//! and UDP sockets of the code under test are served from here; see /verif/DESIGN.md.
pub mod raw;
pub mod rng;
pub mod shm;
pub mod core;
pub mod mem;
pub mod vfs;
pub mod net;
pub mod interpose;
pub mod runner;
pub use crate::core::*;
pub use crate::shm::{F, M, N, S, W};
