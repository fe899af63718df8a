//! The `std` the code under test is compiled against: the real standard library, with atomics, locks and
//! spin hints replaced by versions that tell the simulator when they run.
#![allow(ambiguous_glob_reexports, hidden_glob_reexports)]
extern crate std as real;
pub use real::*;

pub mod hint {
    pub use real::hint::*;
    pub fn spin_loop() { simos::spin_point("spin"); real::hint::spin_loop() }
}
pub mod sync {
    pub use real::sync::*;
    pub mod atomic { pub use crate::atomics::*; pub use real::sync::atomic::Ordering; pub use crate::hint::spin_loop as spin_loop_hint; }
    pub use crate::locks::{Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult};
}
mod atomics;
mod locks;
