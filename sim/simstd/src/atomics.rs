use real::sync::atomic as ra;
use real::sync::atomic::Ordering;
use real::prelude::v1::*;
use real::fmt;
use simos::mem;

pub fn fence(o: Ordering) { if simos::active() { simos::point("fence", 0); mem::fence(o); } ra::fence(o) }
pub fn compiler_fence(o: Ordering) { ra::compiler_fence(o) }

macro_rules! common {
    ($name:ident, $real:ty, $t:ty, [$($g:tt)*], [$($u:tt)*], $to:expr, $from:expr) => {
        impl<$($g)*> $name<$($u)*> {
            #[inline] fn id(&self) -> usize { mem::obj_id(&self.meta) }
            #[inline] fn raw(&self) -> $t { self.v.load(Ordering::Relaxed) }
            pub fn load(&self, o: Ordering) -> $t {
                if !simos::active() { return self.v.load(o); }
                simos::point("load", self.id() as u64);
                let _ = self.v.load(match o { Ordering::Release | Ordering::AcqRel => o, _ => Ordering::SeqCst });
                let to: fn($t) -> u64 = $to; let from: fn(u64) -> $t = $from;
                from(mem::load(self.id(), to(self.raw()), o))
            }
            pub fn store(&self, x: $t, o: Ordering) {
                if !simos::active() { return self.v.store(x, o); }
                simos::point("store", self.id() as u64);
                let to: fn($t) -> u64 = $to;
                mem::store(self.id(), to(self.raw()), to(x), o);
                self.v.store(x, o)
            }
            #[inline] fn rmw(&self, op: &'static str, o: Ordering, f: impl FnOnce(&$real) -> $t) -> $t {
                if !simos::active() { return f(&self.v); }
                simos::point(op, self.id() as u64);
                let to: fn($t) -> u64 = $to;
                let old = f(&self.v);
                mem::rmw(self.id(), to(old), Some(to(self.raw())), o);
                old
            }
            pub fn swap(&self, x: $t, o: Ordering) -> $t { self.rmw("swap", o, |v| v.swap(x, o)) }
            pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, fl: Ordering) -> Result<$t, $t> {
                if !simos::active() { return self.v.compare_exchange(c, n, s, fl); }
                simos::point("cas", self.id() as u64);
                let to: fn($t) -> u64 = $to;
                let r = self.v.compare_exchange(c, n, s, fl);
                match r { Ok(old) => mem::rmw(self.id(), to(old), Some(to(n)), s), Err(old) => mem::rmw(self.id(), to(old), None, fl) }
                r
            }
            pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, fl: Ordering) -> Result<$t, $t> {
                if simos::active() && simos::sim().mem.weak && simos::chance(simos::M, 1, 16) {
                    simos::point("cas-weak-fails", self.id() as u64);
                    simos::fault("spurious_cas_failure");
                    let to: fn($t) -> u64 = $to;
                    let cur = self.raw();
                    mem::rmw(self.id(), to(cur), None, fl);
                    return Err(cur);
                }
                self.compare_exchange(c, n, s, fl)
            }
            #[allow(deprecated)]
            pub fn compare_and_swap(&self, c: $t, n: $t, o: Ordering) -> $t {
                let f = match o { Ordering::AcqRel => Ordering::Acquire, Ordering::Release => Ordering::Relaxed, x => x };
                match self.compare_exchange(c, n, o, f) { Ok(x) => x, Err(x) => x }
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, fl: Ordering, mut f: F) -> Result<$t, $t> {
                let mut prev = self.load(fl);
                while let Some(next) = f(prev) {
                    match self.compare_exchange_weak(prev, next, s, fl) { Ok(x) => return Ok(x), Err(p) => prev = p }
                }
                Err(prev)
            }
            pub fn try_update(&self, s: Ordering, fl: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> { self.fetch_update(s, fl, f) }
            pub fn update(&self, s: Ordering, fl: Ordering, mut f: impl FnMut($t) -> $t) -> $t { match self.fetch_update(s, fl, |x| Some(f(x))) { Ok(x) | Err(x) => x } }
            pub fn get_mut(&mut self) -> &mut $t { self.v.get_mut() }
            pub fn into_inner(self) -> $t { self.v.into_inner() }
            pub fn as_ptr(&self) -> *mut $t { self.v.as_ptr() }
        }
        impl<$($g)*> fmt::Debug for $name<$($u)*> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.load(Ordering::Relaxed), f) } }
    };
}
macro_rules! serial { ($name:ident, $t:ty) => {
    impl serde::Serialize for $name { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.load(Ordering::Relaxed).serialize(s) } }
    impl<'de> serde::Deserialize<'de> for $name { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { <$t>::deserialize(d).map($name::new) } }
} }
macro_rules! ints {
    ($($name:ident $t:ty;)*) => {$(
        pub struct $name { v: ra::$name, meta: ra::AtomicUsize }
        impl $name {
            pub const fn new(x: $t) -> Self { Self { v: ra::$name::new(x), meta: ra::AtomicUsize::new(0) } }
            pub fn fetch_add(&self, x: $t, o: Ordering) -> $t { self.rmw("fetch_add", o, |v| v.fetch_add(x, o)) }
            pub fn fetch_sub(&self, x: $t, o: Ordering) -> $t { self.rmw("fetch_sub", o, |v| v.fetch_sub(x, o)) }
            pub fn fetch_and(&self, x: $t, o: Ordering) -> $t { self.rmw("fetch_and", o, |v| v.fetch_and(x, o)) }
            pub fn fetch_nand(&self, x: $t, o: Ordering) -> $t { self.rmw("fetch_nand", o, |v| v.fetch_nand(x, o)) }
            pub fn fetch_or(&self, x: $t, o: Ordering) -> $t { self.rmw("fetch_or", o, |v| v.fetch_or(x, o)) }
            pub fn fetch_xor(&self, x: $t, o: Ordering) -> $t { self.rmw("fetch_xor", o, |v| v.fetch_xor(x, o)) }
            pub fn fetch_max(&self, x: $t, o: Ordering) -> $t { self.rmw("fetch_max", o, |v| v.fetch_max(x, o)) }
            pub fn fetch_min(&self, x: $t, o: Ordering) -> $t { self.rmw("fetch_min", o, |v| v.fetch_min(x, o)) }
        }
        common!($name, ra::$name, $t, [], [], |x| x as u64, |x| x as $t);
        impl Default for $name { fn default() -> Self { Self::new(0) } }
        serial!($name, $t);
        impl From<$t> for $name { fn from(x: $t) -> Self { Self::new(x) } }
    )*}
}
ints! { AtomicUsize usize; AtomicIsize isize; AtomicU64 u64; AtomicI64 i64; AtomicU32 u32; AtomicI32 i32; AtomicU16 u16; AtomicI16 i16; AtomicU8 u8; AtomicI8 i8; }

pub struct AtomicBool { v: ra::AtomicBool, meta: ra::AtomicUsize }
impl AtomicBool {
    pub const fn new(x: bool) -> Self { Self { v: ra::AtomicBool::new(x), meta: ra::AtomicUsize::new(0) } }
    pub fn fetch_and(&self, x: bool, o: Ordering) -> bool { self.rmw("fetch_and", o, |v| v.fetch_and(x, o)) }
    pub fn fetch_nand(&self, x: bool, o: Ordering) -> bool { self.rmw("fetch_nand", o, |v| v.fetch_nand(x, o)) }
    pub fn fetch_or(&self, x: bool, o: Ordering) -> bool { self.rmw("fetch_or", o, |v| v.fetch_or(x, o)) }
    pub fn fetch_xor(&self, x: bool, o: Ordering) -> bool { self.rmw("fetch_xor", o, |v| v.fetch_xor(x, o)) }
    pub fn fetch_not(&self, o: Ordering) -> bool { self.fetch_xor(true, o) }
}
common!(AtomicBool, ra::AtomicBool, bool, [], [], |x| x as u64, |x| x != 0);
serial!(AtomicBool, bool);
impl Default for AtomicBool { fn default() -> Self { Self::new(false) } }
impl From<bool> for AtomicBool { fn from(x: bool) -> Self { Self::new(x) } }

pub struct AtomicPtr<T> { v: ra::AtomicPtr<T>, meta: ra::AtomicUsize }
impl<T> AtomicPtr<T> {
    pub const fn new(x: *mut T) -> Self { Self { v: ra::AtomicPtr::new(x), meta: ra::AtomicUsize::new(0) } }
}
common!(AtomicPtr, ra::AtomicPtr<T>, *mut T, [T], [T], |x| x as usize as u64, |x| x as usize as *mut T);
impl<T> Default for AtomicPtr<T> { fn default() -> Self { Self::new(real::ptr::null_mut()) } }
impl<T> From<*mut T> for AtomicPtr<T> { fn from(x: *mut T) -> Self { Self::new(x) } }
