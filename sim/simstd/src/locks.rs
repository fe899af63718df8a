use real::sync as rs;
use real::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use real::sync::atomic::AtomicUsize;
use real::mem::ManuallyDrop;
use real::ops::{Deref, DerefMut};
use real::prelude::v1::*;
use real::time::Duration;
use real::fmt;
use simos::mem;

macro_rules! guard {
    ($g:ident, $rg:ident $(, $m:ident)?) => {
        pub struct $g<'a, T: ?Sized + 'a> { g: ManuallyDrop<rs::$rg<'a, T>>, id: usize }
        impl<'a, T: ?Sized> Deref for $g<'a, T> { type Target = T; fn deref(&self) -> &T { &self.g } }
        $(impl<'a, T: ?Sized> DerefMut for $g<'a, T> { fn deref_mut(&mut self) -> &mut T { let $m = &mut self.g; $m } })?
        impl<'a, T: ?Sized> Drop for $g<'a, T> {
            fn drop(&mut self) {
                if simos::active() { mem::lock_released(self.id); }
                unsafe { ManuallyDrop::drop(&mut self.g) }
                simos::point("unlock", self.id as u64);
            }
        }
        impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for $g<'a, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&**self, f) } }
        impl<'a, T: ?Sized + fmt::Display> fmt::Display for $g<'a, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&**self, f) } }
    };
}
guard!(MutexGuard, MutexGuard, m);
guard!(RwLockReadGuard, RwLockReadGuard);
guard!(RwLockWriteGuard, RwLockWriteGuard, m);

macro_rules! wrap { ($g:ident, $id:expr, $r:expr) => {{ let id = $id; let r = $r; if simos::active() { mem::lock_acquired(id); simos::point("held", id as u64); }
    match r { Ok(g) => Ok($g { g: ManuallyDrop::new(g), id }), Err(e) => Err(PoisonError::new($g { g: ManuallyDrop::new(e.into_inner()), id })) } }} }
macro_rules! try_wrap { ($g:ident, $id:expr, $r:expr) => {{ let id = $id; match $r {
    Ok(g) => { if simos::active() { mem::lock_acquired(id); simos::point("held", id as u64); } Ok($g { g: ManuallyDrop::new(g), id }) }
    Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
    Err(TryLockError::Poisoned(e)) => { if simos::active() { mem::lock_acquired(id); } Err(TryLockError::Poisoned(PoisonError::new($g { g: ManuallyDrop::new(e.into_inner()), id }))) } } }} }
macro_rules! lockid { ($s:expr, $op:expr) => { if simos::active() { let id = mem::obj_id(&$s.meta); simos::point($op, id as u64); id } else { 0 } } }

pub struct Mutex<T: ?Sized> { meta: AtomicUsize, m: rs::Mutex<T> }
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self { Mutex { meta: AtomicUsize::new(0), m: rs::Mutex::new(t) } }
    pub fn into_inner(self) -> LockResult<T> { self.m.into_inner() }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> { wrap!(MutexGuard, lockid!(self, "lock"), self.m.lock()) }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> { try_wrap!(MutexGuard, lockid!(self, "try_lock"), self.m.try_lock()) }
    pub fn is_poisoned(&self) -> bool { self.m.is_poisoned() }
    pub fn clear_poison(&self) { self.m.clear_poison() }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.m.get_mut() }
}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Mutex::new(t) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.m.fmt(f) } }

pub struct RwLock<T: ?Sized> { meta: AtomicUsize, m: rs::RwLock<T> }
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self { RwLock { meta: AtomicUsize::new(0), m: rs::RwLock::new(t) } }
    pub fn into_inner(self) -> LockResult<T> { self.m.into_inner() }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> { wrap!(RwLockReadGuard, lockid!(self, "rlock"), self.m.read()) }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> { wrap!(RwLockWriteGuard, lockid!(self, "wlock"), self.m.write()) }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> { try_wrap!(RwLockReadGuard, lockid!(self, "try_rlock"), self.m.try_read()) }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> { try_wrap!(RwLockWriteGuard, lockid!(self, "try_wlock"), self.m.try_write()) }
    pub fn is_poisoned(&self) -> bool { self.m.is_poisoned() }
    pub fn clear_poison(&self) { self.m.clear_poison() }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.m.get_mut() }
}
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
impl<T> From<T> for RwLock<T> { fn from(t: T) -> Self { RwLock::new(t) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.m.fmt(f) } }

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult { pub fn timed_out(&self) -> bool { self.0 } }

#[derive(Default, Debug)]
pub struct Condvar { c: rs::Condvar }
fn take<'a, T: ?Sized>(g: MutexGuard<'a, T>) -> (rs::MutexGuard<'a, T>, usize) {
    let mut g = ManuallyDrop::new(g);
    if simos::active() { mem::lock_released(g.id); }
    (unsafe { ManuallyDrop::take(&mut g.g) }, g.id)
}
impl Condvar {
    pub const fn new() -> Self { Condvar { c: rs::Condvar::new() } }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> { let (g, id) = take(g); wrap!(MutexGuard, id, self.c.wait(g)) }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) { g = self.wait(g)?; }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let (g, id) = take(g);
        let r = self.c.wait_timeout(g, d);
        if simos::active() { mem::lock_acquired(id); }
        match r {
            Ok((g, t)) => Ok((MutexGuard { g: ManuallyDrop::new(g), id }, WaitTimeoutResult(t.timed_out()))),
            Err(e) => { let (g, t) = e.into_inner(); Err(PoisonError::new((MutexGuard { g: ManuallyDrop::new(g), id }, WaitTimeoutResult(t.timed_out())))) }
        }
    }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, d: Duration, mut f: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let start = real::time::Instant::now();
        loop {
            if !f(&mut *g) { return Ok((g, WaitTimeoutResult(false))); }
            let Some(left) = d.checked_sub(start.elapsed()) else { return Ok((g, WaitTimeoutResult(true))) };
            g = self.wait_timeout(g, left)?.0;
        }
    }
    pub fn wait_timeout_ms<'a, T>(&self, g: MutexGuard<'a, T>, ms: u32) -> LockResult<(MutexGuard<'a, T>, bool)> {
        match self.wait_timeout(g, Duration::from_millis(ms as u64)) {
            Ok((g, t)) => Ok((g, !t.timed_out())),
            Err(e) => { let (g, t) = e.into_inner(); Err(PoisonError::new((g, !t.timed_out()))) }
        }
    }
    pub fn notify_one(&self) { simos::point("notify", 0); self.c.notify_one() }
    pub fn notify_all(&self) { simos::point("notify", 1); self.c.notify_all() }
}

impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let mut s = ManuallyDrop::new(s);
        let g = unsafe { ManuallyDrop::take(&mut s.g) };
        simos::point("downgrade", s.id as u64);
        RwLockReadGuard { g: ManuallyDrop::new(rs::RwLockWriteGuard::downgrade(g)), id: s.id }
    }
}
impl<T: ?Sized + serde::Serialize> serde::Serialize for Mutex<T> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { match self.lock() { Ok(g) => (*g).serialize(s), Err(_) => Err(serde::ser::Error::custom("lock poison error while serializing")) } } }
impl<T: ?Sized + serde::Serialize> serde::Serialize for RwLock<T> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { match self.read() { Ok(g) => (*g).serialize(s), Err(_) => Err(serde::ser::Error::custom("lock poison error while serializing")) } } }
impl<'de, T: serde::Deserialize<'de>> serde::Deserialize<'de> for Mutex<T> { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { T::deserialize(d).map(Mutex::new) } }
impl<'de, T: serde::Deserialize<'de>> serde::Deserialize<'de> for RwLock<T> { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { T::deserialize(d).map(RwLock::new) } }
