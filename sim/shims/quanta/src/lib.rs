//! Stand-in for the `quanta` crate: the time-stamp counter and its calibration are the simulator's.
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::time::Duration;

#[derive(Clone, Debug, Default)]
pub struct Clock { _p: () }
fn ticks() -> u64 {
    if !simos::active() { return simos::raw::real_monotonic_ns(); }
    simos::point("tsc", 0);
    let s = simos::sim();
    let v = s.tsc_base + (s.now as u128 * s.tsc_num as u128 / 16) as u64;
    simos::point("tsc-read", 0);
    v
}
fn to_ns(t: u64) -> u64 { if !simos::active() { t } else { (t as u128 * 16 / simos::sim().tsc_num as u128) as u64 } }
fn scaled_of(t: u64) -> u64 { if !simos::active() { t } else { let s = simos::sim(); simos::MONO_BASE + to_ns(t.saturating_sub(s.tsc_base)) } }
impl Clock {
    pub fn new() -> Clock { simos::point("clock-new", 0); Clock { _p: () } }
    pub fn raw(&self) -> u64 { ticks() }
    pub fn start(&self) -> u64 { ticks() }
    pub fn end(&self) -> u64 { ticks() }
    pub fn scaled(&self, v: u64) -> u64 { scaled_of(v) }
    pub fn delta(&self, a: u64, b: u64) -> Duration { Duration::from_nanos(self.delta_as_nanos(a, b)) }
    pub fn delta_as_nanos(&self, a: u64, b: u64) -> u64 { to_ns(b.saturating_sub(a)) }
    pub fn now(&self) -> Instant { Instant(scaled_of(ticks())) }
    pub fn recent(&self) -> Instant { self.now() }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(pub u64);
impl Instant {
    pub fn now() -> Instant { Clock::new().now() }
    pub fn recent() -> Instant { Instant::now() }
    pub fn duration_since(&self, e: Instant) -> Duration { Duration::from_nanos(self.0.saturating_sub(e.0)) }
    pub fn saturating_duration_since(&self, e: Instant) -> Duration { self.duration_since(e) }
    pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> { self.0.checked_sub(e.0).map(Duration::from_nanos) }
    pub fn elapsed(&self) -> Duration { Instant::now().duration_since(*self) }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> { self.0.checked_add(d.as_nanos() as u64).map(Instant) }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> { self.0.checked_sub(d.as_nanos() as u64).map(Instant) }
    pub fn as_u64(&self) -> u64 { self.0 }
}
impl Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { Instant(self.0 + d.as_nanos() as u64) } }
impl Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { Instant(self.0 - d.as_nanos() as u64) } }
impl AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { *self = *self + d } }
impl SubAssign<Duration> for Instant { fn sub_assign(&mut self, d: Duration) { *self = *self - d } }
impl Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.duration_since(o) } }
