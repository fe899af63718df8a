//! Stand-in for the `minstant` crate over the simulated clock.
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::time::Duration;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(u64);
#[derive(Clone, Copy, Debug)]
pub struct Anchor { unix: u64, at: u64 }
impl Instant {
    pub const ZERO: Instant = Instant(0);
    pub fn now() -> Instant { simos::point("tsc", 1); Instant(if simos::active() { simos::MONO_BASE + simos::now() } else { simos::raw::real_monotonic_ns() }) }
    pub fn duration_since(&self, e: Instant) -> Duration { Duration::from_nanos(self.0.saturating_sub(e.0)) }
    pub fn saturating_duration_since(&self, e: Instant) -> Duration { self.duration_since(e) }
    pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> { self.0.checked_sub(e.0).map(Duration::from_nanos) }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> { self.0.checked_add(d.as_nanos() as u64).map(Instant) }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> { self.0.checked_sub(d.as_nanos() as u64).map(Instant) }
    pub fn elapsed(&self) -> Duration { Instant::now() - *self }
    pub fn as_unix_nanos(&self, a: &Anchor) -> u64 { if self.0 > a.at { a.unix + (self.0 - a.at) } else { a.unix - (a.at - self.0) } }
}
impl Anchor { pub fn new() -> Anchor { let unix = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as u64; Anchor { unix, at: Instant::now().0 } } }
impl Default for Anchor { fn default() -> Self { Anchor::new() } }
impl Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { Instant(self.0 + d.as_nanos() as u64) } }
impl Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { Instant(self.0 - d.as_nanos() as u64) } }
impl AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { *self = *self + d } }
impl SubAssign<Duration> for Instant { fn sub_assign(&mut self, d: Duration) { *self = *self - d } }
impl Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.duration_since(o) } }
pub fn is_tsc_available() -> bool { true }
