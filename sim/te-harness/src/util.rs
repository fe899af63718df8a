use std::thread::JoinHandle;
pub use simos::*;

pub const NONE: &[&str] = &[];
/// Scheduling faults for this run: stalls of random length, spurious futex wake-ups.
pub fn swarm_sched() {
    let st = [0u64, 0, 4, 24, 96][w(5) as usize];
    let mag = 4 + w(12);
    let sp = [0u64, 0, 64, 300][w(4) as usize];
    let s = sim();
    s.stall_per_4096 = st;
    s.stall_max_log2us = mag;
    s.spurious_per_1024 = sp;
}
/// Weak memory: only for code whose every synchronising operation goes through the simulated atomics.
pub fn swarm_memory() {
    let r = [0u64, 6, 20, 44][w(4) as usize];
    let s = sim();
    s.mem.weak = true;
    s.mem.stale_per_64 = r;
}
/// Wall-clock jumps; returns (when, by how much) in the order they happen.
pub fn swarm_wall() -> Vec<(u64, i64)> {
    let mut v = vec![];
    for _ in 0..w(4) {
        let d = w(2_000) * 1000;
        let mag = 1i64 << (10 + w(36));
        let j = if w(2) == 1 { -mag } else { mag };
        at(d, Event::WallJump(j));
        v.push((now() + d, j));
    }
    v.sort_by_key(|x| x.0);
    v
}
/// The least and greatest sum of wall-clock jumps in force at any moment of [a, b].
pub fn wall_range(jumps: &[(u64, i64)], a: u64, b: u64) -> (i64, i64) {
    // jumps at one instant may take effect in either order, before or after it
    let sum = |f: &dyn Fn(u64) -> bool| jumps.iter().filter(|x| f(x.0)).map(|x| x.1).sum::<i64>();
    let base = sum(&|t| t < a);
    let (neg, pos) = jumps.iter().filter(|x| x.0 >= a && x.0 <= b).fold((0, 0), |(n, p), x| (n + x.1.min(0), p + x.1.max(0)));
    (base + neg, base + pos)
}
pub fn spawn<T: Send + 'static>(name: &str, f: impl FnOnce() -> T + Send + 'static) -> JoinHandle<T> {
    let n = sim().threads.len();
    let h = std::thread::spawn(f);
    sim().threads[n].name = name.to_string();
    h
}
pub fn join<T>(h: JoinHandle<T>) -> T {
    match h.join() {
        Ok(v) => v,
        Err(_) => { let m = panics().last().map(|p| p.1.clone()).unwrap_or_default(); violate("panic", format!("a caller's thread panicked: {}", m)) }
    }
}
/// The panic message most recently recorded, if `f` panicked.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(panics().last().map(|p| p.1.clone()).unwrap_or_default()),
    }
}
#[macro_export]
macro_rules! require { ($cond:expr, $class:expr, $($arg:tt)*) => { if !($cond) { simos::violate($class, format!($($arg)*)) } } }
/// k distinct values out of 0..n
/// The length of a history: mostly short, now and then past whatever a byte can count.
pub fn history(n: u64) -> u64 { if w(200) == 199 { probe("long_history"); 200 + w(300) } else { 1 + w(n) } }
pub fn subset(n: u64, k: u64) -> Vec<u64> {
    let mut all: Vec<u64> = (0..n).collect();
    let mut out = vec![];
    for _ in 0..k { let i = w(all.len() as u64) as usize; out.push(all.remove(i)); }
    out
}
