//! Weak memory and happens-before. Each atomic keeps a short history of stores with vector clocks: a
//! load that is not SeqCst may return any store that coherence and happens-before still allow. Data
//! accesses announced through `Cell` are checked for races with the same clocks.
use crate::core::{active, sim};
use crate::shm::M;
use std::sync::atomic::Ordering;

#[derive(Clone, Default, Debug, PartialEq)]
pub struct VClock(pub Vec<u32>);
impl VClock {
    pub fn get(&self, i: usize) -> u32 { self.0.get(i).copied().unwrap_or(0) }
    pub fn tick(&mut self, i: usize) { if self.0.len() <= i { self.0.resize(i + 1, 0); } self.0[i] += 1; }
    pub fn join(&mut self, o: &VClock) {
        if self.0.len() < o.0.len() { self.0.resize(o.0.len(), 0); }
        for (i, v) in o.0.iter().enumerate() { if *v > self.0[i] { self.0[i] = *v; } }
    }
}
struct Store { val: u64, tid: usize, epoch: u32, rel: Option<VClock> }
#[derive(Default)]
struct Loc { hist: Vec<Store>, base: usize, seen: Vec<usize>, stale_run: Vec<u8> }
#[derive(Default)]
pub struct Mem { locs: Vec<Loc>, pub weak: bool, pub stale_per_64: u64, locks: Vec<VClock>, pub stale_reads: u64 }

const HIST: usize = 8;
fn is_acq(o: Ordering) -> bool { matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) }
fn is_rel(o: Ordering) -> bool { matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst) }

impl Mem {
    pub fn new() -> Mem { Mem::default() }
}
/// Gives an object an identity on first use. `slot` lives in the object.
pub fn obj_id(slot: &std::sync::atomic::AtomicUsize) -> usize {
    let v = slot.load(Ordering::Relaxed);
    if v != 0 { return v; }
    let s = sim();
    let id = s.next_obj; s.next_obj += 1;
    slot.store(id, Ordering::Relaxed);
    id
}
fn loc(id: usize, init: u64) -> &'static mut Loc {
    let m = &mut sim().mem;
    while m.locs.len() <= id { m.locs.push(Loc::default()); }
    let l = &mut m.locs[id];
    if l.hist.is_empty() { l.hist.push(Store { val: init, tid: usize::MAX, epoch: 0, rel: None }); }
    l
}
impl Loc {
    fn seen(&self, t: usize) -> usize { self.seen.get(t).copied().unwrap_or(0) }
    fn see(&mut self, t: usize, i: usize) { if self.seen.len() <= t { self.seen.resize(t + 1, 0); } if i > self.seen[t] { self.seen[t] = i; } }
    fn push(&mut self, st: Store) {
        self.hist.push(st);
        if self.hist.len() > HIST { self.hist.remove(0); self.base += 1; }
    }
    fn top(&self) -> usize { self.base + self.hist.len() - 1 }
}
/// A load; `real` is the newest value in modification order. Returns the value the load observes.
pub fn load(id: usize, real: u64, ord: Ordering) -> u64 {
    let s = sim();
    let t = s.current;
    let l = loc(id, real);
    // A plain write (get_mut, as_ptr) may have changed the newest value behind our back.
    let top = l.top();
    { let last = l.hist.last_mut().unwrap(); if last.val != real { last.val = real; } }
    let mut idx = top;
    if s.mem.weak && ord != Ordering::SeqCst && s.mem.stale_per_64 > 0 {
        let mut lo = l.seen(t).max(l.base);
        for i in (lo..=top).rev() {
            let st = &l.hist[i - l.base];
            if st.tid == usize::MAX || s.threads[t].vc.get(st.tid) >= st.epoch { lo = i; break; }
        }
        if l.stale_run.len() <= t { l.stale_run.resize(t + 1, 0); }
        if lo < top && l.stale_run[t] < 4 {
            if s.chance(M, s.mem.stale_per_64, 64) {
                let back = 1 + s.choose(M, (top - lo) as u64) as usize;
                idx = top - back;
                l.stale_run[t] += 1;
                s.mem.stale_reads += 1;
                s.fault("stale_atomic_read");
            } else { l.stale_run[t] = 0; }
        } else { l.stale_run[t] = 0; }
    }
    l.see(t, idx);
    let st = &l.hist[idx - l.base];
    if let Some(r) = &st.rel {
        if is_acq(ord) { s.threads[t].vc.join(r); } else { s.threads[t].acq_pending.join(r); }
    }
    st.val
}
fn release_clock(t: usize, ord: Ordering) -> Option<VClock> {
    let s = sim();
    if is_rel(ord) { s.threads[t].vc.tick(t); Some(s.threads[t].vc.clone()) }
    else if !s.threads[t].rel_fence.0.is_empty() { Some(s.threads[t].rel_fence.clone()) }
    else { None }
}
pub fn store(id: usize, old: u64, val: u64, ord: Ordering) {
    let s = sim();
    let t = s.current;
    let l = loc(id, old);
    s.threads[t].vc.tick(t);
    let rel = release_clock(t, ord);
    let epoch = s.threads[t].vc.get(t);
    l.push(Store { val, tid: t, epoch, rel });
    let top = l.top();
    l.see(t, top);
}
/// A read-modify-write: it reads the newest value. `new` is None when it did not write (a failed CAS).
pub fn rmw(id: usize, old: u64, new: Option<u64>, ord: Ordering) {
    let s = sim();
    let t = s.current;
    let l = loc(id, old);
    let top = l.top();
    l.see(t, top);
    let prev_rel = l.hist[top - l.base].rel.clone();
    if let Some(r) = &prev_rel {
        if is_acq(ord) { s.threads[t].vc.join(r); } else { s.threads[t].acq_pending.join(r); }
    }
    if let Some(val) = new {
        s.threads[t].vc.tick(t);
        let mut rel = release_clock(t, ord);
        if let Some(p) = prev_rel { match &mut rel { Some(r) => r.join(&p), None => rel = Some(p) } }
        let epoch = s.threads[t].vc.get(t);
        l.push(Store { val, tid: t, epoch, rel });
        let top = l.top();
        l.see(t, top);
    }
}
pub fn fence(ord: Ordering) {
    let s = sim();
    let t = s.current;
    if is_acq(ord) { let p = std::mem::take(&mut s.threads[t].acq_pending); s.threads[t].vc.join(&p); }
    if is_rel(ord) { s.threads[t].vc.tick(t); s.threads[t].rel_fence = s.threads[t].vc.clone(); }
}
pub fn lock_acquired(id: usize) {
    if !active() { return; }
    let s = sim();
    let t = s.current;
    while s.mem.locks.len() <= id { s.mem.locks.push(VClock::default()); }
    let c = s.mem.locks[id].clone();
    s.threads[t].vc.join(&c);
}
pub fn lock_released(id: usize) {
    if !active() { return; }
    let s = sim();
    let t = s.current;
    while s.mem.locks.len() <= id { s.mem.locks.push(VClock::default()); }
    s.threads[t].vc.tick(t);
    let c = s.threads[t].vc.clone();
    s.mem.locks[id].join(&c);
}

/// Race detector for one piece of plain (non-atomic) shared data.
#[derive(Default, Debug)]
pub struct Race { writer: Option<(usize, u32)>, readers: Vec<(usize, u32)> }
impl Race {
    pub fn new() -> Race { Race::default() }
    pub fn read(&mut self) -> Result<(), String> {
        let s = sim(); let t = s.current;
        if let Some((w, e)) = self.writer {
            if w != t && s.threads[t].vc.get(w) < e { return Err(format!("T{} reads the shared data while T{}'s write is not ordered before it", t, w)); }
        }
        s.threads[t].vc.tick(t);
        let e = s.threads[t].vc.get(t);
        self.readers.retain(|r| r.0 != t);
        self.readers.push((t, e));
        Ok(())
    }
    pub fn write(&mut self) -> Result<(), String> {
        let s = sim(); let t = s.current;
        if let Some((w, e)) = self.writer {
            if w != t && s.threads[t].vc.get(w) < e { return Err(format!("T{} writes the shared data while T{}'s write is not ordered before it", t, w)); }
        }
        for (r, e) in &self.readers {
            if *r != t && s.threads[t].vc.get(*r) < *e { return Err(format!("T{} writes the shared data while T{}'s read is not ordered before it", t, r)); }
        }
        s.threads[t].vc.tick(t);
        let e = s.threads[t].vc.get(t);
        self.writer = Some((t, e));
        self.readers.clear();
        Ok(())
    }
}
