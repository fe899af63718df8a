//! The deterministic scheduler. Every simulated thread is a real OS thread, but exactly one of them
//! runs at any moment: it holds the baton, and gives it up only at an intercepted operation, to the
//! thread the recorded choice stream names. Virtual time advances per step and jumps to the next
//! timer or delivery when nothing can run.
use crate::mem::{Mem, VClock};
use crate::net::Net;
use crate::raw;
use crate::rng::{hash_str, mix, Rng};
use crate::shm::*;
use crate::vfs::Vfs;
use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

pub const STEP_NS: u64 = 40;
pub const MONO_BASE: u64 = 1_000_000_000_000; // CLOCK_MONOTONIC at the start of a run
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_HARNESS: u32 = 3;

thread_local! { static TID: Cell<usize> = const { Cell::new(usize::MAX) }; }
static ACTIVE: AtomicBool = AtomicBool::new(false);
struct Cellish(UnsafeCell<Option<Box<Sim>>>);
unsafe impl Sync for Cellish {}
static SIM: Cellish = Cellish(UnsafeCell::new(None));

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Why { Futex(usize), Join(usize), Sleep, Stall, Recv(i32), Io, Wait }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum State { Runnable, Blocked(Why), Finished }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wake { Normal, Timeout, Spurious }

pub struct Thread {
    pub state: State,
    pub deadline: Option<u64>,
    pub wake: Wake,
    sem: Box<AtomicU32>,
    pub pth: u64,
    pub name: String,
    prio: u64,
    pub vc: VClock,
    pub acq_pending: VClock,
    pub rel_fence: VClock,
    pub daemon_ok: bool,
}

pub enum Event { Deliver(crate::net::Datagram), WallJump(i64), FreeDisk, Call(Box<dyn FnOnce()>) }

#[derive(Clone, Copy, Debug)]
pub enum Policy { Uniform(u64), Pct { changes: u32 }, RoundRobin }

pub struct Sim {
    pub seed: u64,
    pub threads: Vec<Thread>,
    pub current: usize,
    pub now: u64,
    pub wall_base: i64,
    pub wall_off: i64,
    pub tsc_base: u64,
    pub tsc_num: u64,
    pub step: u64,
    pub max_steps: u64,
    pub switches: u64,
    same_run: u64,
    idle_spins: u64,
    low_prio: u64,
    pub policy: Policy,
    prng: Rng,
    rngs: Vec<Rng>,
    pub entropy: Rng,
    pub replay: Option<Choices>,
    pos: [usize; NS],
    pub shm: Shm,
    pub digest: u64,
    pub sched_digest: u64,
    pub events: BTreeMap<(u64, u64), Event>,
    evseq: u64,
    pub stall_per_4096: u64,
    pub stall_max_log2us: u64,
    pub spurious_per_1024: u64,
    pub preempt: bool,
    pub verbose: bool,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<String, u64>,
    pub panics: Vec<(usize, String)>,
    pub note: String,
    pub next_obj: usize,
    pub mem: Mem,
    pub vfs: Vfs,
    pub net: Net,
    pub cpus: usize,
    /// Asking for the CPUs fails, as in a sandbox that denies it or on a machine with more of them than the caller has room for.
    pub cpus_refused: bool,
    /// The thread whose next attempt to start another one fails.
    pub spawn_refused: Option<usize>,
    pub expected_panic: Vec<usize>,
    pub fd_next: i32,
    pub nontrivial: bool,
    
}

#[inline(always)]
pub fn active() -> bool { ACTIVE.load(Relaxed) && TID.with(|t| t.get()) != usize::MAX }
pub fn tid() -> usize { TID.with(|t| t.get()) }
#[allow(static_mut_refs)]
#[inline(always)]
pub fn sim() -> &'static mut Sim { unsafe { (*SIM.0.get()).as_mut().unwrap_unchecked() } }

pub struct RunSpec { pub seed: u64, pub replay: Option<Choices>, pub verbose: bool, pub max_steps: u64 }

impl Sim {
    fn new(spec: RunSpec, shm: Shm) -> Sim {
        let mut rngs = Vec::new();
        for st in 0..NS { rngs.push(Rng::new(mix(spec.seed, 100 + st as u64))); }
        let mut prng = Rng::new(mix(spec.seed, 7));
        let policy = match prng.below(8) {
            0 => Policy::Uniform(2), 1 => Policy::Uniform(3), 2 => Policy::Uniform(6), 3 => Policy::Uniform(20),
            4 => Policy::Uniform(80), 5 => Policy::Pct { changes: 2 + prng.below(6) as u32 },
            6 => Policy::Pct { changes: 6 + prng.below(40) as u32 }, _ => Policy::Uniform(4),
        };
        Sim {
            seed: spec.seed, threads: vec![], current: 0, now: 0,
            wall_base: 1_700_000_000_000_000_000, wall_off: 0, tsc_base: 555_000_000_000, tsc_num: 16,
            step: 0, max_steps: spec.max_steps, switches: 0, same_run: 0, idle_spins: 0, low_prio: 1 << 39, policy, prng, rngs,
            entropy: Rng::new(mix(spec.seed, 55)), replay: spec.replay, pos: [0; NS], shm,
            digest: 0xcbf29ce484222325, sched_digest: 0xcbf29ce484222325, events: BTreeMap::new(), evseq: 0,
            stall_per_4096: 0, stall_max_log2us: 12, spurious_per_1024: 0, preempt: true, verbose: spec.verbose,
            faults: BTreeMap::new(), probes: BTreeMap::new(), panics: vec![], note: String::new(), next_obj: 1,
            mem: Mem::new(), vfs: Vfs::new(), net: Net::new(), cpus: 4, cpus_refused: false, spawn_refused: None, expected_panic: vec![], fd_next: 0, nontrivial: false,
        }
    }
    // ---- choices -------------------------------------------------------------------------------
    fn replay_next(&mut self, st: usize) -> Option<u16> {
        let p = self.pos[st];
        self.pos[st] += 1;
        self.replay.as_ref().map(|r| r[st].get(p).copied().unwrap_or(0))
    }
    /// A value in 0..n from stream `st`; 0 is the simplest.
    pub fn choose(&mut self, st: usize, n: u64) -> u64 {
        if n <= 1 { return 0; }
        if n > 65536 { let hi = self.choose(st, (n >> 16) + 1); return ((hi << 16) | self.choose(st, 65536)) % n; }
        let v = match self.replay_next(st) { Some(v) => v as u64 % n, None => self.rngs[st].below(n) };
        self.shm.push(st, v as u16);
        v
    }
    pub fn chance(&mut self, st: usize, num: u64, den: u64) -> bool {
        if num == 0 { return false; }
        let v = match self.replay_next(st) { Some(v) => (v % 2) as u64, None => (self.rngs[st].below(den) < num) as u64 };
        self.shm.push(st, v as u16);
        v == 1
    }
    /// Index into `weights`; index 0 is the simplest.
    pub fn weighted(&mut self, st: usize, weights: &[u64]) -> usize {
        let n = weights.len() as u64;
        let v = match self.replay_next(st) {
            Some(v) => { let mut v = v as u64 % n; if weights[v as usize] == 0 { v = weights.iter().position(|w| *w > 0).unwrap_or(0) as u64; } v }
            None => {
                let tot: u64 = weights.iter().sum(); let mut r = self.rngs[st].below(tot.max(1)); let mut k = 0;
                for (i, w) in weights.iter().enumerate() { if r < *w { k = i; break; } r -= w; }
                k as u64
            }
        };
        self.shm.push(st, v as u16);
        v as usize
    }
    fn sched_choice(&mut self, n: usize, cur_runnable: bool, want_yield: bool) -> (usize, u64) {
        if let Some(v) = self.replay_next(S) {
            let idx = (v & 0xff) as usize % n.max(1);
            let stall = (v >> 8) as u64;
            self.shm.push(S, (idx as u16) | ((stall as u16) << 8));
            return (idx, stall);
        }
        let mut idx = 0;
        if n > 1 {
            match self.policy {
                Policy::RoundRobin => { idx = if cur_runnable && !want_yield { 1 } else { 0 }; }
                Policy::Uniform(k) => {
                    if !cur_runnable || want_yield || self.prng.below(k) == 0 { idx = self.prng.below(n as u64) as usize; }
                }
                Policy::Pct { .. } => { idx = usize::MAX; }
            }
        }
        let mut stall = 0;
        if self.stall_per_4096 > 0 && self.prng.below(4096) < self.stall_per_4096 {
            stall = 1 + self.prng.below(self.stall_max_log2us.max(1));
        }
        (idx, stall)
    }
    // ---- bookkeeping ---------------------------------------------------------------------------
    pub fn log(&mut self, op: &'static str, obj: u64) {
        let h = hash_str(op) ^ (self.current as u64).wrapping_mul(0x9E37) ^ obj.wrapping_mul(0x85EBCA6B);
        self.digest = (self.digest ^ h).wrapping_mul(0x100000001b3).rotate_left(5);
        if self.verbose {
            let nm = self.threads.get(self.current).map(|t| t.name.clone()).unwrap_or_default();
            let line = format!("{:>8} t={:<12} T{} {:<10} {} {}", self.step, self.now, self.current, nm, op, obj);
            self.shm.trace_append(&line);
        }
    }
    pub fn trace_msg(&mut self, msg: &str) {
        self.digest = (self.digest ^ hash_str(msg)).wrapping_mul(0x100000001b3).rotate_left(5);
        if self.verbose {
            let line = format!("{:>8} t={:<12} T{} * {}", self.step, self.now, self.current, msg);
            self.shm.trace_append(&line);
        }
    }
    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
        if self.verbose { let m = format!("FAULT {}", kind); self.trace_msg(&m); }
    }
    pub fn probe(&mut self, name: &str) { *self.probes.entry(name.to_string()).or_insert(0) += 1; }
    pub fn schedule(&mut self, at: u64, ev: Event) { self.evseq += 1; let k = (at, self.evseq); self.events.insert(k, ev); }
    fn run_due(&mut self) {
        while let Some((&(at, q), _)) = self.events.iter().next() {
            if at > self.now { break; }
            let ev = self.events.remove(&(at, q)).unwrap();
            match ev {
                Event::Deliver(d) => crate::net::deliver(self, d),
                Event::WallJump(d) => { self.wall_off += d; self.fault("wall_clock_jump"); }
                Event::FreeDisk => { self.vfs.full = false; self.fault("disk_space_freed"); }
                Event::Call(f) => f(),
            }
        }
        for i in 0..self.threads.len() {
            if let State::Blocked(_) = self.threads[i].state {
                if let Some(d) = self.threads[i].deadline {
                    if d <= self.now { self.wake_tid(i, Wake::Timeout); }
                }
            }
        }
    }
    pub fn wake_tid(&mut self, i: usize, w: Wake) {
        let t = &mut self.threads[i];
        if let State::Blocked(_) = t.state { t.state = State::Runnable; t.deadline = None; t.wake = w; }
    }
    fn next_time(&self) -> Option<u64> {
        let mut m: Option<u64> = self.events.keys().next().map(|k| k.0);
        for t in &self.threads {
            if let (State::Blocked(_), Some(d)) = (t.state, t.deadline) { m = Some(m.map_or(d, |x| x.min(d))); }
        }
        m
    }
    /// Chooses who runs next; None when no thread can ever run again.
    fn pick(&mut self, want_yield: bool) -> Option<(usize, u64)> {
        let me = self.current;
        loop {
            self.run_due();
            let cur_runnable = self.threads[me].state == State::Runnable;
            let n = self.threads.len();
            let mut cands: Vec<usize> = Vec::with_capacity(n);
            for k in 1..n { let i = (me + k) % n; if self.threads[i].state == State::Runnable { cands.push(i); } }
            let forced = self.same_run >= 300 && !cands.is_empty();
            if cur_runnable {
                if want_yield && !cands.is_empty() || forced { /* must let someone else run */ } else { cands.insert(0, me); }
            }
            if cands.is_empty() {
                match self.next_time() { Some(t) => { if t > self.now { self.now = t; } continue; } None => return None }
            }
            if want_yield && (cands.len() == 1 && cands[0] == me || self.idle_spins > 8 * (cands.len() as u64 + 1)) {
                // Everybody else waits for time to pass: do not burn steps spinning.
                self.idle_spins = 0;
                if let Some(t) = self.next_time() { if t > self.now { self.now = t; continue; } }
            }
            let (mut idx, stall) = self.sched_choice(cands.len(), cands[0] == me, want_yield);
            if idx == usize::MAX {
                if let Policy::Pct { changes } = self.policy {
                    if self.prng.below(2000) < changes as u64 { let p = (1 << 39) + self.prng.below(1 << 39); self.threads[me].prio = p; }
                    if want_yield || forced { self.low_prio -= 1; self.threads[me].prio = self.low_prio; }
                }
                idx = 0;
                for (k, c) in cands.iter().enumerate() { if self.threads[*c].prio > self.threads[cands[idx]].prio { idx = k; } }
            }
            if self.replay.is_none() { self.shm.push(S, (idx as u16 & 0xff) | ((stall as u16) << 8)); }
            return Some((cands[idx], stall));
        }
    }
    pub fn finish(&mut self, status: u32, class: &str, msg: &str) -> ! {
        let mut r = String::new();
        let esc = |s: &str| s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', " ");
        r.push_str(&format!("class\t{}\nmsg\t{}\n", esc(class), esc(msg)));
        r.push_str(&format!("digest\t{:016x}\nsched\t{:016x}\nsteps\t{}\nswitches\t{}\nsim_ns\t{}\nthreads\t{}\n", self.digest, self.sched_digest, self.step, self.switches, self.now, self.threads.len()));
        for (k, v) in &self.faults { r.push_str(&format!("f:{}\t{}\n", k, v)); }
        for (k, v) in &self.probes { r.push_str(&format!("p:{}\t{}\n", k, v)); }
        for (t, m) in &self.panics { r.push_str(&format!("panic\tT{} {}\n", t, esc(m))); }
        r.push_str(&format!("note\t{}\nnontrivial\t{}\n", esc(&self.note), self.nontrivial as u8));
        self.shm.write_report(&r);
        self.shm.status().store(status, SeqCst);
        raw::exit_group(0)
    }
    pub fn dump_threads(&self) -> String {
        self.threads.iter().enumerate().map(|(i, t)| format!("T{} {} {:?} deadline {:?}", i, t.name, t.state, t.deadline)).collect::<Vec<_>>().join("; ")
    }
    pub fn new_thread(&mut self, name: String) -> usize {
        let id = self.threads.len();
        let p = (1u64 << 41) + self.prng.below(1 << 40);
        let mut vc = if id > 0 { let c = self.current; self.threads[c].vc.tick(c); self.threads[c].vc.clone() } else { VClock::default() };
        vc.tick(id);
        self.threads.push(Thread { state: State::Runnable, deadline: None, wake: Wake::Normal, sem: Box::new(AtomicU32::new(0)), pth: 0, name,
            prio: p, vc, acq_pending: VClock::default(), rel_fence: VClock::default(), daemon_ok: false });
        id
    }
}

fn sem_wait(s: &AtomicU32) {
    loop {
        if s.load(Acquire) == 1 { s.store(0, Relaxed); return; }
        raw::futex_wait(s as *const _ as *const u32, 0);
    }
}
fn sem_post(s: &AtomicU32) { s.store(1, Release); raw::futex_wake(s as *const _ as *const u32, 1); }

fn switch_to(next: usize, wait: bool) {
    let s = sim();
    let me = s.current;
    if next == me { return; }
    s.current = next;
    s.switches += 1;
    s.same_run = 0;
    s.sched_digest = (s.sched_digest ^ (next as u64 + 1) ^ (s.digest >> 7)).wrapping_mul(0x100000001b3).rotate_left(9);
    let mine: *const AtomicU32 = &*s.threads[me].sem;
    let theirs: *const AtomicU32 = &*s.threads[next].sem;
    unsafe { sem_post(&*theirs); if wait { sem_wait(&*mine); } }
}

fn stuck() -> ! {
    let s = sim();
    let d = s.dump_threads();
    s.finish(ST_VIOLATION, "deadlock", &format!("no thread can make progress: {}", d))
}

/// A preemption point.
#[inline]
pub fn point(op: &'static str, obj: u64) { if active() { point_inner(op, obj, false); } }
#[inline]
pub fn spin_point(op: &'static str) { if active() { point_inner(op, 0, true); } }

fn point_inner(op: &'static str, obj: u64, want_yield: bool) {
    let s = sim();
    s.step += 1;
    s.same_run += 1;
    s.now += STEP_NS;
    s.log(op, obj);
    if want_yield { s.idle_spins += 1; } else if !matches!(op, "load" | "clock" | "tsc" | "tsc-read" | "recv" | "try_recv" | "cas-weak-fails") { s.idle_spins = 0; }
    if s.step > s.max_steps {
        let d = s.dump_threads();
        s.finish(ST_VIOLATION, "no-progress", &format!("the run did not finish within {} steps: {}", s.max_steps, d));
    }
    if !s.preempt && !want_yield { s.run_due(); return; }
    let (next, stall) = match s.pick(want_yield) { Some(x) => x, None => stuck() };
    if stall > 0 {
        s.fault("thread_stall");
        let d = 1000u64 << stall.min(40);
        let me = s.current;
        s.threads[me].state = State::Blocked(Why::Stall);
        s.threads[me].deadline = Some(s.now + d);
        let (next, _) = match s.pick(false) { Some(x) => x, None => stuck() };
        switch_to(next, true);
        return;
    }
    switch_to(next, true);
}

/// Blocks the calling thread until woken or until `deadline` (virtual ns).
pub fn block(why: Why, deadline: Option<u64>) -> Wake {
    let s = sim();
    s.step += 1;
    s.now += STEP_NS;
    let me = s.current;
    s.threads[me].state = State::Blocked(why);
    s.threads[me].deadline = deadline;
    s.threads[me].wake = Wake::Normal;
    let (next, _) = match s.pick(false) { Some(x) => x, None => stuck() };
    switch_to(next, true);
    sim().threads[me].wake
}
pub fn wake(i: usize) { sim().wake_tid(i, Wake::Normal); }

pub fn sleep_ns(ns: u64) {
    let s = sim();
    s.log("sleep", 0);
    let d = s.now + ns.max(1);
    while sim().now < d { block(Why::Sleep, Some(d)); }
}

// ---- threads ----------------------------------------------------------------------------------
pub(crate) struct Tramp { pub start: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, pub arg: *mut libc::c_void, pub tid: usize }
static mut EXIT_KEY: libc::pthread_key_t = 0;

extern "C" fn on_thread_exit(v: *mut libc::c_void) {
    // Runs after the thread's Rust destructors.
    let id = v as usize - 1;
    let s = sim();
    s.log("thread-exit", id as u64);
    s.threads[id].state = State::Finished;
    for i in 0..s.threads.len() {
        if s.threads[i].state == State::Blocked(Why::Join(id)) { s.wake_tid(i, Wake::Normal); }
    }
    let next = match s.pick(false) { Some((n, _)) => n, None => stuck() };
    TID.with(|t| t.set(usize::MAX));
    switch_to(next, false);
}

pub(crate) extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let t = unsafe { Box::from_raw(p as *mut Tramp) };
    let mine: *const AtomicU32 = &*sim_threads_ptr(t.tid);
    unsafe { sem_wait(&*mine); }
    TID.with(|c| c.set(t.tid));
    unsafe { libc::pthread_setspecific(EXIT_KEY, (t.tid + 1) as *mut libc::c_void); }
    (t.start)(t.arg)
}
// The semaphore's address, read once before this thread may hold the baton. The boxed semaphore never
// moves; the vector may, so the address is passed through the table below.
static SEMS: [std::sync::atomic::AtomicUsize; 512] = [const { std::sync::atomic::AtomicUsize::new(0) }; 512];
fn sim_threads_ptr(id: usize) -> &'static AtomicU32 { unsafe { &*(SEMS[id].load(Acquire) as *const AtomicU32) } }

pub fn register_thread(name: String) -> usize {
    let s = sim();
    let id = s.new_thread(name);
    if id >= 512 { s.finish(ST_HARNESS, "harness", "more than 512 threads"); }
    SEMS[id].store(&*s.threads[id].sem as *const AtomicU32 as usize, Release);
    id
}

/// Runs `root` as thread 0 of a fresh simulation, in this process; never returns.
pub fn run_sim(spec: RunSpec, shm: Shm, root: Box<dyn FnOnce() + Send>) -> ! {
    unsafe {
        *SIM.0.get() = Some(Box::new(Sim::new(spec, shm)));
        #[allow(static_mut_refs)]
        libc::pthread_key_create(&mut EXIT_KEY, Some(on_thread_exit));
    }
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if active() {
            let s = sim();
            let t = s.current;
            let txt = format!("{} at {}", m, loc);
            s.trace_msg(&format!("PANIC {}", txt));
            s.panics.push((t, txt));
        }
    }));
    let id = register_thread("root".into());
    let boxed: Box<Box<dyn FnOnce() + Send>> = Box::new(root);
    let tr = Box::new(Tramp { start: root_start, arg: Box::into_raw(boxed) as *mut libc::c_void, tid: id });
    unsafe {
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstacksize(&mut attr, 16 << 20);
        let mut pt: libc::pthread_t = 0;
        let r = crate::interpose::real_pthread_create(&mut pt, &attr, trampoline, Box::into_raw(tr) as *mut libc::c_void);
        assert!(r == 0, "pthread_create failed");
        ACTIVE.store(true, SeqCst);
        sem_post(sim_threads_ptr(id));
        loop { raw::syscall6(libc::SYS_pause, 0, 0, 0, 0, 0, 0); }
    }
}
extern "C" fn root_start(p: *mut libc::c_void) -> *mut libc::c_void {
    let f = unsafe { Box::from_raw(p as *mut Box<dyn FnOnce() + Send>) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || f()));
    let s = sim();
    match r {
        Ok(()) => s.finish(ST_OK, "ok", ""),
        Err(_) => { let m = s.panics.last().map(|p| p.1.clone()).unwrap_or_default(); s.finish(ST_VIOLATION, "panic", &m) }
    }
}

// ---- API for scenarios --------------------------------------------------------------------------
pub fn violate(class: &str, msg: impl AsRef<str>) -> ! { sim().finish(ST_VIOLATION, class, msg.as_ref()) }
pub fn harness_error(msg: impl AsRef<str>) -> ! { sim().finish(ST_HARNESS, "harness", msg.as_ref()) }
pub fn choose(st: usize, n: u64) -> u64 { sim().choose(st, n) }
pub fn w(n: u64) -> u64 { sim().choose(W, n) }
pub fn range(lo: i64, hi: i64) -> i64 { lo + sim().choose(W, (hi - lo + 1) as u64) as i64 }
pub fn chance(st: usize, num: u64, den: u64) -> bool { sim().chance(st, num, den) }
pub fn weighted(st: usize, ws: &[u64]) -> usize { sim().weighted(st, ws) }
pub fn fault(k: &'static str) { sim().fault(k) }
pub fn probe(k: &str) { sim().probe(k) }
pub fn msg(m: &str) { sim().trace_msg(m) }
pub fn verbose() -> bool { sim().verbose }
pub fn note(m: String) { sim().note = m; }
/// Marks this run as one in which the property was really put to the test.
pub fn nontrivial() { sim().nontrivial = true; }
pub fn now() -> u64 { sim().now }
pub fn wall_now() -> i64 { let s = sim(); s.wall_base + s.wall_off + s.now as i64 }
pub fn panics() -> Vec<(usize, String)> { sim().panics.clone() }
pub fn at(delay: u64, ev: Event) { let t = sim().now + delay; sim().schedule(t, ev); }
pub fn step() -> u64 { sim().step }
/// Runs `f` without preemption (oracle code that must be atomic with respect to the run).
pub fn atomically<R>(f: impl FnOnce() -> R) -> R {
    let old = std::mem::replace(&mut sim().preempt, false);
    let r = f();
    sim().preempt = old;
    r
}
