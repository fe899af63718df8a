//! Memory shared between the runner and one simulated run (a forked child): the record of every
//! choice the run took (so that even a crashing run can be replayed and minimised), its final report
//! and, when asked for, its event trace.
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

pub const NS: usize = 5;
pub const W: usize = 0; // workload
pub const S: usize = 1; // scheduling
pub const F: usize = 2; // faults
pub const M: usize = 3; // stale reads of weak memory
pub const N: usize = 4; // network delivery
pub const STREAM_NAMES: [&str; NS] = ["workload", "schedule", "faults", "memory", "network"];

pub const CAP: usize = 1 << 19; // choices per stream
pub const REPORT_CAP: usize = 1 << 18;
pub const TRACE_CAP: usize = 1 << 22;

#[derive(Clone, Copy)]
pub struct Shm(pub *mut u8);
unsafe impl Send for Shm {}
unsafe impl Sync for Shm {}

const HDR: usize = 4096;
impl Shm {
    pub fn create() -> Shm {
        let size = HDR + NS * CAP * 2 + REPORT_CAP + TRACE_CAP;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0)
        };
        assert!(p != libc::MAP_FAILED, "mmap of the run record failed");
        Shm(p as *mut u8)
    }
    fn word(&self, i: usize) -> &AtomicU32 { unsafe { &*(self.0.add(i * 4) as *const AtomicU32) } }
    pub fn status(&self) -> &AtomicU32 { self.word(0) }
    fn len_w(&self, st: usize) -> &AtomicU32 { self.word(8 + st) }
    fn report_w(&self) -> &AtomicU32 { self.word(20) }
    fn trace_w(&self) -> &AtomicU32 { self.word(21) }
    pub fn reset(&self) {
        self.status().store(0, Relaxed);
        for s in 0..NS { self.len_w(s).store(0, Relaxed); }
        self.report_w().store(0, Relaxed);
        self.trace_w().store(0, Relaxed);
    }
    fn stream(&self, st: usize) -> *mut u16 { unsafe { self.0.add(HDR + st * CAP * 2) as *mut u16 } }
    pub fn push(&self, st: usize, v: u16) {
        let l = self.len_w(st).load(Relaxed) as usize;
        if l < CAP { unsafe { *self.stream(st).add(l) = v; } self.len_w(st).store(l as u32 + 1, Relaxed); }
    }
    pub fn choices(&self) -> Choices {
        let mut out: Choices = Default::default();
        for st in 0..NS {
            let l = self.len_w(st).load(Relaxed) as usize;
            out[st] = unsafe { std::slice::from_raw_parts(self.stream(st), l) }.to_vec();
        }
        out
    }
    pub fn write_report(&self, s: &str) {
        let b = s.as_bytes(); let n = b.len().min(REPORT_CAP);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.0.add(HDR + NS * CAP * 2), n); }
        self.report_w().store(n as u32, Relaxed);
    }
    pub fn report(&self) -> String {
        let n = self.report_w().load(Relaxed) as usize;
        String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(self.0.add(HDR + NS * CAP * 2), n) }).into_owned()
    }
    pub fn trace_append(&self, s: &str) {
        let l = self.trace_w().load(Relaxed) as usize; let b = s.as_bytes();
        if l + b.len() + 1 > TRACE_CAP { return; }
        unsafe {
            let base = self.0.add(HDR + NS * CAP * 2 + REPORT_CAP + l);
            std::ptr::copy_nonoverlapping(b.as_ptr(), base, b.len());
            *base.add(b.len()) = b'\n';
        }
        self.trace_w().store((l + b.len() + 1) as u32, Relaxed);
    }
    pub fn trace(&self) -> String {
        let n = self.trace_w().load(Relaxed) as usize;
        String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(self.0.add(HDR + NS * CAP * 2 + REPORT_CAP), n) }).into_owned()
    }
}
pub type Choices = [Vec<u16>; NS];
