//! Raw Linux system calls (x86_64), never routed through libc symbols, so that the simulator's own
//! needs are not intercepted by its own interposition layer.
use core::arch::asm;

#[inline(always)]
pub unsafe fn syscall6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub const FUTEX_WAIT_PRIVATE: i64 = 128;
pub const FUTEX_WAKE_PRIVATE: i64 = 129;

pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe { syscall6(libc::SYS_futex, addr as i64, FUTEX_WAIT_PRIVATE, val as i64, 0, 0, 0); }
}
pub fn futex_wake(addr: *const u32, n: i64) {
    unsafe { syscall6(libc::SYS_futex, addr as i64, FUTEX_WAKE_PRIVATE, n, 0, 0, 0); }
}
pub fn exit_group(code: i32) -> ! {
    unsafe { syscall6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0); }
    loop {}
}
pub fn real_monotonic_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { syscall6(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0, 0, 0, 0); }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
/// The address of `len` bytes (a whole number of pages) followed by a page that cannot be touched.
pub fn guarded(len: usize) -> usize {
    unsafe {
        let m = syscall6(libc::SYS_mmap, 0, (len + 4096) as i64, (libc::PROT_READ | libc::PROT_WRITE) as i64, (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS) as i64, -1, 0);
        syscall6(libc::SYS_mprotect, m + len as i64, 4096, libc::PROT_NONE as i64, 0, 0, 0);
        m as usize
    }
}
