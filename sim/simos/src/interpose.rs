//! The libc symbols the standard library and the dependency crates call, redefined in the executable.
//! Called from a simulated thread they act on the simulated kernel; from any other thread (the runner)
//! they are the real system calls.
#![allow(clippy::missing_safety_doc)]
use crate::core::*;
use crate::net;
use crate::raw::syscall6;
use crate::vfs::{self, VFD_BASE};
use libc::*;
use std::sync::atomic::{AtomicUsize, Ordering::*};

pub(crate) fn set_errno(e: i32) { unsafe { *libc::__errno_location() = e; } }
fn ret(r: i64) -> i64 { if r < 0 && r > -4096 { set_errno(-r as i32); -1 } else { r } }
unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 { ret(syscall6(n, a, b, c, d, e, f)) }
/// Result of a simulated call: Ok(value) or Err(errno).
fn res(r: Result<i64, i32>) -> i64 { match r { Ok(v) => v, Err(e) => { set_errno(e); -1 } } }

type PtCreate = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
type PtJoin = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;
static REAL_CREATE: AtomicUsize = AtomicUsize::new(0);
static REAL_JOIN: AtomicUsize = AtomicUsize::new(0);
unsafe fn next(cache: &AtomicUsize, name: &[u8]) -> usize {
    let v = cache.load(Relaxed);
    if v != 0 { return v; }
    let p = dlsym(RTLD_NEXT, name.as_ptr() as *const c_char) as usize;
    assert!(p != 0);
    cache.store(p, Relaxed);
    p
}
pub unsafe fn real_pthread_create(t: *mut pthread_t, a: *const pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, v: *mut c_void) -> c_int {
    let p: PtCreate = std::mem::transmute(next(&REAL_CREATE, b"pthread_create\0"));
    p(t, a, f, v)
}
unsafe fn real_pthread_join(t: pthread_t, r: *mut *mut c_void) -> c_int {
    let p: PtJoin = std::mem::transmute(next(&REAL_JOIN, b"pthread_join\0"));
    p(t, r)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, a: *const pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, v: *mut c_void) -> c_int {
    if !active() { return real_pthread_create(t, a, f, v); }
    if sim().spawn_refused.is_some_and(|from| tid() >= from) { sim().spawn_refused = None; fault("thread_not_started"); return EAGAIN; }
    let n = sim().threads.len();
    let id = register_thread(format!("t{}", n));
    let tr = Box::into_raw(Box::new(Tramp { start: f, arg: v, tid: id }));
    let r = real_pthread_create(t, a, trampoline, tr as *mut c_void);
    if r != 0 { harness_error(format!("pthread_create failed: {}", r)); }
    sim().threads[id].pth = *t as u64;
    point("spawn", id as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, r: *mut *mut c_void) -> c_int {
    if !active() { return real_pthread_join(t, r); }
    point("join", 0);
    let s = sim();
    if let Some(id) = s.threads.iter().rposition(|x| x.pth == t as u64) {
        while sim().threads[id].state != State::Finished { block(Why::Join(id), None); }
        let s = sim();
        let me = s.current;
        let vc = s.threads[id].vc.clone();
        s.threads[me].vc.join(&vc);
        s.threads[id].pth = 0;
    }
    real_pthread_join(t, r)
}

// ---- time -----------------------------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if !active() { return raw(SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0) as c_int; }
    point("clock", clk as u64);
    let s = sim();
    let ns: i64 = match clk {
        CLOCK_REALTIME | CLOCK_REALTIME_COARSE | CLOCK_TAI => s.wall_base + s.wall_off + s.now as i64,
        CLOCK_THREAD_CPUTIME_ID | CLOCK_PROCESS_CPUTIME_ID => s.now as i64,
        _ => (MONO_BASE + s.now) as i64,
    };
    (*ts).tv_sec = ns.div_euclid(1_000_000_000);
    (*ts).tv_nsec = ns.rem_euclid(1_000_000_000);
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, tz: *mut c_void) -> c_int {
    if !active() { return raw(SYS_gettimeofday, tv as i64, tz as i64, 0, 0, 0, 0) as c_int; }
    point("clock", 100);
    let ns = wall_now();
    (*tv).tv_sec = ns.div_euclid(1_000_000_000);
    (*tv).tv_usec = ns.rem_euclid(1_000_000_000) / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let v = if active() { point("clock", 101); wall_now().div_euclid(1_000_000_000) } else { raw(SYS_time, 0, 0, 0, 0, 0, 0) };
    if !t.is_null() { *t = v; }
    v
}
unsafe fn ts_ns(t: *const timespec) -> u64 { ((*t).tv_sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec as u64) }
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if !active() { return raw(SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0) as c_int; }
    sleep_ns(ts_ns(req));
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if !active() { return -(syscall6(SYS_clock_nanosleep, clk as i64, flags as i64, req as i64, rem as i64, 0, 0) as c_int); }
    let v = ts_ns(req);
    let d = if flags & TIMER_ABSTIME != 0 {
        let base = if clk == CLOCK_REALTIME { wall_now().max(0) as u64 } else { MONO_BASE + now() };
        v.saturating_sub(base)
    } else { v };
    sleep_ns(d);
    0
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    if !active() { let t = timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: (us % 1_000_000) as i64 * 1000 }; return nanosleep(&t, std::ptr::null_mut()); }
    sleep_ns(us as u64 * 1000);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !active() { return raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int; }
    spin_point("yield");
    0
}

// ---- CPUs and entropy -------------------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: pid_t, sz: usize, set: *mut cpu_set_t) -> c_int {
    if !active() { let r = raw(SYS_sched_getaffinity, pid as i64, sz as i64, set as i64, 0, 0, 0); return if r < 0 { -1 } else { 0 }; }
    if sim().cpus_refused { fault("cpus_refused"); *__errno_location() = EPERM; return -1; }
    std::ptr::write_bytes(set as *mut u8, 0, sz);
    for i in 0..sim().cpus { *(set as *mut u8).add(i / 8) |= 1 << (i % 8); }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_setaffinity(pid: pid_t, sz: usize, set: *const cpu_set_t) -> c_int {
    if !active() { return raw(SYS_sched_setaffinity, pid as i64, sz as i64, set as i64, 0, 0, 0) as c_int; }
    point("affinity", 0);
    0
}
unsafe fn fill_entropy(buf: *mut c_void, n: usize) {
    let s = sim();
    let mut i = 0;
    while i < n { let v = s.entropy.next().to_le_bytes(); for b in v { if i < n { *(buf as *mut u8).add(i) = b; i += 1; } } }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, fl: c_uint) -> ssize_t {
    if !active() { return raw(SYS_getrandom, buf as i64, n as i64, fl as i64, 0, 0, 0) as ssize_t; }
    fill_entropy(buf, n);
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, n: usize) -> c_int { getrandom(buf, n, 0); 0 }

// ---- futex ------------------------------------------------------------------------------------
unsafe fn futex(addr: *const u32, op: i64, val: i64, tmo: *const timespec, _a2: i64, _v3: i64) -> i64 {
    let cmd = op & 0x7f;
    match cmd {
        0 | 9 => {
            point("futex-wait", 0);
            if std::ptr::read_volatile(addr) != val as u32 { set_errno(EAGAIN); return -1; }
            let s = sim();
            if s.spurious_per_1024 > 0 && s.chance(crate::shm::F, s.spurious_per_1024, 1024) { s.fault("spurious_wakeup"); return 0; }
            let deadline = if tmo.is_null() { None } else {
                let v = ts_ns(tmo);
                let s = sim();
                Some(if cmd == 0 { s.now.saturating_add(v) }
                     else if op & 256 != 0 { s.now.saturating_add(v.saturating_sub(wall_now().max(0) as u64)) }
                     else { v.saturating_sub(MONO_BASE).max(s.now) })
            };
            match block(Why::Futex(addr as usize), deadline) { Wake::Timeout => { set_errno(ETIMEDOUT); -1 } _ => 0 }
        }
        1 | 10 => {
            let s = sim();
            let mut n = 0;
            while n < val {
                let ws: Vec<usize> = (0..s.threads.len()).filter(|i| s.threads[*i].state == State::Blocked(Why::Futex(addr as usize))).collect();
                if ws.is_empty() { break; }
                let k = if val == 1 && ws.len() > 1 { s.choose(crate::shm::N, ws.len() as u64) as usize } else { 0 };
                s.wake_tid(ws[k], Wake::Normal);
                n += 1;
            }
            point("futex-wake", n as u64);
            n
        }
        _ => harness_error(format!("unsupported futex operation {}", op)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if active() {
        match n {
            SYS_futex => return futex(a as *const u32, b & 0xffffffff, c & 0xffffffff, d as *const timespec, e, f),
            SYS_getrandom => return getrandom(a as *mut c_void, b as usize, 0) as c_long,
            SYS_statx => return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut statx) as c_long,
            _ => {}
        }
    }
    raw(n, a, b, c, d, e, f)
}

// ---- files ------------------------------------------------------------------------------------
unsafe fn sim_path(p: *const c_char) -> Option<String> {
    if !active() || p.is_null() { return None; }
    let s = std::ffi::CStr::from_ptr(p).to_string_lossy();
    if vfs::is_sim_path(&s) { Some(s.into_owned()) } else { None }
}
fn vfd(fd: c_int) -> bool { fd >= VFD_BASE && active() }
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match sim_path(p) { Some(s) => res(vfs::open(&s, flags, mode)) as c_int, None => raw(SYS_openat, AT_FDCWD as i64, p as i64, (flags | O_LARGEFILE) as i64, mode as i64, 0, 0) as c_int }
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int { open64(p, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match sim_path(p) { Some(s) => res(vfs::open(&s, flags, mode)) as c_int, None => raw(SYS_openat, d as i64, p as i64, flags as i64, mode as i64, 0, 0) as c_int }
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int { openat64(d, p, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> ssize_t {
    if vfd(fd) {
        let d = std::slice::from_raw_parts(b as *const u8, n);
        return res(if net::is_sock(fd) { net::send(fd, d, None) } else { vfs::write(fd, d) }) as ssize_t;
    }
    if active() && (fd == 1 || fd == 2) { return res(vfs::console(n)) as ssize_t; }
    raw(SYS_write, fd as i64, b as i64, n as i64, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if vfd(fd) {
        let mut all = Vec::new();
        for i in 0..n as usize { let x = &*v.add(i); all.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len)); }
        return res(vfs::write(fd, &all)) as ssize_t;
    }
    if active() && (fd == 1 || fd == 2) { let mut t = 0; for i in 0..n as usize { t += (*v.add(i)).iov_len; } return res(vfs::console(t)) as ssize_t; }
    raw(SYS_writev, fd as i64, v as i64, n as i64, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: usize, off: off64_t) -> ssize_t {
    if vfd(fd) { return res(vfs::pwrite(fd, std::slice::from_raw_parts(b as *const u8, n), off as u64)) as ssize_t; }
    raw(SYS_pwrite64, fd as i64, b as i64, n as i64, off, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> ssize_t {
    if vfd(fd) {
        let d = std::slice::from_raw_parts_mut(b as *mut u8, n);
        return res(if net::is_sock(fd) { net::recv(fd, d, 0).map(|x| x.0) } else { vfs::read(fd, d) }) as ssize_t;
    }
    raw(SYS_read, fd as i64, b as i64, n as i64, 0, 0, 0) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if vfd(fd) { return res(vfs::lseek(fd, off, wh)); }
    raw(SYS_lseek, fd as i64, off, wh as i64, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if vfd(fd) { return res(vfs::fsync(fd)) as c_int; }
    raw(SYS_fsync, fd as i64, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if vfd(fd) { return res(vfs::fsync(fd)) as c_int; }
    raw(SYS_fdatasync, fd as i64, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if vfd(fd) { return res(vfs::truncate(fd, len as usize)) as c_int; }
    raw(SYS_ftruncate, fd as i64, len, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if vfd(fd) { return res(if net::is_sock(fd) { net::close(fd) } else { vfs::close(fd) }) as c_int; }
    raw(SYS_close, fd as i64, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if vfd(fd) {
        return match cmd {
            F_GETFD => FD_CLOEXEC, F_SETFD => 0,
            F_GETFL => O_RDWR, F_SETFL => { if net::is_sock(fd) { net::set_nonblocking(fd, arg as c_int & O_NONBLOCK != 0); } 0 }
            F_DUPFD | F_DUPFD_CLOEXEC => res(if net::is_sock(fd) { net::dup(fd) } else { vfs::dup(fd) }) as c_int,
            _ => { set_errno(EINVAL); -1 }
        };
    }
    raw(SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: c_long) -> c_int {
    if vfd(fd) {
        if req == FIONBIO && net::is_sock(fd) { net::set_nonblocking(fd, *(arg as *const c_int) != 0); return 0; }
        set_errno(ENOTTY);
        return -1;
    }
    raw(SYS_ioctl, fd as i64, req as i64, arg, 0, 0, 0) as c_int
}
unsafe fn fill_stat(st: *mut stat64, m: &vfs::Meta) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<stat64>());
    (*st).st_mode = if m.dir { S_IFDIR | 0o755 } else { S_IFREG | 0o644 };
    (*st).st_size = m.len as i64;
    (*st).st_nlink = 1;
    (*st).st_ino = m.ino as u64;
    (*st).st_blksize = 4096;
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut stat64) -> c_int {
    match sim_path(p) { Some(s) => res(vfs::stat(&s).map(|m| { fill_stat(st, &m); 0 })) as c_int, None => raw(SYS_stat, p as i64, st as i64, 0, 0, 0, 0) as c_int }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut stat64) -> c_int {
    match sim_path(p) { Some(s) => res(vfs::stat(&s).map(|m| { fill_stat(st, &m); 0 })) as c_int, None => raw(SYS_lstat, p as i64, st as i64, 0, 0, 0, 0) as c_int }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat64) -> c_int {
    if vfd(fd) { return res(vfs::fstat(fd).map(|m| { fill_stat(st, &m); 0 })) as c_int; }
    raw(SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, out: *mut statx) -> c_int {
    let r = if vfd(d) { Some(vfs::fstat(d)) } else { sim_path(p).map(|s| vfs::stat(&s)) };
    if let Some(r) = r {
        return res(r.map(|m| {
            std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<statx>());
            (*out).stx_mask = STATX_BASIC_STATS;
            (*out).stx_mode = (if m.dir { S_IFDIR | 0o755 } else { S_IFREG | 0o644 }) as u16;
            (*out).stx_size = m.len as u64;
            (*out).stx_nlink = 1;
            (*out).stx_ino = m.ino as u64;
            (*out).stx_blksize = 4096;
            0
        })) as c_int;
    }
    raw(SYS_statx, d as i64, p as i64, fl as i64, mask as i64, out as i64, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: c_uint) -> c_int {
    match sim_path(p) { Some(s) => res(vfs::mkdir(&s)) as c_int, None => raw(SYS_mkdir, p as i64, mode as i64, 0, 0, 0, 0) as c_int }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    match sim_path(p) { Some(s) => res(vfs::unlink(&s)) as c_int, None => raw(SYS_unlink, p as i64, 0, 0, 0, 0, 0) as c_int }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (Some(x), Some(y)) => res(vfs::rename(&x, &y)) as c_int,
        (None, None) => raw(SYS_rename, a as i64, b as i64, 0, 0, 0, 0) as c_int,
        _ => { set_errno(EXDEV); -1 }
    }
}

// ---- UDP sockets --------------------------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn socket(dom: c_int, ty: c_int, proto: c_int) -> c_int {
    if active() && dom == AF_INET && ty & 0xf == SOCK_DGRAM { return res(net::socket(ty & SOCK_NONBLOCK != 0)) as c_int; }
    if active() { set_errno(EAFNOSUPPORT); return -1; }
    raw(SYS_socket, dom as i64, ty as i64, proto as i64, 0, 0, 0) as c_int
}
unsafe fn addr_in(a: *const sockaddr, _l: socklen_t) -> net::Addr {
    let s = &*(a as *const sockaddr_in);
    net::Addr { ip: u32::from_be(s.sin_addr.s_addr), port: u16::from_be(s.sin_port) }
}
unsafe fn addr_out(x: net::Addr, a: *mut sockaddr, l: *mut socklen_t) {
    if a.is_null() { return; }
    let mut s: sockaddr_in = std::mem::zeroed();
    s.sin_family = AF_INET as u16;
    s.sin_addr.s_addr = x.ip.to_be();
    s.sin_port = x.port.to_be();
    let n = (*l as usize).min(std::mem::size_of::<sockaddr_in>());
    std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, n);
    *l = std::mem::size_of::<sockaddr_in>() as socklen_t;
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if vfd(fd) { return res(net::bind(fd, addr_in(a, l))) as c_int; }
    raw(SYS_bind, fd as i64, a as i64, l as i64, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if vfd(fd) { return res(net::connect(fd, addr_in(a, l))) as c_int; }
    raw(SYS_connect, fd as i64, a as i64, l as i64, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if vfd(fd) { addr_out(net::local(fd), a, l); return 0; }
    raw(SYS_getsockname, fd as i64, a as i64, l as i64, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if vfd(fd) { return match net::peer(fd) { Some(p) => { addr_out(p, a, l); 0 } None => { set_errno(ENOTCONN); -1 } }; }
    raw(SYS_getpeername, fd as i64, a as i64, l as i64, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lvl: c_int, opt: c_int, v: *const c_void, l: socklen_t) -> c_int {
    if vfd(fd) {
        if lvl == SOL_SOCKET && opt == SO_RCVTIMEO {
            let t = &*(v as *const timeval);
            net::set_timeout(fd, t.tv_sec as u64 * 1_000_000_000 + t.tv_usec as u64 * 1000);
        }
        return 0;
    }
    raw(SYS_setsockopt, fd as i64, lvl as i64, opt as i64, v as i64, l as i64, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lvl: c_int, opt: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
    if vfd(fd) { std::ptr::write_bytes(v as *mut u8, 0, *l as usize); return 0; }
    raw(SYS_getsockopt, fd as i64, lvl as i64, opt as i64, v as i64, l as i64, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, n: usize, fl: c_int, a: *const sockaddr, l: socklen_t) -> ssize_t {
    if vfd(fd) {
        let to = if a.is_null() { None } else { Some(addr_in(a, l)) };
        return res(net::send(fd, std::slice::from_raw_parts(b as *const u8, n), to)) as ssize_t;
    }
    raw(SYS_sendto, fd as i64, b as i64, n as i64, fl as i64, a as i64, l as i64) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: usize, fl: c_int) -> ssize_t { sendto(fd, b, n, fl, std::ptr::null(), 0) }
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: usize, fl: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t {
    if vfd(fd) {
        return match net::recv(fd, std::slice::from_raw_parts_mut(b as *mut u8, n), fl) {
            Ok((k, src)) => { addr_out(src, a, l); k as ssize_t }
            Err(e) => { set_errno(e); -1 }
        };
    }
    raw(SYS_recvfrom, fd as i64, b as i64, n as i64, fl as i64, a as i64, l as i64) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: usize, fl: c_int) -> ssize_t { recvfrom(fd, b, n, fl, std::ptr::null_mut(), std::ptr::null_mut()) }
