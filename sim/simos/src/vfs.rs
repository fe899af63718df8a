//! A simulated file system under /simfs: a page cache and a disk. A write reaches the page cache at
//! once; only fsync makes it durable. `crash` yields what a power failure could leave.
use crate::core::*;
use crate::shm::F;
use libc::*;
use std::collections::{BTreeMap, BTreeSet};

pub const VFD_BASE: i32 = 1_000_000;
pub fn is_sim_path(p: &str) -> bool { p == "/simfs" || p.starts_with("/simfs/") }

#[derive(Clone, Default)]
pub struct Inode { pub data: Vec<u8>, pub synced: Vec<u8>, pub pending: Vec<(usize, usize)>, pub ino: usize }
struct Fd { path: String, ino: usize, pos: usize, append: bool, wr: bool }
pub struct Meta { pub dir: bool, pub len: usize, pub ino: usize }

/// Fault rates, per 1024 operations unless said otherwise; all zero by default.
#[derive(Clone, Default, Debug)]
pub struct Cfg {
    pub eintr: u64, pub short: u64, pub eio_write: u64, pub enospc: u64, pub eio_sync: u64,
    pub open_fail: u64, pub mkdir_fail: u64, pub slow: u64, pub free_after_ns: u64, pub console_err: u64,
}
pub struct Vfs {
    names: BTreeMap<String, usize>, pub inodes: Vec<Inode>, dirs: BTreeSet<String>, fds: BTreeMap<i32, Fd>,
    pub full: bool, pub cfg: Cfg, pub ops: u64, pub writes: u64, pub syncs: u64, pub failed_ops: u64, pub failed_writes: u64, pub console_bytes: u64,
}
impl Vfs {
    pub fn new() -> Vfs {
        let mut dirs = BTreeSet::new();
        dirs.insert("/simfs".to_string());
        Vfs { names: BTreeMap::new(), inodes: vec![], dirs, fds: BTreeMap::new(), full: false, cfg: Cfg::default(), ops: 0, writes: 0, syncs: 0, failed_ops: 0, failed_writes: 0, console_bytes: 0 }
    }
}
fn hit(rate: u64) -> bool { rate > 0 && chance(F, rate, 1024) }
fn norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') { match c { "" | "." => {} ".." => { out.pop(); } x => out.push(x) } }
    format!("/{}", out.join("/"))
}
fn parent(p: &str) -> String { match p.rfind('/') { Some(0) | None => "/".into(), Some(i) => p[..i].to_string() } }
fn fail(kind: &'static str, e: i32) -> Result<i64, i32> { fault(kind); sim().vfs.failed_ops += 1; Err(e) }

fn slow() {
    if hit(sim().vfs.cfg.slow) {
        fault("slow_io");
        let d = 1_000u64 << choose(F, 16);
        let until = now() + d;
        while now() < until { block(Why::Io, Some(until)); }
    }
}
pub fn open(p: &str, fl: i32, _mode: u32) -> Result<i64, i32> {
    point("open", 0);
    slow();
    let p = norm(p);
    if hit(sim().vfs.cfg.open_fail) { let e = [EMFILE, ENOSPC, EACCES, EIO][choose(F, 4) as usize]; return fail("open_error", e); }
    let v = &mut sim().vfs;
    v.ops += 1;
    if v.dirs.contains(&p) { return Err(EISDIR); }
    if !v.dirs.contains(&parent(&p)) { return fail("open_in_missing_directory", ENOENT); }
    let exists = v.names.contains_key(&p);
    if fl & O_CREAT == 0 && !exists { return Err(ENOENT); }
    if fl & (O_CREAT | O_EXCL) == (O_CREAT | O_EXCL) && exists { return Err(EEXIST); }
    let ino = match v.names.get(&p) { Some(i) => *i, None => {
        let i = v.inodes.len();
        v.inodes.push(Inode { ino: i, ..Default::default() });
        v.names.insert(p.clone(), i);
        i
    } };
    let wr = fl & O_ACCMODE != O_RDONLY;
    if fl & O_TRUNC != 0 && wr { v.inodes[ino].data.clear(); v.inodes[ino].pending.clear(); }
    let fd = sim().next_fd();
    sim().vfs.fds.insert(fd, Fd { path: p, ino, pos: 0, append: fl & O_APPEND != 0, wr });
    Ok(fd as i64)
}
fn put(fd: i32, data: &[u8], at: Option<u64>) -> Result<i64, i32> {
    point("write", data.len() as u64);
    slow();
    let c = sim().vfs.cfg.clone();
    sim().vfs.ops += 1;
    if !sim().vfs.fds.get(&fd).map_or(false, |f| f.wr) { return Err(EBADF); }
    if hit(c.eintr) { fault("eintr_write"); return Err(EINTR); }
    if !sim().vfs.full && hit(c.enospc) {
        fault("disk_full");
        sim().vfs.full = true;
        let d = 1000 + c.free_after_ns / 8 * choose(F, 9);
        crate::core::at(d, Event::FreeDisk);
    }
    if sim().vfs.full { sim().vfs.failed_writes += 1; return fail("write_enospc", ENOSPC); }
    if hit(c.eio_write) { sim().vfs.failed_writes += 1; return fail("write_eio", EIO); }
    let mut n = data.len();
    if n > 1 && hit(c.short) { fault("short_write"); n = 1 + choose(F, (n - 1).min(60000) as u64) as usize; }
    let v = &mut sim().vfs;
    v.writes += 1;
    let f = v.fds.get_mut(&fd).unwrap();
    let node = &mut v.inodes[f.ino];
    let pos = match at { Some(p) => p as usize, None => if f.append { node.data.len() } else { f.pos } };
    if node.data.len() < pos + n { node.data.resize(pos + n, 0); }
    node.data[pos..pos + n].copy_from_slice(&data[..n]);
    node.pending.push((pos, n));
    if at.is_none() { f.pos = pos + n; }
    Ok(n as i64)
}
/// Standard output and error: swallowed, or broken like a closed pipe.
pub fn console(n: usize) -> Result<i64, i32> {
    point("console", n as u64);
    if hit(sim().vfs.cfg.console_err) { fault("console_error"); return Err(EPIPE); }
    sim().vfs.console_bytes += n as u64;
    Ok(n as i64)
}
pub fn write(fd: i32, data: &[u8]) -> Result<i64, i32> { put(fd, data, None) }
pub fn pwrite(fd: i32, data: &[u8], off: u64) -> Result<i64, i32> { put(fd, data, Some(off)) }
pub fn read(fd: i32, buf: &mut [u8]) -> Result<i64, i32> {
    point("read", 0);
    let v = &mut sim().vfs;
    let f = v.fds.get_mut(&fd).ok_or(EBADF)?;
    let d = &v.inodes[f.ino].data;
    let n = buf.len().min(d.len().saturating_sub(f.pos));
    buf[..n].copy_from_slice(&d[f.pos..f.pos + n]);
    f.pos += n;
    Ok(n as i64)
}
pub fn lseek(fd: i32, off: i64, wh: i32) -> Result<i64, i32> {
    let v = &mut sim().vfs;
    let f = v.fds.get_mut(&fd).ok_or(EBADF)?;
    let base = match wh { SEEK_SET => 0, SEEK_CUR => f.pos as i64, SEEK_END => v.inodes[f.ino].data.len() as i64, _ => return Err(EINVAL) };
    let p = base + off;
    if p < 0 { return Err(EINVAL); }
    f.pos = p as usize;
    Ok(p)
}
pub fn fsync(fd: i32) -> Result<i64, i32> {
    point("fsync", 0);
    slow();
    let c = sim().vfs.cfg.clone();
    if !sim().vfs.fds.contains_key(&fd) { return Err(EBADF); }
    if hit(c.eintr) { fault("eintr_sync"); return Err(EINTR); }
    if hit(c.eio_sync) { return fail("sync_eio", EIO); }
    let v = &mut sim().vfs;
    v.syncs += 1;
    let n = &mut v.inodes[v.fds[&fd].ino];
    n.synced = n.data.clone();
    n.pending.clear();
    Ok(0)
}
pub fn truncate(fd: i32, len: usize) -> Result<i64, i32> {
    let v = &mut sim().vfs;
    let i = v.fds.get(&fd).ok_or(EBADF)?.ino;
    v.inodes[i].data.resize(len, 0);
    Ok(0)
}
pub fn close(fd: i32) -> Result<i64, i32> { point("close", 0); sim().vfs.fds.remove(&fd).ok_or(EBADF)?; Ok(0) }
pub fn dup(fd: i32) -> Result<i64, i32> {
    let f = sim().vfs.fds.get(&fd).ok_or(EBADF)?;
    let g = Fd { path: f.path.clone(), ino: f.ino, pos: f.pos, append: f.append, wr: f.wr };
    let n = sim().next_fd();
    sim().vfs.fds.insert(n, g);
    Ok(n as i64)
}
pub fn stat(p: &str) -> Result<Meta, i32> {
    point("stat", 0);
    let p = norm(p);
    let v = &mut sim().vfs;
    if v.dirs.contains(&p) { return Ok(Meta { dir: true, len: 0, ino: 1 }); }
    match v.names.get(&p) { Some(i) => Ok(Meta { dir: false, len: v.inodes[*i].data.len(), ino: *i + 2 }), None => Err(ENOENT) }
}
pub fn fstat(fd: i32) -> Result<Meta, i32> {
    let v = &mut sim().vfs;
    let f = v.fds.get(&fd).ok_or(EBADF)?;
    Ok(Meta { dir: false, len: v.inodes[f.ino].data.len(), ino: f.ino + 2 })
}
pub fn mkdir(p: &str) -> Result<i64, i32> {
    point("mkdir", 0);
    let p = norm(p);
    if sim().vfs.dirs.contains(&p) || sim().vfs.names.contains_key(&p) { return Err(EEXIST); }
    if !sim().vfs.dirs.contains(&parent(&p)) { return Err(ENOENT); }
    if hit(sim().vfs.cfg.mkdir_fail) { let e = [ENOSPC, EACCES, EIO][choose(F, 3) as usize]; return fail("mkdir_error", e); }
    sim().vfs.dirs.insert(p);
    Ok(0)
}
pub fn unlink(p: &str) -> Result<i64, i32> { sim().vfs.names.remove(&norm(p)).map(|_| 0).ok_or(ENOENT) }
pub fn rename(a: &str, b: &str) -> Result<i64, i32> {
    let v = &mut sim().vfs;
    let i = v.names.remove(&norm(a)).ok_or(ENOENT)?;
    v.names.insert(norm(b), i);
    Ok(0)
}
// ---- for scenarios ------------------------------------------------------------------------------
/// What a reader of the file sees now (page cache).
pub fn contents(p: &str) -> Option<Vec<u8>> { let v = &sim().vfs; v.names.get(&norm(p)).map(|i| v.inodes[*i].data.clone()) }
/// What is durable now.
pub fn durable(p: &str) -> Option<Vec<u8>> { let v = &sim().vfs; v.names.get(&norm(p)).map(|i| v.inodes[*i].synced.clone()) }
pub fn list() -> Vec<String> { sim().vfs.names.keys().cloned().collect() }
pub fn open_fds() -> usize { sim().vfs.fds.len() }
pub fn preload(p: &str, d: &[u8]) {
    let p = norm(p);
    let v = &mut sim().vfs;
    v.dirs.insert(parent(&p));
    let i = v.inodes.len();
    v.inodes.push(Inode { ino: i, data: d.to_vec(), synced: d.to_vec(), pending: vec![] });
    v.names.insert(p, i);
}
/// A state an immediate power failure could leave: durable bytes, plus the un-synced writes up to an
/// arbitrary point, the last of them torn. (Writes are ordered, as on an ordered-mode append-only file.)
pub fn crash(p: &str) -> Option<Vec<u8>> {
    let v = &mut sim().vfs;
    let i = *v.names.get(&norm(p))?;
    let n = v.inodes[i].clone();
    let mut out = n.synced.clone();
    let keep = choose(F, n.pending.len() as u64 + 1) as usize;
    for (k, (pos, len)) in n.pending.iter().take(keep).enumerate() {
        let l = if k + 1 == keep { choose(F, (*len + 1).min(60000) as u64) as usize } else { *len };
        if out.len() < pos + l { out.resize(pos + l, 0); }
        out[*pos..pos + l].copy_from_slice(&n.data[*pos..pos + l]);
        if l < *len { fault("torn_write"); }
    }
    if keep < n.pending.len() { fault("lost_unsynced_write"); }
    fault("power_failure");
    Some(out)
}
