//! Simulated UDP: loss, duplication, reordering (through delay), truncation by a short receive buffer,
//! partitions, and finite socket buffers.
use crate::core::*;
use crate::shm::{F, N};
use libc::*;
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Addr { pub ip: u32, pub port: u16 }
#[derive(Clone, Debug)]
pub struct Datagram { pub src: Addr, pub dst: Addr, pub data: Vec<u8> }
struct Sock { local: Addr, bound: bool, peer: Option<Addr>, q: VecDeque<Datagram>, nonblock: bool, timeout: u64, refs: u32, cap: usize }
#[derive(Clone, Debug)]
pub struct Cfg { pub loss: u64, pub dup: u64, pub min_ns: u64, pub jitter_log2: u64, pub eintr: u64, pub send_err: u64, pub recv_err: u64, pub cap: usize }
impl Default for Cfg { fn default() -> Self { Cfg { loss: 0, dup: 0, min_ns: 1000, jitter_log2: 0, eintr: 0, send_err: 0, recv_err: 0, cap: 4096 } } }
pub struct Net { socks: BTreeMap<i32, Sock>, alias: BTreeMap<i32, i32>, pub cfg: Cfg, pub cut: bool, next_port: u16, pub sent: u64, pub delivered: u64, pub dropped: u64, /** datagrams put on the wire, by sender */ pub sent_by: BTreeMap<Addr, u64> }
impl Net {
    pub fn new() -> Net { Net { socks: BTreeMap::new(), alias: BTreeMap::new(), cfg: Cfg::default(), cut: false, next_port: 40000, sent: 0, delivered: 0, dropped: 0, sent_by: BTreeMap::new() } }
    fn get(&mut self, fd: i32) -> Result<&mut Sock, i32> { let k = self.alias.get(&fd).copied().unwrap_or(fd); self.socks.get_mut(&k).ok_or(EBADF) }
}
impl Sim {
    pub fn next_fd(&mut self) -> i32 { self.fd_next += 1; crate::vfs::VFD_BASE + self.fd_next }
}
fn hit(rate: u64) -> bool { rate > 0 && chance(N, rate, 1024) }
pub fn is_sock(fd: i32) -> bool { let n = &sim().net; n.socks.contains_key(&fd) || n.alias.contains_key(&fd) }
pub fn socket(nb: bool) -> Result<i64, i32> {
    point("socket", 0);
    let fd = sim().next_fd();
    let cap = sim().net.cfg.cap;
    sim().net.socks.insert(fd, Sock { local: Addr { ip: 0, port: 0 }, bound: false, peer: None, q: VecDeque::new(), nonblock: nb, timeout: 0, refs: 1, cap });
    Ok(fd as i64)
}
pub fn bind(fd: i32, mut a: Addr) -> Result<i64, i32> {
    point("bind", 0);
    let n = &mut sim().net;
    if a.port == 0 { n.next_port += 1; a.port = n.next_port; }
    if n.socks.values().any(|s| s.bound && s.local.port == a.port && (s.local.ip == a.ip || s.local.ip == 0 || a.ip == 0)) { return Err(EADDRINUSE); }
    let s = n.get(fd)?;
    s.local = a;
    s.bound = true;
    Ok(0)
}
pub fn connect(fd: i32, a: Addr) -> Result<i64, i32> { let n = &mut sim().net; if !n.get(fd)?.bound { bind(fd, Addr { ip: 0x7f000001, port: 0 })?; } sim().net.get(fd)?.peer = Some(a); Ok(0) }
pub fn local(fd: i32) -> Addr { sim().net.get(fd).map(|s| s.local).unwrap_or(Addr { ip: 0, port: 0 }) }
pub fn peer(fd: i32) -> Option<Addr> { sim().net.get(fd).ok().and_then(|s| s.peer) }
pub fn set_nonblocking(fd: i32, v: bool) { if let Ok(s) = sim().net.get(fd) { s.nonblock = v; } }
pub fn set_timeout(fd: i32, ns: u64) { if let Ok(s) = sim().net.get(fd) { s.timeout = ns; } }
pub fn dup(fd: i32) -> Result<i64, i32> {
    let nfd = sim().next_fd();
    let n = &mut sim().net;
    let k = n.alias.get(&fd).copied().unwrap_or(fd);
    n.get(k)?.refs += 1;
    n.alias.insert(nfd, k);
    Ok(nfd as i64)
}
pub fn close(fd: i32) -> Result<i64, i32> {
    point("close", 1);
    let n = &mut sim().net;
    let k = n.alias.get(&fd).copied().unwrap_or(fd);
    n.alias.remove(&fd);
    let s = n.get(k)?;
    s.refs -= 1;
    if s.refs == 0 { n.socks.remove(&k); } else if k == fd { n.alias.insert(fd, k); }
    Ok(0)
}
pub fn send(fd: i32, data: &[u8], to: Option<Addr>) -> Result<i64, i32> {
    point("send", data.len() as u64);
    if data.len() > 65507 { return Err(EMSGSIZE); }
    if hit(sim().net.cfg.eintr) { fault("eintr_send"); return Err(EINTR); }
    if hit(sim().net.cfg.send_err) { fault("send_error"); return Err([ENOBUFS, EAGAIN, ENOMEM, ENETUNREACH, EPERM, ECONNREFUSED, EHOSTUNREACH][choose(N, 7) as usize]); }
    if !sim().net.get(fd)?.bound { bind(fd, Addr { ip: 0x7f000001, port: 0 })?; }
    let n = &mut sim().net;
    let s = n.get(fd)?;
    let dst = match to.or(s.peer) { Some(d) => d, None => return Err(EDESTADDRREQ) };
    let mut src = s.local;
    if src.ip == 0 { src.ip = 0x7f000001; }
    n.sent += 1;
    *n.sent_by.entry(src).or_default() += 1;
    transmit(Datagram { src, dst, data: data.to_vec() });
    Ok(data.len() as i64)
}
/// Puts a datagram on the simulated wire.
pub fn transmit(d: Datagram) {
    let c = sim().net.cfg.clone();
    if sim().net.cut { fault("partition_drop"); sim().net.dropped += 1; return; }
    if hit(c.loss) { fault("datagram_loss"); sim().net.dropped += 1; return; }
    let delay = |c: &Cfg| c.min_ns + if c.jitter_log2 > 0 { let k = choose(N, c.jitter_log2 + 1); if k > 0 { (1u64 << k) + choose(N, 1 << k.min(15)) } else { 0 } } else { 0 };
    if hit(c.dup) { fault("datagram_dup"); let t = delay(&c); at(t, Event::Deliver(d.clone())); }
    let t = delay(&c);
    if t > c.min_ns { fault("datagram_delay"); }
    at(t, Event::Deliver(d));
}
pub fn deliver(s: &mut Sim, d: Datagram) {
    let n = &mut s.net;
    let k = n.socks.iter().find(|(_, x)| x.bound && x.local.port == d.dst.port && (x.local.ip == d.dst.ip || x.local.ip == 0)).map(|x| *x.0);
    let fd = match k { Some(k) => k, None => { n.dropped += 1; s.fault("datagram_unroutable"); return; } };
    let x = n.socks.get_mut(&fd).unwrap();
    if let Some(p) = x.peer { if p != d.src { n.dropped += 1; return; } }
    if x.q.len() >= x.cap { n.dropped += 1; s.fault("socket_buffer_overflow"); return; }
    x.q.push_back(d);
    n.delivered += 1;
    for i in 0..s.threads.len() { if s.threads[i].state == State::Blocked(Why::Recv(fd)) { s.wake_tid(i, Wake::Normal); } }
}
pub fn recv(fd: i32, buf: &mut [u8], fl: i32) -> Result<(i64, Addr), i32> {
    point("recv", 0);
    if sim().net.cfg.eintr > 0 && chance(F, sim().net.cfg.eintr, 1024) { fault("eintr_recv"); return Err(EINTR); }
    if sim().net.cfg.recv_err > 0 && chance(F, sim().net.cfg.recv_err, 1024) { fault("recv_error"); return Err([ENOMEM, ENOBUFS, ECONNREFUSED][choose(F, 3) as usize]); }
    let k = sim().net.alias.get(&fd).copied().unwrap_or(fd);
    let (nb, tmo) = { let s = sim().net.get(k)?; (s.nonblock || fl & MSG_DONTWAIT != 0, s.timeout) };
    let deadline = if tmo > 0 { Some(now() + tmo) } else { None };
    loop {
        let s = sim().net.get(k)?;
        if let Some(d) = if fl & MSG_PEEK != 0 { s.q.front().cloned() } else { s.q.pop_front() } {
            let n = buf.len().min(d.data.len());
            if n < d.data.len() { fault("datagram_truncated"); }
            buf[..n].copy_from_slice(&d.data[..n]);
            return Ok((n as i64, d.src));
        }
        if nb { return Err(EAGAIN); }
        if deadline.map_or(false, |d| now() >= d) { return Err(EAGAIN); }
        block(Why::Recv(k), deadline);
    }
}
