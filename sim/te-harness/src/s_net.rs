//! N01: messages through the UDP client.
use crate::require;
use crate::util::*;
use simos::net::{self, Addr, Datagram};
use simos::runner::{Prop, Scenario};
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use trading_engine::communication::udp_client::UdpClient;

pub fn swarm_net() {
    let r = [0u64, 0, 60, 300];
    let mut c = net::Cfg { loss: r[w(4) as usize], dup: r[w(4) as usize], min_ns: 1000 + w(100_000), jitter_log2: w(24), ..Default::default() };
    if w(3) == 2 { c.cap = 1 + w(4) as usize; }
    if w(3) == 2 { c.eintr = 100; }
    if w(4) == 3 { c.send_err = 150; }
    if w(4) == 3 { c.recv_err = 100; }
    sim().net.cfg = c;
    for _ in 0..w(3) { let d = w(2_000_000); at(d, Event::Call(Box::new(|| sim().net.cut = true))); at(d + w(1_000_000), Event::Call(Box::new(|| sim().net.cut = false))); }
}
fn body(me: u64, k: u64) -> String {
    let fill = match w(8) { 0 => 0, 1..=4 => w(60), 5 => 300, 6 => 1024, _ if w(60) == 0 => { probe("huge_message"); 65_400 + w(200) } _ => 1024 + w(4000) } as usize;
    let head = format!("<{}:{}>", me, k);
    let unit = ["x", "가", "é", "\u{0}", " \n", "🦀"][w(6) as usize];
    let mut s = head;
    while s.len() + unit.len() <= fill { s.push_str(unit); }
    s
}
fn udp() {
    swarm_sched();
    swarm_net();
    let n = 2 + w(3);
    let sent: Arc<Mutex<Vec<(u64, u64, String, bool, u64)>>> = Default::default(); // from, to, text, accepted, copies on the wire at most
    let got: Arc<Mutex<Vec<(u64, String, u64)>>> = Default::default();
    let addr = |i: u64| -> SocketAddr { format!("127.0.0.{}:{}", 1 + i, 9000 + i).parse().unwrap() };
    if w(4) == 0 { let a = UdpClient::new(addr(0)); require!(a.is_ok() && UdpClient::new(addr(0)).is_err(), "bind", "two clients were given the same address"); }
    let cs: Vec<Arc<UdpClient>> = (0..n).map(|i| Arc::new(UdpClient::new(addr(i)).unwrap_or_else(|e| violate("bind", format!("{}", e))))).collect();
    let rx: Vec<_> = (0..n).map(|i| {
        let (c, got) = (cs[i as usize].clone(), got.clone());
        let slow = w(3) == 2;
        spawn(&format!("rx{}", i), move || loop {
            match c.receive_response() {
                Ok(m) => { msg(&format!("{} got {} bytes", i, m.len())); if m == "STOP" { break; } got.lock().unwrap().push((i, m, step())); if slow { sleep_ns(w(200_000)); } }
                Err(e) => { probe("receive_error"); let c = &sim().net.cfg; require!(c.eintr > 0 || c.recv_err > 0 || e.kind() == std::io::ErrorKind::Interrupted, "receive", "{}", e); }
            }
        })
    }).collect();
    let empty = std::sync::atomic::AtomicU64::new(0);
    let tx: Vec<_> = (0..n).map(|i| {
        let none = w(4 * n) == 0;
        let plan: Vec<(u64, String)> = (0..if w(400) == 399 { probe("long_history"); 260 + w(20) } else { w(7) }).map(|k| (w(n), if none && k == 1 && empty.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == 0 { probe("empty_message"); String::new() } else { body(i, k) })).collect();
        let (c, sent) = (cs[i as usize].clone(), sent.clone());
        spawn(&format!("tx{}", i), move || for (to, s) in plan {
            let at = { let mut g = sent.lock().unwrap(); g.push((i, to, s.clone(), false, 0)); g.len() - 1 };
            let wire = || sim().net.sent_by.get(&Addr { ip: 0x7f000001 + i as u32, port: 9000 + i as u16 }).copied().unwrap_or(0);
            let before = wire();
            let r = c.send_message(addr(to), &s);
            let put = wire() - before;
            require!(put == r.is_ok() as u64, if r.is_ok() { "false-success" } else { "false-error" }, "a send of client {} says {:?}, yet put {} datagrams on the wire", i, r, put);
            sent.lock().unwrap()[at].3 = r.is_ok();
            if r.is_err() { probe("send_error_reported"); }
            // at times nothing is sent for long
            match w(4) { 0 if w(20) == 0 => sleep_ns(w(100_000_000_000)), 0 => sleep_ns(w(3_000_000)), 1 => sleep_ns(1), _ => {} }
        })
    }).collect();
    tx.into_iter().for_each(join);
    // The network calms down: what is still in flight arrives, then everyone is told to stop.
    let calm = net::Cfg { cap: 1 << 16, min_ns: 1000, ..Default::default() };
    sleep_ns(1 << 26);
    let lossy = { let c = &sim().net.cfg; c.loss > 0 || c.send_err > 0 || c.cap < 4096 } || sim().net.dropped > 0;
    let dupped = sim().net.cfg.dup > 0;
    sim().net.cfg = calm;
    sim().net.cut = false;
    for i in 0..n { net::transmit(Datagram { src: Addr { ip: 0x7f0000fe, port: 1 }, dst: Addr { ip: 0x7f000001 + i as u32, port: 9000 + i as u16 }, data: b"STOP".to_vec() }); }
    rx.into_iter().for_each(join);
    let (sent, got) = (sent.lock().unwrap(), got.lock().unwrap());
    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[..s.len().min(1024)]).to_string();
    let mut count: BTreeMap<(u64, String), u64> = BTreeMap::new();
    for (to, m, _) in got.iter() { *count.entry((*to, m.clone())).or_default() += 1; }
    for ((to, m), k) in &count {
        let src: BTreeSet<_> = sent.iter().filter(|s| s.1 == *to && cut(&s.2) == *m).map(|s| s.0).collect();
        require!(!src.is_empty(), "altered", "client {} received {} bytes {:?} that nobody sent it", to, m.len(), m.chars().take(40).collect::<String>());
        if !dupped { require!(*k == 1, "duplicated", "client {} received one datagram {} times", to, k); }
        if *k > 1 { probe("duplicate_delivered"); }
        require!(*k <= 2, "duplicated", "client {} received one datagram {} times", to, k);
    }
    for (from, to, m, ok, _) in sent.iter() {
        let k = count.get(&(*to, cut(m))).copied().unwrap_or(0);
        require!(*ok || k == 0, "false-error", "client {}'s send failed, yet client {} received it", from, to);
        if *ok && !lossy { require!(k >= 1, "lost", "client {}'s message of {} bytes to client {} was never received although the network lost nothing", from, m.len(), to); }
        if m.len() > 1024 && k > 0 { probe("long_message"); }
    }
    let pan = panics();
    require!(pan.is_empty(), "panic", "{:?}", pan);
    if !got.is_empty() { nontrivial(); }
    note(format!("{} clients, {} sends, {} receptions, dropped {}", n, sent.len(), got.len(), sim().net.dropped));
}
pub const N01: Prop = Prop { id: "N01", quick: 40_000, thorough: 2_000_000, scenarios: &[Scenario { name: "udp", weight: 1, body: udp, max_steps: 3_000_000, cpu_s: 30 }],
    real: "trading-engine communication/udp_client.rs over std::net::UdpSocket", stub: "kernel: sockets, network, scheduler, futexes",
    rule: "one seed = one run: random clients, texts, network weather, partitions", assumptions: &["a datagram longer than the client's 1024-byte buffer is cut to it, as UDP sockets do"],
    expect: &["datagram_loss", "datagram_dup", "datagram_delay", "datagram_truncated", "partition_drop", "socket_buffer_overflow", "eintr_recv", "eintr_send", "send_error", "send_error_reported", "recv_error"] };
