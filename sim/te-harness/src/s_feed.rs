//! The market-data feed: F01 damaged messages, F02 decoding, F03 exchange time.
//! Real: the KRX parsers, interning, std::net. Simulated: the exchange, the network, the clock.
use crate::krx::*;
use crate::require;
use crate::util::*;
use simos::net::{self, Addr, Datagram};
use simos::runner::{Prop, Scenario};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use trading_engine::data::quote::QuoteSnapshot;
use trading_engine::data::trade::TradeData;
use trading_engine::data::trade_quote::TradeQuoteSnapshot;
use trading_engine::get_unix_nano;
use trading_engine::data::krx::interface_map::KRX_TR_CODE_MAP;
use trading_engine::types::timestamp::{DateUnixNanoGenerator, TimeStamp, DAY_NANOSCALE, HOUR_NANOSCALE};

const HOUR_US: u64 = 3_600_000_000;
const DAY_US: u64 = 24 * HOUR_US;
#[derive(Clone, Debug)]
pub enum Wire { Good(usize), Refuse(usize, &'static str), Odd(usize) }
#[derive(Clone, Copy, PartialEq)]
enum Mode { Damage, Decode, Time }

/// Damages a message; says whether it must be refused.
fn damage(b: &mut Vec<u8>, k: usize) -> Wire {
    let bad = |b: &mut Vec<u8>| { let i = w(b.len() as u64) as usize; b[i] = 128 + w(127) as u8; };
    let n = b.len();
    match w(9) {
        0 => { b.truncate(w(n as u64) as usize); Wire::Refuse(k, "truncated") }
        1 => { b.truncate(n - 1); Wire::Refuse(k, "last byte missing") }
        2 => { let extra = 1 + w(300); for _ in 0..extra { b.push([48 + w(10) as u8, 255, w(256) as u8][w(3) as usize]); } Wire::Refuse(k, "too long") }
        3 => { b[n - 1] = w(255) as u8; Wire::Refuse(k, "no end mark") }
        4 => { b[17 + w(12) as usize] = [b' ', b'\t'][w(2) as usize]; Wire::Refuse(k, "white space in the code") }
        5 => { b[17 + w(12) as usize] = 128 + w(128) as u8; Wire::Refuse(k, "code not ASCII") }
        6 => { bad(b); let m = w(b.len() as u64) as usize; b.truncate(m); Wire::Refuse(k, "truncated and corrupted") }
        7 => { for _ in 0..1 + w(4) { bad(b); } b[n - 1] = 13; Wire::Refuse(k, "no end mark and corrupted") }
        _ => {
            // Digits replaced by anything: no check can tell, but it must not do harm.
            for _ in 0..1 + w(6) { let i = w(n as u64 - 1) as usize; if !(17..29).contains(&i) { b[i] = w(256) as u8; } }
            Wire::Odd(k)
        }
    }
}
fn state(g: &DateUnixNanoGenerator) -> (u64, u64, u64) { (g.get_utcdate_unix_nano(), g.get_prev_timestamp(), g.get_update_stamp()) }

struct Feed { msgs: Vec<Msg>, truth: Vec<u64> /* microseconds since the first day's midnight */, reopens: Vec<bool>, wires: Mutex<BTreeMap<Vec<u8>, Wire>>, listening: Mutex<u64> }

fn feed(mode: Mode) {
    swarm_sched();
    sim().wall_base = 1_640_000_000_000_000_000 + w(4000) as i64 * 43_200_000_000_000;
    let in_order = w(3) == 0;
    let lossy = w(2) == 1;
    let mut c = net::Cfg { min_ns: 1000 + w(100_000), ..Default::default() };
    if !in_order { c.jitter_log2 = w(24); c.dup = [0u64, 80, 300][w(3) as usize]; }
    if lossy { c.loss = 40 + w(200); }
    sim().net.cfg = c;
    let n = history(12);
    let rate = match mode { Mode::Damage => 6, Mode::Decode => w(3), Mode::Time => w(2) };
    let trs: Vec<Tr> = if mode == Mode::Time { (0..1 + w(3)).map(|_| TRS[w(7) as usize]).collect() } else { (0..1 + w(7)).map(|_| TRS[w(7) as usize]).collect() };
    let universe = 1 + w(4);
    let day0: i64 = [19_000i64, 18_992 /* 31 Dec 2021 */, 19_781, 19_782, 11_015, 59][w(6) as usize];
    let mut t = [0u64, 8 * HOUR_US + 40 * 60_000_000, w(DAY_US), DAY_US - 1, DAY_US - 1 - w(2_000_000)][w(5) as usize];
    let (mut msgs, mut truth, mut reopens) = (vec![], vec![], vec![]);
    // after days without trading the application sets the date itself
    let weekends = mode == Mode::Time && in_order && !lossy && rate == 0 && w(2) == 0;
    for k in 0..n {
        let mut reopen = false;
        if k > 0 {
            let max = if lossy || rate > 0 { 40 * 60_000_000 } else if in_order { 9 * HOUR_US } else { 9 * HOUR_US - 60_000_000 };
            let gap = match w(7) { 0 => 0, 1 => w(2_000), 2 => w(1_000_000), 3 => w(600_000_000), 4 => max, _ => w(max) };
            let crossing = (t + gap) / DAY_US != t / DAY_US;
            // out-of-order arrival is not allowed to reach across midnight: the exchange is quiet there
            t += if crossing && !in_order { gap.max(200_000).min(max) } else { gap };
            if weekends && w(6) == 0 { reopen = true; fault("days_of_silence"); t += (1 + w(5)) * DAY_US; }
        }
        msgs.push(Msg::random(trs[w(trs.len() as u64) as usize], w(universe), k, t % DAY_US));
        truth.push(t);
        reopens.push(reopen);
    }
    let f = Arc::new(Feed { msgs, truth, reopens, wires: Default::default(), listening: Mutex::new(0) });
    let handlers = 1 + w(2);
    let decoded = Arc::new(Mutex::new((0u64, 0u64, 0u64))); // good, refused, odd
    let hs: Vec<_> = (0..handlers).map(|h| {
        let (f, decoded) = (f.clone(), decoded.clone());
        let mut cfgs = BTreeMap::new();
        for t in TRS { cfgs.insert(t, PCfg { cut: if w(2) == 0 { t.levels() } else { w(t.levels() as u64 + 1) as usize }, cum: w(2) == 1 }); }
        let slack = w(3) as usize;
        spawn(&format!("feed handler {}", h), move || handler(mode, h, f, cfgs, day0, slack, decoded))
    }).collect();
    // The exchange
    while *f.listening.lock().unwrap() < handlers { sleep_ns(10_000); }
    let mut last = f.truth[0];
    for k in 0..n as usize {
        let gap = (f.truth[k] - last) * 1000;
        last = f.truth[k];
        if gap > 0 { sleep_ns(gap); }
        let mut b = f.msgs[k].encode();
        let mut wire = Wire::Good(k);
        // The date is that of the first message: the first always arrives.
        let first = mode == Mode::Time && k == 0;
        let weather = sim().net.cfg.clone();
        if first { sim().net.cfg.loss = 0; }
        if !first && w(12) < rate { fault("message_damaged"); wire = damage(&mut b, k); }
        f.wires.lock().unwrap().insert(b.clone(), wire.clone());
        msg(&format!("exchange sends message {} {:?} {} at {} us: {:?}", k, f.msgs[k].tr, f.msgs[k].isin, f.truth[k], wire));
        for h in 0..handlers { net::transmit(Datagram { src: Addr { ip: 0x7f000002, port: 1 }, dst: Addr { ip: 0x7f000001, port: 7000 + h as u16 }, data: b.clone() }); }
        sim().net.cfg = weather;
    }
    sleep_ns(1 << 26);
    sim().net.cfg = net::Cfg::default();
    for h in 0..handlers { net::transmit(Datagram { src: Addr { ip: 0x7f000002, port: 1 }, dst: Addr { ip: 0x7f000001, port: 7000 + h as u16 }, data: b"STOP".to_vec() }); }
    hs.into_iter().for_each(join);
    let pan = panics();
    require!(pan.is_empty(), "panic", "{:?}", pan);
    let d = decoded.lock().unwrap();
    if d.0 > 1 || d.1 > 0 { nontrivial(); }
    note(format!("{} messages over {} us to {} handlers: {} decoded, {} refused, {} odd", n, f.truth[n as usize - 1] - f.truth[0], handlers, d.0, d.1, d.2));
}

fn handler(mode: Mode, h: u64, f: Arc<Feed>, cfgs: BTreeMap<Tr, PCfg>, day0: i64, slack: usize, decoded: Arc<Mutex<(u64, u64, u64)>>) {
    let sock = std::net::UdpSocket::bind(format!("127.0.0.1:{}", 7000 + h)).unwrap_or_else(|e| violate("bind", format!("{}", e)));
    *f.listening.lock().unwrap() += 1;
    let parsers: BTreeMap<Tr, Parser> = cfgs.iter().map(|(t, c)| (*t, Parser::new(*t, *c))).collect();
    let mut bufs = Bufs { q: QuoteSnapshot::with_quote_level(10 + slack), tq: TradeQuoteSnapshot::with_quote_level(10 + slack), t: TradeData::with_capacity(1) };
    let date = time::Date::from_julian_day((day0 + 2_440_588) as i32).unwrap();
    let mut gen = DateUnixNanoGenerator::from(date);
    require!(gen.get_utcdate_unix_nano() == day0 as u64 * DAY_NANOSCALE, "date", "a generator for {} starts at {}", date, gen.get_utcdate_unix_nano());
    let mut day = 0u64;
    let mut raw = [0u8; 2048];
    let stalls = w(4) == 0;
    if mode == Mode::Decode {
        let own = TRS.iter().map(|t| (t.name(), t.codes()));
        for (name, code) in own.chain(OTHERS).flat_map(|(n, c)| c.iter().map(move |c| (n, c))) {
            require!(KRX_TR_CODE_MAP.get(code.as_bytes()).copied() == Some(name), "interface", "code {} belongs to {}, the table says {:?}", code, name, KRX_TR_CODE_MAP.get(code.as_bytes()));
        }
    }
    loop {
        // the handler is held up; what comes in waits in the socket
        if stalls && w(4) == 0 { fault("stalled_handler"); sleep_ns([w(HOUR_NANOSCALE), w(5 * DAY_NANOSCALE)][w(2) as usize]); }
        let k = match sock.recv_from(&mut raw) { Ok((k, _)) => k, Err(e) => violate("receive", format!("{}", e)) };
        let b = &raw[..k];
        if b == b"STOP" { break; }
        let wire = f.wires.lock().unwrap().get(b).cloned().unwrap_or_else(|| harness_error("a datagram nobody sent"));
        match wire {
            Wire::Good(i) => {
                let m = &f.msgs[i];
                let (p, c) = (&parsers[&m.tr], cfgs[&m.tr]);
                if mode == Mode::Damage && c.cut > 0 && w(3) == 0 {
                    // A buffer that is too small for the levels asked for.
                    let (a, bl) = match w(3) { 0 => (c.cut - 1, c.cut), 1 => (c.cut, c.cut - 1), _ => (0, 0) };
                    let mut small = bufs.clone();
                    small.q.ask_quote_data.truncate(a); small.q.bid_quote_data.truncate(bl); small.tq.ask_quote_data.truncate(a); small.tq.bid_quote_data.truncate(bl);
                    let (was, gwas) = (format!("{:?}", small), state(&gen));
                    if m.tr != Tr::T36 {
                        probe("buffer_too_small");
                        let r = catch(|| p.into_buffer(b, &mut small, &mut gen));
                        match r { Err(e) => violate("panic", format!("a {}-level buffer for {} levels: {}", a.min(bl), c.cut, e)), Ok(Ok(_)) => violate("accepted", format!("{} levels were decoded into a buffer of {}", c.cut, a.min(bl))), _ => {} }
                        require!(format!("{:?}", small) == was && state(&gen) == gwas, "side-effect", "a refused buffer or the date was changed");
                    }
                }
                if f.reopens[i] {
                    day = f.truth[i] / DAY_US;
                    let s = (day0 as u64 + day) * DAY_NANOSCALE + w(f.msgs[i].us + 1) * 1000;
                    gen.set_timestamp(TimeStamp::new(s));
                    msg(&format!("handler {} sets the date to {}", h, s));
                    require!(gen.get_utcdate_unix_nano() == (day0 as u64 + day) * DAY_NANOSCALE && gen.get_update_stamp() == s, "date", "set to {}, the generator is at {}", s, gen.get_utcdate_unix_nano());
                }
                let mut g1 = gen;
                let (t0, upd) = (get_unix_nano(), gen.get_update_stamp());
                let r1 = catch(|| p.fresh(b, &mut g1)).unwrap_or_else(|e| violate("panic", format!("message {} ({:?}): {}", i, m.tr, e))).unwrap_or_else(|e| violate("refused", format!("message {} ({:?}) is well formed: {}", i, m.tr, e)));
                let t1 = get_unix_nano();
                catch(|| p.into_buffer(b, &mut bufs, &mut gen)).unwrap_or_else(|e| violate("panic", format!("message {} ({:?}) into a buffer: {}", i, m.tr, e))).unwrap_or_else(|e| violate("refused", format!("message {} ({:?}) is well formed: {}", i, m.tr, e)));
                let t2 = get_unix_nano();
                let r2 = p.from_buffer(&bufs);
                msg(&format!("handler {} decoded message {}", h, i));
                decoded.lock().unwrap().0 += 1;
                if mode == Mode::Decode {
                    if let Some(d) = r1.differs(m, c) { violate("decode", format!("message {} ({}): {}", i, m.tr.name(), d)); }
                    if let Some(d) = r2.differs(m, c) { violate("decode-buffer", format!("message {} ({}) into a reused buffer: {}", i, m.tr.name(), d)); }
                    let (s1, s2) = (r1.stamps().1, r2.stamps().1);
                    require!(t0 <= s1 && s1 <= t1 && t1 <= s2 && s2 <= t2, "receive-stamp", "received between {} and {}, stamped {} and {}", t0, t2, s1, s2);
                }
                if mode == Mode::Time {
                    let new_day = f.truth[i] / DAY_US;
                    let want = (day0 as u64 + new_day) * DAY_NANOSCALE + m.us * 1000 + 9 * HOUR_NANOSCALE;
                    for (what, r) in [("fresh", &r1), ("buffer", &r2)] {
                        let got = r.stamps().0;
                        require!(got == want, "exchange-time", "message {} ({}, {}) of day {} at {} is stamped {} ns {} the true time", i, m.tr.name(), what, new_day, hms(m.us), want.abs_diff(got), if got > want { "after" } else { "before" });
                    }
                    require!(gen.get_utcdate_unix_nano() == (day0 as u64 + new_day) * DAY_NANOSCALE && gen.get_prev_timestamp() == want, "date", "after message {} of day {} the date is {} days on and the last stamp {}", i, new_day, gen.get_utcdate_unix_nano() as i64 / DAY_NANOSCALE as i64 - day0, gen.get_prev_timestamp());
                    if new_day != day { probe("midnight_crossed"); require!(gen.get_update_stamp() == r2.stamps().1, "date", "the date change at {} is recorded at {}", r2.stamps().1, gen.get_update_stamp()); } else { require!(gen.get_update_stamp() == upd, "date", "no day passed, yet a date change is recorded"); }
                    day = new_day;
                }
            }
            Wire::Refuse(i, why) => {
                let m = &f.msgs[i];
                let p = &parsers[&m.tr];
                let (was, gwas) = (format!("{:?}", bufs), state(&gen));
                match catch(|| p.fresh(b, &mut gen).map(|_| ())) { Err(e) => violate("panic", format!("{} bytes ({}): {}", b.len(), why, e)), Ok(Ok(_)) => violate("accepted", format!("a damaged {} message ({}) was decoded", m.tr.name(), why)), _ => {} }
                match catch(|| p.into_buffer(b, &mut bufs, &mut gen)) { Err(e) => violate("panic", format!("{} bytes ({}) into a buffer: {}", b.len(), why, e)), Ok(Ok(_)) => violate("accepted", format!("a damaged {} message ({}) was decoded into the buffer", m.tr.name(), why)), _ => {} }
                require!(state(&gen) == gwas, "side-effect", "a refused message ({}) moved the date: {:?} -> {:?}", why, gwas, state(&gen));
                require!(format!("{:?}", bufs) == was, "side-effect", "a refused {} message ({}) changed the buffer", m.tr.name(), why);
                decoded.lock().unwrap().1 += 1;
            }
            Wire::Odd(i) => {
                let p = &parsers[&f.msgs[i].tr];
                let (mut g1, mut g2, mut scratch) = (gen, gen, bufs.clone());
                let r1 = catch(|| p.fresh(b, &mut g1)).unwrap_or_else(|e| violate("panic", format!("corrupted fields: {}", e)));
                let r2 = catch(|| p.into_buffer(b, &mut scratch, &mut g2)).unwrap_or_else(|e| violate("panic", format!("corrupted fields into a buffer: {}", e)));
                require!(r1.is_ok() == r2.is_ok(), "disagree", "decoding afresh says {:?}, into a buffer {:?}", r1.is_ok(), r2.is_ok());
                if r1.is_err() { require!(state(&g1) == state(&gen) && state(&g2) == state(&gen), "side-effect", "a refused message moved the date"); }
                decoded.lock().unwrap().2 += 1;
            }
        }
    }
}
fn f01() { feed(Mode::Damage) }
fn f02() { feed(Mode::Decode) }
fn f03() { feed(Mode::Time) }
const REAL: &str = "trading-engine data/krx parsers, data/checker.rs, utils/numeric_converter.rs, types/id, types/timestamp.rs, utils/timer.rs; std::net::UdpSocket";
const STUB: &str = "the exchange (a message encoder), kernel: sockets, network, scheduler, futexes, clocks; quanta's time-stamp counter";
pub const F01: Prop = Prop { id: "F01", quick: 40_000, thorough: 2_000_000, scenarios: &[Scenario { name: "damage", weight: 1, body: f01, max_steps: 3_000_000, cpu_s: 30 }], real: REAL, stub: STUB,
    rule: "one seed = one run: random messages, damage, network weather, decoder settings", assumptions: &["a message whose length, end mark and instrument code are intact cannot be told from a good one"], expect: &["message_damaged", "buffer_too_small", "datagram_loss", "datagram_dup", "datagram_delay", "stalled_handler"] };
pub const F02: Prop = Prop { id: "F02", quick: 40_000, thorough: 2_000_000, scenarios: &[Scenario { name: "decode", weight: 1, body: f02, max_steps: 3_000_000, cpu_s: 30 }], real: REAL, stub: STUB,
    rule: "one seed = one run: random messages of seven interfaces through reused buffers", assumptions: &["message layouts as documented in the code"], expect: &["message_damaged", "datagram_loss", "datagram_dup", "datagram_delay", "stalled_handler"] };
pub const F03: Prop = Prop { id: "F03", quick: 40_000, thorough: 2_000_000, scenarios: &[Scenario { name: "time", weight: 1, body: f03, max_steps: 3_000_000, cpu_s: 30 }], real: REAL, stub: STUB,
    rule: "one seed = one run: random messages over several days", assumptions: &["no silence of more than nine hours unless the application then sets the date", "reordering does not reach across midnight"], expect: &["midnight_crossed", "days_of_silence", "message_damaged", "datagram_loss", "datagram_dup", "datagram_delay", "stalled_handler"] };
