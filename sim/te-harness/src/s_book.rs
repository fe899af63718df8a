//! Order books: B01 snapshots, B02 decomposed orders, B03 matching; F04 features; X01 the whole pipeline.
use crate::book::*;
use crate::krx::*;
use crate::require;
use crate::util::*;
use rustc_hash::FxHashMap;
use simos::net::{self, Addr, Datagram};
use simos::runner::{Prop, Scenario};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::{Arc, Mutex};
use trading_engine::communication::udp_client::UdpClient;
use trading_engine::data::order::*;
use trading_engine::data::quote::QuoteSnapshot;
use trading_engine::data::trade::TradeData;
use trading_engine::data::trade_quote::TradeQuoteSnapshot;
use trading_engine::feature::tick::SimpleQuotes;
use trading_engine::orderbook::half_book::HalfBook;
use trading_engine::orderbook::OrderBook;
use trading_engine::spinqueue::{DataSpinQueue, WorkerId};
use trading_engine::types::base::LevelSnapshot;
use trading_engine::types::id::{InstId, Symbol};
use trading_engine::types::timestamp::DateUnixNanoGenerator;
use trading_engine::{IsinCode, Venue};

const QUOTES: [Tr; 6] = [Tr::Q34, Tr::Q35, Tr::Tq37, Tr::Tq38, Tr::S2, Tr::S3];
fn weather() {
    let mut c = net::Cfg { min_ns: 1000 + w(100_000), ..Default::default() };
    let bad = [0u64, 0, 60, 300];
    c.loss = bad[w(4) as usize]; c.dup = bad[w(4) as usize];
    if w(3) > 0 { c.jitter_log2 = w(24); }
    sim().net.cfg = c;
    if w(4) == 3 { let d = w(2_000_000); at(d, Event::Call(Box::new(|| sim().net.cut = true))); at(d + w(1_000_000), Event::Call(Box::new(|| sim().net.cut = false))); }
}
fn gen() -> DateUnixNanoGenerator { DateUnixNanoGenerator::from(time::Date::from_julian_day(2_459_580).unwrap()) }
fn addr(h: u64) -> Addr { Addr { ip: 0x7f000001, port: 7000 + h as u16 } }
fn transmit(h: u64, b: &[u8]) { net::transmit(Datagram { src: Addr { ip: 0x7f000002, port: 1 }, dst: addr(h), data: b.to_vec() }); }
fn stop(n: u64) {
    sleep_ns(1 << 26);
    sim().net.cut = false;
    sim().net.cfg = net::Cfg::default();
    for h in 0..n { transmit(h, b"STOP"); }
}
fn no_panics() { let pan = panics(); require!(pan.is_empty(), "panic", "{:?}", pan); }
fn bufs() -> Bufs { Bufs { q: QuoteSnapshot::with_quote_level(10 + w(3) as usize), tq: TradeQuoteSnapshot::with_quote_level(10 + w(3) as usize), t: TradeData::with_capacity(1) } }
fn id_of(isin: &str) -> InstId { InstId::new(Symbol::Isin(IsinCode::new(isin.as_bytes()).unwrap()), Venue::KRX) }

/// Several instruments' messages, in the order the exchange sends them.
struct Tape { msgs: Vec<Msg>, wires: BTreeMap<Vec<u8>, usize>, listening: Mutex<u64> }
fn tape(max: u64) -> Tape {
    let mut ms: Vec<(u64, Market)> = (0..1 + w(3)).map(|i| (i, Market::new(w(3) == 0))).collect();
    let (mut msgs, mut wires) = (vec![], BTreeMap::new());
    let mut us = w(10_000_000_000);
    for k in 0..history(max) {
        let i = w(ms.len() as u64) as usize;
        for _ in 0..[0u64, 1, 2, 9][w(4) as usize] { ms[i].1.evolve(); }
        let trs: Vec<Tr> = QUOTES.iter().copied().filter(|t| t.stock() == ms[i].1.stock).collect();
        us += w(1000);
        let mut m = ms[i].1.message(trs[w(trs.len() as u64) as usize], k, us, ms[i].0);
        // a call auction: orders are collected, not matched, and the sides overlap
        if w(9) == 0 { let by = 1 + w(30) as i64; for l in m.lv.iter_mut().filter(|l| l.aq > 0) { l.ap -= by } fault("crossed_quotes") }
        wires.insert(m.encode(), k as usize);
        msgs.push(m);
    }
    Tape { msgs, wires, listening: Mutex::new(0) }
}
/// Sends the tape to `handlers` feed handlers.
fn exchange(t: &Tape, handlers: u64) {
    while *t.listening.lock().unwrap() < handlers { sleep_ns(10_000); }
    let mut order: Vec<(&Vec<u8>, usize)> = t.wires.iter().map(|(b, k)| (b, *k)).collect();
    order.sort_by_key(|x| x.1);
    for (b, k) in order {
        match w(4) { 0 => {} 1 => sleep_ns(w(1_000_000)), _ => sleep_ns(1 + w(3000)) }
        msg(&format!("exchange sends message {} {:?} {}", k, t.msgs[k].tr, t.msgs[k].isin));
        for h in 0..handlers { transmit(h, b); }
    }
    stop(handlers);
}
/// The parsers of one feed handler, with their settings.
struct Decoder { parsers: BTreeMap<Tr, Parser>, cut: BTreeMap<Tr, usize> }
fn decoder(full: bool) -> Decoder {
    let mut d = Decoder { parsers: BTreeMap::new(), cut: BTreeMap::new() };
    for t in TRS { let c = if full || w(2) == 0 { t.levels() } else { w(t.levels() as u64 + 1) as usize }; d.cut.insert(t, c); d.parsers.insert(t, Parser::new(t, PCfg { cut: c, cum: w(2) == 1 })); }
    d
}
fn listen(h: u64, t: &Tape) -> std::net::UdpSocket {
    let s = std::net::UdpSocket::bind(format!("127.0.0.1:{}", 7000 + h)).unwrap_or_else(|e| violate("bind", format!("{}", e)));
    *t.listening.lock().unwrap() += 1;
    s
}
fn receive<'a>(s: &std::net::UdpSocket, raw: &'a mut [u8]) -> Option<&'a [u8]> {
    let k = match s.recv_from(raw) { Ok((k, _)) => k, Err(e) => violate("receive", format!("{}", e)) };
    if &raw[..k] == b"STOP" { None } else { Some(&raw[..k]) }
}
fn apply(book: &mut OrderBook, tr: Tr, b: &Bufs) -> anyhow::Result<()> { match tr { Tr::Tq37 | Tr::Tq38 => book.update_from_trade_quote_snapshot(&b.tq), _ => book.update_from_quote_snapshot(&b.q) } }

/// A book and a neighbour that differs in one level do not compare as equal, nor does the neighbour's equal differ.
fn compare(book: &OrderBook, id: InstId, asks: &Px2Qty, bids: &Px2Qty) {
    if w(2) == 0 { return; }
    let (mut a, mut b) = (asks.clone(), bids.clone());
    let s = if w(2) == 0 { &mut a } else { &mut b };
    let k = s.keys().nth(w(s.len().max(1) as u64) as usize).copied();
    let what = match (w(4), k) {
        (0, Some(k)) => { s.remove(&k); "a level less" }
        (1, Some(k)) => { s.get_mut(&k).unwrap().0 += 1 + w(2); "a larger quantity" }
        (2, Some(k)) if !s.contains_key(&(k + 1)) => { let v = s.remove(&k).unwrap(); s.insert(k + 1, v); "a level one tick higher" }
        _ => { let p = s.keys().next_back().map_or(500, |x| *x) + 1 + w(3) as i64; s.insert(p, (1 + w(9), 1)); "a level more" }
    };
    let mut q = QuoteSnapshot::with_quote_level(0);
    q.id = id;
    let lv = |m: &Px2Qty| -> Vec<LevelSnapshot> { m.iter().map(|(p, v)| LevelSnapshot { order_count: None, lp_quantity: None, book_price: *p, book_quantity: v.0 }).collect() };
    let n = a.len().max(b.len());
    let (mut va, mut vb) = (lv(&a), lv(&b));
    va.resize(n, LevelSnapshot::default()); vb.resize(n, LevelSnapshot::default());
    q.quote_level_cut = n; q.ask_quote_data = va; q.bid_quote_data = vb;
    let mut other = OrderBook::initialize_with_id(id);
    other.update_from_quote_snapshot(&q).unwrap_or_else(|e| violate("refused", format!("{}", e)));
    require!(!other.eq_level(book) && !book.eq_level(&other), "compare", "a book with asks {:?}, bids {:?} equals one with {}: {:?} {:?}", asks, bids, what, a, b);
    probe("compared");
}

// ---- B01: a book kept from snapshots -------------------------------------------------------------
fn b01() {
    swarm_sched();
    weather();
    let t = Arc::new(tape(14));
    let handlers = 1 + w(2);
    let applied = Arc::new(Mutex::new(0u64));
    let hs: Vec<_> = (0..handlers).map(|h| {
        let (t, applied) = (t.clone(), applied.clone());
        let (d, mut buf, paper, probe_ids) = (decoder(false), bufs(), w(2) == 1, w(2) == 1);
        spawn(&format!("feed handler {}", h), move || {
            let s = listen(h, &t);
            let mut g = gen();
            let mut books: FxHashMap<InstId, (OrderBook, Px2Qty, Px2Qty)> = FxHashMap::default();
            let mut raw = [0u8; 2048];
            while let Some(b) = receive(&s, &mut raw) {
                let m = &t.msgs[*t.wires.get(b).unwrap_or_else(|| harness_error("a datagram nobody sent"))];
                d.parsers[&m.tr].into_buffer(b, &mut buf, &mut g).unwrap_or_else(|e| violate("refused", format!("{}", e)));
                let id = d.parsers[&m.tr].from_buffer(&buf).id();
                let cut = d.cut[&m.tr];
                let (wa, wb) = l2(m, cut);
                if probe_ids {
                    let others: Vec<&'static str> = vec![];
                    let _ = others;
                    let ids: Vec<InstId> = t.msgs.iter().map(|m| id_of(&m.isin)).filter(|i| *i != id && books.contains_key(i)).collect();
                    if let Some(o) = ids.first() {
                        let e = books.get_mut(o).unwrap();
                        probe("foreign_snapshot");
                        require!(apply(&mut e.0, m.tr, &buf).is_err(), "foreign", "a book accepted another instrument's snapshot");
                        if let Some(x) = differs(&e.0, &e.1, &e.2, false) { violate("foreign", format!("a refused snapshot changed the book: {}", x)); }
                    }
                }
                let e = books.entry(id).or_insert_with(|| (OrderBook::initialize_with_id(id), Px2Qty::new(), Px2Qty::new()));
                let was = e.0.clone();
                let changed = (&e.1, &e.2) != (&wa, &wb);
                catch(|| apply(&mut e.0, m.tr, &buf)).unwrap_or_else(|x| violate("panic", x)).unwrap_or_else(|x| violate("refused", format!("{:?}", x)));
                if let Some(x) = differs(&e.0, &wa, &wb, false) { violate("snapshot", format!("after message {} ({}, {} levels): {}", m.seq, m.tr.name(), cut, x)); }
                let mut fresh = OrderBook::initialize_with_id(id);
                apply(&mut fresh, m.tr, &buf).unwrap();
                require!(fresh.eq_level(&e.0) && e.0.eq_level(&fresh), "compare", "a kept book and a fresh one differ after message {}", m.seq);
                if changed { require!(!(was.eq_level(&e.0) && e.0.eq_level(&was)), "compare", "books with different levels compare as equal"); probe("book_changed"); }
                compare(&e.0, id, &wa, &wb);
                if let Some(x) = views(&e.0, &wa, &wb, 1 + w(4) as usize) { violate("view", x); }
                msg(&format!("handler {} applied message {}", h, m.seq));
                *applied.lock().unwrap() += 1;
                e.1 = wa; e.2 = wb;
                if paper && w(3) == 0 {
                    // Trading against the displayed quantities; the next snapshot is the truth again.
                    let mut r = RefBook::default();
                    for (ask, l) in [(true, &e.1), (false, &e.2)] { for (p, q) in l { r.add(RO { ask, price: *p, id: 0, qty: q.0 }); } }
                    for _ in 0..1 + w(3) {
                        let ask = w(2) == 0;
                        let q = match w(4) { 0 => r.total(!ask).max(1), 1 => r.total(!ask) + 1, _ => 1 + w(300) };
                        probe("paper_trade");
                        let (got, want) = if w(2) == 0 { (e.0.process_market_order(&MarketOrder::new(q, side(ask), 77)), r.trade(ask, None, q)) } else {
                            let p = r.best(!ask).unwrap_or(0) + w(7) as i64 - 3;
                            let o = LimitOrder::new(p, q, side(ask), 78);
                            (if ask { e.0.bids.trade_limit_order(&o) } else { e.0.asks.trade_limit_order(&o) }, r.trade(ask, Some(p), q))
                        };
                        require!(fill(&got) == want, "paper-trade", "taking {} from the {} side gives {:?}, should give {:?}", q, if ask { "bid" } else { "ask" }, fill(&got), want);
                        e.1 = r.levels(true); e.2 = r.levels(false);
                        if let Some(x) = differs(&e.0, &e.1, &e.2, false) { violate("paper-trade", x); }
                    }
                }
            }
        })
    }).collect();
    exchange(&t, handlers);
    hs.into_iter().for_each(join);
    no_panics();
    let n = *applied.lock().unwrap();
    if n > 1 { nontrivial(); }
    note(format!("{} messages, {} handlers, {} applied", t.msgs.len(), handlers, n));
}

// ---- B02: decomposition into orders --------------------------------------------------------------
fn b02() {
    swarm_sched();
    let mut mk = Market::new(false);
    let n = history(14);
    let id = id_of(&isin(w(5), false));
    let mut snaps = vec![];
    for k in 0..n { for _ in 0..[0u64, 1, 2, 9][w(4) as usize] { mk.evolve(); } snaps.push(mk.message(if w(3) == 0 { Tr::Q35 } else { Tr::Q34 }, k, 0, 0)); }
    let followers = 1 + w(2);
    // The stream of decomposed orders, and for each point of it the primary's own levels.
    type Batch = (String, Px2Qty, Px2Qty, Vec<LevelSnapshot>, Vec<LevelSnapshot>);
    let stream: Arc<Mutex<Vec<Batch>>> = Default::default();
    let done = Arc::new(Mutex::new(false));
    let hs: Vec<_> = (0..followers).map(|h| {
        let (stream, done) = (stream.clone(), done.clone());
        let crashes = [0u64, 0, 2][w(3) as usize];
        spawn(&format!("follower {}", h), move || {
            let mut book = OrderBook::initialize_with_id(id);
            let mut at = 0;
            loop {
                let b = stream.lock().unwrap().get(at).cloned();
                let Some(b) = b else { if *done.lock().unwrap() && stream.lock().unwrap().len() == at { break; } sleep_ns(1000); continue };
                if w(12) < crashes {
                    // It lost its state and starts again from the primary's levels of that moment.
                    fault("follower_restart");
                    book = OrderBook::initialize_with_id(id);
                    let mut q = QuoteSnapshot::with_quote_level(0);
                    q.id = id;
                    q.quote_level_cut = b.3.len().min(b.4.len());
                    let (mut a, mut c) = (b.3.clone(), b.4.clone());
                    let k = a.len().max(c.len());
                    a.resize(k, LevelSnapshot::default()); c.resize(k, LevelSnapshot::default());
                    q.ask_quote_data = a; q.bid_quote_data = c; q.quote_level_cut = k;
                    book.update_from_quote_snapshot(&q).unwrap_or_else(|e| violate("refused", format!("{}", e)));
                } else {
                    let orders: Vec<DecomposedOrder> = serde_json::from_str(&b.0).unwrap_or_else(|e| violate("json", format!("{}: {}", e, b.0)));
                    for o in orders {
                        require!(o.id == id, "instrument", "an order for {:?} came out of the book of {:?}", o.id, id);
                        match o.order {
                            OrderEnum::LimitOrder(l) => book.add_limit_order(l).unwrap_or_else(|e| violate("refused", format!("{}", e))),
                            OrderEnum::RemoveAnyOrder(r) => { let q = r.quantity; let rem = book.remove_order(r); require!(rem == Some(0), "follow", "of {} to be removed, {:?} were not there", q, rem); }
                            x => violate("kind", format!("{:?}", x)),
                        }
                    }
                }
                at += 1;
                msg(&format!("follower {} at {}", h, at));
                if let Some(x) = differs(&book, &b.1, &b.2, false) { violate("follow", format!("after batch {}: {}", at, x)); }
            }
        })
    }).collect();
    let mut primary = OrderBook::initialize_with_id(id);
    let (mut a, mut b) = (Px2Qty::new(), Px2Qty::new());
    let mut ids = BTreeSet::new();
    for m in &snaps {
        if w(3) == 0 { sleep_ns(w(20_000)); }
        let lv = |ask: bool| -> Vec<LevelSnapshot> { m.lv.iter().map(|l| LevelSnapshot { order_count: None, lp_quantity: None, book_price: if ask { l.ap } else { l.bp }, book_quantity: if ask { l.aq } else { l.bq } }).collect() };
        let (wa, wb) = l2(m, m.lv.len());
        let orders = catch(|| primary.decomposed_orders_with_update(&lv(true), &lv(false))).unwrap_or_else(|e| violate("panic", e)).unwrap_or_else(|e| violate("refused", format!("{}", e)));
        if let Some(x) = differs(&primary, &wa, &wb, false) { violate("update", format!("after snapshot {}: {}", m.seq, x)); }
        // One order for every price whose quantity changed, for the difference, and no other.
        let mut net: BTreeMap<(bool, i64), i64> = BTreeMap::new();
        for o in &orders {
            let (ask, p, d) = match &o.order {
                OrderEnum::LimitOrder(l) => { require!(ids.insert(l.order_id), "order-id", "order id {} was used before", l.order_id); (l.order_side, l.price, l.quantity as i64) }
                OrderEnum::RemoveAnyOrder(r) => (r.order_side, r.price, -(r.quantity as i64)),
                x => violate("kind", format!("{:?}", x)),
            };
            require!(net.insert((ask == side(true), p), d).is_none(), "minimal", "two orders for price {}", p);
        }
        let mut want: BTreeMap<(bool, i64), i64> = BTreeMap::new();
        for (ask, old, new) in [(true, &a, &wa), (false, &b, &wb)] {
            for p in old.keys().chain(new.keys()) { let d = new.get(p).map_or(0, |v| v.0 as i64) - old.get(p).map_or(0, |v| v.0 as i64); if d != 0 { want.insert((ask, *p), d); } }
        }
        require!(net == want, "minimal", "snapshot {} was decomposed into {:?}, the changes are {:?}", m.seq, net, want);
        if !want.is_empty() { probe("decomposed"); nontrivial(); }
        let json = serde_json::to_string(&orders).unwrap();
        (a, b) = (wa.clone(), wb.clone());
        msg(&format!("primary applied snapshot {}: {} orders", m.seq, orders.len()));
        stream.lock().unwrap().push((json, wa, wb, primary.ask_level_snapshot(), primary.bid_level_snapshot()));
    }
    *done.lock().unwrap() = true;
    hs.into_iter().for_each(join);
    no_panics();
    note(format!("{} snapshots, {} followers", n, followers));
}

// ---- B03: matching -------------------------------------------------------------------------------
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
enum Req { Add(LimitOrder), Limit(LimitOrder), Market(MarketOrder), Cancel(CancelOrder), Modify(ModifyOrder), Qty(u64, u64), Remove(RemoveAnyOrder), Move(bool, u64, i64), Top, Reset(bool, Option<LimitOrder>) }
fn b03() {
    swarm_sched();
    weather();
    let lossless = w(3) == 0;
    if lossless { sim().net.cfg.loss = 0; }
    let clients = 1 + w(3);
    let mid = [100i64, 0, 1_000_000_000][w(3) as usize];
    let span = 1 + w(8);
    let id = id_of("KR7005930003");
    let applied = Arc::new(Mutex::new((0u64, 0u64, BTreeMap::<&'static str, u64>::new())));
    let listening = Arc::new(Mutex::new(false));
    let gateway = { let (applied, listening) = (applied.clone(), listening.clone()); spawn("matching engine", move || {
        let sock = std::net::UdpSocket::bind("127.0.0.1:7000").unwrap_or_else(|e| violate("bind", format!("{}", e)));
        *listening.lock().unwrap() = true;
        let (mut book, mut r) = (OrderBook::initialize_with_id(id), RefBook::default());
        let mut seen = BTreeSet::new();
        let mut dead: BTreeSet<u64> = BTreeSet::new();
        let mut raw = [0u8; 2048];
        while let Some(b) = receive(&sock, &mut raw) {
            let (c, k, q): (u64, u64, Req) = serde_json::from_slice(b).unwrap_or_else(|e| violate("json", format!("{}: {:?}", e, String::from_utf8_lossy(b))));
            if !seen.insert((c, k)) { probe("duplicate_request"); continue; }
            let before = r.clone();
            msg(&format!("request {}:{} {:?}", c, k, q));
            match request(&mut book, &mut r, &q) {
                Ok(kind) => *applied.lock().unwrap().2.entry(kind).or_default() += 1,
                Err(e) => violate("result", format!("{:?}: {} (book before: {:?})", q, e, before.o)),
            }
            for x in &before.o { if r.get(x.id).is_none() { dead.insert(x.id); } }
            for x in &r.o { dead.remove(&x.id); }
            let (wa, wb) = (r.levels(true), r.levels(false));
            if let Some(x) = differs(&book, &wa, &wb, true) { violate("book", format!("after {:?}: {} (book before: {:?})", q, x, before.o)); }
            for x in &r.o {
                let h = if x.ask { &book.asks } else { &book.bids };
                let want = LimitOrder { price: x.price, quantity: x.qty, order_side: side(x.ask), order_id: x.id };
                require!(h.get_order(x.id).as_ref() == Some(&want) && h.get_price(x.id) == Some(x.price), "order", "after {:?}: order {} is {:?}, should be {:?}", q, x.id, h.get_order(x.id), want);
            }
            for i in &dead { for h in [&book.asks, &book.bids] {
                let g = catch(|| h.get_order(*i)).unwrap_or_else(|e| violate("panic", format!("asking for order {}, which is gone: {}", i, e)));
                require!(g.is_none() && h.get_price(*i).is_none(), "order", "after {:?}: order {} is gone, yet the book knows {:?} at {:?}", q, i, g, h.get_price(*i));
            } }
            if w(4) == 0 { if let Some(x) = views(&book, &wa, &wb, 1 + w(3) as usize) { violate("view", x); } }
            let mut g = applied.lock().unwrap();
            g.0 += 1; g.1 = r.traded;
        }
    }) };
    while !*listening.lock().unwrap() { sleep_ns(1000); }
    let total = 4 + if w(300) == 299 { probe("long_history"); 300 + w(500) } else { w(60) };
    let cs: Vec<_> = (0..clients).map(|c| {
        let plan = total / clients + 1;
        spawn(&format!("client {}", c), move || {
            let u = UdpClient::new(format!("127.0.0.{}:9000", 2 + c).parse().unwrap()).unwrap_or_else(|e| violate("bind", format!("{}", e)));
            let mut next = 0u64;
            let mut last: VecDeque<(u64, bool, i64)> = VecDeque::new();
            for k in 0..plan {
                let ask = w(2) == 0;
                let off = w(span) as i64;
                // mostly around the middle, so that orders meet
                let price = match w(8) { 0 => mid + if ask { -off } else { off }, 1 | 2 => mid, _ => mid + if ask { off } else { -off } };
                let qty = match w(6) { 0 => 1, 1 => 1_000_000, _ => 1 + w(30) };
                let known = if last.is_empty() || w(9) == 0 { (w(3) * 1_000_000 + w(20), ask, mid) } else { last[w(last.len() as u64) as usize] };
                let mut new = || { let i = c * 1_000_000 + next; next += 1; last.push_back((i, ask, price)); if last.len() > 12 { last.pop_front(); } i };
                let q = match w(25) {
                    0..=9 => Req::Limit(LimitOrder::new(price, qty, side(ask), new())),
                    10 | 11 => Req::Add(LimitOrder::new(if ask { mid + off.max(1) } else { mid - off.max(1) }, qty, side(ask), new())),
                    12 | 13 => Req::Market(MarketOrder::new(if w(6) == 0 { 5_000_000 } else { qty }, side(ask), c * 1_000_000 + 900_000 + k)),
                    14 | 15 | 16 => Req::Cancel(CancelOrder::new(known.0)),
                    17 | 18 => Req::Modify(ModifyOrder::new(known.0, if w(2) == 0 { known.2 } else { price }, if w(6) == 0 { 0 } else { qty })),
                    19 | 20 => Req::Qty(known.0, if w(4) == 0 { 0 } else { qty }),
                    21 => Req::Remove(RemoveAnyOrder::new(if w(3) == 0 { price } else { known.2 }, if w(4) == 0 { 10_000_000 } else { qty }, side(known.1))),
                    22 => Req::Move(known.1, known.0, if known.1 { mid + 1 + off } else { mid - 1 - off }),
                    23 => Req::Top,
                    _ => match w(6) { 0 => Req::Reset(ask, None), 1 => Req::Reset(ask, Some(LimitOrder::new(if ask { mid + off.max(1) } else { mid - off.max(1) }, qty, side(ask), new()))), _ => Req::Top },
                };
                u.send_message("127.0.0.1:7000".parse().unwrap(), &serde_json::to_string(&(c, k, q)).unwrap()).unwrap_or_else(|e| violate("send", format!("{}", e)));
                match w(4) { 0 => sleep_ns(w(500_000)), 1 => {} _ => sleep_ns(1 + w(3000)) }
            }
        })
    }).collect();
    cs.into_iter().for_each(join);
    stop(1);
    join(gateway);
    no_panics();
    let g = applied.lock().unwrap();
    if g.1 > 0 { nontrivial(); }
    note(format!("{} requests applied, {} traded, {:?}", g.0, g.1, g.2));
}
/// Applies one request to the book and to the model; the kind of outcome, or how they differ.
fn request(book: &mut OrderBook, r: &mut RefBook, q: &Req) -> Result<&'static str, String> {
    let no = |e: String| -> String { format!("panic: {}", e) };
    let same = |got: Option<(trading_engine::TradeHistory, u64)>, want: Fill| -> Result<&'static str, String> {
        if fill(&got) != want { return Err(format!("it traded {:?}, should have traded {:?}", fill(&got), want)); }
        match got {
            Some((h, _)) if !h.is_empty() => {
                probe("traded");
                let (n, v) = (0..h.len()).map(|i| h[i]).fold((0i128, 0i128), |a, x| (a.0 + x.1 as i128, a.1 + x.0 as i128 * x.1 as i128));
                let avg = v as f64 / n as f64;
                if (h.average_trade_price() - avg).abs() > 1e-9 * avg.abs().max(1.0) { return Err(format!("average price {} of {:?}", h.average_trade_price(), fill(&Some((h.clone(), 0))))); }
                if h.get_last_trade() != Some(h[h.len() - 1]) { return Err("last trade".into()); }
                if h.len() > 1 { probe("traded_through_levels"); }
                Ok("traded")
            }
            _ => Ok("rested"),
        }
    };
    let yes = |got: Option<()>, want: Option<()>| if got == want { Ok(if got.is_some() { "changed" } else { "unknown" }) } else { Err(format!("it said {:?}, should say {:?}", got, want)) };
    match q.clone() {
        Req::Limit(o) => { let x = RO { ask: o.order_side == side(true), price: o.price, id: o.order_id, qty: o.quantity }; same(catch(|| book.process_limit_order(o)).map_err(no)?, r.limit(x)) }
        Req::Add(o) => {
            let x = RO { ask: o.order_side == side(true), price: o.price, id: o.order_id, qty: o.quantity };
            // booked without matching, so only where it does not meet the other side
            if r.best(!x.ask).map_or(false, |p| if x.ask { p >= x.price } else { p <= x.price }) { return same(catch(|| book.process_limit_order(o)).map_err(no)?, r.limit(x)); }
            let wrong = if x.ask { &mut book.bids } else { &mut book.asks };
            if w(4) == 0 && wrong.add_limit_order(o.clone()).is_ok() { return Err("the other side accepted it".into()); }
            catch(|| book.add_limit_order(o)).map_err(no)?.map_err(|e| e.to_string())?;
            r.add(x);
            Ok("added")
        }
        Req::Market(o) => { let (a, n) = (o.order_side == side(true), o.quantity); same(catch(|| book.process_market_order(&o)).map_err(no)?, r.trade(a, None, n)) }
        Req::Cancel(o) => { let i = o.order_id; yes(catch(|| book.cancel_order(o)).map_err(no)?, r.cancel(i).map(|_| ())) }
        Req::Modify(o) => { let (i, p, n) = (o.order_id, o.price, o.quantity); same(catch(|| book.modify_order(o)).map_err(no)?, r.modify(i, p, n)) }
        Req::Qty(i, n) => yes(catch(|| book.change_quantity(i, n)).map_err(no)?, r.set_qty(i, n)),
        Req::Remove(o) => {
            let (a, p, n) = (o.order_side == side(true), o.price, o.quantity);
            let got = catch(|| book.remove_order(o)).map_err(no)?;
            let want = Some(r.remove_any(a, p, n));
            if got == want { Ok("removed") } else { Err(format!("{:?} could not be removed, should be {:?}", got, want)) }
        }
        Req::Move(ask, i, p) => {
            if r.best(!ask).map_or(false, |b| if ask { b >= p } else { b <= p }) { return Ok("skipped"); }
            let h = if ask { &mut book.asks } else { &mut book.bids };
            yes(catch(|| h.change_price(i, p)).map_err(no)?, r.move_to(ask, i, p))
        }
        Req::Top => {
            let o = r.o.first().copied();
            if let Some(x) = o { // same-side orders never trade with their own side
                let h = if x.ask { &mut book.asks } else { &mut book.bids };
                if h.trade_market_order(&MarketOrder::new(1, side(x.ask), 1)).is_some() { return Err("a side traded with itself".into()); }
                if h.trade_limit_order(&LimitOrder::new(x.price, 1, side(x.ask), 1)).is_some() { return Err("a side traded with itself".into()); }
            }
            for ask in [true, false] {
                let h = if ask { &mut book.asks } else { &mut book.bids };
                let best = r.best(ask);
                let Some(l) = h.get_best_level_mut() else { if best.is_some() { return Err("it has no best level".into()); } continue };
                let mut l = l.clone(); // the book itself stays as it is
                let there: Vec<RO> = r.o.iter().copied().filter(|x| x.ask == ask && Some(x.price) == best).collect();
                let total: u64 = there.iter().map(|x| x.qty).sum();
                if l.order_count() != there.len() || l.is_empty() || l.aggregate_quantity() != total { return Err(format!("its best level is {:?}, should hold {:?}", l, there)); }
                for x in &there { if l.get_order(x.id, side(ask)) != Some(LimitOrder::new(x.price, x.qty, side(ask), x.id)) { return Err(format!("at its best level order {} is {:?}", x.id, l.get_order(x.id, side(ask)))); } }
                if l.add_limit_order(LimitOrder::new(there[0].price + 1, 1, side(ask), 1)).is_ok() { return Err("a level accepted an order at another price".into()); }
                l.clear();
                if !l.is_empty() || l.order_count() != 0 || l.aggregate_quantity() != 0 { return Err(format!("a cleared level is {:?}", l)); }
                if l.add_limit_order(LimitOrder::new(there[0].price, 7, side(ask), 1)).is_err() || l.aggregate_quantity() != 7 { return Err(format!("a level of one order for 7 after it was cleared is {:?}", l)); }
            }
            Ok("top")
        }
        Req::Reset(ask, first) => {
            if first.as_ref().map_or(false, |o| r.best(!ask).map_or(false, |b| if ask { b >= o.price } else { b <= o.price })) { return Ok("skipped"); }
            let h = if ask { &mut book.asks } else { &mut book.bids };
            r.o.retain(|x| x.ask != ask);
            match first {
                None => h.clear(),
                Some(o) => { r.add(RO { ask, price: o.price, id: o.order_id, qty: o.quantity }); *h = HalfBook::initialize_with_limit_order(o); }
            }
            Ok("reset")
        }
    }
}

// ---- F04: features of the quotes -----------------------------------------------------------------
fn f04() {
    swarm_sched();
    weather();
    let t = Arc::new(tape(14));
    let seen = Arc::new(Mutex::new(0u64));
    let h = { let (t, seen) = (t.clone(), seen.clone()); let (d, mut buf) = (decoder(w(2) == 0), bufs()); let cut = w(6) as usize; let empty_start = w(2) == 1; spawn("features", move || {
        let s = listen(0, &t);
        let mut g = gen();
        let mut raw = [0u8; 2048];
        let mut view: FxHashMap<InstId, SimpleQuotes> = FxHashMap::default();
        let mut prev: FxHashMap<InstId, (SimpleQuotes, usize)> = FxHashMap::default();
        while let Some(b) = receive(&s, &mut raw) {
            let k = *t.wires.get(b).unwrap_or_else(|| harness_error("a datagram nobody sent"));
            let m = &t.msgs[k];
            let c = d.cut[&m.tr];
            d.parsers[&m.tr].into_buffer(b, &mut buf, &mut g).unwrap_or_else(|e| violate("refused", format!("{}", e)));
            let out = d.parsers[&m.tr].from_buffer(&buf);
            let (id, stamps) = (out.id(), out.stamps());
            let mk = || match &out { Out::Q(q) => SimpleQuotes::new_from_quote_sanpshot(q), Out::Tq(q) => SimpleQuotes::new_from_trade_quote_snapshot(q), _ => harness_error("no quotes") };
            let up = |v: &mut SimpleQuotes| match &out { Out::Q(q) => v.update_quote_snapshot(q), Out::Tq(q) => v.update_trade_quote_snapshot(q), _ => harness_error("no quotes") };
            let conv = match &out { Out::Q(q) => q.order_converter, Out::Tq(q) => q.order_converter, _ => harness_error("no quotes") };
            let dec = match m.px() { Px::Cents => 2, Px::Mills => 3, _ => 0 };
            let pf = 10f64.powi(conv.price.get_config().float_normalizer.unwrap_or(0) + dec);
            let qf = 10f64.powi(conv.quantity.get_config().float_normalizer.unwrap_or(0));
            let ask: Vec<(f64, f64)> = m.lv.iter().take(c).map(|l| (l.ap as f64 / pf, l.aq as f64 / qf)).collect();
            let bid: Vec<(f64, f64)> = m.lv.iter().take(c).map(|l| (l.bp as f64 / pf, l.bq as f64 / qf)).collect();
            let fresh = catch(mk).unwrap_or_else(|e| violate("panic", e));
            quotes(&fresh, &ask, &bid, stamps, &format!("message {} afresh", k));
            // in place
            if !view.contains_key(&id) { view.insert(id, if empty_start { SimpleQuotes::with_capacity(cut) } else { fresh.clone() }); }
            let v = view.get_mut(&id).unwrap();
            let was = serde_json::to_string(v).unwrap();
            let vc = serde_json::to_value(&*v).unwrap()["level_cut"].as_u64().unwrap() as usize;
            let r = catch(|| up(v)).unwrap_or_else(|e| violate("panic", format!("updating a {}-level view with {} levels: {}", vc, c, e)));
            if c < vc {
                probe("too_shallow");
                require!(r.is_err() && serde_json::to_string(v).unwrap() == was, "shallow", "a {}-level view was updated with {} levels", vc, c);
            } else {
                require!(r.is_ok(), "refused", "updating a {}-level view with {} levels: {:?}", vc, c, r.err());
                quotes(v, &ask[..vc], &bid[..vc], stamps, &format!("message {} in place", k));
            }
            // order-flow imbalance since the previous message of the instrument
            if let Some((p, i)) = prev.get(&id) {
                let o = &t.msgs[*i];
                let oc = d.cut[&o.tr];
                let same_scale = o.px() == m.px() && m.code[2..5] == o.code[2..5];
                for level in 0..=c.max(oc) + 1 {
                    let rs = [fresh_call(|| p.get_bid_orderflow_imbalance(level, &fresh)), fresh_call(|| p.get_ask_orderflow_imbalance(level, &fresh)), fresh_call(|| p.get_orederflow_imbalance(level, &fresh)),
                        fresh_call(|| p.get_bid_ln_orderflow_imbalance(level, &fresh)), fresh_call(|| p.get_ask_ln_orderflow_imbalance(level, &fresh)), fresh_call(|| p.get_ln_orderflow_imbalance(level, &fresh))];
                    if level == 0 || level > c.min(oc) { require!(rs.iter().all(|r| r.is_none()), "ofi-level", "an imbalance at level {} of {} and {}", level, oc, c); continue; }
                    if !same_scale { continue; }
                    let (x, y) = (&o.lv[level - 1], &m.lv[level - 1]);
                    let q = |v: u64| v as f64 / qf;
                    let flow = |up: bool, p0: i64, q0: u64, p1: i64, q1: u64, ln: bool| -> Option<f64> {
                        // `up`: the direction of a price move that adds to this side
                        let better = if up { p1 > p0 } else { p1 < p0 };
                        if !ln { return Some(if better { q(q1) } else if p1 == p0 { q(q1) - q(q0) } else { -q(q0) }); }
                        // nothing to take the logarithm of: no flow
                        Some(match (better, p1 == p0) { (true, _) if q1 > 0 => q(q1).ln(), (false, true) if q0 > 0 && q1 > 0 => (q(q1) / q(q0)).ln(), (false, false) if q0 > 0 => -q(q0).ln(), _ => { probe("flow_of_nothing"); 0.0 } })
                    };
                    let wb = flow(true, x.bp, x.bq, y.bp, y.bq, false).unwrap();
                    let wa = flow(false, x.ap, x.aq, y.ap, y.aq, false).unwrap();
                    let (lb, la) = (flow(true, x.bp, x.bq, y.bp, y.bq, true), flow(false, x.ap, x.aq, y.ap, y.aq, true));
                    let want = [Some(wb), Some(wa), Some(wb - wa), lb, la, lb.and_then(|b| la.map(|a| b - a))];
                    for (n, (r, wt)) in rs.iter().zip(&want).enumerate() {
                        let Some(g) = r else { violate("ofi", format!("imbalance {} at level {} was refused", n, level)) };
                        if let Some(wt) = wt { require!((g - wt).abs() <= 1e-9 * wt.abs().max(1.0), "ofi", "imbalance {} at level {} from ({:?}) to ({:?}) is {}, should be {}", n, level, x, y, g, wt); }
                        require!(g.is_finite(), "ofi", "imbalance {} at level {} from ({:?}) to ({:?}) is {}", n, level, x, y, g);
                    }
                    probe("imbalance");
                    nontrivial();
                }
            }
            prev.insert(id, (fresh, k));
            *seen.lock().unwrap() += 1;
            msg(&format!("message {} done", k));
        }
    }) };
    exchange(&t, 1);
    join(h);
    no_panics();
    note(format!("{} messages, {} seen", t.msgs.len(), seen.lock().unwrap()));
}
fn fresh_call(f: impl FnOnce() -> anyhow::Result<f64>) -> Option<f64> { catch(f).unwrap_or_else(|e| violate("panic", e)).ok() }
/// The view `v` says exactly this.
fn quotes(v: &SimpleQuotes, ask: &[(f64, f64)], bid: &[(f64, f64)], stamps: (u64, u64), what: &str) {
    let j = serde_json::to_value(v).unwrap();
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * b.abs().max(1.0);
    for (name, want) in [("asks", ask), ("bids", bid)] {
        let got: Vec<(f64, f64)> = j[name].as_array().unwrap().iter().map(|x| (x["price"].as_f64().unwrap_or(f64::NAN), x["quantity"].as_f64().unwrap_or(f64::NAN))).collect();
        require!(got.len() == want.len() && got.iter().zip(want).all(|(a, b)| near(a.0, b.0) && near(a.1, b.1)), "quotes", "{}: {} are {:?}, should be {:?}", what, name, got, want);
    }
    require!(j["timestamp"]["stamp"].as_u64() == Some(stamps.0) && j["system_time"]["stamp"].as_u64() == Some(stamps.1), "stamp", "{}: stamped {} and {}, should be {:?}", what, j["timestamp"], j["system_time"], stamps);
    let best = |s: &[(f64, f64)]| s.iter().find(|x| x.1 > 0.0).map(|x| x.0);
    let (a, b) = (best(ask), best(bid));
    let eq = |g: Option<f64>, w_: Option<f64>| match (g, w_) { (None, None) => true, (Some(x), Some(y)) => near(x, y), _ => false };
    require!(eq(v.best_ask_price(), a) && eq(v.best_bid_price(), b), "best", "{}: best prices {:?} {:?}, should be {:?} {:?}", what, v.best_ask_price(), v.best_bid_price(), a, b);
    require!(eq(v.mid_price(), a.and_then(|a| b.map(|b| (a + b) / 2.0))), "mid", "{}: mid price {:?} of {:?} and {:?}", what, v.mid_price(), a, b);
    let (q, p) = ask.iter().chain(bid).fold((0.0, 0.0), |s, x| (s.0 + x.1, s.1 + x.0 * x.1));
    if a.is_some() && b.is_some() { require!(eq(v.vwap(), Some(p / q)), "vwap", "{}: volume-weighted price {:?}, should be {}", what, v.vwap(), p / q); }
    else if let Some(g) = v.vwap() { require!(a.or(b).is_some() && near(g, p / q), "vwap", "{}: volume-weighted price {}, should be {}", what, g, p / q); }
}

// ---- X01: the pipeline ---------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct Tick { seq: usize, b: Bufs }
impl Default for Tick { fn default() -> Self { Tick { seq: usize::MAX, b: Bufs { q: QuoteSnapshot::with_quote_level(12), tq: TradeQuoteSnapshot::with_quote_level(12), t: TradeData::with_capacity(1) } } } }
fn x01() {
    swarm_sched();
    weather();
    let t = Arc::new(tape(12));
    let workers = 1 + w(4);
    let ids: Vec<WorkerId> = subset(16, workers).into_iter().map(|i| WorkerId::new(i as u16).unwrap()).collect();
    let q = Arc::new(DataSpinQueue::new(Tick::default(), ids.clone()).unwrap_or_else(|e| violate("queue", format!("{}", e))));
    let d = Arc::new(decoder(false));
    let seen: Arc<Mutex<Vec<Vec<usize>>>> = Arc::new(Mutex::new(vec![vec![]; workers as usize]));
    let end = usize::MAX - 1;
    let ws: Vec<_> = ids.iter().cloned().enumerate().map(|(n, me)| {
        let (t, q, d, seen) = (t.clone(), q.clone(), d.clone(), seen.clone());
        let slow = w(3) == 0;
        spawn(&format!("strategy {}", n), move || {
            let mut books: FxHashMap<InstId, OrderBook> = FxHashMap::default();
            loop {
                let Some(p) = q.get(&me) else { spin_point("idle"); continue };
                let tick = unsafe { &*p };
                if tick.seq == end { q.work_done(&me); break; }
                let m = &t.msgs[tick.seq];
                let out = d.parsers[&m.tr].from_buffer(&tick.b);
                if slow { sleep_ns(w(20_000)); }
                if let Some(x) = out.differs(m, PCfg { cut: d.cut[&m.tr], cum: matches!(&out, Out::Tq(o) if o.cumulative_trade_quantity.is_some()) }) { violate("decode", format!("strategy {} sees message {} as: {}", n, tick.seq, x)); }
                let book = books.entry(out.id()).or_insert_with(|| OrderBook::initialize_with_id(out.id()));
                apply(book, m.tr, &tick.b).unwrap_or_else(|e| violate("refused", format!("{}", e)));
                let (wa, wb) = l2(m, d.cut[&m.tr]);
                if let Some(x) = differs(book, &wa, &wb, false) { violate("book", format!("strategy {} after message {}: {}", n, tick.seq, x)); }
                msg(&format!("strategy {} processed message {}", n, tick.seq));
                seen.lock().unwrap()[n].push(tick.seq);
                q.work_done(&me);
            }
        })
    }).collect();
    let feed = { let (t, q, d) = (t.clone(), q.clone(), d.clone()); spawn("feed handler", move || {
        let s = listen(0, &t);
        let mut g = gen();
        let mut raw = [0u8; 2048];
        let mut got = vec![];
        let publish = |f: &mut dyn FnMut(&mut Tick)| loop {
            if let Some(p) = q.get_mut() { f(unsafe { &mut *p }); q.notify_all_workers(); break; }
            spin_point("busy");
        };
        while let Some(b) = receive(&s, &mut raw) {
            let k = *t.wires.get(b).unwrap_or_else(|| harness_error("a datagram nobody sent"));
            publish(&mut |tick| { tick.seq = k; d.parsers[&t.msgs[k].tr].into_buffer(b, &mut tick.b, &mut g).unwrap_or_else(|e| violate("refused", format!("{}", e))); });
            got.push(k);
        }
        publish(&mut |tick| tick.seq = end);
        got
    }) };
    exchange(&t, 1);
    let got = join(feed);
    ws.into_iter().for_each(join);
    no_panics();
    for (n, s) in seen.lock().unwrap().iter().enumerate() { require!(*s == got, "exactly-once", "strategy {} processed {:?}, the feed handler received {:?}", n, s, got); }
    if sim().net.cut { harness_error("the network is still cut"); }
    if got.len() > 1 && workers > 1 { nontrivial(); }
    note(format!("{} messages sent, {} received, {} strategies", t.msgs.len(), got.len(), workers));
}

const REAL: &str = "trading-engine orderbook, data/krx parsers, data/order.rs, types, utils; std::net";
const STUB: &str = "the exchange and its clients, kernel: sockets, network, scheduler, futexes, clocks";
const NET: &[&str] = &["datagram_loss", "datagram_dup", "datagram_delay"];
pub const B01: Prop = Prop { id: "B01", quick: 40_000, thorough: 2_000_000, scenarios: &[Scenario { name: "snapshots", weight: 1, body: b01, max_steps: 3_000_000, cpu_s: 30 }], real: REAL, stub: STUB,
    rule: "one seed = one run: random ladders of several instruments, network weather, decoder depths, paper trades", assumptions: &["a snapshot names every price at most once per side", "own orders do not rest in a book kept from snapshots"], expect: NET };
pub const B02: Prop = Prop { id: "B02", quick: 40_000, thorough: 2_000_000, scenarios: &[Scenario { name: "decompose", weight: 1, body: b02, max_steps: 3_000_000, cpu_s: 30 }], real: REAL, stub: STUB,
    rule: "one seed = one run: random ladder history, followers that fall behind and restart", assumptions: &["the stream of orders is delivered in order"], expect: &["follower_restart", "decomposed"] };
pub const B03: Prop = Prop { id: "B03", quick: 40_000, thorough: 2_000_000, scenarios: &[Scenario { name: "matching", weight: 1, body: b03, max_steps: 3_000_000, cpu_s: 30 }], real: REAL, stub: STUB,
    rule: "one seed = one run: random requests of several clients over the network", assumptions: &["order ids are unique", "new orders have a positive quantity"], expect: &["datagram_loss", "datagram_dup", "datagram_delay", "traded", "traded_through_levels", "duplicate_request"] };
pub const F04: Prop = Prop { id: "F04", quick: 40_000, thorough: 2_000_000, scenarios: &[Scenario { name: "features", weight: 1, body: f04, max_steps: 3_000_000, cpu_s: 30 }], real: REAL, stub: STUB,
    rule: "one seed = one run: random ladders, network weather, view depths", assumptions: &["both messages of an imbalance are on the same price scale"], expect: &["datagram_loss", "datagram_dup", "datagram_delay", "imbalance", "too_shallow", "flow_of_nothing"] };
pub const X01: Prop = Prop { id: "X01", quick: 40_000, thorough: 2_000_000, scenarios: &[Scenario { name: "pipeline", weight: 1, body: x01, max_steps: 3_000_000, cpu_s: 30 }], real: "trading-engine: UDP receive, parsers, spin queue, order books", stub: STUB,
    rule: "one seed = one run: random feed, network weather, number and speed of strategies", assumptions: &["one feed handler publishes"], expect: NET };
