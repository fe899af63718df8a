//! X02: a restarted trading process picks up from its saved state.
use crate::book::*;
use crate::docs::Disk;
use crate::krx::*;
use crate::require;
use crate::util::*;
use serde::{de::DeserializeOwned, Serialize};
use simos::runner::{Prop, Scenario};
use simos::vfs;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::sync::{Arc, Mutex};
use trading_engine::conductor::oms::account::Balance;
use trading_engine::data::krx::krx_converter::*;
use trading_engine::data::krx::stock_quote::{IFMSRPD0002, IFMSRPD0003};
use trading_engine::data::order::*;
use trading_engine::data::quote::QuoteSnapshot;
use trading_engine::feature::weight::TimeSeriesWeight;
use trading_engine::instruments::instrument::{Instrument, InstrumentTrait};
use trading_engine::instruments::mock_instrument::MockInstrument;
use trading_engine::orderbook::OrderBook;
use trading_engine::types::base::{InstrumentIdentifier, LevelSnapshot, Slice, VirtualOrderId};
use trading_engine::types::enums::{DataType, OrderSide, TradeType};
use trading_engine::types::id::{IdData, Symbol};
use trading_engine::types::inst_info::{BaseInstInfo, BaseInstMap, InstType};
use trading_engine::types::timestamp::{DateUnixNanoGenerator, TimeScale, TimeStampType, DAY_NANOSCALE, HOUR_NANOSCALE};
use trading_engine::utils::numeric_converter::*;
use trading_engine::{Currency, InstId, IsinCode, LazyString, LogTopic, Ticker, TimeStamp, TradeHistory, Venue};

const DAY_US: u64 = 86_400_000_000;
fn id_of(isin: &str) -> InstId { InstId::new(Symbol::Isin(IsinCode::new(isin.as_bytes()).unwrap()), Venue::KRX) }

// ---- a feed handler with checkpoints and a journal ------------------------------------------------
#[derive(Clone, Default)]
struct Stable { epochs: Vec<Arc<Mutex<Disk>>>, valid: Vec<bool> }
struct Tape { msgs: Vec<Msg>, truth: Vec<u64>, bytes: Vec<Vec<u8>>, day0: u64 }
type Books = BTreeMap<String, (OrderBook, Px2Qty, Px2Qty)>;

fn tape() -> Tape {
    let stock = w(2) == 1;
    let mut ms: Vec<Market> = (0..1 + w(3)).map(|_| Market::new(stock)).collect();
    let mut t = [8 * 3600_000_000u64, DAY_US - 1, DAY_US - 1 - w(2_000_000), w(DAY_US), DAY_US - w(7_200_000_000) - 1][w(5) as usize];
    let (mut msgs, mut truth) = (vec![], vec![]);
    for k in 0..1 + history(16) {
        let i = w(ms.len() as u64) as usize;
        for _ in 0..[0u64, 1, 2, 9][w(4) as usize] { ms[i].evolve(); }
        let tr = match (stock, w(2)) { (true, 0) => Tr::S2, (true, _) => Tr::S3, (_, 0) => Tr::Q34, _ => Tr::Q35 };
        if k > 0 { t += match w(6) { 0 => 0, 1 => w(2000), 2 => w(1_000_000), 3 => w(9 * 3_600_000_000), _ => w(60_000_000) }; }
        msgs.push(ms[i].message(tr, k, t % DAY_US, i as u64));
        truth.push(t);
    }
    let bytes = msgs.iter().map(|m| m.encode()).collect();
    Tape { msgs, truth, bytes, day0: [19_000u64, 18_992, 19_781, 19_782, 11_015, 59][w(6) as usize] }
}
fn snapshot_of(id: InstId, asks: &[LevelSnapshot], bids: &[LevelSnapshot]) -> QuoteSnapshot {
    let n = asks.len().max(bids.len());
    let mut q = QuoteSnapshot::with_quote_level(0);
    q.id = id;
    q.ask_quote_data = asks.to_vec(); q.ask_quote_data.resize(n, LevelSnapshot::default());
    q.bid_quote_data = bids.to_vec(); q.bid_quote_data.resize(n, LevelSnapshot::default());
    q.quote_level_cut = n;
    q
}
/// The books a checkpoint holds, checked against what it was taken from.
fn books_of(d: &Disk, truth: &BTreeMap<String, (Px2Qty, Px2Qty)>) -> Books {
    let n: u64 = d.load("books");
    let mut out = Books::new();
    for i in 0..n {
        let id: InstId = d.load(&format!("book {} instrument", i));
        let (a, b): (Vec<LevelSnapshot>, Vec<LevelSnapshot>) = (d.load(&format!("book {} asks", i)), d.load(&format!("book {} bids", i)));
        let isin = id.symbol_str().to_string();
        require!(id == id_of(&isin), "changed", "the saved identifier of {} reads back as another instrument's", isin);
        let mut book = OrderBook::initialize_with_id(id);
        book.update_from_quote_snapshot(&snapshot_of(id, &a, &b)).unwrap_or_else(|e| violate("refused", format!("saved levels: {}", e)));
        let (wa, wb) = truth.get(&isin).cloned().unwrap_or_else(|| violate("changed", format!("a checkpoint has a book for {}, which had none", isin)));
        if let Some(x) = differs(&book, &wa, &wb, false) { violate("checkpoint", format!("the book of {} rebuilt from its saved levels: {}", isin, x)); }
        out.insert(isin, (book, wa, wb));
    }
    require!(out.len() == truth.len(), "changed", "{} books were saved, {} read back", truth.len(), out.len());
    out
}
fn levels_at(t: &Tape, upto: usize) -> BTreeMap<String, (Px2Qty, Px2Qty)> { t.msgs[..upto].iter().map(|m| (m.isin.clone(), l2(m, m.lv.len()))).collect() }

/// One incarnation: from the last whole checkpoint to its crash or the end of the tape.
fn incarnation(t: &Tape, st: &mut Stable, no: usize, crash_at: u64, probes: &mut u64) -> bool {
    let from = (0..st.epochs.len()).rev().find(|e| st.valid[*e]);
    let mut left = crash_at; // crash points still to pass
    let mut dies = |what: &str| { if left == 0 { msg(&format!("incarnation {} dies {}", no, what)); return true; } left -= 1; false };
    let cfg = |tr: Tr| PCfg { cut: tr.levels(), cum: false };
    let mut parsers: BTreeMap<Tr, Parser> = [Tr::Q34, Tr::Q35].into_iter().map(|x| (x, Parser::new(x, cfg(x)))).collect();
    let (mut pos, mut g, mut books);
    match from {
        None => {
            pos = 0usize;
            g = DateUnixNanoGenerator::from(time::Date::from_julian_day((t.day0 + 2_440_588) as i32).unwrap());
            books = Books::new();
            for x in [Tr::S2, Tr::S3] { parsers.insert(x, Parser::new(x, cfg(x))); }
        }
        Some(e) => {
            let d = st.epochs[e].lock().unwrap();
            pos = d.load::<u64>("position") as usize;
            g = d.load("date");
            books = books_of(&d, &levels_at(t, pos));
            parsers.insert(Tr::S2, Parser::S2(d.load::<IFMSRPD0002>("stock quotes")));
            parsers.insert(Tr::S3, Parser::S3(d.load::<IFMSRPD0003>("stock and lp quotes")));
            *probes += 1;
        }
    }
    let mut journal = std::fs::OpenOptions::new().create(true).append(true).open(format!("/simfs/journal-{}", no)).unwrap_or_else(|e| violate("journal", format!("{}", e)));
    while pos < t.msgs.len() {
        if w(3) == 0 { sleep_ns(w(1_000_000)); }
        if dies("between messages") { return false; }
        let m = &t.msgs[pos];
        let out = catch(|| parsers[&m.tr].fresh(&t.bytes[pos], &mut g)).unwrap_or_else(|e| violate("panic", e)).unwrap_or_else(|e| violate("refused", format!("message {}: {}", pos, e)));
        let day = t.truth[pos] / DAY_US;
        let want = (t.day0 + day) * DAY_NANOSCALE + m.us * 1000 + 9 * HOUR_NANOSCALE;
        let got = out.stamps().0;
        require!(got == want, "exchange-time", "message {} of day {}, read by incarnation {} started from {:?}, is stamped {} ns {} the true time", pos, day, no, from.map(|e| format!("checkpoint {}", e)), want.abs_diff(got), if got > want { "after" } else { "before" });
        if let Some(x) = out.differs(m, cfg(m.tr)) { violate("decode", format!("message {} read by incarnation {}: {}", pos, no, x)) }
        let e = books.entry(m.isin.clone()).or_insert_with(|| (OrderBook::initialize_with_id(out.id()), Px2Qty::new(), Px2Qty::new()));
        let lv = |ask: bool| -> Vec<LevelSnapshot> { m.lv.iter().map(|l| LevelSnapshot { order_count: None, lp_quantity: None, book_price: if ask { l.ap } else { l.bp }, book_quantity: if ask { l.aq } else { l.bq } }).collect() };
        let orders = catch(|| e.0.decomposed_orders_with_update(&lv(true), &lv(false))).unwrap_or_else(|x| violate("panic", x)).unwrap_or_else(|x| violate("refused", format!("{}", x)));
        (e.1, e.2) = l2(m, m.lv.len());
        if let Some(x) = differs(&e.0, &e.1, &e.2, false) { violate("update", format!("after message {} in incarnation {}: {}", pos, no, x)); }
        for o in &orders { require!(o.id == id_of(&m.isin), "instrument", "an order for {:?} came out of the book of {}", o.id, m.isin); }
        if dies("before journalling") { return false; }
        let line = serde_json::to_string(&(pos as u64, TimeStamp::new(got), &orders)).unwrap_or_else(|e| violate("unsaved", format!("orders cannot be written: {}", e)));
        journal.write_all(format!("{}\n", line).as_bytes()).unwrap_or_else(|e| violate("journal", format!("{}", e)));
        if w(3) == 0 { journal.sync_data().unwrap(); }
        pos += 1;
        if dies("after journalling") { return false; }
        if w(4) == 0 {
            st.epochs.push(Default::default()); st.valid.push(false);
            let cell = st.epochs.last().unwrap().clone();
            let mut d = cell.lock().unwrap();
            d.save("date", &g);
            d.save("position", &(pos as u64));
            if dies("during a checkpoint") { fault("unfinished_checkpoint"); return false; }
            let mut list: Vec<_> = books.iter().collect();
            if w(2) == 0 { list.reverse(); }
            for (i, (isin, (b, _, _))) in list.iter().enumerate() {
                d.save(&format!("book {} instrument", i), &id_of(isin));
                d.save(&format!("book {} asks", i), &b.ask_level_snapshot());
                d.save(&format!("book {} bids", i), &b.bid_level_snapshot());
            }
            d.save("books", &(list.len() as u64));
            match &parsers[&Tr::S2] { Parser::S2(p) => d.save("stock quotes", p), _ => unreachable!() }
            match &parsers[&Tr::S3] { Parser::S3(p) => d.save("stock and lp quotes", p), _ => unreachable!() }
            // what is saved does not disturb who goes on
            *st.valid.last_mut().unwrap() = true;
            probe("checkpoint");
        }
    }
    true
}
/// The journal of an incarnation, replayed on the checkpoint it started from.
struct Replay { no: usize, start: usize, books: Books, at: usize }
impl Replay {
    fn new(t: &Tape, st: &Stable, epochs_then: usize, no: usize) -> Replay {
        let from = (0..epochs_then).rev().find(|e| st.valid[*e]);
        let (start, books) = match from { None => (0, Books::new()), Some(e) => { let d = st.epochs[e].lock().unwrap(); let p = d.load::<u64>("position") as usize; (p, books_of(&d, &levels_at(t, p))) } };
        Replay { no, start, books, at: 0 }
    }
    fn line(&mut self, t: &Tape, l: &[u8]) {
        let (k, stamp, orders): (u64, TimeStamp, Vec<DecomposedOrder>) = serde_json::from_slice(l).unwrap_or_else(|e| violate("unreadable", format!("journal line {}: {}: {}", self.at, e, String::from_utf8_lossy(l))));
        require!(k as usize == self.start + self.at, "journal", "line {} is about message {}, should be {}", self.at, k, self.start + self.at);
        self.at += 1;
        let m = &t.msgs[k as usize];
        let want = (t.day0 + t.truth[k as usize] / DAY_US) * DAY_NANOSCALE + m.us * 1000 + 9 * HOUR_NANOSCALE;
        require!(stamp.stamp == want, "changed", "the journal says message {} was sent at {}, not {}", k, stamp.stamp, want);
        let id = id_of(&m.isin);
        let e = self.books.entry(m.isin.clone()).or_insert_with(|| (OrderBook::initialize_with_id(id), Px2Qty::new(), Px2Qty::new()));
        for o in orders {
            require!(o.id == id, "changed", "a journalled order for {} reads back as one for {:?}", m.isin, o.id);
            match o.order {
                OrderEnum::LimitOrder(l) => catch(|| e.0.add_limit_order(l)).unwrap_or_else(|x| violate("panic", x)).unwrap_or_else(|x| violate("refused", format!("{}", x))),
                OrderEnum::RemoveAnyOrder(r) => { let q = r.quantity; let rem = catch(|| e.0.remove_order(r)).unwrap_or_else(|x| violate("panic", x)); require!(rem == Some(0), "replay", "of {} to be removed, {:?} were not there", q, rem); }
                x => violate("kind", format!("{:?}", x)),
            }
        }
        (e.1, e.2) = l2(m, m.lv.len());
        if let Some(x) = differs(&e.0, &e.1, &e.2, false) { violate("replay", format!("the journal of incarnation {} replayed to message {}: {}", self.no, k, x)); }
    }
}
fn recover(t: &Tape, st: &Stable, epochs_then: usize, no: usize, power: bool) {
    let name = format!("/simfs/journal-{}", no);
    let raw = match if power { vfs::crash(&name) } else { vfs::contents(&name) } { Some(r) => r, None => return };
    let mut lines: Vec<&[u8]> = raw.split(|c| *c == b'\n').collect();
    let torn = lines.pop().unwrap_or(&[]);
    if !torn.is_empty() {
        let r = catch(|| serde_json::from_slice::<(u64, TimeStamp, Vec<DecomposedOrder>)>(torn)).unwrap_or_else(|e| violate("panic", format!("reading an unfinished journal line: {}", e)));
        // the line may be whole but for its end mark
        if let Ok((k, _, _)) = r { require!(serde_json::from_slice::<serde_json::Value>(torn).is_ok(), "torn", "an unfinished journal line of {} bytes is taken for message {}", torn.len(), k); }
        probe("unfinished_journal_line");
    }
    let mut r = Replay::new(t, st, epochs_then, no);
    for l in &lines { r.line(t, l); }
    if !lines.is_empty() { probe("journal_replayed"); nontrivial(); }
}
/// Another process reads the journal while it is being written.
fn watch(t: &Tape, mut r: Replay, over: &Mutex<bool>) {
    let mut seen = 0;
    loop {
        let last = *over.lock().unwrap();
        let raw = vfs::contents(&format!("/simfs/journal-{}", r.no)).unwrap_or_default();
        let whole = raw.iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1);
        if whole > seen { for l in raw[seen..whole - 1].split(|c| *c == b'\n') { r.line(t, l); } seen = whole; probe("journal_watched"); }
        if last { break; }
        sleep_ns(1000 + w(500_000));
    }
}
fn handler() {
    swarm_sched();
    let r = [0u64, 0, 40, 250];
    sim().vfs.cfg = vfs::Cfg { eintr: r[w(4) as usize], short: r[w(4) as usize], slow: r[w(4) as usize] / 2, ..Default::default() };
    let t = Arc::new(tape());
    let mut st = Stable::default();
    let (mut no, mut reloaded) = (0, 0);
    loop {
        let epochs_then = st.epochs.len();
        let crash_at = if no >= 4 { u64::MAX } else { w(5 * t.msgs.len() as u64 + 5) };
        let over = Arc::new(Mutex::new(false));
        let watcher = if w(2) == 0 { let (t, r, over) = (t.clone(), Replay::new(&t, &st, epochs_then, no), over.clone()); Some(spawn("watcher", move || watch(&t, r, &over))) } else { None };
        let done = incarnation(&t, &mut st, no, crash_at, &mut reloaded);
        *over.lock().unwrap() = true;
        watcher.into_iter().for_each(join);
        if !done { fault("crash"); }
        recover(&t, &st, epochs_then, no, !done && w(2) == 0);
        no += 1;
        if done { break; }
        sleep_ns(w(10_000_000_000));
    }
    let pan = panics();
    require!(pan.is_empty(), "panic", "{:?}", pan);
    if reloaded > 0 { nontrivial(); probe("restarted_from_checkpoint"); }
    note(format!("{} messages over {} us, {} incarnations, {} checkpoints, {} started from one", t.msgs.len(), t.truth.last().unwrap() - t.truth[0], no, st.epochs.len(), reloaded));
}

// ---- every kind of document -----------------------------------------------------------------------
type Check = Box<dyn FnOnce(&Disk) + Send>;
struct Shelf { d: Disk, checks: Vec<Check> }
impl Shelf {
    /// Saves `x`; after the restart `f` is given what it reads back as, and `x`.
    fn keep<T: Serialize + DeserializeOwned + Send + 'static>(&mut self, what: &str, x: T, f: impl FnOnce(T, T) + Send + 'static) {
        let name = format!("{} {}", what, self.checks.len());
        self.d.save(&name, &x);
        self.checks.push(Box::new(move |d| f(d.load::<T>(&name), x)));
    }
    fn same<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug + Send + 'static>(&mut self, what: &'static str, x: T) {
        self.keep(what, x, move |back, x| require!(back == x, "changed", "{} {:?} reads back as {:?}", what, x, back));
    }
}
fn hash<T: Hash>(x: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }
fn big() -> u64 { match w(5) { 0 => 0, 1 => u64::MAX - w(3), 2 => (1 << 53) + w(5), 3 => w(1000), _ => w(1 << 40) } }
fn signed() -> i64 { match w(5) { 0 => i64::MIN + w(3) as i64, 1 => i64::MAX - w(3) as i64, 2 => -(w(100_000) as i64), _ => w(1 << 40) as i64 } }
fn a_side() -> OrderSide { side(w(2) == 0) }
fn a_symbol() -> Symbol { let i = w(60); if w(2) == 0 { Symbol::Isin(IsinCode::new(isin(i, w(2) == 0).as_bytes()).unwrap()) } else { let n = 1 + w(32) as usize; Symbol::Ticker(Ticker::new(&b"ABCDEFGHIJKLMNOPQRSTUVWXYZ012345"[..n]).unwrap()) } }
const VENUES: [Venue; 5] = [Venue::Undefined, Venue::CCP, Venue::KRX, Venue::KIS, Venue::SI];
const MONEY: [Currency; 7] = [Currency::KRW, Currency::USD, Currency::EUR, Currency::GBP, Currency::JPY, Currency::CNY, Currency::HKD];
const KINDS: [InstType; 9] = [InstType::Cash, InstType::Stock, InstType::Bond, InstType::EquityFutures, InstType::FxFutures, InstType::CommodityFutures, InstType::EquityOption, InstType::Swap, InstType::Crypto];
const SCALES: [TimeScale; 6] = [TimeScale::Micro, TimeScale::Milli, TimeScale::Second, TimeScale::Minute, TimeScale::Hour, TimeScale::Day];
const TOPICS: [LogTopic; 8] = [LogTopic::OfiLevelMismatch, LogTopic::ZeroQuantity, LogTopic::OrderNotFound, LogTopic::UnsupportedDigitSize, LogTopic::TooLongDigit, LogTopic::UnorderedTimeStamp, LogTopic::DateInUtcShift, LogTopic::TimeOut];
fn pick<T: Copy>(x: &[T]) -> T { x[w(x.len() as u64) as usize] }
fn a_number(c: &NumReprCfg) -> Vec<u8> {
    let mut v: Vec<u8> = vec![b'0'; c.unused_length];
    if c.is_signed { v.push([b'0', b'-'][w(2) as usize]) }
    for _ in 0..c.digit_length { v.push(b'0' + w(10) as u8) }
    for i in 0..c.decimal_point_length { v.push(if i == 0 { b'.' } else { b'0' + w(10) as u8 }) }
    v
}
/// Two converters read the same number alike, every way there is.
fn alike(what: &str, a: &IntegerConverter, b: &IntegerConverter) {
    require!(a.get_config() == b.get_config(), "changed", "{}: the configuration {:?} reads back as {:?}", what, a.get_config(), b.get_config());
    for _ in 0..3 {
        let v = a_number(a.get_config());
        let read = |c: &IntegerConverter| {
            let f = |x: f64| x.to_bits();
            let i = catch(|| c.to_i64(&v)).ok();
            let u = if c.get_config().is_signed { None } else { catch(|| c.to_u64(&v)).ok() };
            (i, u, i.map(|i| (f(c.to_f64_from_i64(i)), catch(|| f(c.normalized_real_from_i64(i))).ok())), u.map(|u| (f(c.to_f64_from_u64(u)), catch(|| f(c.normalized_real_from_u64(u))).ok())))
        };
        let (x, y) = (read(a), read(b));
        require!(x == y, "differs", "{} ({:?}) read {:?} as {:?}, after the restart as {:?}", what, a.get_config(), String::from_utf8_lossy(&v), x, y);
    }
}
fn a_converter() -> Option<IntegerConverter> {
    let mut c = NumReprCfg { digit_length: 1 + w(12) as usize, decimal_point_length: [0usize, 0, 3, 4][w(4) as usize], is_signed: w(2) == 0, unused_length: w(4) as usize, total_length: 0, float_normalizer: [None, Some(0), Some(-1), Some(2)][w(4) as usize], drop_decimal_point: w(4) == 0 };
    c.total_length = c.digit_length + c.decimal_point_length + c.unused_length + c.is_signed as usize;
    catch(|| IntegerConverter::new(c)).ok()?.ok()
}
fn an_order() -> OrderEnum {
    match w(5) {
        0 => OrderEnum::NullOrder(NullOrder {}), 1 => OrderEnum::LimitOrder(LimitOrder::new(signed(), big(), a_side(), big())), 2 => OrderEnum::RemoveAnyOrder(RemoveAnyOrder::new(signed(), big(), a_side())),
        3 => OrderEnum::CancelOrder(CancelOrder::new(big())), _ => OrderEnum::ModifyOrder(ModifyOrder::new(big(), signed(), big())),
    }
}
fn level() -> LevelSnapshot { LevelSnapshot { order_count: [None, Some(0), Some(7), Some(u32::MAX)][w(4) as usize], book_price: signed(), book_quantity: big(), lp_quantity: [None, Some(0), Some(big())][w(3) as usize] } }
fn one(s: &mut Shelf) {
    match w(22) {
        0 => s.same("decomposed order", DecomposedOrder { order: an_order(), timestamp: TimeStamp::new(big() >> 1), id: InstId::new(a_symbol(), pick(&VENUES)) }),
        1 => { s.same("limit order", LimitOrder::new(signed(), big(), a_side(), big())); s.same("market order", MarketOrder::new(big(), a_side(), big())); s.same("cancel order", CancelOrder::new(big())) }
        2 => { s.same("modify order", ModifyOrder::new(big(), signed(), big())); s.same("remove order", RemoveAnyOrder::new(signed(), big(), a_side())); s.same("null order", NullOrder {}) }
        3 => { let v: Vec<LevelSnapshot> = (0..w(12)).map(|_| level()).collect(); s.same("levels", v) }
        4 => {
            let (mut h, n) = (TradeHistory::new(), w(6));
            for _ in 0..n { h.push(w(100_000) as i64, 1 + w(1000)); }
            s.keep("trade history", h, move |b, h| {
                require!(b == h && b.len() == n as usize && b.is_empty() == (n == 0) && b.get_last_trade() == h.get_last_trade(), "changed", "trades {:?} read back as {:?}", h, b);
                if n > 0 { require!(b.average_trade_price() == h.average_trade_price(), "differs", "the average price of {:?} is {} after the restart", h, b.average_trade_price()); }
            });
        }
        5 => {
            let mut v = VirtualOrderId::new(if w(2) == 0 { 0 } else { w(1 << 50) });
            let mut drawn: BTreeSet<u64> = (0..w(6)).map(|_| v.next_id()).collect();
            let mut on = v.clone();
            s.keep("order id counter", v, move |mut b, _| for _ in 0..4 { let (i, j) = (b.next_id(), on.next_id()); require!(drawn.insert(i), "duplicate", "order id {} is given out again after the restart", i); require!(i == j, "differs", "the next order id is {} after the restart, {} without it", i, j); });
        }
        6 => {
            let mut g = match w(3) { 0 => DateUnixNanoGenerator::from(time::Date::from_julian_day(2_459_580 + w(1000) as i32).unwrap()), 1 => DateUnixNanoGenerator::from_unixnano(w(1 << 60)), _ => DateUnixNanoGenerator::from_today().unwrap() };
            if w(2) == 0 { g.cache_timestamp(g.get_utcdate_unix_nano() + w(DAY_NANOSCALE)); }
            if w(3) == 0 { g.increment(w(1 << 60)); }
            s.keep("date", g, |b, g| require!((b.get_utcdate_unix_nano(), b.get_prev_timestamp(), b.get_update_stamp()) == (g.get_utcdate_unix_nano(), g.get_prev_timestamp(), g.get_update_stamp()), "changed", "the date {:?} reads back as {:?}", g, b));
            s.same("time stamp", TimeStamp::new(w(1 << 62)));
        }
        7 => {
            let mut m = BaseInstMap::new();
            let mut all = vec![];
            for _ in 0..w(6) { let (i, x) = (InstId::new(a_symbol(), pick(&VENUES)), BaseInstInfo::new(pick(&KINDS), pick(&MONEY))); m.insert(i, x); all.push(i); }
            s.keep("instrument list", m, move |b, m| { for i in all { require!(b.get(i) == m.get(i), "changed", "{:?} was {:?}, is {:?} after the restart", i, m.get(i), b.get(i)); } require!(b == m, "changed", "{:?} reads back as {:?}", m, b) });
        }
        8 => {
            let mut b = Balance::initialize(a_side(), big());
            if w(2) == 0 { b.without_short_sell(); }
            if w(2) == 0 { b.with_upper_bound(big()); }
            if w(3) == 0 { b.with_lower_bound(big()); }
            b.pending_order = big(); b.liquidatable = big();
            s.same("balance", b);
        }
        9 => {
            let x = TimeSeriesWeight { weight: [0.5, 0.999, 1.0, 0.0, 0.1][w(5) as usize] * if w(2) == 0 { 1.0 } else { w(1000) as f64 / 1000.0 }, scale: pick(&SCALES) };
            s.keep("weight", x, |b, x| {
                require!(b.scale == x.scale && (b.weight - x.weight).abs() <= 4.0 * f64::EPSILON * x.weight, "changed", "{:?} reads back as {:?}", x, b);
                let (p, n) = (TimeStamp::new(1 << 60), TimeStamp::new((1 << 60) + w(1 << 34)));
                let (i, j) = (x.apply(p, n), b.apply(p, n));
                require!((i - j).abs() <= 1e-9, "differs", "{:?} over {} ns is {}, after the restart {}", x, n.stamp - p.stamp, i, j);
            });
        }
        10 => {
            let c = |c: Option<IntegerConverter>| c.map(|c| *c.get_config()).unwrap_or_default();
            let when = time::OffsetDateTime::from_unix_timestamp_nanos(w(1 << 61) as i128).unwrap().to_offset(time::UtcOffset::from_hms([0, 9, -5][w(3) as usize], 0, 0).unwrap());
            let m = MockInstrument::new(IsinCode::new(isin(w(9), true).as_bytes()).unwrap(), pick(&VENUES), w(1 << 32) as u32, when, big(), c(a_converter()), c(a_converter()));
            let f = |what: &'static str, b: u64, m: u64| require!(b == m, "changed", "{} reads back as another", what);
            s.keep("mock instrument", m.clone(), move |b, m| { f("an instrument", hash(&b), hash(&m)); require!(b.get_venue() == m.get_venue() && format!("{:?}", b) == format!("{:?}", m), "changed", "{:?} reads back as {:?}", m, b) });
            s.keep("instrument", Instrument::Mock(m), move |b, m| { f("an instrument", hash(&b), hash(&m)); require!(b.get_venue() == m.get_venue(), "changed", "{:?} reads back as {:?}", m, b) });
        }
        11 => { let (i, v) = (IsinCode::new(isin(w(9), w(2) == 0).as_bytes()).unwrap(), pick(&VENUES)); s.keep("identifier", InstrumentIdentifier::new(i, v), |b, x| require!(b.get_isin_code() == x.get_isin_code() && b.get_venue() == x.get_venue(), "changed", "{:?} reads back as {:?}", x, b)) }
        12 => { let d = IdData { symbol: a_symbol(), venue: pick(&VENUES) }; s.same("identifier data", d.clone()); s.same("symbol", d.symbol.clone()); s.same("instrument id", InstId::new(d.symbol, d.venue)) }
        13 => {
            let n = Arc::new(Mutex::new(0));
            let k = n.clone();
            let text = format!("lazy {} \"quoted\" 한글\n", w(1000));
            let tx = text.clone();
            let l = LazyString::new(move || { *k.lock().unwrap() += 1; tx.clone() });
            if w(2) == 0 { require!(*l == text, "lazy", "reads {:?}", *l); }
            s.keep("text", l, move |b, l| { require!(*b == text && *l == text, "changed", "{:?} reads back as {:?}", text, *b); require!(*n.lock().unwrap() == 1, "lazy", "a text was worked out {} times", n.lock().unwrap()) });
        }
        14 => { s.same("topic", pick(&TOPICS)); s.same("venue", pick(&VENUES)); s.same("side", a_side()); s.same("currency", pick(&MONEY)); s.same("kind", pick(&KINDS)); }
        15 => { s.same("data type", pick(&[DataType::L1, DataType::L2, DataType::L3])); s.same("trade type", pick(&[TradeType::Undefined, TradeType::Sell, TradeType::Buy])); s.same("scale", pick(&SCALES)); s.same("stamp type", pick(&[TimeStampType::HHMMSSuuuuuu, TimeStampType::UnixNanoStamp])); let x = Slice { start: w(1000) as usize, end: w(1000) as usize }; s.keep("slice", x, |b, x| require!((b.start, b.end) == (x.start, x.end), "changed", "{:?} reads back as {:?}", x, b)) }
        16 => if let Some(c) = a_converter() { s.same("number format", *c.get_config()); s.keep("converter", c, |b, c| alike("a converter", &c, &b)) },
        17 => {
            let c = match w(8) {
                0 => get_krx_stock_order_converter().clone(), 1 => get_krx_base_bond_order_converter().clone(), 2 => get_krx_repo_order_converter().clone(), 3 => OrderConverter::krx_base_derivative_converter(),
                4 => OrderConverter::krx_stock_derivative_converter(), 5 => OrderConverter::krx_general_commodity_derivative_converter(), 6 => OrderConverter::krx_risk_free_derivative_converter(), _ => OrderConverter::krx_base_bond_converter(),
            };
            s.keep("order converter", c, |b, c| { alike("an order converter's price", &c.price, &b.price); alike("an order converter's quantity", &c.quantity, &b.quantity) });
        }
        18 => {
            s.keep("order counter", get_krx_base_order_counter().clone(), |b, c| alike("an order counter", &c.order_count, &b.order_count));
            s.keep("yield converter", get_krx_yield_converter().clone(), |b, c| alike("a yield converter", &c.converter, &b.converter));
            s.keep("quantity converter", if w(2) == 0 { get_krx_base_cum_qnt_converter().clone() } else { get_krx_bond_cum_qnt_converter().clone() }, |b, c| alike("a quantity converter", &c.converter, &b.converter));
        }
        19 => {
            let x = get_krx_timestamp_converter();
            let c = TimeStampConverter::new(x.converter.clone(), w(14) * HOUR_NANOSCALE);
            s.keep("time converter", c, |b, c| {
                alike("a time converter", &c.converter, &b.converter);
                let mut g = [DateUnixNanoGenerator::from_unixnano(1 << 60); 2];
                let mut us = w(DAY_US);
                for _ in 0..3 {
                    let (x, y) = (c.parse_hhmmssuuuuuu(hms(us % DAY_US).as_bytes(), None, &mut g[0]).unwrap(), b.parse_hhmmssuuuuuu(hms(us % DAY_US).as_bytes(), None, &mut g[1]).unwrap());
                    require!(x == y, "differs", "{} is {:?}, after the restart {:?}", hms(us % DAY_US), x, y);
                    us += w(9 * 3_600_000_000);
                }
            });
        }
        20 => {
            let m = Msg::random(Tr::S2, w(4), 1, w(DAY_US));
            let c = PCfg { cut: w(11) as usize, cum: false };
            let Parser::S2(p) = Parser::new(Tr::S2, c) else { unreachable!() };
            s.keep("stock quote parser", p, move |b, p| decode_alike(Parser::S2(p), Parser::S2(b), &m, c));
        }
        _ => {
            let m = Msg::random(Tr::S3, w(4), 1, w(DAY_US));
            let c = PCfg { cut: w(11) as usize, cum: false };
            let Parser::S3(p) = Parser::new(Tr::S3, c) else { unreachable!() };
            s.keep("stock quote parser", p, move |b, p| decode_alike(Parser::S3(p), Parser::S3(b), &m, c));
        }
    }
}
fn decode_alike(a: Parser, b: Parser, m: &Msg, c: PCfg) {
    let raw = m.encode();
    for p in [a, b] {
        let mut g = DateUnixNanoGenerator::from_unixnano(1 << 60);
        let o = catch(|| p.fresh(&raw, &mut g)).unwrap_or_else(|e| violate("panic", e)).unwrap_or_else(|e| violate("refused", format!("{}", e)));
        if let Some(x) = o.differs(m, c) { violate("decode", format!("by a parser that was saved: {}", x)) }
    }
}
fn documents() {
    swarm_sched();
    let mut s = Shelf { d: Disk::default(), checks: vec![] };
    for _ in 0..1 + w(12) { one(&mut s); }
    point("restart", 1);
    fault("restart");
    let n = s.checks.len();
    let Shelf { d, mut checks } = s;
    // in any order, by several threads
    let d = Arc::new(d);
    let threads = 1 + w(3);
    let mut share: Vec<Vec<Check>> = (0..threads).map(|_| vec![]).collect();
    while !checks.is_empty() { let k = w(checks.len() as u64) as usize; share[w(threads) as usize].push(checks.swap_remove(k)); }
    let hs: Vec<_> = share.into_iter().enumerate().map(|(i, cs)| { let d = d.clone(); spawn(&format!("reader {}", i), move || for c in cs { c(&d); point("read", i as u64); }) }).collect();
    hs.into_iter().for_each(join);
    nontrivial();
    note(format!("{} documents, {} bytes", n, d.0.values().map(|s| s.len()).sum::<usize>()));
}
pub const X02: Prop = Prop {
    id: "X02", quick: 40_000, thorough: 2_000_000,
    scenarios: &[Scenario { name: "handler", weight: 1, body: handler, max_steps: 3_000_000, cpu_s: 30 }, Scenario { name: "documents", weight: 1, body: documents, max_steps: 100_000, cpu_s: 20 }],
    real: "every type of trading-engine that can be written and read back; the stock and derivative quote parsers, utils/numeric_converter.rs, types/timestamp.rs, orderbook with decomposition; std::fs for the journal", stub: "the exchange (a message encoder), kernel: file system (/simfs), scheduler, clocks; checkpoints are named documents held by the harness",
    rule: "one seed = one run: random tape across midnight, crash points, checkpoints and journal syncs; or random values of every kind of document",
    assumptions: &["state is saved as JSON; a checkpoint counts once all its documents are written; a document is whole or cut"],
    expect: &["crash", "power_failure", "torn_write", "short_write", "eintr_write", "unfinished_journal_line", "unfinished_checkpoint", "restarted_from_checkpoint", "journal_replayed", "journal_watched", "restart", "torn_save", "short_read"],
};
