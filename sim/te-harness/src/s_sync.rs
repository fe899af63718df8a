//! S01 broadcast hand-off, S02 counters, S03 identifier interning, S04 lazily computed strings.
use crate::require;
use crate::util::*;
use simos::mem::Race;
use simos::runner::{Prop, Scenario};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex, atomic::{AtomicI64, AtomicU64, Ordering::Relaxed}};
use trading_engine::spinqueue::{DataSpinQueue, WorkerId};
use trading_engine::utils::counter::*;

// ---- S01 ---------------------------------------------------------------------------------------
static LIVE: AtomicI64 = AtomicI64::new(0);
#[derive(Debug)]
pub struct Payload { seq: u64, body: Vec<u64> }
impl Default for Payload { fn default() -> Self { LIVE.fetch_add(1, Relaxed); Payload { seq: 0, body: vec![0; 6] } } }
impl Clone for Payload { fn clone(&self) -> Self { LIVE.fetch_add(1, Relaxed); Payload { seq: self.seq, body: self.body.clone() } } }
impl Drop for Payload { fn drop(&mut self) { LIVE.fetch_sub(1, Relaxed); } }

fn spin_queue() {
    swarm_sched();
    swarm_memory();
    let n = if w(6) == 5 { 1 + w(16) } else { 1 + w(4) };
    let pubs = if n <= 3 { history(7) } else { 1 + w(7) };
    let slow_worker = w(3) == 2 && pubs < 20;
    let ids: Vec<WorkerId> = subset(16, n).into_iter().map(|i| WorkerId::new(i as u16).unwrap_or_else(|e| violate("worker-id", format!("{}", e)))).collect();
    if w(4) == 3 {
        require!(WorkerId::new(16 + w(1000) as u16).is_err(), "worker-id", "a worker id outside the supported range was accepted");
        let mut d = ids.clone();
        d.push(ids[0].clone());
        require!(DataSpinQueue::new(Payload::default(), d).is_err(), "worker-id", "a duplicate worker was accepted");
        require!(LIVE.load(Relaxed) == 0, "leak", "a rejected queue leaked its data");
    }
    let q = Arc::new(DataSpinQueue::new(Payload::default(), ids.clone()).unwrap_or_else(|e| violate("worker-id", format!("distinct workers rejected: {}", e))));
    let race = Arc::new(Mutex::new(Race::new()));
    // who is inside the data right now: (writer, readers), for the plain overlap check
    let inside = Arc::new(Mutex::new((false, BTreeSet::<u16>::new())));
    let seen: Arc<Mutex<BTreeMap<u16, Vec<u64>>>> = Default::default();
    msg(&format!("workers {:?} publications {}", ids.iter().map(|i| i.id).collect::<Vec<_>>(), pubs));
    let mut hs = vec![];
    for id in ids.iter().cloned() {
        let (q, race, seen, inside) = (q.clone(), race.clone(), seen.clone(), inside.clone());
        hs.push(spawn(&format!("worker{}", id.id), move || loop {
            match q.get(&id) {
                Some(p) => {
                    { let mut g = inside.lock().unwrap(); if g.0 { violate("overlap", "a worker was handed the data while the producer was changing it"); } g.1.insert(id.id); }
                    if let Err(e) = race.lock().unwrap().read() { violate("data-race", e); }
                    let s1 = unsafe { (*p).seq };
                    point("work", id.id as u64);
                    if slow_worker { let until = now() + 3000; while now() < until { point("work", 0); } }
                    let d = unsafe { &*p };
                    if d.seq != s1 || d.body.iter().enumerate().any(|(i, v)| *v != s1 * 10 + i as u64) { violate("torn", format!("worker {} saw publication {} change under it: {:?}", id.id, s1, d)); }
                    seen.lock().unwrap().entry(id.id).or_default().push(s1);
                    msg(&format!("worker {} saw {}", id.id, s1));
                    inside.lock().unwrap().1.remove(&id.id);
                    q.work_done(&id);
                    if s1 == pubs { break; }
                }
                None => spin_point("idle"),
            }
        }));
    }
    // Someone the queue was not built for is never handed anything, and may say it is done as often as it likes.
    if w(3) == 0 {
        if let Some(other) = (0..16u16).find(|i| ids.iter().all(|x| x.id != *i)) {
            let (q, other, times) = (q.clone(), WorkerId::new(other).unwrap(), 1 + w(8));
            probe("outsider");
            hs.push(spawn("outsider", move || for _ in 0..times {
                require!(q.get(&other).is_none() && !q.ready_to_work(&other), "outsider", "the queue has work for worker {}, which it was not built for", other.id);
                q.work_done(&other);
                point("outsider", 0);
            }));
        }
    }
    let mut waits = 0u64;
    for k in 1..=pubs {
        loop {
            if let Some(p) = q.get_mut() {
                { let mut g = inside.lock().unwrap(); if !g.1.is_empty() { violate("overlap", format!("the producer was handed the data while workers {:?} were using it", g.1)); } g.0 = true; }
                if let Err(e) = race.lock().unwrap().write() { violate("data-race", e); }
                for (w, v) in seen.lock().unwrap().iter() { if v.len() as u64 != k - 1 { violate("skipped", format!("publication {} overwrote one that worker {} had not processed: {:?}", k, w, v)); } }
                if k > 1 && seen.lock().unwrap().len() != ids.len() { violate("skipped", format!("publication {} overwrote one that some worker never saw", k)); }
                let d = unsafe { &mut *p };
                d.seq = k;
                for i in 0..d.body.len() { d.body[i] = k * 10 + i as u64; if i == 2 { point("produce", k); } }
                msg(&format!("published {}", k));
                inside.lock().unwrap().0 = false;
                q.notify_all_workers();
                break;
            }
            waits += 1;
            spin_point("full");
        }
    }
    for h in hs { join(h); }
    let seen = seen.lock().unwrap().clone();
    for id in &ids {
        let want: Vec<u64> = (1..=pubs).collect();
        let got = seen.get(&id.id).cloned().unwrap_or_default();
        require!(got == want, "exactly-once", "worker {} saw {:?}, not every publication once in order", id.id, got);
    }
    require!(q.ready_to_update(), "not-released", "all workers are done but the producer may not publish");
    for id in &ids { require!(!q.ready_to_work(id), "not-released", "worker {} still has work after finishing", id.id); }
    if waits > 0 { probe("producer_had_to_wait"); }
    drop(q);
    let l = LIVE.load(Relaxed);
    require!(l == 0, "leak", "{} payloads alive after the queue was dropped", l);
    if sim().switches > 4 { nontrivial(); }
    note(format!("{} workers {:?}, {} publications, producer waited {} times", n, ids.iter().map(|i| i.id).collect::<Vec<_>>(), pubs, waits));
}
fn spin_queue_default() {
    swarm_sched();
    let k = w(3);
    msg(&format!("default queue, use {}", k));
    {
        let q: DataSpinQueue<Payload> = DataSpinQueue::default();
        if k > 0 { require!(q.ready_to_update(), "default-queue", "an idle queue is not ready"); }
        if k > 1 {
            if let Some(p) = q.get_mut() {
                require!(!p.is_null(), "default-queue", "the producer was handed no data to write to");
                unsafe { (*p).seq = 5; }
                q.notify_all_workers();
                require!(q.ready_to_update(), "default-queue", "a queue without workers never became ready again");
            }
        }
        nontrivial();
    }
    require!(LIVE.load(Relaxed) == 0, "leak", "payload leaked or dropped twice");
    note(format!("default queue created, used ({}) and dropped", k));
}
pub const S01: Prop = Prop {
    id: "S01", quick: 40_000, thorough: 2_000_000,
    scenarios: &[Scenario { name: "handoff", weight: 29, body: spin_queue, max_steps: 3_000_000, cpu_s: 30 }, Scenario { name: "default", weight: 1, body: spin_queue_default, max_steps: 10_000, cpu_s: 5 }],
    real: "trading-engine spinqueue.rs, compiled unmodified; real OS threads and heap", stub: "thread scheduler and memory model (simulated atomics with stale reads)",
    rule: "one seed = one run: random worker set, publication count, scheduling policy, stalls and stale-read rate; non-trivial = more than four context switches between producer and workers",
    assumptions: &["one producer; each worker id is used by one thread", "stale reads are bounded to the last 8 stores of an atomic and to 4 in a row per thread"],
    expect: &["outsider", "thread_stall", "stale_atomic_read", "producer_had_to_wait"],
};

// ---- S02 ---------------------------------------------------------------------------------------
enum C { Us(CounterUsize), U64(CounterU64), Uus(UnboundedCounterUsize), Uu64(UnboundedCounterU64) }
impl C { fn next(&self) -> Option<u64> { match self { C::Us(c) => c.next().ok().map(|v| v as u64), C::U64(c) => c.next().ok(), C::Uus(c) => Some(c.next() as u64), C::Uu64(c) => Some(c.next()) } } }
fn counters() {
    swarm_sched();
    swarm_memory();
    let n = 2 + w(5);
    let per: Vec<u64> = (0..n).map(|_| 1 + w(12)).collect();
    let total: u64 = per.iter().sum();
    let kind = w(4);
    let room = w(total + 4); // how many values the range holds, minus one
    let start = match w(5) {
        0 => 0, 1 => w(1000), 2 => 1 + w(60000) * 70_001, 3 => u32::MAX as u64 - w(6),
        // up to the last value of the type, or close to it; an unbounded counter needs room for every call
        _ => { probe("end_of_the_type"); if kind < 2 { u64::MAX - room - w(3) * w(4) } else { u64::MAX - total - 2 - w(3) } }
    };
    // a range that ends before it begins holds nothing
    let empty = kind < 2 && start > 0 && w(12) == 0;
    if empty { probe("empty_range"); }
    let end = if empty { start - 1 - w(2).min(start - 1) } else if kind < 2 { start + room } else { start };
    let c = Arc::new(match kind { 0 => C::Us(CounterUsize::new(start as usize, end as usize)), 1 => C::U64(CounterU64::new(start, end)), 2 => C::Uus(UnboundedCounterUsize::new(start as usize)), _ => C::Uu64(UnboundedCounterU64::new(start)) });
    let bounded = kind < 2;
    msg(&format!("kind {} start {} room {} threads {:?}", kind, start, room, per));
    // history: (thread, invoked at, returned at, result), stamped with the global step number
    let hist: Arc<Mutex<Vec<(u64, u64, u64, Option<u64>)>>> = Default::default();
    let hs: Vec<_> = (0..n).map(|t| { let (c, hist, k) = (c.clone(), hist.clone(), per[t as usize]); spawn(&format!("taker{}", t), move || for _ in 0..k {
        let a = step();
        let r = c.next();
        hist.lock().unwrap().push((t, a, step(), r));
        msg(&format!("taker {} got {:?}", t, r));
    }) }).collect();
    for h in hs { join(h); }
    let h = hist.lock().unwrap().clone();
    let mut vals: Vec<u64> = h.iter().filter_map(|x| x.3).collect();
    vals.sort();
    let granted = vals.len() as u64;
    let want = if empty { 0 } else if bounded { total.min(room + 1) } else { total };
    for p in vals.windows(2) { require!(p[0] != p[1], "duplicate", "value {} was handed out twice", p[0]); }
    require!(granted == want, "count", "{} values handed out, expected {} (range {}..={}, {} calls)", granted, want, start, end, total);
    for (i, v) in vals.iter().enumerate() { require!(*v == start + i as u64, "gap", "value {} missing: got {:?}", start + i as u64, vals); }
    // Real-time order: a call that ended before another began got the smaller value, and errors never precede grants.
    for a in &h { for b in &h { if a.2 < b.1 { match (a.3, b.3) {
        (Some(x), Some(y)) => require!(x < y, "order", "{} was returned before the call that got {} began", x, y),
        (None, Some(y)) => violate("order", format!("a call failed as exhausted, a later one got {}", y)),
        _ => {} } } } }
    if bounded && total > room { probe("exhausted"); require!(c.next().is_none(), "past-end", "exhausted counter handed out another value"); }
    if sim().switches > 2 { nontrivial(); }
    note(format!("kind {} range {}..={} calls per thread {:?} granted {}", kind, start, end, per, granted));
}
pub const S02: Prop = Prop {
    id: "S02", quick: 40_000, thorough: 2_000_000,
    scenarios: &[Scenario { name: "counters", weight: 1, body: counters, max_steps: 200_000, cpu_s: 20 }],
    real: "trading-engine utils/counter.rs, compiled unmodified", stub: "thread scheduler and memory model",
    rule: "one seed = one run: random counter kind, range, thread count and calls; non-trivial = more than two context switches",
    assumptions: &["an unbounded counter starts at least as many values below the type's maximum as are drawn"],
    expect: &["thread_stall", "exhausted", "empty_range", "end_of_the_type"],
};

// ---- S03 ---------------------------------------------------------------------------------------
use trading_engine::types::id::{IdData, Symbol};
use trading_engine::types::enums::Currency;
use trading_engine::{InstId, IsinCode, Ticker, Venue};
const VENUES: [Venue; 5] = [Venue::KRX, Venue::SI, Venue::Undefined, Venue::CCP, Venue::KIS];
/// What an instrument is: is the symbol an ISIN, its text, its venue.
type Key = (bool, String, usize);
fn symbol(k: &Key) -> Symbol { if k.0 { Symbol::Isin(IsinCode::new(k.1.as_bytes()).unwrap()) } else { Symbol::Ticker(Ticker::new(k.1.as_bytes()).unwrap()) } }
/// Instruments that are easily taken for one another.
fn universe() -> Vec<Key> {
    let len = if w(3) == 0 { 12 } else { 1 + w(32) as usize };
    let letter = || b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-./_"[w(66) as usize];
    let text: Vec<u8> = (0..len).map(|_| letter()).collect();
    let mut u: Vec<Key> = vec![];
    let n = 1 + w(5) as usize;
    while u.len() < n {
        let mut t = text.clone();
        match w(6) {
            0 => {}
            1 => { let i = w(t.len() as u64) as usize; t[i] = letter(); }
            2 => { let n = t.len() - 1; t[n] = letter(); }
            3 => { t.truncate(1 + w(len as u64) as usize); }
            4 if len < 32 => t.push(if w(2) == 0 { b' ' } else { letter() }),
            _ => { let i = w(t.len() as u64) as usize; t[i] ^= if t[i].is_ascii_alphabetic() { 32 } else { 1 }; }
        }
        let t = String::from_utf8(t).unwrap();
        let isin = t.len() == 12 && !t.contains(' ') && w(2) == 0;
        u.push((isin, t, [0, 0, 1, 2, 3, 4][w(6) as usize]));
    }
    u
}
/// The identifier gives what it was made from.
fn says(id: &InstId, key: &Key) {
    let d = id.get_id();
    let isin = matches!(d.symbol, Symbol::Isin(_));
    let text = match &d.symbol { Symbol::Isin(x) => x.as_str(), Symbol::Ticker(x) => x.as_str() };
    let pad = |t: &str| t.trim_end_matches('\0').to_string();
    require!(isin == key.0 && pad(text) == key.1 && d.venue == VENUES[key.2], "wrong-data", "asked for {:?}, got {:?}", key, d);
    require!(pad(id.symbol_str()) == key.1 && id.venue() == VENUES[key.2], "wrong-data", "asked for {:?}, it says {:?} {:?}", key, id.symbol_str(), id.venue());
    if let Symbol::Isin(x) = &d.symbol {
        let mut other = key.1.clone().into_bytes();
        let i = w(12) as usize;
        other[i] = if other[i] == b'0' { b'1' } else { b'0' };
        let o = String::from_utf8(other.clone()).unwrap();
        require!(*x == key.1.as_str() && key.1.as_str() == *x && *x == key.1.as_bytes() && *x == key.1.clone().into_bytes() && key.1.clone().into_bytes() == *x, "code-equality", "{:?} is not equal to its own text", key.1);
        require!(*x != o.as_str() && o.as_str() != *x && *x != other.as_slice() && *x != other && other != *x && *x != IsinCode::new(o.as_bytes()).unwrap(), "code-equality", "{:?} equals {:?}", key.1, o);
    }
    let c = id.get_id_clone();
    require!(c == *d, "wrong-data", "asked for {:?}, the copy says {:?}", key, c);
}
const CURRENCIES: [(Currency, &str); 7] = [(Currency::KRW, "KRW"), (Currency::USD, "USD"), (Currency::EUR, "EUR"), (Currency::GBP, "GBP"), (Currency::JPY, "JPY"), (Currency::CNY, "CNY"), (Currency::HKD, "HKD")];
/// Cash is an instrument too: its code is the currency's.
fn cash((c, name): (Currency, &str), got: &Mutex<Vec<(Key, InstId, usize)>>, t: usize) {
    let key = (true, format!("{:0<12}", name), 2usize);
    require!(c.as_str() == name && c.as_isin_bytes() == key.1.as_bytes(), "currency", "{:?} is called {:?}, {:?}", c, c.as_str(), String::from_utf8_lossy(c.as_isin_bytes()));
    let json = serde_json::to_string(&c).unwrap();
    require!(json == format!("\"{}\"", name) && serde_json::from_str::<Currency>(&json).ok() == Some(c), "currency", "{:?} does not survive {}", c, json);
    let id = InstId::new(Symbol::Isin(c.as_isin_code()), VENUES[2]);
    says(&id, &key);
    got.lock().unwrap().push((key, id, t));
}
fn interning() {
    swarm_sched();
    let threads = 2 + w(4);
    let u = Arc::new(universe());
    // What is no code is refused.
    if w(4) == 0 {
        probe("no_code");
        let len = w(40) as usize;
        let mut t: Vec<u8> = (0..len).map(|_| b'A' + w(26) as u8).collect();
        let bad = len > 0 && w(2) == 0;
        if bad { let i = w(len as u64) as usize; t[i] = [b' ', b'\t', 0x80, 0xff, 0xc3][w(5) as usize]; }
        let r = catch(|| IsinCode::new(&t).map(|c| c.as_bytes().to_vec()).map_err(|e| e.to_string())).unwrap_or_else(|e| violate("panic", format!("an ISIN of {:?}: {}", t, e)));
        require!(r.is_ok() == (len == 12 && !bad), "no-code", "an ISIN of {:?} gives {:?}", t, r);
        let text = std::str::from_utf8(&t).is_ok();
        let r = catch(|| Ticker::new(&t).map(|c| c.as_str().as_bytes().to_vec()).map_err(|e| e.to_string())).unwrap_or_else(|e| violate("panic", format!("a ticker of {:?}: {}", t, e)));
        require!(r.is_ok() == (len <= 32 && text), "no-code", "a ticker of {:?} gives {:?}", t, r);
    }
    let got: Arc<Mutex<Vec<(Key, InstId, usize)>>> = Default::default();
    let mut hs = vec![];
    for t in 0..threads {
        let plan: Vec<(u64, usize)> = (0..1 + w(6)).map(|_| (w(4), w(u.len() as u64) as usize)).collect();
        let (got, u) = (got.clone(), u.clone());
        let currency = if w(6) == 0 { Some(CURRENCIES[w(7) as usize]) } else { None };
        hs.push(spawn(&format!("user{}", t), move || for (k, (how, i)) in plan.into_iter().enumerate() {
            let money = if k == 1 { currency.as_ref() } else { None };
            let key = u[i].clone();
            let v = VENUES[key.2];
            if let Some(c) = money { cash(*c, &got, t as usize); }
            let id = match how {
                0 | 1 => InstId::new(symbol(&key), v),
                2 => {
                    let data = IdData { symbol: symbol(&key), venue: v };
                    let json = serde_json::to_string(&data).unwrap();
                    serde_json::from_str::<InstId>(&json).unwrap_or_else(|e| violate("deserialise", format!("{} does not read back: {}", json, e)))
                }
                _ => { let d = InstId::default(); let dd = d.get_id_clone(); require!(InstId::new(dd.symbol.clone(), dd.venue) == d, "equality", "the default identifier is not the one interned for its data"); continue; }
            };
            says(&id, &key);
            msg(&format!("user {} has {:?} at index {}", t, key, got.lock().unwrap().len()));
            got.lock().unwrap().push((key, id, t as usize));
        }));
    }
    for h in hs { join(h); }
    let g = got.lock().unwrap();
    for (k, id, _) in g.iter() { says(id, k); }
    let hash = |i: &InstId| { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); i.hash(&mut h); h.finish() };
    for (ka, a, ta) in g.iter() { for (kb, b, tb) in g.iter() {
        require!((a == b) == (ka == kb), "equality", "identifiers for {:?} (thread {}) and {:?} (thread {}) compare {}", ka, ta, kb, tb, a == b);
        if a == b { require!(hash(a) == hash(b), "hash", "equal identifiers hash differently"); }
        if ta != tb && ka == kb { probe("same_instrument_from_two_threads"); }
    } }
    let back: Vec<InstId> = g.iter().map(|(_, i, _)| serde_json::from_str(&serde_json::to_string(i).unwrap()).unwrap_or_else(|e| violate("deserialise", format!("{}", e)))).collect();
    for (i, b) in back.iter().enumerate() { says(b, &g[i].0); require!(g[i].1 == *b, "round-trip", "{:?} is another instrument after a round trip", g[i].1); }
    if sim().switches > 2 { nontrivial(); }
    note(format!("{} threads, instruments {:?}, {} identifiers made", threads, u, g.len()));
}
pub const S03: Prop = Prop {
    id: "S03", quick: 40_000, thorough: 2_000_000,
    scenarios: &[Scenario { name: "interning", weight: 1, body: interning, max_steps: 200_000, cpu_s: 20 }],
    real: "trading-engine types/id, compiled unmodified; real lazy_static, FxHashMap, serde_json", stub: "thread scheduler, futexes",
    rule: "one seed = one run: threads create, deserialise and default-construct identifiers over a small universe; non-trivial = more than two context switches",
    assumptions: &["no thread panics while holding the intern table's lock"],
    expect: &["thread_stall", "no_code", "same_instrument_from_two_threads"],
};

// ---- S04 ---------------------------------------------------------------------------------------
use trading_engine::LazyString;
fn lazy_string() {
    swarm_sched();
    let evals = Arc::new(AtomicU64::new(0));
    let threads = 2 + w(4);
    let state = Arc::new(AtomicU64::new(7));
    let slow = w(3);
    let first_panics = w(5) == 4;
    let ls = { let (evals, state) = (evals.clone(), state.clone()); Arc::new(LazyString::new(move || {
        let k = evals.fetch_add(1, Relaxed);
        msg(&format!("evaluation {}", k));
        for _ in 0..slow * 3 { point("compute", k); }
        if first_panics && k == 0 { panic!("initialiser fails"); }
        format!("v{}-{}", state.load(Relaxed), k)
    })) };
    require!(evals.load(Relaxed) == 0, "eager", "the text was computed before anyone asked for it");
    let failed = Arc::new(AtomicU64::new(0));
    let vals: Arc<Mutex<Vec<String>>> = Default::default();
    let hs: Vec<_> = (0..threads).map(|t| { let (ls, vals, state, failed) = (ls.clone(), vals.clone(), state.clone(), failed.clone()); let k = 1 + w(3); let ser = w(2) == 1; spawn(&format!("reader{}", t), move || for _ in 0..k {
        state.fetch_add(1, Relaxed); // what the text is computed from moves on
        match catch(|| if ser { serde_json::from_str::<String>(&serde_json::to_string(&*ls).unwrap()).unwrap() } else { (**ls).clone() }) {
            Ok(v) => vals.lock().unwrap().push(v),
            Err(_) => { failed.fetch_add(1, Relaxed); }
        }
        point("between", t);
    }) }).collect();
    for h in hs { join(h); }
    let v = vals.lock().unwrap();
    let want = 1 + first_panics as u64;
    if first_panics { probe("initialiser_failed_once"); }
    require!(evals.load(Relaxed) == want, "evaluated", "evaluated {} times, expected {}", evals.load(Relaxed), want);
    require!(failed.load(Relaxed) == first_panics as u64, "panic", "{} readers failed", failed.load(Relaxed));
    for x in v.iter() { require!(*x == v[0], "differs", "two readers saw {} and {}", x, v[0]); }
    let back: LazyString = serde_json::from_str(&serde_json::to_string(&*ls).unwrap()).unwrap();
    require!(*back == v[0], "round-trip", "{} read back as {}", v[0], *back);
    if sim().switches > 2 { nontrivial(); }
    note(format!("{} readers, initialiser speed {}, initialiser fails first: {}", threads, slow, first_panics));
}
pub const S04: Prop = Prop {
    id: "S04", quick: 40_000, thorough: 2_000_000,
    scenarios: &[Scenario { name: "lazy", weight: 1, body: lazy_string, max_steps: 200_000, cpu_s: 20 }],
    real: "trading-engine utils/lazy_string.rs, compiled unmodified; real once_cell", stub: "thread scheduler, futexes",
    rule: "one seed = one run: threads read or serialise one lazily computed text, the initialiser may be slow or fail once; non-trivial = more than two context switches",
    assumptions: &[], expect: &["thread_stall", "initialiser_failed_once"],
};
