//! Reference models for order books: a plain list of orders, a random market.
use crate::krx::*;
use crate::util::*;
use std::collections::BTreeMap;
use trading_engine::orderbook::half_book::HalfBook;
use trading_engine::orderbook::OrderBook;
use trading_engine::types::enums::OrderSide;
use trading_engine::TradeHistory;

pub type Px2Qty = BTreeMap<i64, (u64, u64)>; // price -> quantity, orders
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct RO { pub ask: bool, pub price: i64, pub id: u64, pub qty: u64 }
/// Live orders in the order they joined their price.
#[derive(Clone, Debug, Default)]
pub struct RefBook { pub o: Vec<RO>, pub traded: u64 }
pub type Fill = Option<(Vec<(i64, u64)>, u64)>;
impl RefBook {
    pub fn best(&self, ask: bool) -> Option<i64> { let p = self.o.iter().filter(|x| x.ask == ask).map(|x| x.price); if ask { p.min() } else { p.max() } }
    pub fn levels(&self, ask: bool) -> Px2Qty { let mut m = Px2Qty::new(); for x in self.o.iter().filter(|x| x.ask == ask) { let e = m.entry(x.price).or_insert((0, 0)); e.0 += x.qty; e.1 += 1; } m }
    pub fn total(&self, ask: bool) -> u64 { self.o.iter().filter(|x| x.ask == ask).map(|x| x.qty).sum() }
    pub fn get(&self, id: u64) -> Option<RO> { self.o.iter().copied().find(|x| x.id == id) }
    pub fn add(&mut self, x: RO) { self.o.push(x); }
    /// A taker on side `ask` against the other side, no worse than `limit`.
    pub fn trade(&mut self, ask: bool, limit: Option<i64>, qty: u64) -> Fill {
        let ok = |p: i64| limit.map_or(true, |l| if ask { p >= l } else { p <= l });
        if !self.best(!ask).map_or(false, ok) { return None; }
        let (mut rem, mut hist) = (qty, vec![]);
        while rem > 0 {
            let Some(p) = self.best(!ask) else { break };
            if !ok(p) { break; }
            let mut at = 0;
            while rem > 0 {
                let Some(i) = self.o.iter().position(|x| x.ask != ask && x.price == p) else { break };
                let q = self.o[i].qty.min(rem);
                rem -= q; at += q; self.traded += q;
                self.o[i].qty -= q;
                if self.o[i].qty == 0 { self.o.remove(i); }
            }
            hist.push((p, at));
        }
        Some((hist, rem))
    }
    pub fn limit(&mut self, x: RO) -> Fill {
        let r = self.trade(x.ask, Some(x.price), x.qty);
        let rem = r.as_ref().map_or(x.qty, |f| f.1);
        if rem > 0 { self.add(RO { qty: rem, ..x }); }
        r
    }
    pub fn cancel(&mut self, id: u64) -> Option<RO> { let i = self.o.iter().position(|x| x.id == id)?; Some(self.o.remove(i)) }
    pub fn set_qty(&mut self, id: u64, q: u64) -> Option<()> {
        let i = self.o.iter().position(|x| x.id == id)?;
        self.o[i].qty = q;
        if q == 0 { self.o.remove(i); }
        Some(())
    }
    pub fn modify(&mut self, id: u64, price: i64, q: u64) -> Fill {
        let x = self.get(id)?;
        if x.price == price || q == 0 { self.set_qty(id, q); None } else { self.cancel(id); self.limit(RO { price, qty: q, ..x }) }
    }
    /// Takes quantity away from the newest orders at a price; what could not be taken.
    pub fn remove_any(&mut self, ask: bool, price: i64, q: u64) -> u64 {
        let mut rem = q;
        while rem > 0 {
            let Some(i) = self.o.iter().rposition(|x| x.ask == ask && x.price == price) else { break };
            let k = self.o[i].qty.min(rem);
            rem -= k; self.o[i].qty -= k;
            if self.o[i].qty == 0 { self.o.remove(i); }
        }
        rem
    }
    pub fn move_to(&mut self, ask: bool, id: u64, price: i64) -> Option<()> { let x = self.get(id)?; if x.ask != ask { return None; } self.cancel(id); self.add(RO { price, ..x }); Some(()) }
}
pub fn side(ask: bool) -> OrderSide { if ask { OrderSide::Ask } else { OrderSide::Bid } }
fn half(h: &HalfBook, ask: bool, want: &Px2Qty, counts: bool) -> Option<String> {
    let name = if ask { "ask" } else { "bid" };
    let snap = h.to_level_snapshot();
    let mut got = Px2Qty::new();
    for l in &snap { if got.insert(l.book_price, (l.book_quantity, l.order_count.unwrap_or(u32::MAX) as u64)).is_some() { return Some(format!("{} price {} appears twice", name, l.book_price)); } }
    let same = got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.0 == b.0 && a.1 .0 == b.1 .0 && (!counts || a.1 .1 == b.1 .1));
    if !same { return Some(format!("{} levels are {:?}, should be {:?}", name, got, want)); }
    let best = if ask { want.keys().next() } else { want.keys().next_back() }.copied().unwrap_or(if ask { i64::MAX } else { i64::MIN });
    if h.best_price != best { return Some(format!("best {} price is {}, should be {}", name, h.best_price, best)); }
    let total: u64 = want.values().map(|v| v.0).sum();
    if h.get_total_quantity() != total || h.aggregate_quantity() != total || !h.check_validity_quantity() { return Some(format!("total {} quantity is {} ({}), should be {}", name, h.get_total_quantity(), h.check_validity_quantity(), total)); }
    if h.len() != want.len() || h.is_empty() != want.is_empty() { return Some(format!("{} side says it has {} levels, has {}", name, h.len(), want.len())); }
    for (p, v) in want { if h.aggregate_quantity_at_price(*p) != v.0 { return Some(format!("{} quantity at {} is {}, should be {}", name, p, h.aggregate_quantity_at_price(*p), v.0)); } }
    if h.aggregate_quantity_at_price(best.wrapping_add(987_654_321)) != 0 { return Some("quantity at a price nobody quotes".into()); }
    None
}
/// How `b` departs from the levels it should have.
pub fn differs(b: &OrderBook, asks: &Px2Qty, bids: &Px2Qty, counts: bool) -> Option<String> {
    if !b.check_validity_quantity() { return Some("the book's own quantities do not add up".into()); }
    half(&b.asks, true, asks, counts).or_else(|| half(&b.bids, false, bids, counts))
}
pub fn fill(r: &Option<(TradeHistory, u64)>) -> Fill { r.as_ref().map(|(h, rem)| ((0..h.len()).map(|i| h[i]).collect(), *rem)) }
/// The numbers of a printed book: rows of (bid quantity, bid count, price, ask count, ask quantity), missing ones None.
fn rows(s: &str) -> Vec<Vec<Option<i64>>> {
    s.lines().skip(1).map(|l| l.split('|').map(|c| c.trim().parse::<i64>().ok()).collect::<Vec<_>>()).filter(|r: &Vec<Option<i64>>| r.iter().any(|c| c.is_some())).collect()
}
/// Printed views show the book, best levels when limited to a depth.
pub fn views(b: &OrderBook, asks: &Px2Qty, bids: &Px2Qty, depth: usize) -> Option<String> {
    let mut want: Vec<Vec<Option<i64>>> = asks.iter().map(|(p, v)| vec![None, None, Some(*p), Some(v.1 as i64), Some(v.0 as i64)]).chain(bids.iter().map(|(p, v)| vec![Some(v.0 as i64), Some(v.1 as i64), Some(*p), None, None])).collect();
    let mut got = rows(&b.to_string());
    want.sort(); got.sort();
    if want != got { return Some(format!("the printed book shows {:?}, should show {:?}", got, want)); }
    for d in [None, Some(depth)] {
        let n = d.unwrap_or(usize::MAX);
        let mut wa: Vec<Vec<Option<i64>>> = asks.iter().take(n).map(|(p, v)| vec![Some(*p), Some(v.1 as i64), Some(v.0 as i64)]).collect();
        let mut wb: Vec<Vec<Option<i64>>> = bids.iter().rev().take(n).map(|(p, v)| vec![Some(v.0 as i64), Some(v.1 as i64), Some(*p)]).collect();
        let (mut ga, mut gb) = (rows(&b.asks.to_string_upto_depth(d)), rows(&b.bids.to_string_upto_depth(d)));
        for v in [&mut wa, &mut wb, &mut ga, &mut gb] { v.sort(); }
        if ga != wa { return Some(format!("the best {:?} ask levels are printed as {:?}, are {:?}", d, ga, wa)); }
        if gb != wb { return Some(format!("the best {:?} bid levels are printed as {:?}, are {:?}", d, gb, wb)); }
    }
    None
}

/// A market in one instrument: price ladders that change a little at a time.
#[derive(Clone, Debug)]
pub struct Market { pub stock: bool, pub asks: BTreeMap<i64, u64>, pub bids: BTreeMap<i64, u64>, mid: i64, deep: u64 }
impl Market {
    pub fn new(stock: bool) -> Market {
        let mid = if stock { 2000 + w(50_000) as i64 } else { [1000i64, 0, 40_000][w(3) as usize] };
        let deep = [2u64, 4, 12, 14][w(4) as usize];
        let mut m = Market { stock, asks: BTreeMap::new(), bids: BTreeMap::new(), mid, deep };
        for _ in 0..w(deep) { m.evolve(); }
        m
    }
    pub fn evolve(&mut self) {
        match w(12) {
            0 => self.mid += w(9) as i64 - 4,
            1 => { if w(2) == 0 { self.asks.clear() } else { self.bids.clear() } }
            2 | 3 => { // the best level goes
                if w(2) == 0 { let k = self.asks.keys().next().copied(); k.map(|k| self.asks.remove(&k)); } else { let k = self.bids.keys().next_back().copied(); k.map(|k| self.bids.remove(&k)); }
            }
            _ => {
                let ask = w(2) == 0;
                let off = 1 + w(self.deep * 2) as i64;
                let p = if ask { self.mid + off } else { self.mid - off };
                let q = match w(5) { 0 => 0, 1 => 1, 2 => 99_999_999 - w(5), _ => 1 + w(500) };
                let s = if ask { &mut self.asks } else { &mut self.bids };
                if q == 0 { s.remove(&p); } else { s.insert(p, q); }
            }
        }
        let m = self.mid;
        self.asks.retain(|p, _| *p > m);
        self.bids.retain(|p, _| *p < m);
    }
    /// The best `n` levels as the exchange sends them: absent levels have no quantity.
    pub fn message(&self, tr: Tr, seq: u64, us: u64, inst: u64) -> Msg {
        let mut m = Msg::random(tr, inst, seq, us);
        let a: Vec<_> = self.asks.iter().take(tr.levels()).collect();
        let b: Vec<_> = self.bids.iter().rev().take(tr.levels()).collect();
        let pad = if w(2) == 0 { 0 } else { 1 };
        let (la, lb) = (a.last().map_or(self.mid, |x| *x.0), b.last().map_or(self.mid, |x| *x.0));
        for (i, l) in m.lv.iter_mut().enumerate() {
            *l = Lvl { ac: 0, bc: 0, alp: 0, blp: 0, ..*l };
            (l.ap, l.aq) = a.get(i).map_or((if pad == 0 { 0 } else { la + i as i64 }, 0), |x| (*x.0, *x.1));
            (l.bp, l.bq) = b.get(i).map_or((if pad == 0 { 0 } else { lb - i as i64 }, 0), |x| (*x.0, *x.1));
        }
        // Now and then a price is shown at which nothing is left.
        if w(6) == 0 { for _ in 0..1 + w(3) { let i = w(m.lv.len().min(4) as u64) as usize; if w(2) == 0 { m.lv[i].aq = 0 } else { m.lv[i].bq = 0 } } }
        m
    }
}
/// What a book holds after the first `cut` levels of a message.
pub fn l2(m: &Msg, cut: usize) -> (Px2Qty, Px2Qty) {
    let mut r = (Px2Qty::new(), Px2Qty::new());
    for l in m.lv.iter().take(cut) {
        if l.aq > 0 { r.0.insert(l.ap, (l.aq, 1)); }
        if l.bq > 0 { r.1.insert(l.bp, (l.bq, 1)); }
    }
    r
}
