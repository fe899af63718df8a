//! The exchange's side of the wire: encodes messages and says what decoding one must give.
use crate::util::*;
use trading_engine::data::krx::derivative_quote::{IFMSRPD0034, IFMSRPD0035};
use trading_engine::data::krx::derivative_trade::{IFMSRPD0036, IFMSRPD0037, IFMSRPD0038};
use trading_engine::data::krx::stock_quote::{IFMSRPD0002, IFMSRPD0003};
use trading_engine::data::quote::QuoteSnapshot;
use trading_engine::data::trade::TradeData;
use trading_engine::data::trade_quote::TradeQuoteSnapshot;
use trading_engine::types::base::LevelSnapshot;
use trading_engine::types::enums::TradeType;
use trading_engine::types::id::Symbol;
use trading_engine::types::timestamp::DateUnixNanoGenerator;
use trading_engine::utils::numeric_converter::OrderConverter;
use trading_engine::{InstId, Venue};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Tr { Q34, Q35, T36, Tq37, Tq38, S2, S3 }
pub const TRS: [Tr; 7] = [Tr::Q34, Tr::Q35, Tr::T36, Tr::Tq37, Tr::Tq38, Tr::S2, Tr::S3];
impl Tr {
    pub fn levels(self) -> usize { match self { Tr::Q34 | Tr::Tq37 => 5, Tr::T36 => 0, _ => 10 } }
    pub fn len(self) -> usize { match self { Tr::Q34 => 324, Tr::Q35 => 554, Tr::T36 => 173, Tr::Tq37 => 431, Tr::Tq38 => 661, Tr::S2 => 555, Tr::S3 => 795 } }
    pub fn name(self) -> &'static str { match self { Tr::Q34 => "IFMSRPD0034", Tr::Q35 => "IFMSRPD0035", Tr::T36 => "IFMSRPD0036", Tr::Tq37 => "IFMSRPD0037", Tr::Tq38 => "IFMSRPD0038", Tr::S2 => "IFMSRPD0002", Tr::S3 => "IFMSRPD0003" } }
    pub fn codes(self) -> &'static [&'static str] { match self {
        Tr::Q34 => &["B601F", "B602F", "B603F", "B606F", "B607F", "B608F", "B609F", "B610F", "B611F", "B612F", "B613F", "B614F", "B615F", "B616F"],
        Tr::Q35 => &["B604F", "B605F"],
        Tr::T36 => &["A301F", "A302F", "A303F", "A304F", "A305F", "A306F", "A307F", "A308F", "A309F", "A310F", "A311F", "A312F", "A313F", "A314F", "A315F", "A316F"],
        Tr::Tq37 => &["G701F", "G702F", "G703F", "G706F", "G707F", "G708F", "G709F", "G710F", "G711F", "G712F", "G713F", "G715F", "G716F"],
        Tr::Tq38 => &["G704F", "G705F"],
        Tr::S2 => &["B601S", "B601Q", "B601X"],
        Tr::S3 => &["B702S", "B703S", "B704S"],
    } }
    pub fn stock(self) -> bool { matches!(self, Tr::S2 | Tr::S3) }
    pub fn has_trade(self) -> bool { matches!(self, Tr::T36 | Tr::Tq37 | Tr::Tq38) }
}
/// Codes of interfaces that have no decoder yet.
pub const OTHERS: [(&str, &[&str]); 4] = [("IFMSRPD0023", &["B601B", "B601K"]), ("IFMSRPD0027", &["A301B", "A301M", "A301K"]), ("IFMSRPD0029", &["G701B", "G701K"]),
    ("IFMSRPD0004", &["A301S", "A302S", "A303S", "A304S", "A301Q", "A301X"])];
#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Lvl { pub ap: i64, pub bp: i64, pub aq: u64, pub bq: u64, pub ac: u64, pub bc: u64, pub alp: u64, pub blp: u64 }
#[derive(Clone, Debug)]
pub struct Msg { pub tr: Tr, pub code: &'static str, pub isin: String, pub seq: u64, pub us: u64, pub trade: (i64, u64, u8), pub cum: u64, pub lv: Vec<Lvl> }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Px { Stock, Whole, Cents, Mills }
pub fn px(code: &str, isin: &str) -> Px {
    if code.ends_with(|c| c != 'F') { Px::Stock } else if matches!(&code[2..5], "04F" | "05F" | "10F") { Px::Whole } else if isin.starts_with("KR4169") { Px::Mills } else { Px::Cents }
}
pub fn max_price(p: Px) -> u64 { match p { Px::Stock => 999_999_999, Px::Whole => 99_999_999, _ => 9_999_999 } }
fn price(p: Px, v: i64) -> String {
    let s = if v < 0 { '-' } else { '0' };
    let a = v.unsigned_abs();
    match p { Px::Stock => format!("{:011}", a), Px::Whole => format!("{}{:08}", s, a), Px::Cents => format!("{}{:05}.{:02}", s, a / 100, a % 100), Px::Mills => format!("{}{:04}.{:03}", s, a / 1000, a % 1000) }
}
pub fn isin(i: u64, stock: bool) -> String {
    if stock { format!("KR7{:06}00{}", 5930 + i, i % 10) } else if i % 3 == 2 { format!("KR4169V3001{}", i % 10) } else if i % 6 == 1 { format!("KR4168V35{:03}", i) } else if i % 6 == 3 { format!("HKR4169V3{:03}", i) } else { format!("KR41{}V135{:03}", 1 + i % 3, i) }
}
fn digits(n: usize) -> String { (0..n).map(|_| (b'0' + w(10) as u8) as char).collect() }
pub fn hms(us: u64) -> String { let s = us / 1_000_000; format!("{:02}{:02}{:02}{:06}", s / 3600, s / 60 % 60, s % 60, us % 1_000_000) }
impl Msg {
    pub fn px(&self) -> Px { px(self.code, &self.isin) }
    pub fn encode(&self) -> Vec<u8> {
        let p = self.px();
        let mut s = format!("{}{:08}G140{}{}{}", self.code, self.seq % 100_000_000, self.isin, digits(6), hms(self.us));
        if self.tr.has_trade() {
            s += &price(p, self.trade.0);
            s += &format!("{:09}", self.trade.1);
            for _ in 0..6 { s += &price(p, w(1000) as i64); }
            s += &format!("{:012}", self.cum);
            s += &format!("{}.{}", digits(18), digits(3));
            s.push(self.trade.2 as char);
            s += &price(p, 0);
            s += &price(p, 0);
        }
        for l in &self.lv {
            s += &price(p, l.ap);
            s += &price(p, l.bp);
            if self.tr.stock() { s += &format!("{:012}{:012}", l.aq, l.bq); if self.tr == Tr::S3 { s += &format!("{:012}{:012}", l.alp, l.blp); } }
            else { s += &format!("{:09}{:09}{:05}{:05}", l.aq, l.bq, l.ac, l.bc); }
        }
        let fill = self.tr.len() - 1 - s.len();
        s += &digits(fill);
        let mut b = s.into_bytes();
        b.push(255);
        b
    }
    pub fn random(tr: Tr, inst: u64, seq: u64, us: u64) -> Msg {
        let code = tr.codes()[w(tr.codes().len() as u64) as usize];
        let isin = isin(inst, tr.stock());
        let p = px(code, &isin);
        let big = w(6) == 5;
        let pr = |w_: u64| -> i64 { let v = if big { max_price(p) - w_ } else { w_ * if p == Px::Stock { 500 } else { 25 } } as i64; if p != Px::Stock && w(5) == 4 { -v } else { v } };
        let q = |max: u64| match w(6) { 0 => 0, 5 => max - w(3), _ => 1 + w(5000) };
        let lq = if tr.stock() { 999_999_999_999 } else { 999_999_999 };
        let lv = (0..tr.levels()).map(|_| Lvl { ap: pr(w(4000)), bp: pr(w(4000)), aq: q(lq), bq: q(lq), ac: q(99_999).min(99_999), bc: q(99_999).min(99_999), alp: q(lq), blp: q(lq) }).collect();
        Msg { tr, code, isin, seq, us, trade: (pr(w(4000)), q(999_999_999), b'0' + w(3) as u8), cum: q(999_999_999_999), lv }
    }
}
pub enum Parser { Q34(IFMSRPD0034), Q35(IFMSRPD0035), T36(IFMSRPD0036), Tq37(IFMSRPD0037), Tq38(IFMSRPD0038), S2(IFMSRPD0002), S3(IFMSRPD0003) }
#[derive(Clone, Copy, Debug)]
pub struct PCfg { pub cut: usize, pub cum: bool }
#[derive(Clone, Debug)]
pub enum Out { Q(QuoteSnapshot), Tq(TradeQuoteSnapshot), T(TradeData) }
/// Long-lived buffers, reused for message after message.
#[derive(Clone, Debug)]
pub struct Bufs { pub q: QuoteSnapshot, pub tq: TradeQuoteSnapshot, pub t: TradeData }
/// The bytes of a message, at the very end of the memory they are in: reading past them faults.
struct Edge { at: *const u8, n: usize }
impl Edge {
    fn new(b: &[u8]) -> Edge {
        thread_local! { static MAP: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
        const LEN: usize = 16384;
        let mut m = MAP.with(|c| c.get());
        if m == 0 || b.len() > LEN {
            m = simos::raw::guarded(LEN.max((b.len() + 4095) & !4095));
            if b.len() <= LEN { MAP.with(|c| c.set(m)); }
        }
        let at = (m + LEN.max((b.len() + 4095) & !4095) - b.len()) as *mut u8;
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len()); }
        Edge { at, n: b.len() }
    }
    fn bytes(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.at, self.n) } }
}
impl Parser {
    pub fn new(tr: Tr, c: PCfg) -> Parser {
        let e = |e: anyhow::Error| -> ! { violate("config", format!("{:?} with {:?} refused: {}", tr, c, e)) };
        macro_rules! cut { ($t:ty) => {{
            let more = tr.levels() + 1 + w(3) as usize;
            if <$t>::default().with_quote_level_cut(more).is_ok() { violate("config", format!("{:?} can be asked for {} levels, its messages have {}", tr, more, tr.levels())) }
            // unless told otherwise a decoder decodes every level there is
            if c.cut == tr.levels() && w(2) == 0 { <$t>::default() } else { <$t>::default().with_quote_level_cut(c.cut).unwrap_or_else(|x| e(x)) }
        }} }
        match tr {
            Tr::Q34 => Parser::Q34(cut!(IFMSRPD0034)),
            Tr::Q35 => Parser::Q35(cut!(IFMSRPD0035)),
            Tr::T36 => Parser::T36(IFMSRPD0036::default().with_cum_trd_qnt(c.cum)),
            Tr::Tq37 => Parser::Tq37(cut!(IFMSRPD0037).with_cum_trd_qnt(c.cum)),
            Tr::Tq38 => Parser::Tq38(cut!(IFMSRPD0038).with_cum_trd_qnt(c.cum)),
            Tr::S2 => Parser::S2(cut!(IFMSRPD0002)),
            Tr::S3 => Parser::S3(cut!(IFMSRPD0003)),
        }
    }
    pub fn fresh(&self, b: &[u8], g: &mut DateUnixNanoGenerator) -> anyhow::Result<Out> {
        let e = Edge::new(b);
        let b = e.bytes();
        Ok(match self {
            Parser::Q34(p) => Out::Q(p.to_quote_snapshot(b, g)?), Parser::Q35(p) => Out::Q(p.to_quote_snapshot(b, g)?), Parser::S2(p) => Out::Q(p.to_quote_snapshot(b, g)?), Parser::S3(p) => Out::Q(p.to_quote_snapshot(b, g)?),
            Parser::Tq37(p) => Out::Tq(p.to_trade_quote_snapshot(b, g)?), Parser::Tq38(p) => Out::Tq(p.to_trade_quote_snapshot(b, g)?),
            Parser::T36(p) => Out::T(p.to_trade_data(b, g)?),
        })
    }
    pub fn into_buffer(&self, b: &[u8], m: &mut Bufs, g: &mut DateUnixNanoGenerator) -> anyhow::Result<()> {
        let e = Edge::new(b);
        let b = e.bytes();
        match self {
            Parser::Q34(p) => p.to_quote_snapshot_buffer(b, &mut m.q, g), Parser::Q35(p) => p.to_quote_snapshot_buffer(b, &mut m.q, g), Parser::S2(p) => p.to_quote_snapshot_buffer(b, &mut m.q, g), Parser::S3(p) => p.to_quote_snapshot_buffer(b, &mut m.q, g),
            Parser::Tq37(p) => p.to_trade_quote_snapshot_buffer(b, &mut m.tq, g), Parser::Tq38(p) => p.to_trade_quote_snapshot_buffer(b, &mut m.tq, g),
            Parser::T36(p) => p.to_trade_data_buffer(b, &mut m.t, g),
        }
    }
    pub fn from_buffer(&self, m: &Bufs) -> Out { match self { Parser::Tq37(_) | Parser::Tq38(_) => Out::Tq(m.tq.clone()), Parser::T36(_) => Out::T(m.t.clone()), _ => Out::Q(m.q.clone()) } }
}
type L4 = (i64, u64, Option<u32>, Option<u64>);
fn lv(x: &LevelSnapshot) -> L4 { (x.book_price, x.book_quantity, x.order_count, x.lp_quantity) }
impl Out {
    pub fn stamps(&self) -> (u64, u64) { match self { Out::Q(o) => (o.timestamp.stamp, o.system_timestamp.stamp), Out::Tq(o) => (o.timestamp.stamp, o.system_timestamp.stamp), Out::T(o) => (o.timestamp.stamp, o.system_timestamp.stamp) } }
    pub fn id(&self) -> InstId { match self { Out::Q(o) => o.id, Out::Tq(o) => o.id, Out::T(o) => o.id } }
    fn conv(&self) -> &'static OrderConverter { match self { Out::Q(o) => o.order_converter, Out::Tq(o) => o.order_converter, Out::T(o) => o.order_converter } }
    pub fn levels(&self) -> (Vec<L4>, Vec<L4>, usize) { match self {
        Out::Q(o) => (o.effective_ask_data().iter().map(lv).collect(), o.effective_bid_data().iter().map(lv).collect(), o.quote_level_cut),
        Out::Tq(o) => (o.effective_ask_data().iter().map(lv).collect(), o.effective_bid_data().iter().map(lv).collect(), o.quote_level_cut),
        Out::T(_) => (vec![], vec![], 0),
    } }
    fn trade(&self) -> Option<(i64, u64, Option<TradeType>, Option<u64>)> { match self { Out::Q(_) => None, Out::Tq(o) => Some((o.trade_price, o.trade_quantity, o.trade_type, o.cumulative_trade_quantity)), Out::T(o) => Some((o.trade_price, o.trade_quantity, o.trade_type, o.cumulative_trade_quantity)) } }
    /// What of this does not say what `m` says, if anything.
    pub fn differs(&self, m: &Msg, c: PCfg) -> Option<String> {
        let d = self.id().get_id().clone();
        match &d.symbol { Symbol::Isin(i) if i.as_str() == m.isin && d.venue == Venue::KRX => {} s => return Some(format!("instrument {:?}/{:?}, sent {}", s, d.venue, m.isin)) }
        let (a, b, cut) = self.levels();
        let n = c.cut.min(m.tr.levels());
        if m.tr != Tr::T36 {
            if cut != n { return Some(format!("{} levels declared valid, {} were decoded", cut, n)); }
            for i in 0..n {
                let l = &m.lv[i];
                let cnt = |v: u64| if m.tr.stock() { None } else { Some(v as u32) };
                let lp = |v: u64| if m.tr == Tr::S3 { Some(v) } else { None };
                let (wa, wb) = ((l.ap, l.aq, cnt(l.ac), lp(l.alp)), (l.bp, l.bq, cnt(l.bc), lp(l.blp)));
                if a[i] != wa { return Some(format!("ask level {} is (price, quantity, orders, lp) {:?}, sent {:?}", i + 1, a[i], wa)); }
                if b[i] != wb { return Some(format!("bid level {} is (price, quantity, orders, lp) {:?}, sent {:?}", i + 1, b[i], wb)); }
            }
        }
        if m.tr.has_trade() {
            let ty = match m.trade.2 { b'0' => TradeType::Undefined, b'1' => TradeType::Sell, _ => TradeType::Buy };
            let want = Some((m.trade.0, m.trade.1, Some(ty), if c.cum { Some(m.cum) } else { None }));
            if self.trade() != want { return Some(format!("trade (price, quantity, side, cumulative) {:?}, sent {:?}", self.trade(), want)); }
        }
        let (v, den) = (123_457i64, match m.px() { Px::Mills => 1000.0, Px::Cents => 100.0, _ => 1.0 });
        let f = self.conv().price.to_f64_from_i64(v);
        if (f - v as f64 / den).abs() > 1e-6 { return Some(format!("a price of {} ticks is taken for {}, the instrument's is {}", v, f, v as f64 / den)); }
        None
    }
}
