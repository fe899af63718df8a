//! A seeded market and portfolio: market data as plain values, the library's own objects made from
//! them on demand, and an independent double-precision valuation of the same portfolio.
use crate::contract::{self, months, roughness, schedule, At, Leg, Period, Rate, Spec, View};
use crate::require;
use crate::util::*;
use ndarray::{Array1, Array2};
use quantlib::currency::{Currency, FxCode};
use quantlib::data::{daily_value_data::DailyValueData, surface_data::SurfaceData, value_data::ValueData, vector_data::VectorData};
use quantlib::enums::*;
use quantlib::evaluation_date::EvaluationDate;
use quantlib::instrument::{Instrument, InstrumentTrait, Instruments};
use quantlib::instruments::{bond::Bond, cash::Cash, futures::Futures, fx_futures::FxFutures, plain_swap::PlainSwap, stock::Stock, vanilla_option::VanillaOption};
use quantlib::parameters::{past_price::DailyClosePrice, rate_index::RateIndex, volatilities::volatiltiy_interpolator::VolatilityInterplator, zero_curve::ZeroCurve};
use quantlib::pricing_engines::engine::Engine;
use quantlib::pricing_engines::engine_generator::{EngineGenerator, InstrumentCategory};
use quantlib::pricing_engines::{calculation_configuration::CalculationConfiguration, calculation_result::CalculationResult, match_parameter::MatchParameter};
use quantlib::time::calendar::Calendar;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::calendars::{nullcalendar::NullCalendar, southkorea::{SouthKorea, SouthKoreaType}};
use quantlib::time::conventions::{BusinessDayConvention, DayCountConvention, PaymentFrequency};
use quantlib::time::jointcalendar::JointCalendar;
use quantlib::utils::string_arithmetic::add_period;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::sync::Arc;
use time::{macros::datetime, Duration, OffsetDateTime};

pub use Currency::{JPY, KRW, USD};
pub type Res = HashMap<String, CalculationResult>;
pub const EPS: f64 = 1.2e-7;

pub fn real(lo: f64, hi: f64) -> f32 { (lo + (hi - lo) * w(10_001) as f64 / 10_000.0) as f32 }
pub fn logreal(lo: f64, hi: f64) -> f32 { (lo.ln() + (hi.ln() - lo.ln()) * w(10_001) as f64 / 10_000.0).exp() as f32 }
pub fn yf(a: &OffsetDateTime, b: &OffsetDateTime) -> f64 { NullCalendar::default().get_time_difference(a, b) as f64 }
pub fn ymd(d: &OffsetDateTime) -> i32 { d.year() * 10000 + d.month() as i32 * 100 + d.day() as i32 }

#[derive(Clone, Debug)]
pub enum Vol { Const(f32), Surface { days: Vec<i64>, strikes: Vec<f32>, vols: Vec<Vec<f32>> } }
#[derive(Clone, Debug)]
pub struct Und { pub code: String, pub ccy: Currency, pub spot: f32, pub div: Option<Vec<(OffsetDateTime, f32)>>, pub vol: Vol, pub coll: String, pub bor: String }
#[derive(Clone)]
pub struct World {
    pub dt: OffsetDateTime,
    pub unds: Vec<Und>,
    pub curves: BTreeMap<String, Vec<(i64, f32)>>,
    pub fx: BTreeMap<String, f32>,
    pub fxvol: BTreeMap<String, f32>,
    pub qcorr: BTreeMap<(String, String), f32>,
    pub fixings: BTreeMap<String, HashMap<time::Date, f32>>,
    pub funding: BTreeMap<Currency, String>,
    pub crs: BTreeMap<Currency, String>,
    pub index: BTreeMap<String, String>,
    pub issuer: BTreeMap<(String, Currency), String>,
    pub insts: Vec<Instrument>,
    pub specs: BTreeMap<String, Spec>,
    pub cfg: Cfg,
    /// Curves given by times from now instead of dates.
    pub timed: bool,
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub m: u32, pub delta: f32, pub vega: f32, pub vstruct: f32, pub vmatrix: f32, pub rho: f32, pub div: f32, pub theta: i32,
    pub rt: Vec<String>, pub vt: Vec<String>, pub dtn: Vec<String>, pub mny: Vec<f32>, pub sticky: StickynessType,
}
pub const M_DELTA: u32 = 1; pub const M_VEGA: u32 = 2; pub const M_RHO: u32 = 4; pub const M_DIV: u32 = 8; pub const M_THETA: u32 = 16;
pub const M_VSTR: u32 = 32; pub const M_RSTR: u32 = 64; pub const M_DSTR: u32 = 128; pub const M_VMAT: u32 = 256; pub const M_ALL: u32 = 511;
impl Cfg {
    pub fn random(m: u32) -> Cfg {
        let some = |all: &[&str], k: u64| -> Vec<String> { let mut ix = subset(all.len() as u64, k); ix.sort(); ix.into_iter().map(|i| all[i as usize].to_string()).collect() };
        let v = [0.01f32, 0.02, 0.05][w(3) as usize];
        let (rn, vn, dn) = (2 + w(4), 2 + w(3), 1 + w(4));
        let mn = 2 + w(4);
        let mut mny: Vec<f32> = subset(9, mn).into_iter().map(|i| 0.6 + 0.1 * i as f32).collect();
        mny.sort_by(|a, b| a.total_cmp(b));
        Cfg { m, delta: [0.01f32, 0.02, 0.05][w(3) as usize], vega: v, vstruct: if w(2) == 0 { v } else { 0.01 }, vmatrix: 0.001, rho: [1e-4f32, 1e-3, 1e-2][w(3) as usize],
            div: [1e-4f32, 1e-3, 1e-2][w(3) as usize], theta: [1, 1, 7, 30][w(4) as usize],
            rt: some(&["1M", "3M", "6M", "1Y", "2Y", "3Y", "5Y", "10Y", "30Y"], rn), vt: some(&["1M", "3M", "6M", "1Y", "2Y", "3Y"], vn), dtn: some(&["1M", "3M", "6M", "1Y", "2Y", "5Y"], dn), mny,
            sticky: if w(4) == 0 { StickynessType::StickyToStrike } else { StickynessType::StickyToMoneyness } }
    }
    pub fn build(&self) -> CalculationConfiguration {
        let on = |b: u32| self.m & b != 0;
        if w(3) == 0 {
            // the same, setting by setting
            let mut set: Vec<Box<dyn Fn(CalculationConfiguration) -> CalculationConfiguration + '_>> = vec![
                Box::new(|c| c.with_delta_calculation(on(M_DELTA)).with_gamma_calculation(on(M_DELTA))), Box::new(|c| c.with_vega_calculation(on(M_VEGA))), Box::new(|c| c.with_rho_calculation(on(M_RHO))),
                Box::new(|c| c.with_div_delta_calculation(on(M_DIV))), Box::new(|c| c.with_theta_calculation(on(M_THETA))), Box::new(|c| c.with_vega_structure_calculation(on(M_VSTR))),
                Box::new(|c| c.with_rho_structure_calculation(on(M_RSTR))), Box::new(|c| c.with_div_structure_calculation(on(M_DSTR))), Box::new(|c| c.with_vega_matrix_calculation(on(M_VMAT))),
                Box::new(|c| c.with_theta_day(self.theta)), Box::new(|c| c.with_stickyness_type(self.sticky)), Box::new(|c| c.with_lv_interpolator(VolatilityInterplator::default())),
                Box::new(|c| c.with_delta_bump_ratio(self.delta)), Box::new(|c| c.with_gamma_bump_ratio(self.delta)), Box::new(|c| c.with_vega_bump_value(self.vega)), Box::new(|c| c.with_vega_structure_bump_value(self.vstruct)),
                Box::new(|c| c.with_vega_matrix_bump_value(self.vmatrix)), Box::new(|c| c.with_rho_bump_value(self.rho)), Box::new(|c| c.with_rho_structure_tenors(self.rt.clone())),
                Box::new(|c| c.with_vega_structure_tenors(self.vt.clone())), Box::new(|c| c.with_div_structure_tenors(self.dtn.clone())), Box::new(|c| c.with_vega_matrix_spot_moneyness(Array1::from(self.mny.clone()))),
                Box::new(|c| c.with_vanilla_option_calculation_method(VanillaOptionCalculationMethod::Analytic)),
            ];
            // the order does not matter; the dividend bump cannot be set on its own
            let start = self.full([true, true, false, false, false, false, false, false, false, false, false, false], 1, 0.5);
            let mut c = start;
            while !set.is_empty() { let f = set.swap_remove(w(set.len() as u64) as usize); c = f(c) }
            return c;
        }
        self.full([true, true, on(M_DELTA), on(M_DELTA), on(M_VEGA), on(M_RHO), on(M_DIV), on(M_THETA), on(M_VSTR), on(M_RSTR), on(M_DSTR), on(M_VMAT)], self.theta, self.delta)
    }
    fn full(&self, on: [bool; 12], theta: i32, delta: f32) -> CalculationConfiguration {
        self.new(on, theta, delta, delta, self.vega, self.vstruct, self.vmatrix, self.rho, self.div).unwrap_or_else(|e| harness_error(format!("configuration: {}", e)))
    }
    /// A configuration whose amounts are not all positive is refused.
    pub fn refused(&self) {
        let k = w(8);
        let bad = |n: u64, v: f32| if k == n { [0.0, -v][w(2) as usize] } else { v };
        let r = self.new([true; 12], if k == 7 { -(w(3) as i32) } else { self.theta }, bad(0, self.delta), bad(1, self.delta), bad(2, self.vega), bad(3, self.vstruct), bad(4, self.vmatrix), bad(5, self.rho), bad(6, self.div));
        require!(r.is_err(), "configuration", "a configuration with a zero or negative amount (number {}) is accepted: {:?}", k, r);
    }
    #[allow(clippy::too_many_arguments)]
    fn new(&self, o: [bool; 12], theta: i32, delta: f32, gamma: f32, vega: f32, vstruct: f32, vmatrix: f32, rho: f32, div: f32) -> anyhow::Result<CalculationConfiguration> {
        CalculationConfiguration::new(o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], o[8], o[9], o[10], o[11], theta, self.sticky, VolatilityInterplator::default(), delta, gamma, vega, vstruct, vmatrix, rho, div,
            self.rt.clone(), self.vt.clone(), self.dtn.clone(), Array1::from(self.mny.clone()), VanillaOptionCalculationMethod::Analytic)
    }
}
/// One changed input of a revaluation.
#[derive(Clone, Default)]
pub struct Bump { pub curve: Option<(String, f64, f64, f64)>, pub spot: Option<(String, f64)>, pub vol: Option<(String, f64)>, pub div: Option<(String, i32, i32, f64)>, pub eval: Option<OffsetDateTime> }

fn fxs(a: Currency, b: Currency) -> String { format!("{}{}", a.as_str(), b.as_str()) }
fn rand_curve() -> Vec<(i64, f32)> {
    let pts = [30i64, 91, 182, 365, 730, 1825, 3650];
    let n = 1 + w(4);
    let mut ix = subset(7, n);
    ix.sort();
    // rates below zero, now and then
    let (lo, hi) = if w(6) == 0 { (-0.02, 0.01) } else { (0.005, 0.06) };
    ix.into_iter().map(|i| (pts[i as usize], real(lo, hi))).collect()
}
pub struct Opt { pub insts: u64, pub surfaces: bool, pub midnight: bool }
impl World {
    pub fn random(o: Opt, m: u32) -> World {
        let dt = if o.midnight && w(3) == 0 { datetime!(2024-03-13 00:00:00 +09:00) } else { datetime!(2024-03-13 16:30:00 +09:00) } + Duration::days(w(400) as i64);
        let mut wd = World { dt, unds: vec![], curves: BTreeMap::new(), fx: BTreeMap::new(), fxvol: BTreeMap::new(), qcorr: BTreeMap::new(), fixings: BTreeMap::new(), funding: BTreeMap::new(), crs: BTreeMap::new(),
            index: BTreeMap::new(), issuer: BTreeMap::new(), insts: vec![], specs: BTreeMap::new(), cfg: Cfg::random(m), timed: w(4) == 0 };
        for n in ["COL-A", "COL-B", "KRWGOV", "CORP", "KOFR-C", "FUND-KRW", "FUND-USD", "CRS-KRW", "CRS-USD", "CRS-JPY", "CD91"] { wd.curves.insert(n.into(), rand_curve()); }
        for c in [KRW, USD, JPY] { wd.crs.insert(c, format!("CRS-{}", c.as_str())); }
        for c in [KRW, USD] { wd.funding.insert(c, format!("FUND-{}", c.as_str())); }
        if w(4) == 0 { wd.funding.insert(USD, "FUND-KRW".into()); }
        // the index code names the curve, the index name the published fixings
        wd.index.insert("CD91".into(), "CD91".into());
        wd.index.insert("KOFR".into(), if w(5) == 0 { "KRWGOV" } else { "KOFR-C" }.into());
        wd.issuer.insert(("Korea Gov".into(), KRW), "KRWGOV".into());
        wd.issuer.insert(("Bank".into(), KRW), if w(3) == 0 { "KRWGOV" } else { "CORP" }.into());
        wd.issuer.insert(("Bank".into(), USD), "CORP".into());
        let nu = 1 + w(3);
        let codes = ["KOSPI2", "SPX", "HSCEI"];
        for i in 0..nu as usize {
            let spot = logreal(1.0, 5000.0);
            let div = if w(4) == 0 { None } else {
                let k = 1 + w(4);
                let mut ds: BTreeSet<i64> = (0..k).map(|_| range(-60, 700)).collect();
                if w(4) == 0 { ds.insert(0); }
                if w(5) == 0 { ds = ds.into_iter().map(|d| -1 - d.abs()).collect(); } // every ex-date already past
                Some(ds.into_iter().map(|d| (dt.replace_time(time::Time::MIDNIGHT) + Duration::days(d), spot * real(0.001, 0.03))).collect())
            };
            let vol = if o.surfaces && w(3) == 0 {
                let (a, b) = (20 + w(60) as i64, 200 + w(200) as i64);
                Vol::Surface { days: vec![a, b, b + 400], strikes: [0.7f32, 0.9, 1.0, 1.1, 1.3].iter().map(|x| x * spot).collect(), vols: (0..3).map(|_| (0..5).map(|_| real(0.15, 0.45)).collect()).collect() }
            } else { Vol::Const(real(0.1, 0.6)) };
            let code = codes[i].to_string();
            wd.curves.insert(code.clone(), rand_curve());
            let bor = if w(6) == 0 && i > 0 { codes[0].to_string() } else { code.clone() };
            wd.unds.push(Und { code, ccy: if w(3) == 0 { USD } else { KRW }, spot, div, vol, coll: ["COL-A", "COL-B", "FUND-KRW"][w(3) as usize].into(), bor: bor });
        }
        for (i, u) in wd.unds.clone().iter().enumerate() { if u.bor != u.code { let c = wd.unds[0].code.clone(); wd.unds[i].bor = c; } }
        // currency levels against the won, quoted in any of the accepted ways
        let lv: BTreeMap<Currency, f32> = BTreeMap::from([(KRW, 1.0), (USD, real(1000.0, 1500.0)), (JPY, real(7.0, 12.0))]);
        for (a, b) in [(USD, KRW), (JPY, KRW), (USD, JPY)] {
            let v = lv[&a] / lv[&b];
            if b == KRW || w(3) == 0 {
                if w(3) == 0 && !(b == KRW && !wd.fx.contains_key(&fxs(USD, JPY)) && a == USD && w(2) == 0) { wd.fx.insert(fxs(b, a), 1.0 / v); } else { wd.fx.insert(fxs(a, b), v); }
            }
        }
        // both legs against the won must be there when the cross is not quoted
        if !wd.fx.contains_key("USDJPY") && !wd.fx.contains_key("JPYUSD") { for c in [USD, JPY] { if !wd.fx.contains_key(&fxs(c, KRW)) { let v = 1.0 / wd.fx.remove(&fxs(KRW, c)).unwrap(); wd.fx.insert(fxs(c, KRW), v); } } }
        for n in ["CD91", "KOFR RATE"] {
            let base = if w(6) == 0 { -0.01 } else { 0.03 };
            let mut f: HashMap<time::Date, f32> = (0..1200).map(|d| ((dt - Duration::days(d)).date(), base + (d % 17) as f32 * 0.0005)).collect();
            // days not published: the spot rate stands in for a fixing still running
            if w(3) == 0 { for _ in 0..1 + w(30) { f.remove(&(dt - Duration::days(w(60) as i64)).date()); } }
            wd.fixings.insert(n.into(), f);
        }
        for u in wd.unds.clone() { for (a, b) in [(USD, KRW), (KRW, USD)] { wd.fxvol.insert(fxs(a, b), real(0.05, 0.2)); wd.qcorr.insert((u.code.clone(), fxs(a, b)), real(-0.5, 0.5)); } }
        for i in 0..o.insts { let (x, spec) = wd.rand_inst(i); if wd.insts.iter().all(|y| y.get_code() != x.get_code()) { if let Some(s) = spec { wd.specs.insert(x.get_code().clone(), s); } wd.insts.push(x); } }
        wd
    }
    pub fn cal() -> JointCalendar { JointCalendar::new(vec![Calendar::SouthKorea(SouthKorea::new(SouthKoreaType::Settlement))]).unwrap() }
    pub fn maturity(&self) -> OffsetDateTime {
        // now and then around the end of a risk bucket
        if w(8) == 0 { let t = [&self.cfg.vt, &self.cfg.rt, &self.cfg.dtn][w(3) as usize]; let t = &t[w(t.len().min(3) as u64) as usize]; return quantlib::utils::string_arithmetic::add_period(&self.dt, t).replace_time(time::macros::time!(16:30)) + Duration::days(range(-2, 5)) }
        let d = match w(4) { 0 => 2 + w(40) as i64, 1 => 30 + w(200) as i64, _ => 60 + w(1200) as i64 }; self.dt.replace_time(time::macros::time!(16:30)) + Duration::days(d) }
    pub fn rand_inst(&self, i: u64) -> (Instrument, Option<Spec>) {
        let u = &self.unds[w(self.unds.len() as u64) as usize];
        let (start, mat) = (self.dt - Duration::days(30 + w(500) as i64), self.maturity());
        let code = format!("I{}", i);
        let unit = [1.0f32, 10.0, 250_000.0][w(3) as usize];
        let plain = |x: Instrument| (x, None);
        match weighted(W, &[2, 1, 4, 6, 5, 2, 2, 2, 2]) {
            0 => plain(Instrument::Stock(Stock::new(u.code.clone(), u.code.clone(), vec![u.code.clone()], u.ccy, None))),
            1 => plain(Instrument::Cash(Cash::new([KRW, USD][w(2) as usize], code.clone(), code))),
            2 => plain(Instrument::Futures(Futures::new(u.spot * real(0.9, 1.1), start, start, mat, mat, unit, u.ccy, u.ccy, u.code.clone(), code.clone(), code))),
            3 => plain(Instrument::VanillaOption(VanillaOption::new(u.spot * real(0.7, 1.3), unit, start, mat, mat, mat, vec![u.code.clone()], u.ccy, if w(4) == 0 { if u.ccy == KRW { USD } else { KRW } } else { u.ccy },
                if w(2) == 0 { OptionType::Call } else { OptionType::Put }, OptionExerciseType::European, if w(5) == 0 { OptionDailySettlementType::Settled } else { OptionDailySettlementType::NotSettled }, code.clone(), code))),
            4 => self.bond(i, code, start, mat),
            5 => { let (a, b) = [(USD, KRW), (JPY, KRW), (KRW, USD), (USD, JPY), (JPY, USD)][w(5) as usize]; plain(Instrument::FxFutures(FxFutures::new(self.fx_rate(a, b) as f32, start, mat, mat, mat, unit, b, a, code.clone(), code))) }
            k => self.swap(k - 6, i, code, start, mat),
        }
    }
    fn leg(&self, start: At, mat: At) -> Leg {
        Leg { start, mat, freq: [PaymentFrequency::Quarterly, PaymentFrequency::Quarterly, PaymentFrequency::SemiAnnually, PaymentFrequency::Annually, PaymentFrequency::Monthly][w(5) as usize], forward: w(3) != 0,
            conv: [BusinessDayConvention::ModifiedFollowing, BusinessDayConvention::ModifiedFollowing, BusinessDayConvention::Following, BusinessDayConvention::Unadjusted, BusinessDayConvention::ModifiedPreceding, BusinessDayConvention::Preceding][w(6) as usize],
            fgap: w(3) as i64, pgap: [0, 0, 1, 2][w(4) as usize],
            dc: [DayCountConvention::Actual365Fixed, DayCountConvention::Actual360, DayCountConvention::Actual364, DayCountConvention::Thirty360, DayCountConvention::StreetConvention, DayCountConvention::ActActIsda][w(6) as usize] }
    }
    fn floating(&self, spread: bool) -> Rate {
        let s = if spread { real(0.0, 0.01) as f64 } else { 0.0 };
        match w(6) {
            0 => Rate::Floating { series: "KOFR RATE".into(), index: "KOFR".into(), tenor: "1D".into(), comp: Some("1D".into()), spread: s },
            1 => Rate::Floating { series: "CD91".into(), index: "CD91".into(), tenor: "91D".into(), comp: Some(["1D", "1W", "1M"][w(3) as usize].into()), spread: s },
            _ => Rate::Floating { series: "CD91".into(), index: "CD91".into(), tenor: ["91D", "3M"][w(2) as usize].into(), comp: None, spread: s },
        }
    }
    fn bond(&self, i: u64, code: String, start: At, mat: At) -> (Instrument, Option<Spec>) {
        let mut leg = self.leg(start, mat);
        // month ends, where day counts and stepping differ
        if w(4) == 0 { leg.start = months(&leg.start.replace_day(1).unwrap(), 1) - Duration::days(1) }
        if w(6) == 0 { leg.mat = months(&leg.mat.replace_day(1).unwrap(), 1) - Duration::days(1) }
        let (start, mat) = (leg.start, leg.mat);
        let rate = if w(3) == 0 { self.floating(true) } else { Rate::Fixed(real(0.0, 0.06) as f64) };
        let ((name, ccy), _) = self.issuer.iter().nth(w(self.issuer.len() as u64) as usize).unwrap();
        let (unit, strip) = ([1.0f32, 10_000.0][w(2) as usize], w(8) == 0);
        // settled some days on; not before the theta date, so that every revaluation sees the same payments
        let pricing = if w(6) == 0 && matches!(rate, Rate::Fixed(_)) { Some(self.dt + Duration::days(self.cfg.theta as i64 + 1 + w(3) as i64)) } else { None };
        let (fixed, spread, idx, comp) = args(&rate);
        let mut periods = leg.periods();
        let given = w(6) == 0 && periods.iter().all(|p| p.end > p.start);
        let b = if given {
            for p in periods.iter_mut() { if w(4) != 0 { p.given = Some(real(0.0, 0.05) as f64) } }
            Bond::new(IssuerType::Government, CreditRating::None, name.clone(), RankType::Senior, *ccy, unit, strip, schedule(&periods), fixed, spread, idx, comp, start, start, pricing, mat, Self::cal(), leg.dc, leg.conv, leg.freq, leg.pgap, leg.fgap, code.clone(), code)
        } else {
            Bond::new_from_conventions(IssuerType::Government, CreditRating::None, name.clone(), RankType::Senior, *ccy, unit, strip, start, start, pricing, mat, fixed, spread, idx, comp,
                Self::cal(), leg.forward, leg.dc, leg.conv, leg.freq, leg.fgap, leg.pgap, code.clone(), code)
        };
        match b { Ok(b) => (Instrument::Bond(b), Some(Spec::Bond { leg, periods, rate, strip, pricing })), Err(e) => self.unbuilt(i, &[&periods], &e) }
    }
    /// 0 currency swap, 1 interest rate swap, 2 fx swap, forward or spot
    fn swap(&self, kind: usize, i: u64, code: String, start: At, mat: At) -> (Instrument, Option<Spec>) {
        let unit = [1.0f32, 100.0][w(2) as usize];
        let (a, b) = if kind == 1 { (KRW, KRW) } else { [(KRW, USD), (KRW, USD), (KRW, JPY), (USD, KRW), (USD, JPY)][w(5) as usize] };
        let k = if a == b { 1.0 } else { self.fx_rate(b, a) as f32 };
        let m = [1.0f32, 1.0, 0.5, 20.0][w(4) as usize];
        let amounts = |on: bool| -> [Option<f32>; 2] { if on { [Some(k * m * [1.0f32, 1.0, 0.97][w(3) as usize]), Some(m)] } else { [None, None] } };
        let mut start = if w(2) == 0 { self.dt + Duration::days(1 + w(10) as i64) } else { start };
        if w(8) == 0 { start = self.dt }
        let wide = |x: [Option<f32>; 2]| [x[0].map(|v| v as f64), x[1].map(|v| v as f64)];
        if kind == 2 {
            let spot = w(3) == 0;
            let mat = if spot { self.dt + Duration::days(1 + w(2) as i64) } else { mat + Duration::days(20) };
            let (first, last) = (amounts(!spot && w(2) == 0), amounts(true));
            let s = PlainSwap::new(Default::default(), Default::default(), None, None, None, Self::cal(), unit, if spot { self.dt } else { start.min(self.dt) }, start, mat, a, b, first[0], first[1], last[0], last[1],
                DayCountConvention::Dummy, DayCountConvention::Dummy, BusinessDayConvention::Dummy, BusinessDayConvention::Dummy, PaymentFrequency::None, PaymentFrequency::None, 0, 0, code.clone(), code);
            let none = || Rate::Fixed(0.0);
            return match s { Ok(s) => (Instrument::PlainSwap(s), Some(Spec::Swap { start, mat, fixed: None, floating: None, fix: none(), flo: none(), first: wide(first), last: wide(last) })), Err(e) => violate("refused", format!("a currency contract: {:#}", e)) };
        }
        let mat = mat + Duration::days(100);
        let (x, mut y) = (self.leg(start, mat), self.leg(start, mat));
        (y.fgap, y.pgap, y.forward) = (x.fgap, x.pgap, x.forward);
        let (fix, flo) = (Rate::Fixed(real(0.0, 0.06) as f64), self.floating(false));
        let ((rate, ..), (_, _, idx, comp)) = (args(&fix), args(&flo));
        let (first, last) = (amounts(kind == 0), amounts(kind == 0));
        let (p, q) = (x.periods(), y.periods());
        let s = if w(4) == 0 && p.iter().chain(&q).all(|p| p.end > p.start) {
            PlainSwap::new(schedule(&p), schedule(&q), rate, idx, comp, Self::cal(), unit, start, start, mat, a, b, first[0], first[1], last[0], last[1], x.dc, y.dc, x.conv, y.conv, x.freq, y.freq, x.fgap, x.pgap, code.clone(), code)
        } else {
            PlainSwap::new_from_conventions(a, b, first[0], first[1], last[0], last[1], unit, start, start, mat, rate, idx, comp, x.forward, x.dc, y.dc, x.conv, y.conv, x.freq, y.freq, x.fgap, x.pgap, Self::cal(), code.clone(), code)
        };
        match s { Ok(s) => (Instrument::PlainSwap(s), Some(Spec::Swap { start, mat, fixed: Some((x, p)), floating: Some((y, q)), fix, flo, first: wide(first), last: wide(last) })), Err(e) => self.unbuilt(i, &[&p, &q], &e) }
    }
    /// A last period that the calendar shrinks to nothing is refused: another instrument instead.
    fn unbuilt(&self, i: u64, ps: &[&Vec<Period>], e: &anyhow::Error) -> (Instrument, Option<Spec>) {
        if ps.iter().all(|p| p.iter().all(|p| p.end > p.start)) { violate("refused", format!("{:?}: {:#}", ps, e)) }
        self.rand_inst(i)
    }
    // ---- the library's inputs -------------------------------------------------------------------
    pub fn vec_data(&self, name: &str, pts: &[(OffsetDateTime, f32)]) -> VectorData {
        VectorData::new(Array1::from_iter(pts.iter().map(|p| p.1)), Some(pts.iter().map(|p| p.0).collect()), None, Some(self.dt), KRW, name.into(), name.into()).unwrap_or_else(|e| harness_error(format!("{}", e)))
    }
    fn val(&self, name: &str, v: f32) -> ValueData { ValueData::new(v, Some(self.dt), KRW, name.into(), name.into()).unwrap() }
    pub fn curve_data(&self, name: &str) -> VectorData {
        let pts: Vec<(OffsetDateTime, f32)> = self.curves[name].iter().map(|p| (self.dt + Duration::days(p.0), p.1)).collect();
        if !self.timed { return self.vec_data(name, &pts) }
        let times = Array1::from_iter(pts.iter().map(|p| NullCalendar::default().get_time_difference(&self.dt, &p.0)));
        VectorData::new(Array1::from_iter(pts.iter().map(|p| p.1)), None, Some(times), if w(2) == 0 { None } else { Some(self.dt) }, KRW, name.into(), name.into()).unwrap_or_else(|e| harness_error(format!("{}", e)))
    }
    pub fn mp(&self) -> MatchParameter {
        MatchParameter::new(self.unds.iter().filter(|u| !u.coll.is_empty()).map(|u| (u.code.clone(), u.coll.clone())).collect(), self.unds.iter().filter(|u| !u.bor.is_empty()).map(|u| (u.code.clone(), u.bor.clone())).collect(),
            self.issuer.iter().map(|((n, c), v)| ((n.clone(), IssuerType::Government, CreditRating::None, *c), v.clone())).collect(),
            self.crs.iter().map(|(k, v)| (*k, v.clone())).collect(), self.index.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), self.funding.iter().map(|(k, v)| (*k, v.clone())).collect())
    }
    pub fn data(&self) -> Data {
        let code = |s: &str| FxCode::from(s);
        Data {
            fx: self.fx.iter().map(|(k, v)| (code(k), self.val(k, *v))).collect(),
            stock: self.unds.iter().map(|u| (u.code.clone(), ValueData::new(u.spot, Some(self.dt), u.ccy, u.code.clone(), u.code.clone()).unwrap())).collect(),
            curve: self.curves.keys().map(|k| (k.clone(), self.curve_data(k))).collect(),
            div: self.unds.iter().filter_map(|u| u.div.as_ref().map(|d| (u.code.clone(), self.vec_data(&u.code, d)))).collect(),
            cvol: self.unds.iter().filter_map(|u| if let Vol::Const(v) = u.vol { Some((u.code.clone(), self.val(&u.code, v))) } else { None }).collect(),
            surf: self.unds.iter().filter_map(|u| if let Vol::Surface { days, strikes, vols } = &u.vol {
                Some((u.code.clone(), SurfaceData::new(Some(strikes[2]), Array2::from_shape_fn((days.len(), strikes.len()), |(i, j)| vols[i][j]), days.iter().map(|d| self.dt + Duration::days(*d)).collect(), Array1::from(strikes.clone()), Some(self.dt), u.ccy, u.code.clone(), u.code.clone())))
            } else { None }).collect(),
            fxvol: self.fxvol.iter().map(|(k, v)| (code(k), self.val(k, *v))).collect(),
            qcorr: self.qcorr.iter().map(|((u, k), v)| ((u.clone(), code(k)), self.val(k, *v))).collect(),
            past: self.fixings.iter().map(|(k, v)| (k.clone(), DailyValueData::new(v.clone(), time::macros::time!(15:40), time::macros::offset!(+9), Calendar::SouthKorea(SouthKorea::new(SouthKoreaType::Settlement)), k.clone(), k.clone()))).collect(),
        }
    }
    /// One engine, run in the calling thread.
    pub fn engine(&self, insts: &[Instrument], cfg: &Cfg) -> anyhow::Result<Res> { let d = self.data(); self.engine_on(insts, cfg, d) }
    pub fn engine_on(&self, insts: &[Instrument], cfg: &Cfg, d: Data) -> anyhow::Result<Res> {
        let mut e = self.engine_of(insts, cfg, d)?;
        e.calculate()?;
        Ok(e.get_calculation_result_clone())
    }
    pub fn engine_of(&self, insts: &[Instrument], cfg: &Cfg, d: Data) -> anyhow::Result<Engine> {
        let e = Engine::builder(99, cfg.build(), self.dt, self.mp()).with_instruments(insts.to_vec())?;
        let mut e = e.with_parameter_data(Arc::new(d.fx), Arc::new(d.stock), Arc::new(d.curve), Arc::new(d.div), Arc::new(d.cvol), Arc::new(d.surf), Arc::new(d.fxvol), Arc::new(d.qcorr), Arc::new(d.past))?;
        e.initialize_pricers()?;
        Ok(e)
    }
    /// The whole calculation, one engine per group, in rayon's threads.
    pub fn generator(&self, cats: Vec<InstrumentCategory>, cfg: &Cfg, d: Data) -> EngineGenerator {
        let mut g = EngineGenerator::builder();
        g.with_instrument_categories(cats).unwrap();
        self.load_with(&mut g, cfg, d);
        g
    }
    pub fn load(&self, g: &mut EngineGenerator, d: Data) { let cfg = self.cfg.clone(); self.load_with(g, &cfg, d) }
    fn load_with(&self, g: &mut EngineGenerator, cfg: &Cfg, d: Data) {
        g.with_configuration(cfg.build(), self.dt, self.mp()).unwrap();
        g.with_instruments(Instruments::new(self.insts.iter().cloned().map(Rc::new).collect())).unwrap();
        g.with_data(d.fx, d.stock, d.curve, d.div, d.cvol, d.surf, d.fxvol, d.qcorr, d.past).unwrap();
    }
    pub fn generate(&self, cats: Vec<InstrumentCategory>, cfg: &Cfg, d: Data) -> anyhow::Result<Res> {
        let mut g = self.generator(cats, cfg, d);
        g.distribute_instruments()?;
        g.calculate()?;
        Ok(g.get_calculation_results().clone())
    }
    // ---- the same market, changed ---------------------------------------------------------------
    /// The next marks of the same market.
    pub fn remark(&mut self) {
        for u in self.unds.iter_mut() {
            u.spot *= real(0.9, 1.1);
            if let Vol::Const(v) = &mut u.vol { *v = real(0.1, 0.6) }
        }
        for v in self.curves.values_mut() { for p in v.iter_mut() { p.1 += real(-0.004, 0.004) } }
        let s = real(0.95, 1.05);
        if self.fx.len() == 2 { for (k, v) in self.fx.iter_mut() { if k.contains("USD") { *v *= s } } }
    }
    pub fn moved_spot(&self, code: &str, k: f32) -> World {
        let mut wd = self.clone();
        for u in wd.unds.iter_mut().filter(|u| u.code == code) { u.spot *= k; for d in u.div.iter_mut().flatten() { d.1 *= k } if let Vol::Surface { .. } = u.vol { } }
        wd
    }
    pub fn moved_vol(&self, code: &str, b: f32) -> World {
        let mut wd = self.clone();
        for u in wd.unds.iter_mut().filter(|u| u.code == code) { match &mut u.vol { Vol::Const(v) => *v += b, Vol::Surface { vols, .. } => for r in vols.iter_mut() { for v in r.iter_mut() { *v += b } } } }
        wd
    }
    /// What pricing the instrument cannot do without.
    pub fn needs(&self, i: &Instrument) -> Vec<Drop> {
        let mut v = vec![Drop::Expire(i.get_code().clone())];
        if i.get_maturity().is_none() { v.clear() }
        let curve = |n: &String| Drop::Curve(n.clone());
        let und = |v: &mut Vec<Drop>| for c in i.get_underlying_codes() { let u = self.und(c); v.extend([curve(&u.coll), curve(&u.bor), Drop::Stock(c.clone()), Drop::CollMap(c.clone()), Drop::BorMap(c.clone())]) };
        match i {
            Instrument::Stock(_) => v.push(Drop::Stock(i.get_code().clone())),
            Instrument::Futures(_) => und(&mut v),
            Instrument::VanillaOption(_) => {
                und(&mut v);
                let c = i.get_underlying_codes()[0].clone();
                let u = self.und(&c);
                if !settled(i) { v.extend([curve(&self.funding[i.get_currency()]), Drop::FundMap(*i.get_currency())]) }
                v.push(Drop::Vol(c.clone()));
                if *i.get_currency() != u.ccy { let p = fxs(u.ccy, *i.get_currency()); v.extend([Drop::FxVol(p.clone()), Drop::QCorr(c, p)]) }
            }
            Instrument::Bond(_) => v.extend([curve(&self.bond_curve(i)), Drop::IssuerMap(i.get_issuer_name().unwrap().clone(), *i.get_currency())]),
            Instrument::FxFutures(_) => { let (a, b) = (*i.get_underlying_currency().unwrap(), *i.get_currency()); v.extend([Drop::Fx, curve(&self.crs[&a]), curve(&self.crs[&b]), Drop::CrsMap(a), Drop::CrsMap(b)]) }
            Instrument::PlainSwap(_) if i.get_type_name() == "IRS" => {}
            Instrument::PlainSwap(_) => { let (a, b) = (*i.get_fixed_leg_currency().unwrap(), *i.get_floating_leg_currency().unwrap()); v.extend([Drop::Fx, curve(&self.crs[&a]), curve(&self.crs[&b]), Drop::CrsMap(a), Drop::CrsMap(b)]) }
            _ => {}
        }
        if let Ok(Some(x)) = i.get_rate_index() { v.extend([curve(&self.index[x.get_code()]), Drop::IndexMap(x.get_code().clone()), Drop::Fixings(x.get_name().clone())]); }
        v
    }
    pub fn withhold(&mut self, what: &Drop, d: &mut Data) {
        match what {
            Drop::Nothing => {}
            Drop::Div(c) => { d.div.remove(c); for u in self.unds.iter_mut().filter(|u| u.code == *c) { u.div = None } }
            Drop::Curve(c) => { d.curve.remove(c); }
            Drop::Stock(c) => { d.stock.remove(c); }
            Drop::Vol(c) => { d.cvol.remove(c); d.surf.remove(c); }
            Drop::FxVol(p) => { d.fxvol.remove(&FxCode::from(p.as_str())); }
            Drop::QCorr(c, p) => { d.qcorr.remove(&(c.clone(), FxCode::from(p.as_str()))); }
            Drop::Fx => d.fx.clear(),
            Drop::Fixings(c) => { d.past.remove(c); }
            Drop::CollMap(c) => for u in self.unds.iter_mut().filter(|u| u.code == *c) { u.coll.clear() },
            Drop::BorMap(c) => for u in self.unds.iter_mut().filter(|u| u.code == *c) { u.bor.clear() },
            Drop::FundMap(c) => { self.funding.remove(c); }
            Drop::CrsMap(c) => { self.crs.remove(c); }
            Drop::IndexMap(n) => { self.index.remove(n); }
            Drop::IssuerMap(n, c) => { self.issuer.remove(&(n.clone(), *c)); }
            Drop::Expire(code) => {
                let k = self.insts.iter().position(|i| i.get_code() == code).unwrap();
                // the calculation is run on or after the day the instrument has matured
                self.dt = *self.insts[k].get_maturity().unwrap() + Duration::minutes(range(0, 3) * 200);
                *d = self.data();
            }
        }
    }
    // ---- the independent valuation ----------------------------------------------------------------
    pub fn und(&self, code: &str) -> &Und { self.unds.iter().find(|u| u.code == code).unwrap_or_else(|| harness_error(format!("no underlying {}", code))) }
    pub fn fx_rate(&self, a: Currency, b: Currency) -> f64 {
        if let Some(v) = self.fx.get(&fxs(a, b)) { return *v as f64; }
        if let Some(v) = self.fx.get(&fxs(b, a)) { return 1.0 / *v as f64; }
        self.fx.get(&fxs(a, KRW)).copied().unwrap_or_else(|| harness_error("fx")) as f64 / self.fx[&fxs(b, KRW)] as f64
    }
    pub fn nodes(&self) -> Vec<f64> {
        ["0D", "1D", "1W", "2W", "1M", "2M", "3M", "4M", "5M", "6M", "9M", "1Y", "1Y6M", "2Y", "2Y6M", "3Y", "4Y", "5Y", "6Y", "7Y", "8Y", "9Y", "10Y", "12Y", "15Y", "20Y", "30Y", "50Y", "100Y"]
            .iter().map(|p| yf(&self.dt, &add_period(&self.dt, p))).collect()
    }
    fn df(&self, nodes: &[f64], name: &str, t: f64, b: &Bump) -> f64 {
        let pts: Vec<(f64, f64)> = self.curves[name].iter().map(|p| (yf(&self.dt, &(self.dt + Duration::days(p.0))), p.1 as f64)).collect();
        let rate = |t: f64| -> f64 {
            if t <= pts[0].0 { return pts[0].1; }
            for k in 1..pts.len() { if t <= pts[k].0 { let (a, b) = (pts[k - 1], pts[k]); return a.1 + (b.1 - a.1) * (t - a.0) / (b.0 - a.0); } }
            pts[pts.len() - 1].1
        };
        let at = |k: usize| { let x = nodes[k]; let r = rate(x) + match &b.curve { Some((c, lo, hi, v)) if c == name && x > *lo && x <= *hi => *v, _ => 0.0 }; (-r * x).exp() };
        let k = nodes.partition_point(|x| *x < t).max(1).min(nodes.len() - 1);
        let (x0, x1) = (nodes[k - 1], nodes[k]);
        let (y0, y1) = (at(k - 1), at(k));
        y0 + (y1 - y0) * (t - x0) / (x1 - x0)
    }
    /// (spot, deduction ratio up to a date) of an underlying seen from the bumped evaluation date
    pub fn spot_ded(&self, u: &Und, mat: &OffsetDateTime, b: &Bump) -> (f64, f64) {
        let eval = b.eval.unwrap_or(self.dt);
        let (mut s, mut ded) = (u.spot as f64, 1.0);
        for (d, a) in u.div.iter().flatten() {
            let mut a = *a as f64;
            if let Some((c, lo, hi, v)) = &b.div { if *c == u.code && ymd(d) > *lo && ymd(d) <= *hi { a += v; } }
            let y = a / u.spot as f64;
            if *d <= self.dt { continue; }
            if *d <= eval { s *= 1.0 - y } else if ymd(d) <= ymd(mat) { ded *= 1.0 - y }
        }
        if let Some((c, k)) = &b.spot { if *c == u.code { s *= k; } }
        (s, ded)
    }
    pub fn flows(&self, i: &Instrument, b: &Bump) -> (Vec<(At, f64)>, Vec<(At, f64)>) {
        let Some(spec) = self.specs.get(i.get_code()) else { return (vec![], vec![]) };
        let (eval, nodes) = (b.eval.unwrap_or(self.dt), self.nodes());
        let view = View { df: &|c, t| self.df(&nodes, c, t, b), time: &|d| yf(&eval, d), fixing: &|s, d| self.fixings[s].get(&d).map(|x| *x as f64) };
        contract::flows(spec, &eval, &view, &|x| self.index[x].clone())
    }
    /// The curves a swap's two sides are discounted on.
    pub fn swap_curves(&self, i: &Instrument) -> (String, String) {
        if i.get_type_name() == "IRS" { let c = self.index[i.get_rate_index().unwrap().unwrap().get_code()].clone(); return (c.clone(), c); }
        (self.crs[i.get_fixed_leg_currency().unwrap()].clone(), self.crs[i.get_floating_leg_currency().unwrap()].clone())
    }
    pub fn bond_curve(&self, i: &Instrument) -> String { self.issuer[&(i.get_issuer_name().unwrap().clone(), *i.get_currency())].clone() }
    /// The value of one unit; None where the volatility is a quoted surface.
    pub fn value(&self, i: &Instrument, b: &Bump) -> Option<f64> {
        let eval = b.eval.unwrap_or(self.dt);
        let nodes = self.nodes();
        let df = |c: &str, d: &OffsetDateTime| self.df(&nodes, c, yf(&eval, d), b);
        let fwd = |u: &Und, m: &OffsetDateTime| { let (s, ded) = self.spot_ded(u, m, b); s * df(&u.bor, m) / df(&u.coll, m) * ded };
        Some(match i {
            Instrument::Stock(_) => self.spot_ded(self.und(i.get_code()), &eval, b).0,
            Instrument::Cash(_) => 1.0,
            Instrument::Futures(_) => fwd(self.und(i.get_underlying_codes()[0]), i.get_maturity().unwrap()),
            Instrument::FxFutures(_) => {
                let (a, c, m) = (*i.get_underlying_currency().unwrap(), *i.get_currency(), i.get_maturity().unwrap());
                self.fx_rate(a, c) * df(&self.crs[&a], m) / df(&self.crs[&c], m)
            }
            Instrument::VanillaOption(_) => {
                let (u, m, k) = (self.und(i.get_underlying_codes()[0]), i.get_maturity().unwrap(), i.get_strike().unwrap() as f64);
                let vol = match u.vol { Vol::Const(v) => v as f64, _ => return None } + match &b.vol { Some((c, v)) if *c == u.code => *v, _ => 0.0 };
                let (f, t, dsc) = (fwd(u, m), yf(&eval, m), if settled(i) { 1.0 } else { df(&self.funding[i.get_currency()], m) });
                let q = if i.get_currency() == &u.ccy { 0.0 } else { let p = fxs(u.ccy, *i.get_currency()); vol * t * self.fxvol[&p] as f64 * self.qcorr[&(u.code.clone(), p)] as f64 };
                let sd = vol * t.sqrt();
                let (n1, n2) = if sd < 1e-12 { let x = if f > k { 1.0 } else { 0.0 }; (x, x) } else { let d1 = (-(k / f).ln() + sd * sd / 2.0 - q) / sd; (phi(d1), phi(d1 - sd)) };
                match i.get_option_type().unwrap() { OptionType::Call => dsc * (f * n1 - k * n2), OptionType::Put => dsc * (k * (1.0 - n2) - f * (1.0 - n1)) }
            }
            Instrument::Bond(_) => {
                let c = self.bond_curve(i);
                let at = match self.specs.get(i.get_code()) { Some(Spec::Bond { pricing: Some(p), .. }) => *p, _ => eval };
                self.flows(i, b).0.iter().filter(|x| x.0.date() > at.date()).map(|x| x.1 * df(&c, &x.0)).sum::<f64>() / df(&c, &at)
            }
            Instrument::PlainSwap(_) => {
                let (fix, flo) = self.flows(i, b);
                let leg = |v: &[(OffsetDateTime, f64)], c: &str| v.iter().filter(|x| x.0.date() > eval.date()).map(|x| x.1 * df(c, &x.0)).sum::<f64>();
                let (c1, c2) = self.swap_curves(i);
                leg(&fix, &c1) + leg(&flo, &c2) * self.swap_rate(i)
            }
            _ => return None,
        })
    }
    /// What one unit of the floating side's currency is worth on the fixed side.
    pub fn swap_rate(&self, i: &Instrument) -> f64 { let (a, b) = (*i.get_fixed_leg_currency().unwrap(), *i.get_floating_leg_currency().unwrap()); if a == b { 1.0 } else { self.fx_rate(b, a) } }
    /// Currency by currency, the value that moves with it.
    pub fn exposure(&self, i: &Instrument) -> Option<BTreeMap<Currency, f64>> {
        let b = Bump::default();
        let nodes = self.nodes();
        let df = |c: &str, d: &OffsetDateTime| self.df(&nodes, c, yf(&self.dt, d), &b);
        let u = i.get_unit_notional() as f64;
        let v = self.value(i, &b)?;
        let mut m = BTreeMap::new();
        match i {
            Instrument::Futures(_) => { m.insert(*i.get_currency(), (v - i.get_average_trade_price() as f64) * u); }
            Instrument::FxFutures(_) => {
                let (a, c, t) = (*i.get_underlying_currency().unwrap(), *i.get_currency(), i.get_maturity().unwrap());
                // per unit of the underlying currency, as the library's own tests have it
                m.insert(c, -df(&self.crs[&c], t) * i.get_average_trade_price() as f64);
                m.insert(a, df(&self.crs[&a], t));
            }
            Instrument::PlainSwap(_) => {
                let (fix, flo) = self.flows(i, &b);
                let leg = |v: &[(OffsetDateTime, f64)], c: &str| v.iter().filter(|x| x.0.date() > self.dt.date()).map(|x| x.1 * df(c, &x.0)).sum::<f64>() * u;
                let (c1, c2) = self.swap_curves(i);
                for (c, x) in [(*i.get_fixed_leg_currency().unwrap(), leg(&fix, &c1)), (*i.get_floating_leg_currency().unwrap(), leg(&flo, &c2))] { *m.entry(c).or_default() += x }
            }
            _ => { m.insert(*i.get_currency(), v * u); }
        }
        Some(m)
    }
    /// The size of the numbers single-precision rounding acts on when the instrument is valued.
    pub fn scale(&self, i: &Instrument) -> f64 {
        match i {
            Instrument::Stock(_) | Instrument::Futures(_) => self.und(i.get_underlying_codes()[0]).spot as f64 * 3.0,
            Instrument::VanillaOption(_) => self.und(i.get_underlying_codes()[0]).spot as f64 * 6.0,
            Instrument::FxFutures(_) => self.fx_rate(*i.get_underlying_currency().unwrap(), *i.get_currency()) * 2.0,
            Instrument::Bond(_) | Instrument::PlainSwap(_) => self.specs.get(i.get_code()).map_or(1.0, roughness),
            _ => 1.0,
        }
    }
    /// The curves an instrument's value may depend on, as the match parameter names them.
    pub fn curve_names(&self, i: &Instrument) -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        for u in i.get_underlying_codes() { s.insert(self.und(u).coll.clone()); }
        match i {
            Instrument::VanillaOption(_) => if !settled(i) { s.insert(self.funding[i.get_currency()].clone()); },
            Instrument::Bond(_) => { s.insert(self.bond_curve(i)); }
            Instrument::FxFutures(_) => { s.insert(self.crs[i.get_currency()].clone()); s.insert(self.crs[i.get_underlying_currency().unwrap()].clone()); }
            Instrument::PlainSwap(_) => { let (a, b) = self.swap_curves(i); s.extend([a, b]) }
            _ => {}
        }
        if let Ok(Some(x)) = i.get_rate_index() { s.insert(self.index[x.get_code()].clone()); }
        s
    }
    pub fn random_categories(&self, total: bool) -> Vec<InstrumentCategory> {
        let mut v = vec![];
        let types: BTreeSet<String> = self.insts.iter().map(|i| i.get_type_name().to_string()).collect();
        let types: Vec<String> = types.into_iter().collect();
        for _ in 0..w(6) {
            let t = if w(2) == 0 { let k = 1 + w(types.len() as u64); Some(subset(types.len() as u64, k).into_iter().map(|i| types[i as usize].clone()).collect()) } else { None };
            let c = if w(3) == 0 { Some(vec![[KRW, USD][w(2) as usize]]) } else { None };
            let mut u = if w(3) == 0 { Some(vec![self.unds[w(self.unds.len() as u64) as usize].code.clone()]) } else { None };
            // a list of codes stands for instruments on just these, not on one of them
            if let Some(u) = &mut u { if w(3) == 0 { let x = self.unds[w(self.unds.len() as u64) as usize].code.clone(); if u[0] != x { let at = w(2) as usize; u.insert(at, x) } } }
            v.push(InstrumentCategory::new(t, c, u));
        }
        if total { v.push(InstrumentCategory::new(None, None, None)); }
        v
    }
    /// The groups the documented rule makes: each instrument with the first category that fits it.
    pub fn groups(&self, cats: &[InstrumentCategory]) -> (Vec<Vec<usize>>, Vec<usize>) {
        let fits = |c: &InstrumentCategory, i: &Instrument| {
            let (ty, cu, un) = (i.get_type_name().to_string(), i.get_currency(), i.get_underlying_codes());
            c.type_names.as_ref().map_or(true, |v| v.contains(&ty)) && c.currency.as_ref().map_or(true, |v| v.contains(cu)) && c.underlying_codes.as_ref().map_or(true, |v| un.is_empty() || v.iter().collect::<Vec<_>>() == un)
        };
        let mut g = vec![vec![]; cats.len()];
        let mut left = vec![];
        for (n, i) in self.insts.iter().enumerate() { match cats.iter().position(|c| fits(c, i)) { Some(k) => g[k].push(n), None => left.push(n) } }
        g.retain(|v| !v.is_empty());
        (g, left)
    }
}
pub fn settled(i: &Instrument) -> bool { matches!(i.get_option_daily_settlement_type(), Ok(OptionDailySettlementType::Settled)) }
fn args(r: &Rate) -> (Option<f32>, Option<f32>, Option<RateIndex>, Option<String>) {
    match r {
        Rate::Fixed(c) => (Some(*c as f32), None, None, None),
        Rate::Floating { series, index, tenor, comp, spread } => (None, Some(*spread as f32), Some(RateIndex::new(tenor.clone(), KRW, series.clone(), index.clone()).unwrap()), comp.clone()),
    }
}
#[derive(Clone, Debug)]
pub enum Drop {
    Nothing, Div(String), Curve(String), Stock(String), Vol(String), FxVol(String), QCorr(String, String), Fx, Fixings(String),
    CollMap(String), BorMap(String), FundMap(Currency), CrsMap(Currency), IndexMap(String), IssuerMap(String, Currency), Expire(String),
}
#[derive(Clone)]
pub struct Data {
    pub fx: HashMap<FxCode, ValueData>, pub stock: HashMap<String, ValueData>, pub curve: HashMap<String, VectorData>, pub div: HashMap<String, VectorData>, pub cvol: HashMap<String, ValueData>,
    pub surf: HashMap<String, SurfaceData>, pub fxvol: HashMap<FxCode, ValueData>, pub qcorr: HashMap<(String, FxCode), ValueData>, pub past: HashMap<String, DailyValueData>,
}
/// Standard normal distribution function (W. J. Cody's erfc by continued fraction and series).
pub fn phi(x: f64) -> f64 {
    let z = x.abs() / std::f64::consts::SQRT_2;
    let erfc = if z < 2.5 {
        let (mut t, mut s, mut n) = (z, z, 0.0);
        while t.abs() > 1e-17 * s.abs() + 1e-300 { n += 1.0; t *= -z * z / n; s += t / (2.0 * n + 1.0); if n > 300.0 { break; } }
        1.0 - 2.0 / std::f64::consts::PI.sqrt() * s
    } else {
        let mut f = 0.0;
        for k in (1..60).rev() { f = k as f64 / 2.0 / (z + f); }
        (-z * z).exp() / std::f64::consts::PI.sqrt() / (z + f)
    };
    if x > 0.0 { 1.0 - erfc / 2.0 } else { erfc / 2.0 }
}
