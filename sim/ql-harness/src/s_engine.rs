//! Q01 parallel calculation, Q02 missing data, Q03 risk measures, Q06 prices.
use crate::require;
use crate::util::*;
use crate::world::*;
use ndarray::Array2;
use quantlib::instrument::{Instrument, InstrumentTrait};
use quantlib::pricing_engines::calculation_result::CalculationResult;
use simos::runner::{Prop, Scenario};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use time::{Duration, OffsetDateTime};

// ---- seams -------------------------------------------------------------------------------------------
/// The library's log events are scheduling points.
struct Tap;
impl tracing::Subscriber for Tap {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool { true }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id { point("log", 0); tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, _: &tracing::Event<'_>) { point("log", 0) }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
pub fn pool(n: usize) {
    swarm_sched();
    let _ = tracing::subscriber::set_global_default(Tap);
    if let Err(e) = rayon::ThreadPoolBuilder::new().num_threads(n).build_global() { harness_error(format!("{}", e)) }
}
pub fn err(e: &anyhow::Error) -> String { let s = format!("{:#}", e).replace('\n', " "); s.chars().take(900).collect() }
pub fn guarded<T>(what: &str, f: impl FnOnce() -> anyhow::Result<T>) -> anyhow::Result<T> {
    match catch(f) { Ok(r) => r, Err(p) => violate("panic", format!("{}: {}", what, p)) }
}

// ---- comparing results -------------------------------------------------------------------------------
/// How far two evaluations of one measure may lie apart in single precision.
pub struct Tol { pub npv: f64, pub unit: f64, pub exp: f64, pub cfg: Cfg }
impl Tol {
    pub fn new(wd: &World, i: &Instrument, cfg: &Cfg, k: f64) -> Tol { Tol { npv: k * EPS * wd.scale(i), unit: i.get_unit_notional() as f64, exp: if matches!(i, Instrument::PlainSwap(_)) { (1.0 / wd.swap_rate(i)).max(1.0) } else { 1.0 }, cfg: cfg.clone() } }
    fn fd(&self, bump: f32, unit: f64) -> f64 { self.npv * self.unit * 2.0 / bump as f64 * unit }
    pub fn value(&self) -> f64 { self.npv * self.unit }
    pub fn delta(&self) -> f64 { self.fd(self.cfg.delta, 0.01) }
    pub fn gamma(&self) -> f64 { let r = 0.01 / self.cfg.delta as f64; 2.0 * self.npv * self.unit * r * r }
    pub fn vega(&self) -> f64 { self.fd(self.cfg.vega, 0.01) }
    pub fn vstr(&self) -> f64 { self.fd(self.cfg.vstruct, 0.01) }
    pub fn rho(&self) -> f64 { self.fd(self.cfg.rho, 1e-4) }
    pub fn div(&self) -> f64 { self.fd(self.cfg.div, 1e-4) }
}
fn near(a: f64, b: f64, t: f64) -> bool { a.is_finite() && b.is_finite() && (a - b).abs() <= t + 1e-6 * b.abs() }
fn map1<K: Ord + Clone, V: Clone>(m: Option<&HashMap<K, V>>) -> BTreeMap<K, V> { m.map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default() }
/// The first measure on which two results differ, if any.
pub fn differ(a: &CalculationResult, b: &CalculationResult, t: &Tol, theta: bool) -> Option<String> { differ_on(a, b, t, if theta { M_ALL } else { M_ALL & !M_THETA }) }
pub fn differ_on(a: &CalculationResult, b: &CalculationResult, t: &Tol, bits: u32) -> Option<String> {
    let on = |b: u32| bits & b != 0;
    let scalar = |n: &str, x: Option<f32>, y: Option<f32>, tol: f64| match (x, y) { (None, None) => None, (Some(x), Some(y)) if near(x as f64, y as f64, tol) => None, _ => Some(format!("{} {:?} and {:?} (tolerance {})", n, x, y, tol)) };
    fn one<K: Ord + Clone + std::fmt::Debug + std::hash::Hash>(n: &str, x: Option<&HashMap<K, f32>>, y: Option<&HashMap<K, f32>>, tol: f64) -> Option<String> {
        let (x, y) = (map1(x), map1(y));
        if x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |u| near(*v as f64, *u as f64, tol))) { None } else { Some(format!("{} {:?} and {:?} (tolerance {})", n, x, y, tol)) }
    }
    let vecs = |n: &str, x: Option<&HashMap<String, Vec<f32>>>, y: Option<&HashMap<String, Vec<f32>>>, tol: f64| {
        let (x, y) = (map1(x), map1(y));
        if x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |u| u.len() == v.len() && v.iter().zip(u).all(|(p, q)| near(*p as f64, *q as f64, tol)))) { None } else { Some(format!("{} {:?} and {:?} (tolerance {})", n, x, y, tol)) }
    };
    let mats = |n: &str, x: Option<&HashMap<String, Array2<f32>>>, y: Option<&HashMap<String, Array2<f32>>>, tol: f64| {
        let (x, y) = (map1(x), map1(y));
        if x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |u| u.dim() == v.dim() && v.iter().zip(u.iter()).all(|(p, q)| near(*p as f64, *q as f64, tol)))) { None } else { Some(format!("{} {:?} and {:?} (tolerance {})", n, x, y, tol)) }
    };
    scalar("npv", a.get_npv_result().map(|r| r.get_npv()), b.get_npv_result().map(|r| r.get_npv()), t.npv)
        .or_else(|| scalar("value", a.get_value(), b.get_value(), t.value()))
        .or_else(|| one("cashflows", a.get_cashflows(), b.get_cashflows(), t.npv))
        .or_else(|| one("fx exposure", a.get_fx_exposure(), b.get_fx_exposure(), t.value() * 4.0 * t.exp))
        .or_else(|| if !on(M_DELTA) { None } else { one("delta", a.get_delta(), b.get_delta(), t.delta()) })
        .or_else(|| if !on(M_DELTA) { None } else { one("gamma", a.get_gamma(), b.get_gamma(), t.gamma()) })
        .or_else(|| if !on(M_VEGA) { None } else { one("vega", a.get_vega(), b.get_vega(), t.vega()) })
        .or_else(|| if !on(M_RHO) { None } else { one("rho", a.get_rho(), b.get_rho(), t.rho()) })
        .or_else(|| if !on(M_DIV) { None } else { one("dividend delta", a.get_div_delta(), b.get_div_delta(), t.div()) })
        .or_else(|| if !on(M_VSTR) { None } else { vecs("vega structure", a.get_vega_structure(), b.get_vega_structure(), t.vstr()) })
        .or_else(|| if !on(M_RSTR) { None } else { vecs("rho structure", a.get_rho_structure(), b.get_rho_structure(), t.rho()) })
        .or_else(|| if !on(M_DSTR) { None } else { vecs("dividend structure", a.get_div_structure(), b.get_div_structure(), t.div()) })
        .or_else(|| if !on(M_VMAT) { None } else { mats("vega matrix", a.get_vega_matrix(), b.get_vega_matrix(), t.vstr()) })
        .or_else(|| if on(M_THETA) { scalar("theta", a.get_theta(), b.get_theta(), t.value() * 2.0) } else { None })
}
pub fn keys_exact(r: &Res, wd: &World, what: &str) {
    let (a, b): (BTreeSet<&str>, BTreeSet<&str>) = (r.keys().map(|s| s.as_str()).collect(), wd.insts.iter().map(|i| i.get_code().as_str()).collect());
    require!(a == b, "coverage", "{}: results for {:?}, instruments {:?}", what, a, b);
}
pub fn tag(i: &Instrument) -> String { format!("{} {}", i.get_type_name(), i.get_code()) }
pub fn late(i: &Instrument, wd: &World) -> bool { i.get_maturity().map_or(true, |m| *m > wd.dt + Duration::days(wd.cfg.theta as i64)) }

// ---- Q01 ---------------------------------------------------------------------------------------------
/// A portfolio spread over categories and threads: every instrument exactly once, in the group of the
/// first category it fits, with the result a single-threaded engine gives it.
fn parallel() {
    let large = w(150) == 149;
    let n = if large { probe("large_portfolio"); 16 + w(60) } else { 1 + w(9) };
    let mut mask = M_ALL;
    if w(3) == 0 { mask = w(512) as u32; }
    if large { mask &= M_DELTA }
    let wd = World::random(Opt { insts: n, surfaces: true, midnight: true }, mask);
    let threads = 1 + w(5) as usize;
    pool(threads);
    let total = w(8) != 0;
    let cats = wd.random_categories(total);
    let (groups, left) = wd.groups(&cats);
    let mut g = wd.generator(cats.clone(), &wd.cfg, wd.data());
    if !left.is_empty() {
        fault("unmatched_instrument");
        let e = match guarded("distribute", || g.distribute_instruments()) { Ok(()) => violate("lost", format!("{} fits no category, yet distribution succeeds", tag(&wd.insts[left[0]]))), Err(e) => format!("{}", e) };
        for k in &left { require!(e.contains(&format!("({})", wd.insts[*k].get_code())), "report", "the refusal does not name {}: {}", tag(&wd.insts[*k]), e); }
        // with a category for everything the same generator works
        let mut c2 = cats.clone();
        c2.push(quantlib::pricing_engines::engine_generator::InstrumentCategory::new(None, None, None));
        g.with_instrument_categories(c2).unwrap();
    }
    guarded("distribute", || g.distribute_instruments()).unwrap_or_else(|e| violate("refused", format!("every instrument fits a category: {}", err(&e))));
    let times = 1 + (w(4) == 0) as u32;
    for _ in 0..times { guarded("calculate", || g.calculate()).unwrap_or_else(|e| violate("refused", err(&e))); }
    let res = g.get_calculation_results().clone();
    keys_exact(&res, &wd, "parallel calculation");
    let mut all = groups.clone();
    if !left.is_empty() { all.push(left) }
    for grp in &all {
        let insts: Vec<Instrument> = grp.iter().map(|k| wd.insts[*k].clone()).collect();
        let seq = guarded("one engine", || wd.engine(&insts, &wd.cfg)).unwrap_or_else(|e| violate("refused", format!("one engine: {}", err(&e))));
        for i in &insts { if let Some(d) = differ(&res[i.get_code()], &seq[i.get_code()], &Tol::new(&wd, i, &wd.cfg, 24.0), true) { violate("differs", format!("{} calculated in parallel and by one engine for its group: {}", tag(i), d)) } }
    }
    let alone = &wd.insts[w(wd.insts.len() as u64) as usize];
    let one = guarded("one instrument", || wd.engine(&[alone.clone()], &wd.cfg)).unwrap_or_else(|e| violate("refused", format!("{} alone: {}", tag(alone), err(&e))));
    if let Some(d) = differ(&res[alone.get_code()], &one[alone.get_code()], &Tol::new(&wd, alone, &wd.cfg, 24.0), late(alone, &wd)) { violate("company", format!("{} calculated among others and alone: {}", tag(alone), d)) }
    if all.len() > 1 && threads > 1 { nontrivial(); probe("groups_in_parallel"); }
    if times > 1 { probe("calculated_twice") }
    note(format!("{} instruments, {} groups, {} threads, {} steps", n, all.len(), threads, step()));
}
/// Successive days on one generator: each calculation shows that day's data and instruments only.
fn again() {
    let mut wd = World::random(Opt { insts: 1 + w(5), surfaces: true, midnight: false }, M_DELTA | M_VEGA | M_RHO | M_DIV | M_THETA);
    pool(1 + w(4) as usize);
    let cats = wd.random_categories(true);
    let mut g = wd.generator(cats.clone(), &wd.cfg, wd.data());
    let days = 2 + w(3);
    for day in 0..days {
        if day > 0 {
            let mut next = World::random(Opt { insts: 1 + w(5), surfaces: true, midnight: false }, wd.cfg.m);
            if w(2) == 0 { next.dt = wd.dt.max(next.dt); next = { let mut n = wd.clone(); n.remark(); n } }
            wd = next;
            wd.load(&mut g, wd.data());
        }
        let bad = w(5);
        if bad == 1 {
            // a delivery lacks a whole table or one entry: what the day shows is what a new generator shows on the same delivery
            let mut d = wd.data();
            let mut lost = vec![];
            for _ in 0..1 + w(2) {
                let k = w(10);
                lost.push(k);
                match k {
                    0 => d.fx.clear(), 1 => d.stock.clear(), 2 => d.curve.clear(), 3 => d.div.clear(), 4 => d.cvol.clear(), 5 => d.surf.clear(), 6 => d.fxvol.clear(), 7 => d.qcorr.clear(), 8 => d.past.clear(),
                    _ => { let mut v = vec![]; for i in wd.insts.iter() { v.extend(wd.needs(i)) } v.retain(|x| !matches!(x, Drop::Expire(_) | Drop::CollMap(_) | Drop::BorMap(_) | Drop::FundMap(_) | Drop::CrsMap(_) | Drop::IndexMap(_) | Drop::IssuerMap(..))); if !v.is_empty() { let k = w(v.len() as u64) as usize; wd.withhold(&v[k], &mut d) } }
                }
            }
            wd.load(&mut g, d.clone());
            fault("data_missing");
            let r = guarded("distribute", || g.distribute_instruments()).and_then(|_| guarded("calculate", || g.calculate()));
            let new = guarded("a new generator", || wd.generate(cats.clone(), &wd.cfg, d));
            match (r, new) {
                (Err(_), Err(_)) => {}
                (Ok(_), Ok(new)) => {
                    let res = g.get_calculation_results();
                    keys_exact(res, &wd, &format!("day {} without table {:?}", day, lost));
                    for i in &wd.insts { if let Some(x) = differ(&res[i.get_code()], &new[i.get_code()], &Tol::new(&wd, i, &wd.cfg, 24.0), true) { violate("stale", format!("{} on day {} without table {:?}, of a generator in use and of a new one: {}", tag(i), day, lost, x)) } }
                    probe("incomplete_delivery_priced");
                }
                (Ok(_), Err(e)) => violate("stale", format!("day {} without table {:?}: a generator in use calculates, a new one reports {}", day, lost, err(&e))),
                (Err(e), Ok(_)) => violate("refused", format!("day {} without table {:?}: a new generator calculates, the one in use reports {}", day, lost, err(&e))),
            }
            wd.load(&mut g, wd.data());
        }
        if bad == 0 {
            // one day's curve delivery fails: that day reports an error, the next try is complete
            let mut d = wd.data();
            d.curve.clear();
            let needs = wd.insts.iter().any(|i| !matches!(i, Instrument::Stock(_) | Instrument::Cash(_)));
            wd.load(&mut g, d);
            fault("data_missing");
            let r = guarded("distribute", || g.distribute_instruments()).and_then(|_| guarded("calculate", || g.calculate()));
            require!(!needs || r.is_err(), "silent", "no curve at all, yet the calculation succeeds");
            wd.load(&mut g, wd.data());
        }
        guarded("distribute", || g.distribute_instruments()).and_then(|_| guarded("calculate", || g.calculate())).unwrap_or_else(|e| violate("refused", err(&e)));
        let res = g.get_calculation_results().clone();
        keys_exact(&res, &wd, &format!("day {}", day));
        for i in &wd.insts {
            let one = guarded("one instrument", || wd.engine(&[i.clone()], &wd.cfg)).unwrap_or_else(|e| violate("refused", err(&e)));
            if let Some(d) = differ(&res[i.get_code()], &one[i.get_code()], &Tol::new(&wd, i, &wd.cfg, 24.0), late(i, &wd)) { violate("stale", format!("{} on day {} of one generator and alone on a new engine: {}", tag(i), day, d)) }
        }
    }
    nontrivial();
    note(format!("{} days", days));
}

// ---- Q02 ---------------------------------------------------------------------------------------------
/// One thing the calculation needs is withheld.
fn missing() {
    let mut wd = World::random(Opt { insts: 1 + w(7), surfaces: true, midnight: true }, if w(2) == 0 { M_ALL } else { w(512) as u32 });
    pool(1 + w(4) as usize);
    let cats = wd.random_categories(true);
    let mut d = wd.data();
    // what each instrument needs, from its definition
    let mut needed: Vec<Drop> = vec![];
    for i in wd.insts.iter() { needed.extend(wd.needs(i)) }
    let mut optional: Vec<Drop> = wd.unds.iter().filter(|u| u.div.is_some()).map(|u| Drop::Div(u.code.clone())).collect();
    if wd.insts.iter().all(|i| i.get_code() != "KOSPI2") { optional.push(Drop::Nothing) }
    let must = !needed.is_empty() && w(4) != 0;
    let what = if must { needed.swap_remove(w(needed.len() as u64) as usize) } else if optional.is_empty() { Drop::Nothing } else { optional.swap_remove(w(optional.len() as u64) as usize) };
    if !matches!(what, Drop::Nothing) { fault(match &what { Drop::Div(_) => "optional_data_missing", Drop::Expire(_) => "instrument_expired", _ => "data_missing" }) }
    wd.withhold(&what, &mut d);
    let r = guarded(&format!("without {:?}", what), || wd.generate(cats, &wd.cfg, d));
    if must {
        if let Ok(r) = r {
            let who: Vec<String> = wd.insts.iter().filter(|i| wd.needs(i).iter().any(|x| format!("{:?}", x) == format!("{:?}", what))).map(|i| format!("{} = {:?}", tag(i), r.get(i.get_code()).and_then(|x| x.get_npv_result()).map(|x| x.get_npv()))).collect();
            violate("silent", format!("without {:?} the calculation succeeds: {:?}", what, who));
        }
    } else {
        let r = r.unwrap_or_else(|e| violate("refused", format!("without {:?}, which is optional: {}", what, err(&e))));
        keys_exact(&r, &wd, "calculation");
        for i in &wd.insts { price(&wd, i, &r[i.get_code()], "with optional data missing") }
    }
    nontrivial();
    note(format!("{:?}", what));
}

// ---- Q06 ---------------------------------------------------------------------------------------------
fn price(wd: &World, i: &Instrument, r: &CalculationResult, when: &str) {
    let t = Tol::new(wd, i, &wd.cfg, 16.0);
    let Some(npv) = r.get_npv_result().map(|x| x.get_npv() as f64) else { violate("none", format!("{} has no price", tag(i))) };
    require!(npv.is_finite(), "price", "{} is priced {}", tag(i), npv);
    let Some(v) = wd.value(i, &Bump::default()) else { return };
    require!(near(npv, v, t.npv), "price", "{} {} is priced {}; its own market data give {} (tolerance {})", tag(i), when, npv, v, t.npv);
    let val = r.get_value().map(|x| x as f64).unwrap_or(f64::NAN);
    require!(near(val, v * t.unit, t.value()), "value", "{} is valued {}; {} times {} expected", tag(i), val, v, t.unit);
}
fn prices() {
    let wd = World::random(Opt { insts: if w(60) == 59 { probe("large_portfolio"); 16 + w(60) } else { 1 + w(10) }, surfaces: false, midnight: true }, 0);
    pool(1 + w(5) as usize);
    let cats = wd.random_categories(true);
    let res = guarded("calculate", || wd.generate(cats, &wd.cfg, wd.data())).unwrap_or_else(|e| violate("refused", err(&e)));
    keys_exact(&res, &wd, "calculation");
    for i in &wd.insts {
        let r = &res[i.get_code()];
        price(&wd, i, r, "in the parallel calculation");
        let t = Tol::new(&wd, i, &wd.cfg, 16.0);
        // every payment from the day of valuation on, the floating side's in the currency of the fixed side
        let ((fix, flo), rate) = (wd.flows(i, &Bump::default()), if matches!(i, Instrument::PlainSwap(_)) { wd.swap_rate(i) } else { 1.0 });
        let from = if let Some(crate::contract::Spec::Bond { pricing: Some(p), .. }) = wd.specs.get(i.get_code()) { *p } else { wd.dt };
        let mut want: BTreeMap<OffsetDateTime, f64> = BTreeMap::new();
        for (d, a) in fix.iter().map(|x| (x.0, x.1)).chain(flo.iter().map(|x| (x.0, x.1 * rate))) { if d.date() >= from.date() { *want.entry(d).or_default() += a; } }
        let got = map1(r.get_cashflows());
        for (d, a) in &want { require!(got.get(d).map_or(false, |x| near(*x as f64, *a, t.npv)), "cashflow", "{} pays {} on {}; reported {:?}", tag(i), a, d, got); }
        for (d, a) in &got { require!(want.contains_key(d) || *a == 0.0, "cashflow", "{} reports {} on {}, which it does not pay", tag(i), a, d); }
        // the exposure is what the value is made of, currency by currency
        if let Some(want) = wd.exposure(i) {
            let got = map1(r.get_fx_exposure());
            let tol = t.value() * 2.0 * t.exp;
            for (c, v) in &want { require!(near(got.get(c).copied().unwrap_or(0.0) as f64, *v, tol), "exposure", "{} is exposed to {:?} by {}; reported {:?}", tag(i), c, v, got); }
            for (c, v) in &got { require!(want.contains_key(c) || (*v as f64).abs() <= tol, "exposure", "{} reports an exposure of {} to {:?}", tag(i), v, c); }
        }
    }
    nontrivial();
}

// ---- Q03 ---------------------------------------------------------------------------------------------
fn keyset(what: &str, i: &Instrument, got: BTreeSet<String>, want: BTreeSet<String>) { require!(got == want, "keys", "{}: {} reported by {:?}, depends on {:?}", tag(i), what, got, want); }
/// Every risk measure against revaluations of the instrument's own market data, each input moved alone.
fn risks() {
    let wd = World::random(Opt { insts: 1 + w(5), surfaces: false, midnight: true }, M_ALL);
    let cfg = &wd.cfg;
    cfg.refused();
    let cats = wd.random_categories(true);
    let spread = w(3) == 0;
    let res = if spread { pool(1 + w(4) as usize); guarded("calculate", || wd.generate(cats.clone(), cfg, wd.data())) } else { guarded("one engine", || wd.engine(&wd.insts, cfg)) }.unwrap_or_else(|e| violate("refused", err(&e)));
    keys_exact(&res, &wd, "engine");
    let groups = if spread { wd.groups(&cats).0 } else { vec![(0..wd.insts.len()).collect()] };
    // those that mature within the theta horizon are all revalued on the soonest maturity of their engine
    let soonest = |code: &String| groups.iter().find(|g| g.iter().any(|k| wd.insts[*k].get_code() == code)).and_then(|g| g.iter().map(|k| &wd.insts[*k]).filter(|i| !late(i, &wd)).filter_map(|i| i.get_maturity().copied()).min());
    let yt = |t: &str| yf(&wd.dt, &quantlib::utils::string_arithmetic::add_period(&wd.dt, t));
    for i in &wd.insts {
        let r = &res[i.get_code()];
        let t = Tol::new(&wd, i, cfg, 16.0);
        let v = |b: Bump| wd.value(i, &b).unwrap();
        let v0 = v(Bump::default());
        let close = |what: &str, key: &str, got: Option<f32>, want: f64, tol: f64| require!(got.map_or(false, |g| near(g as f64, want, tol)), "measure", "{}: {} to {} is {:?}; moving it gives {} (tolerance {})", tag(i), what, key, got, want, tol);
        msg(&format!("{} {:.6e}", tag(i), v0));
        let unds: BTreeSet<String> = i.get_underlying_codes().into_iter().cloned().collect();
        let (stock, cash, fut) = (matches!(i, Instrument::Stock(_)), matches!(i, Instrument::Cash(_)), matches!(i, Instrument::Futures(_)));
        // delta, gamma
        let (d, g) = (map1(r.get_delta()), map1(r.get_gamma()));
        if stock || fut {
            close("delta", i.get_code(), d.get(i.get_code()).copied(), v0 * t.unit * 0.01, t.value() * 0.01);
            close("gamma", i.get_code(), g.get(i.get_code()).copied(), 0.0, 0.0);
        } else {
            keyset("delta", i, d.keys().cloned().collect(), unds.clone());
            for u in &unds {
                let b = cfg.delta as f64;
                let (up, dn) = (v(Bump { spot: Some((u.clone(), 1.0 + b)), ..Default::default() }), v(Bump { spot: Some((u.clone(), 1.0 - b)), ..Default::default() }));
                close("delta", u, d.get(u).copied(), (up - dn) / (2.0 * b) * 0.01 * t.unit, t.delta());
                close("gamma", u, g.get(u).copied(), (up - v0 + dn - v0) * (0.01 / b) * 0.5 * (0.01 / b) * t.unit, t.gamma() * 2.0);
            }
        }
        // vega and its structures
        let vegas: BTreeSet<String> = if stock || cash || fut { BTreeSet::new() } else { unds.clone() };
        let (ve, vs, vm) = (map1(r.get_vega()), map1(r.get_vega_structure()), map1(r.get_vega_matrix()));
        keyset("vega", i, ve.keys().cloned().collect(), vegas.clone());
        keyset("vega structure", i, vs.keys().cloned().collect(), vegas.clone());
        keyset("vega matrix", i, vm.keys().cloned().collect(), vegas.clone());
        for u in &vegas {
            let vega = |b: f32| (v(Bump { vol: Some((u.clone(), b as f64)), ..Default::default() }) - v0) / b as f64 * 0.01 * t.unit;
            close("vega", u, ve.get(u).copied(), vega(cfg.vega), t.vega());
            let want = vega(cfg.vstruct);
            let n = cfg.vt.len();
            require!(vs[u].len() == n && vm[u].dim() == (n, cfg.mny.len()), "shape", "{}: vega structure of {} buckets, matrix {:?}; configured {} by {}", tag(i), vs[u].len(), vm[u].dim(), n, cfg.mny.len());
            close("the sum of the vega structure", u, Some(vs[u].iter().sum()), want, t.vstr() * (1.0 + n as f64));
            close("the sum of the vega matrix", u, Some(vm[u].iter().sum()), want, t.vstr() * (1.0 + (n * cfg.mny.len()) as f64));
            // quoted times enclosing the maturity carry all of it
            let m = yf(&wd.dt, i.get_maturity().unwrap());
            let ts: Vec<f64> = cfg.vt.iter().map(|x| yt(x)).collect();
            for k in 0..n {
                let outside = (k + 1 < n && ts[k] < m - 1e-3 && ts[k + 1] <= m - 1e-3) || (k > 0 && ts[k - 1] > m + 1e-3);
                if outside { close(&format!("vega bucket {}", cfg.vt[k]), u, Some(vs[u][k]), 0.0, t.vstr()); }
                close(&format!("row {} of the vega matrix", cfg.vt[k]), u, Some(vm[u].row(k).sum()), vs[u][k] as f64, t.vstr() * (2.0 + cfg.mny.len() as f64));
            }
        }
        // rho and its structure
        let curves: BTreeSet<String> = if stock { BTreeSet::new() } else { wd.curve_names(i) };
        let (rh, rs) = (map1(r.get_rho()), map1(r.get_rho_structure()));
        keyset("rho", i, rh.keys().cloned().collect(), curves.clone());
        keyset("rho structure", i, rs.keys().cloned().collect(), if cash { BTreeSet::new() } else { curves.clone() });
        for c in &curves {
            let rho = |lo: f64, hi: f64| (v(Bump { curve: Some((c.clone(), lo, hi, cfg.rho as f64)), ..Default::default() }) - v0) / cfg.rho as f64 * 1e-4 * t.unit;
            close("rho", c, rh.get(c).copied(), rho(-1e9, 1e9), t.rho());
            if cash { continue }
            require!(rs[c].len() == cfg.rt.len(), "shape", "{}: rho structure of {} buckets; {} configured", tag(i), rs[c].len(), cfg.rt.len());
            let mut lo = -1e9;
            for (k, n) in cfg.rt.iter().enumerate() {
                let hi = yt(n) + 1e-6;
                close(&format!("rho bucket {}", n), c, Some(rs[c][k]), rho(lo, hi), t.rho());
                lo = hi;
            }
        }
        // dividends
        let divs: BTreeSet<String> = if stock || cash { BTreeSet::new() } else { unds.iter().filter(|u| wd.und(u).div.is_some()).cloned().collect() };
        let (dd, ds) = (map1(r.get_div_delta()), map1(r.get_div_structure()));
        keyset("dividend delta", i, dd.keys().cloned().collect(), divs.clone());
        keyset("dividend structure", i, ds.keys().cloned().collect(), divs.clone());
        for u in &divs {
            let div = |lo: i32, hi: i32| (v(Bump { div: Some((u.clone(), lo, hi, cfg.div as f64)), ..Default::default() }) - v0) / cfg.div as f64 * 1e-4 * t.unit;
            close("dividend delta", u, dd.get(u).copied(), div(-99_999_999, 99_999_999), t.div());
            let mut lo = -99_999_999;
            require!(ds[u].len() == cfg.dtn.len(), "shape", "{}: dividend structure of {} buckets; {} configured", tag(i), ds[u].len(), cfg.dtn.len());
            for (k, n) in cfg.dtn.iter().enumerate() {
                let hi = ymd(&quantlib::utils::string_arithmetic::add_period(&wd.dt, n));
                close(&format!("dividend bucket {}", n), u, Some(ds[u][k]), div(lo, hi), t.div());
                lo = hi;
            }
        }
        // theta
        if stock || cash { close("theta", "time", r.get_theta(), 0.0, 0.0); continue }
        let to = if late(i, &wd) { wd.dt + Duration::days(cfg.theta as i64) } else { soonest(i.get_code()).unwrap() };
        let (fix, flo) = wd.flows(i, &Bump::default());
        let due = |v: &[(OffsetDateTime, f64)]| v.iter().filter(|x| x.0.date() > wd.dt.date() && x.0.date() <= to.date()).map(|x| x.1).sum::<f64>();
        let paid = due(&fix) + if flo.is_empty() { 0.0 } else { due(&flo) * wd.swap_rate(i) };
        let days = yf(&wd.dt, &to) * 365.0;
        close("theta", &format!("{} days", days), r.get_theta(), (v(Bump { eval: Some(to), ..Default::default() }) - v0 + paid) * t.unit / days, t.value() * 3.0 / days.min(1.0));
    }
    nontrivial();
}
/// Asking for more measures changes none of the others, whatever was bumped and put back in between.
fn subset_of_measures() {
    let wd = World::random(Opt { insts: 1 + w(5), surfaces: true, midnight: true }, M_ALL);
    let full = guarded("one engine", || wd.engine(&wd.insts, &wd.cfg)).unwrap_or_else(|e| violate("refused", err(&e)));
    let bits: u32 = w(512) as u32;
    msg(&format!("{} {:.4e}", bits, wd.unds[0].spot));
    let mut c = wd.cfg.clone();
    c.m = bits;
    let part = guarded("one engine", || wd.engine(&wd.insts, &c)).unwrap_or_else(|e| violate("refused", err(&e)));
    for i in &wd.insts {
        let (a, b) = (&full[i.get_code()], &part[i.get_code()]);
        if let Some(d) = differ_on(a, b, &Tol::new(&wd, i, &c, 24.0), bits) { violate("order", format!("{} with every measure and with measures {:09b}: {}", tag(i), bits, d)) }
        let extra: Vec<&str> = [(M_DELTA, "delta", b.get_delta().is_some()), (M_DELTA, "gamma", b.get_gamma().is_some()), (M_VEGA, "vega", b.get_vega().is_some()), (M_RHO, "rho", b.get_rho().is_some()), (M_DIV, "dividend delta", b.get_div_delta().is_some()),
            (M_THETA, "theta", b.get_theta().is_some()), (M_VSTR, "vega structure", b.get_vega_structure().is_some()), (M_RSTR, "rho structure", b.get_rho_structure().is_some()), (M_DSTR, "dividend structure", b.get_div_structure().is_some()), (M_VMAT, "vega matrix", b.get_vega_matrix().is_some())]
            .into_iter().filter(|x| x.2 && bits & x.0 == 0).map(|x| x.1).collect();
        require!(extra.is_empty(), "unasked", "{}: {:?} not asked for, yet reported", tag(i), extra);
    }
    nontrivial();
}
/// Measuring leaves the market as it was: the same engine asked again gives the same answers.
fn twice() {
    let wd = World::random(Opt { insts: 1 + w(5), surfaces: true, midnight: true }, if w(2) == 0 { M_ALL } else { w(512) as u32 });
    let mut e = guarded("one engine", || wd.engine_of(&wd.insts, &wd.cfg, wd.data())).unwrap_or_else(|e| violate("refused", err(&e)));
    guarded("calculate", || e.calculate()).unwrap_or_else(|e| violate("refused", err(&e)));
    let first = e.get_calculation_result_clone();
    let n = 1 + w(2);
    for k in 0..n {
        e.reset_instruments_in_action();
        guarded("calculate again", || e.calculate()).unwrap_or_else(|e| violate("refused", err(&e)));
        let now = e.get_calculation_result_clone();
        for i in &wd.insts { if let Some(d) = differ(&now[i.get_code()], &first[i.get_code()], &Tol::new(&wd, i, &wd.cfg, 24.0 * (2 + k) as f64), true) { violate("spoiled", format!("{} calculated again by the same engine: {}", tag(i), d)) } }
    }
    nontrivial();
}
/// Options on a quoted surface: delta and vega against new engines on moved inputs.
fn surfaces() {
    let mut wd = World::random(Opt { insts: 2 + w(4), surfaces: true, midnight: false }, M_DELTA | M_VEGA | M_VSTR | M_VMAT);
    wd.cfg.sticky = quantlib::enums::StickynessType::StickyToMoneyness;
    wd.insts.retain(|i| matches!(i, Instrument::VanillaOption(_)));
    if wd.insts.is_empty() { return }
    let res = guarded("one engine", || wd.engine(&wd.insts, &wd.cfg)).unwrap_or_else(|e| violate("refused", err(&e)));
    let mut c0 = wd.cfg.clone();
    c0.m = 0;
    let u = wd.unds[w(wd.unds.len() as u64) as usize].code.clone();
    let b = wd.cfg.delta;
    let (up, dn) = (wd.moved_spot(&u, 1.0 + b), wd.moved_spot(&u, 1.0 - b));
    let vu = wd.moved_vol(&u, wd.cfg.vega);
    let vu2 = wd.moved_vol(&u, wd.cfg.vstruct);
    let npv = |w: &World, i: &Instrument| -> f64 { guarded("moved", || w.engine(&[i.clone()], &c0)).unwrap_or_else(|e| violate("refused", err(&e)))[i.get_code()].get_npv_result().unwrap().get_npv() as f64 };
    for i in &wd.insts {
        if *i.get_underlying_codes()[0] != u { continue }
        let t = Tol::new(&wd, i, &wd.cfg, 24.0);
        let r = &res[i.get_code()];
        let v0 = npv(&wd, i);
        msg(&format!("{} {:.4e}", tag(i), v0));
        let get = |m: Option<&HashMap<String, f32>>| m.and_then(|m| m.get(&u)).copied().unwrap_or(f32::NAN) as f64;
        let want = (npv(&up, i) - npv(&dn, i)) / (2.0 * b as f64) * 0.01 * t.unit;
        require!(near(get(r.get_delta()), want, t.delta()), "measure", "{}: delta {}; new engines on a moved price give {} (tolerance {})", tag(i), get(r.get_delta()), want, t.delta());
        let want = (npv(&vu, i) - v0) / wd.cfg.vega as f64 * 0.01 * t.unit;
        require!(near(get(r.get_vega()), want, t.vega()), "measure", "{}: vega {}; a new engine on a moved surface gives {} (tolerance {})", tag(i), get(r.get_vega()), want, t.vega());
        let want = (npv(&vu2, i) - v0) / wd.cfg.vstruct as f64 * 0.01 * t.unit;
        let (s, m) = (r.get_vega_structure().map(|m| m[&u].iter().sum::<f32>()).unwrap_or(f32::NAN) as f64, r.get_vega_matrix().map(|m| m[&u].sum()).unwrap_or(f32::NAN) as f64);
        require!(near(s, want, t.vstr() * 8.0), "measure", "{}: the vega structure adds up to {}; a new engine on a moved surface gives {}", tag(i), s, want);
        require!(near(m, want, t.vstr() * 40.0), "measure", "{}: the vega matrix adds up to {}; a new engine on a moved surface gives {}", tag(i), m, want);
        nontrivial();
    }
}

const REAL: &str = "quantlib: engine generator, engine, pricers, instruments, parameters, data, evaluation date, calendars; rayon's thread pool";
const STUB: &str = "the market (a seeded generator of data and portfolios), kernel: scheduler, futexes, clocks, entropy for hash seeds";
const A: &[&str] = &["prices are single-precision: two evaluations may differ by rounding, within stated multiples of the precision at the instrument's scale"];
const fn sc(name: &'static str, weight: u32, body: fn()) -> Scenario { Scenario { name, weight, body, max_steps: 4_000_000, cpu_s: 20 } }
pub const Q01: Prop = Prop { id: "Q01", scenarios: &[sc("parallel", 4, parallel), sc("again", 1, again)], quick: 30_000, thorough: 1_500_000, real: REAL, stub: STUB,
    rule: "one seed = one run: random market, portfolio, categories, measures, threads and schedule", assumptions: A, expect: &["groups_in_parallel", "unmatched_instrument", "calculated_twice", "data_missing"] };
pub const Q02: Prop = Prop { id: "Q02", scenarios: &[sc("missing", 1, missing)], quick: 60_000, thorough: 4_000_000, real: REAL, stub: STUB,
    rule: "one seed = one run: random market and portfolio with one input withheld", assumptions: A, expect: &["data_missing", "optional_data_missing", "instrument_expired"] };
pub const Q03: Prop = Prop { id: "Q03", scenarios: &[sc("risks", 4, risks), sc("measures", 2, subset_of_measures), sc("twice", 1, twice), sc("surfaces", 1, surfaces)], quick: 30_000, thorough: 1_500_000, real: REAL, stub: STUB,
    rule: "one seed = one run: random market, portfolio and bump sizes", assumptions: A, expect: &[] };
pub const Q06: Prop = Prop { id: "Q06", scenarios: &[sc("prices", 1, prices)], quick: 30_000, thorough: 1_500_000, real: REAL, stub: STUB,
    rule: "one seed = one run: random market, portfolio, categories, threads and schedule", assumptions: A, expect: &[] };
