//! Q04 the evaluation date and its observers; Q05 market parameters under histories of moves.
use crate::require;
use crate::util::*;
use crate::world::*;
use ndarray::Array1;
use quantlib::currency::Currency;
use quantlib::data::vector_data::VectorData;
use quantlib::enums::{Compounding, StickynessType};
use quantlib::evaluation_date::EvaluationDate;
use quantlib::parameters::discrete_ratio_dividend::DiscreteRatioDividend;
use quantlib::parameters::market_price::MarketPrice;
use quantlib::parameters::volatilities::{constant_volatility::ConstantVolatility, local_volatility_surface::LocalVolatilitySurface, volatiltiy_interpolator::VolatilityInterplator};
use quantlib::parameters::volatility::Volatility;
use quantlib::parameters::zero_curve::ZeroCurve;
use quantlib::utils::string_arithmetic::add_period;
use simos::runner::{Prop, Scenario};
use std::cell::RefCell;
use std::rc::Rc;
use time::{macros::datetime, Duration, OffsetDateTime};

fn close(a: f64, b: f64, tol: f64) -> bool { a.is_finite() && (a - b).abs() <= tol }

// ---- Q04 ---------------------------------------------------------------------------------------------
struct Div { real: Rc<RefCell<DiscreteRatioDividend>>, spot: f64, ex: Vec<(OffsetDateTime, f64)>, at: OffsetDateTime }
impl Div {
    fn y(&self, k: usize) -> f64 { self.ex[k].1 / self.spot }
    fn ratio(&self, to: &OffsetDateTime) -> f64 { (0..self.ex.len()).filter(|k| self.ex[*k].0 > self.at && ymd(&self.ex[*k].0) <= ymd(to)).map(|k| 1.0 - self.y(k)).product() }
}
struct Price { real: Rc<RefCell<MarketPrice>>, value: f64, at: OffsetDateTime, div: Option<usize>, registered: bool, ops: u32 }
/// Prices and dividends watch one evaluation date that is moved forth and back, by any route.
fn moves() {
    let dt0 = if w(2) == 0 { datetime!(2024-03-13 00:00:00 +09:00) } else { datetime!(2024-03-13 16:30:00 +09:00) } + Duration::days(w(500) as i64);
    let ed = Rc::new(RefCell::new(EvaluationDate::new(dt0)));
    let mut divs: Vec<Div> = vec![];
    for k in 0..w(4) {
        let spot = logreal(1.0, 5000.0);
        let mut days: Vec<i64> = (0..1 + w(6)).map(|_| range(-90, 720)).collect();
        if w(4) == 0 { days.push(0) }
        days.sort();
        days.dedup();
        let tod = if w(4) == 0 { dt0.time() } else { time::Time::MIDNIGHT };
        let ex: Vec<(OffsetDateTime, f32)> = days.iter().map(|d| (dt0.replace_time(tod) + Duration::days(*d), spot * real(0.001, 0.05))).collect();
        let data = VectorData::new(Array1::from_iter(ex.iter().map(|x| x.1)), Some(ex.iter().map(|x| x.0).collect()), None, Some(dt0), Currency::KRW, "d".into(), "d".into()).unwrap();
        let d = DiscreteRatioDividend::new(ed.clone(), &data, spot, format!("D{}", k), format!("D{}", k)).unwrap_or_else(|e| violate("refused", format!("dividends {:?}: {:#}", ex, e)));
        divs.push(Div { real: Rc::new(RefCell::new(d)), spot: spot as f64, ex: ex.into_iter().map(|x| (x.0, x.1 as f64)).collect(), at: dt0 });
    }
    let mut prices: Vec<Price> = vec![];
    for k in 0..1 + w(4) {
        let div = if divs.is_empty() || w(4) == 0 { None } else { Some(w(divs.len() as u64) as usize) };
        let v = logreal(1.0, 5000.0);
        let p = MarketPrice::new(v, dt0, div.map(|d| divs[d].real.clone()), Currency::KRW, format!("P{}", k), format!("P{}", k));
        prices.push(Price { real: Rc::new(RefCell::new(p)), value: v as f64, at: dt0, div, registered: true, ops: 0 });
    }
    // observers arrive in any order, now or later
    let mut order: Vec<u64> = subset((prices.len() + divs.len()) as u64, (prices.len() + divs.len()) as u64);
    let late = if w(3) == 0 { w(2) as usize } else { 0 };
    let later: Vec<u64> = if late > 0 { order.split_off(order.len() - 1) } else { vec![] };
    for p in prices.iter_mut() { p.registered = false }
    let mut dreg = vec![false; divs.len()];
    let mut enrol = |n: u64, prices: &mut Vec<Price>, divs: &Vec<Div>, dreg: &mut Vec<bool>| {
        let n = n as usize;
        if n < prices.len() { ed.borrow_mut().add_marketprice_observer(prices[n].real.clone()); prices[n].registered = true }
        else { ed.borrow_mut().add_dividend_observer(divs[n - prices.len()].real.clone()); dreg[n - prices.len()] = true }
    };
    for n in order { enrol(n, &mut prices, &divs, &mut dreg) }
    let mut wait = later;
    let steps = 1 + w(24);
    let mut moves = 0;
    for _ in 0..steps {
        let now = ed.borrow().get_date_clone();
        if !wait.is_empty() && w(4) == 0 && now == dt0 { for n in wait.drain(..) { enrol(n, &mut prices, &divs, &mut dreg) } }
        match w(10) {
            0..=5 => {
                let exs: Vec<OffsetDateTime> = divs.iter().flat_map(|d| d.ex.iter().map(|x| x.0)).collect();
                let to = match w(6) {
                    0 if !exs.is_empty() => exs[w(exs.len() as u64) as usize] + Duration::seconds(range(-1, 1)),
                    1 => dt0,
                    2 => now,
                    3 => now + Duration::days(range(-400, 400)),
                    4 => now + Duration::hours(range(-40, 40)),
                    _ => dt0 + Duration::days(range(-200, 800)),
                };
                let to = match w(4) {
                    0 => { let n = w(60); let s = format!("{}D", n); *ed.borrow_mut() += s.as_str(); now + Duration::days(n as i64) }
                    1 => { let n = w(60); let s = format!("{}D", n); *ed.borrow_mut() -= s.as_str(); now - Duration::days(n as i64) }
                    _ => { ed.borrow_mut().set_date(to); to }
                };
                fault(if to < now { "date_moved_back" } else if to > now { "date_moved_on" } else { "date_set_again" });
                require!(*ed.borrow().get_date() == to, "date", "the evaluation date is {} after a move to {}", ed.borrow().get_date(), to);
                for p in prices.iter_mut().filter(|p| p.registered) {
                    if let Some(d) = p.div {
                        for (k, (x, _)) in divs[d].ex.iter().enumerate() {
                            if *x > p.at && *x <= to { p.value *= 1.0 - divs[d].y(k); p.ops += 1 }
                            if *x > to && *x <= p.at { p.value /= 1.0 - divs[d].y(k); p.ops += 1 }
                        }
                    }
                    p.at = to;
                }
                for (k, d) in divs.iter_mut().enumerate() { if dreg[k] { d.at = to } }
                moves += 1;
            }
            6 => if !divs.is_empty() {
                // forecast dividends revised
                let d = w(divs.len() as u64) as usize;
                let (a, b) = (dt0 + Duration::days(range(-100, 700)), dt0 + Duration::days(range(-100, 700)));
                let (lo, hi) = (if w(2) == 0 { Some(a) } else { None }, if w(2) == 0 { Some(b) } else { None });
                let by = divs[d].spot as f32 * real(-0.0005, 0.004);
                let r = divs[d].real.borrow_mut().bump_date_interval(lo.as_ref(), hi.as_ref(), by);
                let (l, h) = (lo.map_or(i32::MIN, |x| ymd(&x)), hi.map_or(i32::MAX, |x| ymd(&x)));
                if l >= h { fault("bump_refused"); require!(r.is_err(), "bump", "dividends over ({:?}, {:?}] are moved", lo, hi); continue }
                if let Err(e) = r { violate("refused", format!("{:#}", e)) }
                for x in divs[d].ex.iter_mut() { if ymd(&x.0) > l && ymd(&x.0) <= h { x.1 += by as f64 } }
                divs[d].at = now; // rebuilt as of the current date, observer or not
            },
            7 => { let n = w(prices.len() as u64) as usize; let v = logreal(1.0, 5000.0); prices[n].real.borrow_mut().set_price(v); prices[n].value = v as f64; prices[n].ops = 0 }
            _ => {}
        }
        // everything that can be asked, after every step
        for (k, d) in divs.iter().enumerate() {
            for _ in 0..4 {
                let t = if w(2) == 0 { d.ex[w(d.ex.len() as u64) as usize].0 + Duration::days(range(-1, 1)) } else { dt0 + Duration::days(range(-100, 900)) };
                let got = d.real.borrow().get_deduction_ratio(&t).unwrap_or_else(|e| violate("refused", format!("{:#}", e))) as f64;
                require!(close(got, d.ratio(&t), EPS * 40.0), "ratio", "D{}: {} remains at {} of a price of {}; its dividends {:?} leave {}", k, got, t, d.at, d.ex, d.ratio(&t));
            }
            let mut ds: Vec<OffsetDateTime> = (0..w(5)).map(|_| dt0 + Duration::days(range(-100, 900))).collect();
            ds.sort();
            let all = d.real.borrow().get_vectorized_deduction_ratio_for_sorted_datetime(&ds).unwrap_or_else(|e| violate("refused", format!("{:#}", e)));
            require!(all.len() == ds.len() && ds.iter().zip(&all).all(|(t, x)| close(*x as f64, d.ratio(t), EPS * 40.0)), "ratio", "D{}: {:?} remains at {:?} of a price of {}; its dividends are {:?}", k, all, ds, d.at, d.ex);
            let seen = d.real.borrow().get_dividend();
            require!(seen.len() == d.ex.len() && seen.iter().zip(&d.ex).all(|(a, b)| a.0 == b.0 && close(a.1 as f64, b.1, d.spot * EPS * 8.0)), "dividends", "D{}: dividends {:?}, expected {:?}", k, seen, d.ex);
        }
        for (k, p) in prices.iter().enumerate() {
            let r = p.real.borrow();
            let tol = p.value * EPS * (2.0 + 2.0 * p.ops as f64);
            require!(close(r.get_value() as f64, p.value, tol), "price", "P{} is {} on {}; the dividends gone ex since its quotation leave {}", k, r.get_value(), p.at, p.value);
            let t = dt0 + Duration::days(range(-100, 900));
            let got = r.get_dividend_deduction_ratio(&t).unwrap() as f64;
            let want = p.div.map_or(1.0, |d| divs[d].ratio(&t));
            require!(close(got, want, EPS * 40.0), "ratio", "P{}: deduction to {} is {}, expected {}", k, t, got, want);
        }
    }
    for p in &prices { msg(&format!("{:.1}", p.value)) }
    if moves > 1 && prices.iter().any(|p| p.ops > 0) { nontrivial() }
    note(format!("{} prices, {} dividends, {} moves", prices.len(), divs.len(), moves));
}

// ---- Q05 ---------------------------------------------------------------------------------------------
struct Curve { z: ZeroCurve, x: Vec<f64>, r: Vec<f64>, ops: f64 }
impl Curve {
    fn new(wd: &World, name: &str, ed: &Rc<RefCell<EvaluationDate>>) -> Curve {
        let z = ZeroCurve::new(ed.clone(), &wd.curve_data(name), name.into(), name.into()).unwrap_or_else(|e| violate("refused", format!("{:#}", e)));
        let pts: Vec<(f64, f64)> = wd.curves[name].iter().map(|p| (yf(&wd.dt, &(wd.dt + Duration::days(p.0))), p.1 as f64)).collect();
        let x = wd.nodes();
        let r = x.iter().map(|t| lin(&pts, *t)).collect();
        Curve { z, x, r, ops: 0.0 }
    }
    fn df(&self, t: f64) -> f64 {
        let k = self.x.partition_point(|x| *x <= t).max(1).min(self.x.len() - 1);
        let at = |k: usize| (-self.r[k] * self.x[k]).exp();
        at(k - 1) + (at(k) - at(k - 1)) * (t - self.x[k - 1]) / (self.x[k] - self.x[k - 1])
    }
    fn tol(&self, t: f64) -> f64 { EPS * (6.0 + (2.0 + self.ops) * t * 0.3) * self.df(t).max(1.0) }
    fn bump(&mut self, lo: f64, hi: f64, by: f64) { for k in 0..self.x.len() { if self.x[k] > lo && self.x[k] <= hi { self.r[k] += by } } self.ops += 1.0 }
}
/// Linear between the points, flat outside.
fn lin(p: &[(f64, f64)], t: f64) -> f64 {
    if t <= p[0].0 { return p[0].1 }
    for k in 1..p.len() { if t <= p[k].0 { return p[k - 1].1 + (p[k].1 - p[k - 1].1) * (t - p[k - 1].0) / (p[k].0 - p[k - 1].0) } }
    p[p.len() - 1].1
}
fn curves() {
    let wd = World::random(Opt { insts: 0, surfaces: false, midnight: true }, 0);
    let ed = Rc::new(RefCell::new(EvaluationDate::new(wd.dt)));
    let mut c = Curve::new(&wd, "KRWGOV", &ed);
    let mut back: Vec<(Option<f64>, Option<f64>, f32)> = vec![];
    let mut large = false;
    let n = 1 + w(30);
    for _ in 0..n {
        let knot = |c: &Curve| { let k = w(c.x.len() as u64) as usize; c.x[k] };
        match w(8) {
            0 | 1 => {
                let (a, b) = (if w(3) == 0 { None } else { Some(knot(&c) + 0.0007 * range(-1, 1) as f64) }, if w(3) == 0 { None } else { Some(knot(&c) + 0.0007 * range(-1, 1) as f64) });
                // the whole curve, far up: rates are not capped
                let (a, b, by) = if !large && w(12) == 0 { large = true; probe("rates_far_up"); (None, None, real(0.4, 0.8)) } else { (a, b, real(-0.01, 0.02)) };
                let r = c.z.bump_time_interval(a.map(|x| x as f32), b.map(|x| x as f32), by);
                let bad = matches!((a, b), (Some(a), Some(b)) if a as f32 > b as f32);
                if bad { fault("bump_refused"); require!(r.is_err(), "bump", "a curve is moved over {:?} to {:?}", a, b) } else {
                    if let Err(e) = r { violate("refused", format!("{:#}", e)) }
                    let (lo, hi) = (a.unwrap_or(-1e9) as f32 as f64, b.unwrap_or(1e9) as f32 as f64);
                    c.bump(lo, hi, by as f64);
                    back.push((a, b, by));
                }
            }
            2 => if let Some((a, b, by)) = if back.is_empty() { None } else { Some(back.swap_remove(w(back.len() as u64) as usize)) } {
                c.z.bump_time_interval(a.map(|x| x as f32), b.map(|x| x as f32), -by).unwrap_or_else(|e| violate("refused", format!("{:#}", e)));
                c.bump(a.unwrap_or(-1e9) as f32 as f64, b.unwrap_or(1e9) as f32 as f64, -(by as f64));
                fault("put_back");
            },
            3 => {
                let ten = ["1D", "2W", "1M", "6M", "1Y", "3Y", "10Y"];
                let (i, j) = (w(7) as usize, w(7) as usize);
                let (a, b) = (add_period(&wd.dt, ten[i]), add_period(&wd.dt, ten[j]));
                let by = real(-0.01, 0.02);
                let r = c.z.bump_date_interval(Some(&a), Some(&b), by);
                if i > j { fault("bump_refused"); require!(r.is_err(), "bump", "a curve is moved over {:?} to {:?}", a, b) } else {
                    if let Err(e) = r { violate("refused", format!("{:#}", e)) }
                    c.bump(yf(&wd.dt, &a), yf(&wd.dt, &b), by as f64);
                }
            }
            _ => {}
        }
        for _ in 0..3 {
            let t = if w(3) == 0 { knot(&c).min(40.0) } else { real(0.0, 40.0) as f64 } as f32 as f64;
            let got = c.z.get_discount_factor(t as f32).unwrap_or_else(|e| violate("refused", format!("{}: {:#}", t, e))) as f64;
            require!(close(got, c.df(t), c.tol(t)), "discount", "discount factor to {}: {}, expected {}", t, got, c.df(t));
            let d = wd.dt + Duration::hours(range(0, 40 * 365 * 24));
            let td = yf(&wd.dt, &d);
            let got = c.z.get_discount_factor_at_date(&d).unwrap_or_else(|e| violate("refused", format!("{}: {:#}", d, e))) as f64;
            require!(close(got, c.df(td), c.tol(td)), "discount", "discount factor at {}: {}, expected {}", d, got, c.df(td));
            let (t1, t2) = (t, t + 0.02 + real(0.0, 5.0) as f64);
            let (f, tau) = (c.df(t2) / c.df(t1), t2 - t1);
            let tol = (c.tol(t1) + c.tol(t2)) * 4.0 / c.df(t1).min(c.df(t2)).min(1.0);
            let got = c.z.get_discount_factor_between_times(t1 as f32, t2 as f32).unwrap() as f64;
            require!(close(got, f, tol * f.max(1.0) + 2.0 * EPS), "discount", "discount factor from {} to {}: {}, expected {}", t1, t2, got, f);
            let got = c.z.get_forward_rate_between_times(t1 as f32, t2 as f32, Compounding::Continuous).unwrap() as f64;
            require!(close(got, -f.ln() / tau, (tol + t2 * EPS) / tau * 2.0), "forward", "continuous forward rate from {} to {}: {}, expected {}", t1, t2, got, -f.ln() / tau);
            let got = c.z.get_forward_rate_between_times(t1 as f32, t2 as f32, Compounding::Simple).unwrap() as f64;
            require!(close(got, (1.0 - f) / tau, (tol * f.max(1.0) + t2 * EPS) / tau * 2.0), "forward", "simple forward rate from {} to {}: {}, expected {}", t1, t2, got, (1.0 - f) / tau);
            // the rate of a day, of no time at all, between days
            let short = |t: f64, tau: f64| { let f = c.df(t + tau) / c.df(t); ((1.0 - f) / tau, (c.tol(t) * 8.0 / c.df(t).min(1.0) + (t + 1.0) * EPS) / tau * 2.0) };
            let (want, tol) = short(t, 0.002737);
            let got = c.z.get_short_rate_at_time(t as f32).unwrap_or_else(|e| violate("refused", format!("{}: {:#}", t, e))) as f64;
            require!(close(got, want, tol + want.abs() * 0.01), "forward", "short rate at {}: {}, expected {}", t, got, want);
            let got = c.z.get_forward_rate_between_times(t as f32, t as f32, if w(2) == 0 { Compounding::Simple } else { Compounding::Continuous }).unwrap_or_else(|e| violate("refused", format!("{}: {:#}", t, e))) as f64;
            require!(close(got, want, tol + want.abs() * 0.5 + 0.02), "forward", "forward rate from {} to the same time: {}, expected {}", t, got, want);
            let e = d + Duration::hours(200 + w(40_000) as i64);
            let te = yf(&wd.dt, &e);
            let (f, tau) = (c.df(te) / c.df(td), te - td);
            let tol = ((c.tol(td) + c.tol(te)) * 4.0 / c.df(td).min(c.df(te)).min(1.0) * f.max(1.0) + 2.0 * te * EPS) / tau * 2.0;
            let got = c.z.get_forward_rate_between_dates(&d, &e, Compounding::Continuous).unwrap_or_else(|x| violate("refused", format!("{} {}: {:#}", d, e, x))) as f64;
            require!(close(got, -f.ln() / tau, tol * 2.0), "forward", "continuous forward rate from {} to {}: {}, expected {}", d, e, got, -f.ln() / tau);
            let got = c.z.get_forward_rate_from_evaluation_date(&e, Compounding::Continuous).unwrap_or_else(|x| violate("refused", format!("{}: {:#}", e, x))) as f64;
            require!(close(got, -c.df(te).ln() / te, (c.tol(te) * 8.0 / c.df(te).min(1.0) + te * EPS) / te * 2.0), "forward", "continuous forward rate to {}: {}, expected {}", e, got, -c.df(te).ln() / te);
            let got = c.z.get_instantaneous_forward_rate_from_date(&d).unwrap_or_else(|x| violate("refused", format!("{}: {:#}", d, x))) as f64;
            let (want, tol) = short(td, 0.002737);
            require!(close(got, want, tol + want.abs() * 0.01), "forward", "short rate on {}: {}, expected {}", d, got, want);
            let gone = wd.dt - Duration::hours(1 + w(5000) as i64);
            require!(c.z.get_forward_rate_between_dates(&e, &d, Compounding::Simple).is_err() && c.z.get_forward_rate_between_dates(&gone, &d, Compounding::Simple).is_err() && c.z.get_forward_rate_from_evaluation_date(&gone, Compounding::Simple).is_err()
                && c.z.get_instantaneous_forward_rate_from_date(&gone).is_err() && c.z.get_short_rate_at_time(-0.01).is_err() && c.z.get_discount_factor(-0.01).is_err(), "backwards", "a rate from {} back to {}, or from {} gone by, is given", e, d, gone);
            let days = [d, e, if w(3) == 0 { gone } else { d }];
            let got = c.z.get_vectorized_discount_factor_for_sorted_dates(&days);
            if days[2] == gone { require!(got.is_err(), "backwards", "discount factors for {:?} are given", days) } else {
                let got = got.unwrap_or_else(|x| violate("refused", format!("{:?}: {:#}", days, x)));
                require!(got.len() == 3 && (0..3).all(|k| { let t = yf(&wd.dt, &days[k]); close(got[k] as f64, c.df(t), c.tol(t)) }), "discount", "discount factors at {:?}: {:?}", days, got);
            }
            require!(c.z.get_forward_rate_between_times(t2 as f32, t1 as f32, Compounding::Simple).is_err() && c.z.get_discount_factor_between_times(t2 as f32, t1 as f32).is_err(), "backwards", "a rate from {} back to {} is given", t2, t1);
            require!(c.z.get_discount_factor_at_date(&(wd.dt - Duration::hours(1 + w(5000) as i64))).is_err(), "backwards", "a discount factor for a date gone by is given");
        }
        let mut ts: Vec<f32> = (0..1 + w(6)).map(|_| real(0.0, 40.0)).collect();
        ts.sort_by(|a, b| a.total_cmp(b));
        let v = c.z.get_vectorized_discount_factor_for_sorted_time(&Array1::from(ts.clone())).unwrap_or_else(|e| violate("refused", format!("{:#}", e)));
        let r = c.z.get_vectorized_short_rate_for_sorted_times(&ts).unwrap_or_else(|e| violate("refused", format!("{:#}", e)));
        require!(r.len() == ts.len() && ts.iter().zip(&r).all(|(t, x)| *x == c.z.get_short_rate_at_time(*t).unwrap()), "forward", "short rates at {:?}: {:?}", ts, r);
        for (k, t) in ts.iter().enumerate() { require!(close(v[k] as f64, c.df(*t as f64), c.tol(*t as f64)), "discount", "discount factor {} of {:?}: {}, expected {}", k, ts, v[k], c.df(*t as f64)) }
        // another day
        if w(10) == 0 {
            let to = wd.dt + Duration::days(range(0, 300));
            ed.borrow_mut().set_date(to);
            fault("date_moved_on");
            let d = to + Duration::days(range(0, 5000));
            let td = yf(&to, &d);
            let got = c.z.get_discount_factor_at_date(&d).unwrap() as f64;
            require!(close(got, c.df(td), c.tol(td)), "discount", "on {}: discount factor at {}: {}, expected {}", to, d, got, c.df(td));
            ed.borrow_mut().set_date(wd.dt);
        }
    }
    msg(&format!("{:.4}", c.df(5.0)));
    if c.ops > 1.0 { nontrivial() }
}
fn surfaces() {
    let wd = World::random(Opt { insts: 0, surfaces: true, midnight: true }, 0);
    let ed = Rc::new(RefCell::new(EvaluationDate::new(wd.dt)));
    let u = &wd.unds[0];
    let div = u.div.as_ref().map(|d| Rc::new(RefCell::new(DiscreteRatioDividend::new(ed.clone(), &wd.vec_data("d", d), u.spot, "d".into(), "d".into()).unwrap_or_else(|e| violate("refused", format!("{:#}", e))))));
    let mp = Rc::new(RefCell::new(MarketPrice::new(u.spot, wd.dt, div, u.ccy, u.code.clone(), u.code.clone())));
    let (mut a, mut b) = (Curve::new(&wd, &u.coll, &ed), Curve::new(&wd, &u.bor, &ed));
    let (ca, cb) = (Rc::new(RefCell::new(a.z.clone())), Rc::new(RefCell::new(b.z.clone())));
    let sticky = if w(2) == 0 { StickynessType::StickyToMoneyness } else { StickynessType::StickyToStrike };
    let lv = LocalVolatilitySurface::initialize(ed.clone(), mp.clone(), ca.clone(), cb.clone(), sticky, VolatilityInterplator::default(), u.code.clone(), u.code.clone());
    let data = wd.data();
    let (lv, s0) = match &u.vol {
        Vol::Const(_) => (lv.with_constant_volatility(&data.cvol[&u.code], wd.cfg.vt.clone(), Array1::from(wd.cfg.mny.clone())), u.spot as f64),
        Vol::Surface { .. } => (lv.with_market_surface(&data.surf[&u.code], wd.cfg.vt.clone(), Array1::from(wd.cfg.mny.clone())), u.spot as f64),
    };
    let mut lv = lv.unwrap_or_else(|e| violate("refused", format!("{:#}", e)));
    lv.build().unwrap_or_else(|e| violate("refused", format!("{:#}", e)));
    let mats: Vec<OffsetDateTime> = wd.cfg.vt.iter().map(|t| add_period(&wd.dt, t)).collect();
    let ts: Vec<f64> = mats.iter().map(|m| yf(&wd.dt, m)).collect();
    let ms: Vec<f64> = wd.cfg.mny.iter().map(|x| *x as f64).collect();
    // the quoted surface, read off at the grid
    let mut grid: Vec<Vec<f64>> = match &u.vol {
        Vol::Const(v) => vec![vec![*v as f64; ms.len()]; ts.len()],
        Vol::Surface { days, strikes, vols } => ts.iter().map(|t| ms.iter().map(|m| {
            let rows: Vec<(f64, f64)> = days.iter().zip(vols).map(|(d, row)| (yf(&wd.dt, &(wd.dt + Duration::days(*d))), lin(&strikes.iter().zip(row).map(|(k, v)| (*k as f64 / u.spot as f64, *v as f64)).collect::<Vec<_>>(), *m))).collect();
            lin(&rows, *t)
        }).collect()).collect(),
    };
    let mut flat = Volatility::ConstantVolatility(ConstantVolatility::new(0.3, "c".into(), "c".into()));
    let (mut fv, mut spot, mut ops) = (0.3f64, s0, 1.0);
    let mut vol = Volatility::LocalVolatilitySurface(lv);
    let ded: Vec<f64> = mats.iter().map(|m| wd.spot_ded(u, m, &Bump::default()).1).collect();
    let built = |spot: f64, a: &Curve, b: &Curve| -> Vec<f64> { (0..ts.len()).map(|k| if sticky == StickynessType::StickyToMoneyness { s0 } else { spot } * b.df(ts[k]) / a.df(ts[k]) * ded[k]).collect() };
    let mut fw = built(spot, &a, &b);
    for _ in 0..1 + w(16) {
        match w(6) {
            0 | 1 | 2 => {
                let pick = |v: &[f64]| -> Option<f32> { match w(4) { 0 => None, 1 => Some((v[w(v.len() as u64) as usize] + real(-0.3, 0.3) as f64) as f32), _ => Some(v[w(v.len() as u64) as usize] as f32) } };
                let (t1, t2, m1, m2) = (pick(&ts), pick(&ts), pick(&ms), pick(&ms));
                let near = |v: &[f64], x: Option<f32>| x.map_or(false, |x| v.iter().any(|y| { let d = y - x as f64 - 1e-4; d.abs() < 2e-5 }));
                if near(&ts, t1) || near(&ts, t2) || near(&ms, m1) || near(&ms, m2) { continue }
                let by = real(-0.02, 0.03);
                vol.bump_volatility(t1, t2, m1, m2, by).unwrap_or_else(|e| violate("refused", format!("{:#}", e)));
                flat.bump_volatility(t1, t2, m1, m2, by).unwrap();
                fv += by as f64;
                let within = |x: f64, lo: Option<f32>, hi: Option<f32>| lo.map_or(true, |l| l as f64 + 1e-4 < x) && hi.map_or(true, |h| x <= h as f64 + 1e-4);
                for i in 0..ts.len() { for j in 0..ms.len() { if within(ts[i], t1, t2) && within(ms[j], m1, m2) { grid[i][j] += by as f64 } } }
                fw = built(spot, &a, &b); // moving a volatility rebuilds the surface
                ops += 1.0;
            }
            3 => { spot = s0 * real(0.8, 1.25) as f64; mp.borrow_mut().set_price(spot as f32); if w(2) == 0 { vol.build().unwrap(); fw = built(spot, &a, &b) } }
            4 => {
                let by = real(-0.01, 0.02);
                let first = w(2) == 0;
                let (c, r) = if first { (&mut a, &ca) } else { (&mut b, &cb) };
                r.borrow_mut().bump_time_interval(None, None, by).unwrap();
                c.bump(-1e9, 1e9, by as f64);
                if w(2) == 0 { vol.build().unwrap(); fw = built(spot, &a, &b) }
            }
            5 if mats[0] > wd.dt => { // a day on which its first tenor has gone by cannot be moved, nor rebuilt
                fault("date_moved_on");
                ed.borrow_mut().set_date(mats[0] + Duration::hours(1 + w(400) as i64));
                require!(vol.bump_volatility(None, None, None, None, real(0.01, 0.03)).is_err(), "backwards", "a surface whose first tenor has gone by is moved");
                ed.borrow_mut().set_date(wd.dt);
                fault("bump_refused");
                if w(2) == 0 { vol.build().unwrap(); fw = built(spot, &a, &b) }
            }
            _ => {}
        }
        require!(close(flat.get_value(1.0, 1.0) as f64, fv, ops * EPS) && close(flat.total_deviation(4.0, 1.0).unwrap() as f64, fv * 2.0, ops * 4.0 * EPS) && close(flat.total_variance(4.0, 1.0).unwrap() as f64, fv * fv * 4.0, (ops * fv.abs() * 8.0 + 1.0) * 4.0 * EPS), "flat", "a constant volatility is {}, expected {}", flat.get_value(1.0, 1.0), fv);
        for _ in 0..4 {
            let (t, m) = (real(0.001, 4.0), real(0.4, 1.8));
            let rows: Vec<(f64, f64)> = (0..ts.len()).map(|i| (ts[i], lin(&(0..ms.len()).map(|j| (ms[j] * s0 / fw[i], grid[i][j])).collect::<Vec<_>>(), m as f64))).collect();
            let want = lin(&rows, t as f64);
            let tol = EPS * (40.0 + 4.0 * ops);
            let got = vol.get_value(t, m) as f64;
            require!(close(got, want, tol), "volatility", "volatility at {} for forward moneyness {} is {}; the surface after {} moves gives {}", t, m, got, ops, want);
            let (v, d) = (vol.total_variance(t, m).unwrap_or_else(|e| violate("refused", format!("{:#}", e))) as f64, vol.total_deviation(t, m).unwrap() as f64);
            require!(close(v, want * want * t as f64, tol * 8.0) && close(d, want * (t as f64).sqrt(), tol * 4.0), "volatility", "total variance {} and deviation {} at {} for {}; volatility {}", v, d, t, m, want);
        }
    }
    msg(&format!("{:.4} {}", grid[0][0], ts.len()));
    if ops > 1.0 { nontrivial() }
}

const REAL: &str = "quantlib: evaluation date, market prices, dividends, zero curves, volatilities, interpolators, day counts";
const STUB: &str = "the date (moved by the simulator), the market (a seeded generator)";
const A: &[&str] = &["values are single-precision: compared with a double-precision model within stated multiples of the precision"];
const fn sc(name: &'static str, weight: u32, body: fn()) -> Scenario { Scenario { name, weight, body, max_steps: 1_000_000, cpu_s: 20 } }
pub const Q04: Prop = Prop { id: "Q04", scenarios: &[sc("moves", 1, moves)], quick: 100_000, thorough: 10_000_000, real: REAL, stub: STUB,
    rule: "one seed = one run: random prices, dividends, observers and a history of date moves, revisions and quotations", assumptions: A, expect: &["date_moved_back", "date_moved_on", "date_set_again", "bump_refused"] };
pub const Q05: Prop = Prop { id: "Q05", scenarios: &[sc("curves", 1, curves), sc("surfaces", 1, surfaces)], quick: 80_000, thorough: 5_000_000, real: REAL, stub: STUB,
    rule: "one seed = one run: a random curve or surface under a history of moves, put-backs, refused moves and rebuilds", assumptions: A, expect: &["bump_refused", "put_back", "date_moved_on"] };
