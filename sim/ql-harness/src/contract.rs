//! What bonds and swaps pay, worked out from their terms alone: dates, day counts, fixings, coupons.
use crate::util::*;
use crate::world::*;
use quantlib::instruments::schedule::{BaseSchedule, Schedule};
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::conventions::{BusinessDayConvention, DayCountConvention, PaymentFrequency};
use std::collections::BTreeMap;
use time::{Date, Duration, Month, OffsetDateTime};

pub type At = OffsetDateTime;
#[derive(Clone, Debug)]
pub struct Leg { pub start: At, pub mat: At, pub freq: PaymentFrequency, pub forward: bool, pub conv: BusinessDayConvention, pub fgap: i64, pub pgap: i64, pub dc: DayCountConvention }
#[derive(Clone, Debug)]
pub struct Period { pub fix: At, pub start: At, pub end: At, pub pay: At, pub given: Option<f64> }
#[derive(Clone, Debug)]
pub enum Rate { Fixed(f64), Floating { series: String, index: String, tenor: String, comp: Option<String>, spread: f64 } }
#[derive(Clone, Debug)]
pub enum Spec {
    Bond { leg: Leg, periods: Vec<Period>, rate: Rate, strip: bool, pricing: Option<At> },
    /// fixed side, floating side; the amounts exchanged first and last by each
    Swap { start: At, mat: At, fixed: Option<(Leg, Vec<Period>)>, floating: Option<(Leg, Vec<Period>)>, fix: Rate, flo: Rate, first: [Option<f64>; 2], last: [Option<f64>; 2] },
}
fn month_end(y: i32, m: u8) -> u8 { let (y2, m2) = if m == 12 { (y + 1, 1) } else { (y, m + 1) }; (Date::from_calendar_date(y2, Month::try_from(m2).unwrap(), 1).unwrap() - Duration::days(1)).day() }
/// `k` months on (or back), not beyond the end of the month.
pub fn months(d: &At, k: i32) -> At {
    let n = d.year() * 12 + d.month() as i32 - 1 + k;
    let (y, m) = (n.div_euclid(12), n.rem_euclid(12) as u8 + 1);
    d.replace_date(Date::from_calendar_date(y, Month::try_from(m).unwrap(), d.day().min(month_end(y, m))).unwrap())
}
/// A tenor such as 91D, 3M or 1Y later.
pub fn tenor(d: &At, t: &str) -> At {
    let (n, u) = t.split_at(t.len() - 1);
    let n: i32 = n.parse().unwrap_or_else(|_| harness_error(format!("tenor {}", t)));
    match u { "D" => *d + Duration::days(n as i64), "W" => *d + Duration::days(7 * n as i64), "M" => months(d, n), "Y" => months(d, 12 * n), _ => harness_error(format!("tenor {}", t)) }
}
fn adjust(d: At, conv: BusinessDayConvention) -> At {
    thread_local! { static CAL: quantlib::time::jointcalendar::JointCalendar = World::cal(); }
    let go = |mut x: At, step: i64| CAL.with(|cal| { while cal.is_holiday(&x) { x += Duration::days(step) } x });
    match conv {
        BusinessDayConvention::Following => go(d, 1),
        BusinessDayConvention::Preceding => go(d, -1),
        BusinessDayConvention::ModifiedFollowing => { let x = go(d, 1); if x.month() == d.month() { x } else { go(d, -1) } }
        BusinessDayConvention::ModifiedPreceding => { let x = go(d, -1); if x.month() == d.month() { x } else { go(d, 1) } }
        _ => d,
    }
}
impl Leg {
    fn step(&self, from: &At, k: i32) -> At {
        match self.freq {
            PaymentFrequency::Monthly => months(from, k),
            PaymentFrequency::Quarterly => months(from, 3 * k),
            PaymentFrequency::SemiAnnually => months(from, 6 * k),
            PaymentFrequency::Annually => months(from, 12 * k),
            f => harness_error(format!("frequency {:?}", f)),
        }
    }
    /// From the effective date forth (a stub at the end) or from the maturity back (a stub in front).
    pub fn periods(&self) -> Vec<Period> {
        let mut raw = vec![];
        if self.forward {
            for k in 0.. { let d = self.step(&self.start, k); raw.push(d); if d >= self.mat { break } }
        } else {
            for k in 0.. { let d = self.step(&self.mat, -k); raw.insert(0, d); if d <= self.start { break } }
        }
        let n = raw.len() - 1;
        let date = |k: usize| if k == 0 { self.start } else if k == n { self.mat } else { adjust(raw[k], self.conv) };
        (0..n).map(|k| Period {
            fix: adjust(date(k) - Duration::days(self.fgap), BusinessDayConvention::Preceding),
            start: date(k),
            end: date(k + 1),
            pay: if k + 1 == n { self.mat } else { adjust(date(k + 1) + Duration::days(self.pgap), self.conv) },
            given: None,
        }).collect()
    }
}
/// The periods as the library takes them, each with its amount given.
pub fn schedule(ps: &[Period]) -> Schedule { Schedule::new(ps.iter().map(|p| BaseSchedule::new(p.fix, p.start, p.end, p.pay, p.given.map(|a| a as f32))).collect()) }
pub fn fraction(a: &At, b: &At, dc: DayCountConvention) -> f64 {
    let days = (*b - *a).whole_days() as f64;
    let d30 = |eom: bool| {
        let (mut d1, mut d2) = (a.day() as i32, b.day() as i32);
        if eom && d1 == 31 { d1 = 30; if d2 == 31 { d2 = 30 } }
        (360 * (b.year() - a.year()) + 30 * (b.month() as i32 - a.month() as i32) + d2 - d1) as f64 / 360.0
    };
    match dc {
        DayCountConvention::Actual365Fixed => days / 365.0,
        DayCountConvention::Actual360 => days / 360.0,
        DayCountConvention::Actual364 => days / 364.0,
        DayCountConvention::Thirty360 => d30(false),
        DayCountConvention::StreetConvention => d30(true),
        // days of each year over that year's length; the last of December belongs to the old year
        DayCountConvention::ActActIsda => {
            let len = |y: i32| time::util::days_in_year(y) as f64;
            if a.year() == b.year() { days / len(a.year()) } else {
                let dec = |y: i32| Date::from_calendar_date(y, Month::December, 31).unwrap();
                (dec(a.year()) - a.date()).whole_days() as f64 / len(a.year()) + (b.year() - a.year() - 1) as f64 + (b.date() - dec(b.year() - 1)).whole_days() as f64 / len(b.year())
            }
        }
        d => harness_error(format!("day count {:?}", d)),
    }
}
/// The curve as seen from the evaluation date, times to it in years.
pub struct View<'a> { pub df: &'a dyn Fn(&str, f64) -> f64, pub time: &'a dyn Fn(&At) -> f64, pub fixing: &'a dyn Fn(&str, Date) -> Option<f64> }
impl View<'_> {
    fn simple(&self, curve: &str, a: &At, b: &At) -> f64 { let (t1, mut t2) = ((self.time)(a), (self.time)(b)); if t2 - t1 <= 1e-6 { t2 = t1 + 0.002737 } (1.0 - (self.df)(curve, t2) / (self.df)(curve, t1)) / (t2 - t1) }
    /// The interest of one period on one unit.
    fn coupon(&self, p: &Period, r: &Rate, leg: &Leg, now: &At, eval: &At, curve_of: &dyn Fn(&str) -> String) -> f64 {
        if let Some(a) = p.given { return a; }
        let frac = fraction(&p.start, &p.end, leg.dc);
        let (series, index, ten, comp, spread) = match r { Rate::Fixed(c) => return c * frac, Rate::Floating { series, index, tenor, comp, spread } => (series, index, tenor, comp, spread) };
        let c = curve_of(index);
        let ahead = |d: &At| self.simple(&c, d, &tenor(d, ten));
        match comp {
            // one fixing for the period: a published one, or the forward
            None => (spread + if p.fix < *now { (self.fixing)(series, p.fix.date()).unwrap_or_else(|| self.simple(&c, eval, &tenor(&p.fix, ten))) } else { ahead(&p.fix) }) * frac,
            // not begun: the first and the last fixing stand for all
            Some(_) if p.fix >= *now => (spread + (ahead(&p.fix) + ahead(&(p.end - Duration::days(leg.fgap)))) / 2.0) * frac,
            // begun: published fixings, then forwards, compounded
            Some(k) => {
                let spot = self.simple(&c, now, &tenor(now, k));
                let (mut d, mut acc) = (p.start, 1.0);
                while d < p.end {
                    let fix = adjust(d - Duration::days(leg.fgap), BusinessDayConvention::Preceding);
                    let next = tenor(&d, k).min(p.end);
                    let rate = if fix < *now { (self.fixing)(series, fix.date()).unwrap_or(spot) } else { ahead(&fix) };
                    acc *= 1.0 + (rate + spread) * fraction(&d, &next, leg.dc);
                    d = next;
                }
                acc - 1.0
            }
        }
    }
}
fn legs(ps: &[Period], r: &Rate, leg: &Leg, now: &At, eval: &At, sign: f64, view: &View, curve_of: &dyn Fn(&str) -> String, m: &mut BTreeMap<At, f64>) {
    for p in ps.iter().filter(|p| p.pay.date() >= now.date()) { *m.entry(p.pay).or_default() += sign * view.coupon(p, r, leg, now, eval, curve_of) }
}
/// Payments of one unit from the valuation day on: (fixed side or bond, floating side).
pub fn flows(s: &Spec, eval: &At, view: &View, curve_of: &dyn Fn(&str) -> String) -> (Vec<(At, f64)>, Vec<(At, f64)>) {
    let (mut a, mut b) = (BTreeMap::new(), BTreeMap::new());
    match s {
        Spec::Bond { leg, periods, rate, strip, pricing } => {
            let now = pricing.as_ref().unwrap_or(eval);
            legs(periods, rate, leg, now, eval, 1.0, view, curve_of, &mut a);
            if !strip && leg.mat.date() >= now.date() { *a.entry(leg.mat).or_default() += 1.0 }
        }
        Spec::Swap { start, mat, fixed, floating, fix, flo, first, last } => {
            for (m, k, sign) in [(&mut a, 0, 1.0), (&mut b, 1, -1.0)] {
                if let (Some(x), true) = (first[k], start.date() >= eval.date()) { *m.entry(*start).or_default() += sign * x }
                if let (Some(x), true) = (last[k], mat.date() >= eval.date()) { *m.entry(*mat).or_default() -= sign * x }
            }
            if let Some((leg, ps)) = fixed { legs(ps, fix, leg, eval, eval, -first[0].unwrap_or(1.0), view, curve_of, &mut a) }
            if let Some((leg, ps)) = floating { legs(ps, flo, leg, eval, eval, first[1].unwrap_or(1.0), view, curve_of, &mut b) }
        }
    }
    (a.into_iter().collect(), b.into_iter().collect())
}
/// How single-precision rounding of curve ratios adds up in the payments, in units of the precision.
pub fn roughness(s: &Spec) -> f64 {
    let one = |ps: &[Period], leg: &Leg, r: &Rate, n: f64| -> f64 {
        n * match r {
            Rate::Fixed(_) => 2.0 + 0.1 * ps.len() as f64,
            Rate::Floating { tenor: t, .. } => { let tau = (tenor(&leg.start, t) - leg.start).whole_days() as f64 / 365.0; 4.0 + ps.iter().map(|p| (p.end - p.start).whole_days() as f64 / 365.0).sum::<f64>() / tau * if tau < 0.02 { 1.0 } else { 3.0 } }
        }
    };
    match s {
        Spec::Bond { leg, periods, rate, .. } => 2.0 + one(periods, leg, rate, 1.0),
        Spec::Swap { fixed, floating, fix, flo, first, last, .. } => {
            let side = |l: &Option<(Leg, Vec<Period>)>, r: &Rate, k: usize| l.as_ref().map_or(0.0, |(l, p)| one(p, l, r, first[k].unwrap_or(1.0))) + 2.0 * (last[k].unwrap_or(0.0) + first[k].unwrap_or(0.0));
            side(fixed, fix, 0) + side(floating, flo, 1) * swap_fx(s)
        }
    }
}
/// The rate of exchange a swap's amounts are struck at.
pub fn swap_fx(s: &Spec) -> f64 { match s { Spec::Swap { last: [Some(a), Some(b)], .. } => a / b, _ => 1.0 } }
