//! T01 the engine clock, T02 time-weighted averages and sums fed from it.
use crate::require;
use crate::util::*;
use simos::runner::{Prop, Scenario};
use std::sync::{Arc, Mutex};
use trading_engine::feature::weight::TimeSeriesWeight;
use trading_engine::feature::weighted_valuation::{EWMA, EWMS};
use trading_engine::types::timestamp::{DateUnixNanoGenerator, TimeScale, TimeStamp, DAY_NANOSCALE};
use trading_engine::utils::timer::{get_thread_local_unix_nano, get_unix_nano};

fn clock_setup() -> Vec<(u64, i64)> {
    swarm_sched();
    sim().tsc_num = [16u64, 48, 40, 7, 57][w(5) as usize];
    sim().wall_base = 1_000_000_000_000_000_000 + w(20_000) as i64 * 43_200_000_000_000 - w(3) as i64 * 1_000_000;
    if w(2) == 1 { swarm_wall() } else { vec![] }
}
fn idle() { match w(8) { 0..=3 => {} 4 => sleep_ns(1 + w(50_000)), 5 => sleep_ns(w(1_000_000_000)), 6 => sleep_ns(w(100) * 3_600_000_000_000), _ => point("work", 0) } }

#[derive(Clone, Copy, Debug)]
struct Read { thread: u64, local: bool, a_step: u64, b_step: u64, a_now: u64, b_now: u64, v: u64 }

fn clock() {
    let jumps = clock_setup();
    let reads: Arc<Mutex<Vec<Read>>> = Default::default();
    let n = 1 + w(4);
    let hs: Vec<_> = (0..n).map(|t| {
        let reads = reads.clone();
        let plan: Vec<u64> = (0..2 + w(8)).map(|_| w(6)).collect();
        spawn(&format!("reader{}", t), move || for k in plan {
            idle();
            let (a_step, a_now) = (step(), now());
            let (v, local) = match k {
                0 | 1 => (get_unix_nano(), false),
                2 => { let s = TimeStamp::utc_now(); calendar(s); (s.stamp, false) }
                3 => {
                    let mut g = DateUnixNanoGenerator::from_today().unwrap_or_else(|e| violate("date", format!("{}", e)));
                    let (mut d, mut u) = (g.get_utcdate_unix_nano(), g.get_update_stamp());
                    if w(2) == 1 { require!(d == u / DAY_NANOSCALE * DAY_NANOSCALE, "date", "date {} of a generator made at {}", d, u); idle(); g.set_today(); d = g.get_utcdate_unix_nano(); u = g.get_update_stamp(); }
                    require!(d == u / DAY_NANOSCALE * DAY_NANOSCALE, "date", "date {} of a generator made at {}", d, u);
                    require!(g.get_prev_timestamp() == 0, "date", "a fresh generator remembers an earlier message");
                    (u, false)
                }
                _ => (get_thread_local_unix_nano(), true),
            };
            let r = Read { thread: t, local, a_step, b_step: step(), a_now, b_now: now(), v };
            msg(&format!("t{} {} -> {}", t, if local { "local" } else { "shared" }, v));
            reads.lock().unwrap().push(r);
        })
    }).collect();
    hs.into_iter().for_each(join);
    let reads = reads.lock().unwrap().clone();
    // Which wall clock and which moment a clock is anchored to: somewhere within the calls that overlap the first to return.
    let judge = |rs: Vec<Read>, what: &str| {
        let first_end = match rs.iter().map(|r| r.b_step).min() { Some(x) => x, None => return };
        let inits: Vec<&Read> = rs.iter().filter(|r| r.a_step <= first_end).collect();
        let a = inits.iter().map(|r| r.a_now).min().unwrap();
        let b = inits.iter().map(|r| r.b_now).max().unwrap();
        let (wl, wh) = wall_range(&jumps, a, b);
        let slack = (b - a) as i64;
        let base = sim().wall_base;
        for r in &rs {
            let (lo, hi) = (base + wl + r.a_now as i64 - slack - 4, base + wh + r.b_now as i64 + slack + 14);
            require!(lo <= r.v as i64 && r.v as i64 <= hi, "off", "{} clock read {} between {} and {} ns into the run, {} ns off the wall clock it started from", what, r.v, r.a_now, r.b_now, if (r.v as i64) < lo { r.v as i64 - lo } else { r.v as i64 - hi });
            for q in &rs { if r.b_step < q.a_step {
                require!(r.v <= q.v, "backwards", "{} clock: thread {} read {}, later thread {} read {}", what, r.thread, r.v, q.thread, q.v);
                // elapsed simulated time between two reads is what the clock says it is
                let (el_lo, el_hi) = (q.a_now as i64 - r.b_now as i64, q.b_now as i64 - r.a_now as i64);
                let d = q.v as i64 - r.v as i64;
                elapsed(r.v, q.v);
                require!(el_lo - 4 <= d && d <= el_hi + 4, "rate", "{} clock moved {} ns while {}..{} ns passed", what, d, el_lo, el_hi);
            } }
        }
    };
    judge(reads.iter().filter(|r| !r.local).cloned().collect(), "shared");
    for t in 0..n { judge(reads.iter().filter(|r| r.local && r.thread == t).cloned().collect(), "thread-local"); }
    if reads.len() > 2 { nontrivial(); }
    note(format!("{} reads by {} threads over {} simulated ns", reads.len(), n, now()));
}

/// A stamp read as a date and a time of day, and the day's generator set to it.
fn calendar(s: TimeStamp) {
    let day = s.stamp / DAY_NANOSCALE;
    let date = time::Date::from_julian_day(2_440_588 + day as i32).unwrap();
    require!(s.to_date_utc().ok() == Some(date), "calendar", "{} is on {:?}, should be {}", s.stamp, s.to_date_utc(), date);
    let at = s.to_datetime().unwrap_or_else(|e| violate("calendar", format!("{} has no date and time: {}", s.stamp, e)));
    require!(at.date() == date && at.unix_timestamp_nanos() == s.stamp as i128 && TimeStamp::new(s.stamp) == s, "calendar", "{} is {}", s.stamp, at);
    let shown = format!("{:?}", s);
    require!(shown.contains(&date.to_string()), "calendar", "{} on {} is shown as {}", s.stamp, date, shown);
    let json = serde_json::to_string(&s).unwrap();
    require!(serde_json::from_str::<TimeStamp>(&json).ok() == Some(s), "calendar", "{} does not survive {}", s.stamp, json);
    let before = get_unix_nano();
    let mut g = match w(3) { 0 => DateUnixNanoGenerator::from(date), 1 => DateUnixNanoGenerator::from_unixnano(s.stamp), _ => DateUnixNanoGenerator::default() };
    if w(3) == 0 || g.get_utcdate_unix_nano() == 0 {
        g.set_timestamp(s);
        require!(g.get_update_stamp() == s.stamp, "date", "a generator set to {} was updated at {}", s.stamp, g.get_update_stamp());
    } else { require!(g.get_update_stamp() >= before && g.get_update_stamp() <= get_unix_nano(), "date", "a generator made for {} says it was updated at {}", date, g.get_update_stamp()); }
    require!(g.get_utcdate_unix_nano() == day * DAY_NANOSCALE, "date", "a generator for {} is at {}", date, g.get_utcdate_unix_nano());
    let shown = format!("{:?}", g);
    require!(shown.contains(&format!("utcdate_unix_nano: {},", date)), "date", "a generator for {} is shown as {}", date, shown);
    let later = if w(3) == 0 { g.get_update_stamp() - w(1_000_000) } else { g.get_update_stamp() + w(1_000_000) };
    g.increment(later);
    g.cache_timestamp(s.stamp);
    require!(g.get_utcdate_unix_nano() == (day + 1) * DAY_NANOSCALE && g.get_update_stamp() == later && g.get_prev_timestamp() == s.stamp, "date", "the day after {} is {}", date, g.get_utcdate_unix_nano());
    let (a, _, b) = (get_unix_nano(), g.set_today(), get_unix_nano());
    require!(g.get_update_stamp() >= a && g.get_update_stamp() <= b && g.get_utcdate_unix_nano() == g.get_update_stamp() / DAY_NANOSCALE * DAY_NANOSCALE, "date", "set to today between {} and {}, a generator is at {}, updated at {}", a, b, g.get_utcdate_unix_nano(), g.get_update_stamp());
}
/// Elapsed time in every unit.
fn elapsed(from: u64, to: u64) {
    let (a, b) = (TimeStamp::new(from), TimeStamp::new(to));
    let d = (to - from) as f64;
    for (got, unit, name) in [(b.diff_in_nanos(a), 1.0, "nanos"), (b.diff_in_micros(a), 1e3, "micros"), (b.diff_in_millis(a), 1e6, "millis"), (b.diff_in_secs(a), 1e9, "secs"), (b.diff_in_mins(a), 60e9, "mins"), (b.diff_in_hours(a), 3600e9, "hours"), (b.diff_in_days(a), 86400e9, "days")] {
        let want = d / unit;
        require!((got - want).abs() <= 1e-12 * want, "elapsed", "from {} to {} is {} {}, should be {}", from, to, got, name, want);
    }
}

/// Samples stamped by the engine clock on several threads, applied in lock order: a stamp may be older
/// than the last one applied.
fn averages() {
    clock_setup();
    let weight = [0.5f64, 0.9, 0.99, 0.999_999, 0.1, 1.0, 0.9997][w(7) as usize];
    let (scale, unit) = [(TimeScale::Micro, 1e3f64), (TimeScale::Milli, 1e6), (TimeScale::Second, 1e9), (TimeScale::Minute, 60e9), (TimeScale::Hour, 3600e9), (TimeScale::Day, 86400e9)][w(6) as usize];
    let fresh = w(8) == 0; // as it comes: no weight, stamped at the epoch
    let ((weight, unit), scale) = if fresh { ((0.0, 1e3), TimeScale::Micro) } else { ((weight, unit), scale) };
    let wt = if fresh { TimeSeriesWeight::default() } else { TimeSeriesWeight { weight, scale } };
    let late_ok = w(3) > 0;
    let t0 = if fresh { TimeStamp::default() } else { TimeStamp::utc_now() };
    let first = w(100) as f64;
    // (mean, sum, reference mean, reference sum, stamp of the reference)
    let st = Arc::new(Mutex::new((EWMA::new(wt, first, t0), if fresh { EWMS::default() } else { EWMS::new(wt, t0) }, first, 0.0f64, t0.stamp, 0u64)));
    let n = if late_ok { 1 + w(3) } else { 1 };
    msg(&format!("weight {} per {:?}", weight, scale));
    let hs: Vec<_> = (0..n).map(|t| {
        let st = st.clone();
        let plan: Vec<(f64, u64, u64)> = (0..history(8)).map(|_| (w(2000) as f64 / 8.0 - 50.0, w(7), w(4))).collect();
        spawn(&format!("feed{}", t), move || for (x, gap, mag) in plan {
            let ns = [0, unit as u64 / 50, unit as u64 / 3, unit as u64, unit as u64 * 5, unit as u64 * 173 / 2, unit as u64 * 2900][gap as usize].min(3_000_000_000_000_000) + mag;
            if ns > 4 { sleep_ns(ns); }
            let ts = TimeStamp::utc_now();
            if late_ok { point("between", 0); }
            let mut g = st.lock().unwrap();
            let (was_m, was_s) = (g.2, g.3);
            let late = ts.stamp < g.4;
            if late { probe("late_sample"); g.5 += 1; }
            g.0.update(x, ts);
            g.1.update(x, ts);
            let decay = if late { 1.0 } else { weight.powf((ts.stamp - g.4) as f64 / unit) };
            g.2 = decay * g.2 + (1.0 - decay) * x;
            g.3 = decay * g.3 + x;
            g.4 = g.4.max(ts.stamp);
            let close = |a: f64, b: f64| (a - b).abs() <= 1e-7 * (1.0 + a.abs().max(b.abs()));
            let (m, s) = (g.0.get_value(), g.1.get_value());
            msg(&format!("sample {} at {} -> {} {}", x, ts.stamp, m, s));
            require!(close(m, g.2), "mean", "{}sample {} at {}: mean {} -> {}, should be {} (weight {} per {:?})", if late { "late " } else { "" }, x, ts.stamp, was_m, m, g.2, weight, scale);
            require!(close(s, g.3), "sum", "{}sample {} at {}: sum {} -> {}, should be {} (weight {} per {:?})", if late { "late " } else { "" }, x, ts.stamp, was_s, s, g.3, weight, scale);
        })
    }).collect();
    hs.into_iter().for_each(join);
    let pan = panics();
    require!(pan.is_empty(), "panic", "{:?}", pan);
    nontrivial();
    let g = st.lock().unwrap();
    note(format!("weight {} per {:?}, {} threads, {} late samples, mean {:.4}, sum {:.4}", weight, scale, n, g.5, g.2, g.3));
}
const STUB: &str = "kernel: scheduler, futexes, wall and monotonic clocks; quanta's time-stamp counter";
pub const T01: Prop = Prop { id: "T01", quick: 40_000, thorough: 2_000_000, scenarios: &[Scenario { name: "clock", weight: 1, body: clock, max_steps: 200_000, cpu_s: 20 }],
    real: "trading-engine utils/timer.rs and types/timestamp.rs; real once_cell, std thread locals", stub: STUB,
    rule: "one seed = one run: random readers, pauses up to days, counter frequencies, wall-clock jumps", assumptions: &["the processor's time-stamp counter is invariant and synchronised between cores"], expect: &["wall_clock_jump", "thread_stall"] };
pub const T02: Prop = Prop { id: "T02", quick: 40_000, thorough: 2_000_000, scenarios: &[Scenario { name: "averages", weight: 1, body: averages, max_steps: 3_000_000, cpu_s: 20 }],
    real: "trading-engine feature/weighted_valuation.rs, feature/weight.rs, types/timestamp.rs, utils/timer.rs", stub: STUB,
    rule: "one seed = one run: random feeds, weights, scales, gaps and interleavings", assumptions: &["callers serialise updates with a lock, as the API requires"], expect: &["late_sample", "thread_stall", "wall_clock_jump"] };
