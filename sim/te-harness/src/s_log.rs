//! The logger: L01 delivery, L02 disk and console faults, L03 crashes and flushing, L04 time stamps.
//! Real: logger.rs with its thread, channel and BufWriter. Simulated: disk, clock, scheduler.
use crate::require;
use crate::util::*;
use serde::Serialize;
use serde_json::Value;
use simos::runner::{Prop, Scenario};
use simos::vfs;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use trading_engine::logger::{Logger, LoggerGuard, TimeZone};
use trading_engine::{LogLevel, LogMessage, LOG_SENDER};

#[derive(Clone, Serialize)]
struct Fill { id: String, px: f64, lots: Vec<u32> }

/// A value that can not be written as JSON, though the record around it can.
struct Unwritable(u64);
impl Serialize for Unwritable {
    fn serialize<S: serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        if self.0 == 0 { return Err(serde::ser::Error::custom("this value cannot be written")); }
        // a map whose keys are pairs
        ser.collect_map([((self.0, 1), 2)])
    }
}
/// A value whose writing panics.
struct Poisoned;
const POISONED: &str = "poisoned record";
impl Serialize for Poisoned { fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { panic!("{}", POISONED) } }
/// The panics nobody asked for.
fn unasked() -> Vec<(String, String)> { panics().into_iter().filter(|p| !p.1.contains(POISONED)).map(|p| (p.0.to_string(), p.1.to_string())).collect() }
/// A value whose writing, in the logger's thread, logs a record of its own.
struct Talkative(J, u64, u64, usize);
impl Serialize for Talkative {
    fn serialize<S: serde::Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        emit(&self.0, 1000 + self.1, self.2, self.3, 1, format!("t{}m{}:nested", 1000 + self.1, self.2));
        ser.serialize_str("talkative")
    }
}
/// Forms 0 to 6 are ordinary; 7: one value of the record can not be written, 8: its content panics, 9: the whole structure can not be written,
/// 10: working out its content logs another record.
fn a_form() -> u64 { if w(16) == 0 { 7 + w(4) } else { w(7) } }

#[derive(Clone, Debug)]
struct Rec { t: u64, seq: u64, level: usize, form: u64, text: String, a_step: u64, b_step: u64, a_now: u64, b_now: u64 }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Due { Must, Maybe, Never }

#[derive(Default)]
struct Journal { recs: Vec<Rec>, levels: Vec<(u64, u64, usize)>, fin: Option<(u64, u64)>, dir_files: Vec<String>, zones: Vec<i64> }
type J = Arc<Mutex<Journal>>;
impl Journal { fn index(&self) -> BTreeMap<(u64, u64), &Rec> { self.recs.iter().map(|r| ((r.t, r.seq), r)).collect() } }

fn level(i: usize) -> LogLevel { LogLevel::from_usize(i).unwrap() }
/// The level a log call in [a, b] must, may or must not pass.
fn due(j: &Journal, r: &Rec) -> Due {
    if r.form == 6 { return fin_due(j, r, Due::Must); }
    if r.form == 8 { return Due::Maybe; }
    let (mut any, mut all) = (false, true);
    for (i, (_, done, l)) in j.levels.iter().enumerate() {
        let next_start = j.levels.get(i + 1).map(|x| x.0).unwrap_or(u64::MAX);
        let next_done = j.levels.get(i + 1).map(|x| x.1).unwrap_or(u64::MAX);
        let (begun, _) = (j.levels[i].0, next_start);
        if begun > r.b_step || next_done < r.a_step { continue; }
        let _ = done;
        if r.level <= *l { any = true } else { all = false }
    }
    if !any { return Due::Never; }
    fin_due(j, r, if all { Due::Must } else { Due::Maybe })
}
fn fin_due(j: &Journal, r: &Rec, d: Due) -> Due {
    match j.fin {
        Some((a, b)) => if r.b_step < a { d } else if r.a_step > b { Due::Never } else { Due::Maybe },
        None => d,
    }
}

fn text(t: u64, seq: u64) -> String {
    let pad = match w(12) { 11 if w(1500) == 0 => { probe("huge_record"); 1_999_900 + w(200) } 0..=5 => 0, 6..=8 => w(40), 9 => 200 + w(400), 10 => 3000, _ => 9000 + w(3000) } as usize;
    let odd = ["", "\"quoted\"", "line\nbreak", "한글 tick", "back\\slash", "{\"k\":1}", "tab\t\u{1}"][w(7) as usize];
    format!("t{}m{}:{}{}", t, seq, odd, "x".repeat(pad))
}
/// One log call, through one of the public forms.
fn emit(j: &J, t: u64, seq: u64, lv: usize, form: u64, txt: String) {
    use trading_engine::*;
    let (a_step, a_now) = (step(), now());
    let id = txt.clone();
    match (form, lv) {
        (6, _) => { let s: &'static str = Box::leak(format!("{}\n", serde_json::json!({"static": id})).into_boxed_str()); let _ = LOG_SENDER.try_send(LogMessage::StaticString(s)); }
        (0 | 3, 1) => error!("{}", id), (0 | 3, 2) => warn!("{}", id), (0 | 3, 3) => info!("{}", id), (0 | 3, 4) => debug!("{}", id), (0 | 3, _) => trace!("{}", id),
        (1 | 4, 1) => log_error!("topic", id = id, n = seq), (1 | 4, 2) => log_warn!("topic", id = id, n = seq), (1 | 4, 3) => log_info!("topic", id = id, n = seq),
        (1 | 4, 4) => log_debug!("topic", id = id, n = seq), (1 | 4, _) => log_trace!("topic", id = id, n = seq),
        (2, 1) => flushing_log_error!("topic", id = id, n = seq), (2, 3) => flushing_log_info!("topic", id = id, n = seq), (2, 4) => flushing_log_debug!("topic", id = id, n = seq),
        (2, 5) => flushing_log_trace!("topic", id = id, n = seq), (2, _) => log_warn!("topic", id = id, n = seq),
        (7, 1) => { probe("unwritable_value"); flushing_log_error!("topic", id = id, bad = Unwritable(seq % 2), n = seq) }
        (7, 2) => { probe("unwritable_value"); log_warn!("topic", id = id, bad = Unwritable(seq % 2), n = seq) }
        (7, l) => { probe("unwritable_value"); if l == 3 { log_info!("topic", id = id, n = seq, bad = Unwritable(seq % 2)) } else if l == 4 { log_debug!("topic", bad = Unwritable(seq % 2), id = id, n = seq) } else { log_trace!("topic", bad = Unwritable(1), id = id, n = seq) } }
        (8, l) => { probe("poisoned_record"); match l { 1 => log_error!("topic", id = id, bad = Poisoned), 2 => log_warn!("topic", Poisoned), 3 => flushing_log_info!("topic", id = id, bad = Poisoned), 4 => flushing_log_debug!("topic", Poisoned), _ => { let v: Vec<u8> = vec![]; let at = seq as usize; log_trace!("topic", id = id, n = { if at >= v.len() { panic!("{}", POISONED) } v[at] }) } } }
        (9, l) => { probe("unwritable_value"); let u = Unwritable(seq % 2); match l { 1 => log_error!(id.clone(), u), 2 => log_warn!(id.clone(), u), 3 => flushing_log_info!(id.clone(), u), 4 => log_debug!(id.clone(), u), _ => log_trace!(id.clone(), u) } }
        (10, l) => { probe("record_logged_by_a_record"); let (more, inner) = (Talkative(j.clone(), t, seq, 1 + (seq as usize + l) % 5), id.clone()); match l { 1 => log_error!("topic", id = id, more = more, n = seq), 2 => log_warn!("topic", more = more, id = id, n = seq), 3 => flushing_log_info!("topic", id = id, n = seq, more = more), 4 => flushing_log_debug!(inner.clone(), more), _ => log_trace!(inner.clone(), more) } }
        (11, l) => { let f = Fill { id, px: seq as f64 + 0.5, lots: vec![1, 2] }; match l { 1 => flushing_log_error!("topic", f.clone()), 2 => log_warn!("topic", f), 3 => flushing_log_info!("topic", f.clone()), 4 => flushing_log_debug!("topic", f.clone()), _ => flushing_log_trace!("topic", f) } }
        (_, l) => { let f = Fill { id, px: seq as f64 + 0.5, lots: vec![1, 2] }; match l { 1 => log_error!("topic", f.clone()), 2 => log_warn!("topic", f.clone()), 3 => log_info!("topic", f.clone()), 4 => log_debug!("topic", f.clone()), _ => flushing_log_trace!("topic", f.clone()) } }
    }
    let r = Rec { t, seq, level: lv, form, text: txt, a_step, b_step: step(), a_now, b_now: now() };
    msg(&format!("logged t{} m{} level {} form {}", t, seq, lv, form));
    j.lock().unwrap().recs.push(r);
}

/// Many records at once, more than the logger can take in between.
fn burst(j: &J, t: u64) {
    let stat = w(2) == 0;
    let n = (if stat { 40_000 } else { 5_000 }) >> w(7);
    probe("burst");
    let (a_step, a_now) = (step(), now());
    atomically(|| for seq in 0..n {
        if stat { let s: &'static str = Box::leak(format!("{{\"static\":\"t{}m{}:\"}}\n", t, seq).into_boxed_str()); let _ = LOG_SENDER.try_send(LogMessage::StaticString(s)); }
        else { trading_engine::error!("t{}m{}:", t, seq); }
    });
    let (b_step, b_now) = (step(), now());
    msg(&format!("burst of {}", n));
    let mut j = j.lock().unwrap();
    for seq in 0..n { j.recs.push(Rec { t, seq, level: 1, form: if stat { 6 } else { 0 }, text: format!("t{}m{}:", t, seq), a_step, b_step, a_now, b_now }); }
}

struct Setup { d_init: u64, dir: String }
fn wall_start() {
    const DAY: i64 = 86_400;
    // near midnight of interesting days, in seconds since 1970
    let days = [19_675i64, 19_782 /* 29 Feb 2024 */, 19_723 /* 1 Jan 2024 */, 20_148, 11_016 /* 29 Feb 2000 */, 22_280, 47_540 /* 2100-02-28 */, 365];
    let d = days[w(8) as usize] * DAY + [0, -2, 3600 * 9, 3600 * 15 - 1, DAY - 1, 3600 * 4 - 1][w(6) as usize];
    sim().wall_base = d * 1_000_000_000 + w(1000) as i64 * 999_999;
}
fn tz(j: &J, i: u64) -> TimeZone {
    let local = match std::env::var("TZ").unwrap_or_default().as_str() { "KST-9" => 9, "EST5" => -5, "LINT-14" => 14, "IST-5:30" => 5, _ => 0 };
    j.lock().unwrap().zones.extend_from_slice(match i { 0 | 2 => &[9], 1 => &[-4, -5], _ => &[][..] });
    if i > 2 { j.lock().unwrap().zones.push(local); }
    match i { 0 => TimeZone::Seoul, 1 => TimeZone::NewYork, 2 => TimeZone::Japan, _ => TimeZone::Local }
}
fn set_level(j: &J, lg: Logger, l: usize) -> Logger {
    let a = step();
    let lg = lg.with_max_log_level(level(l));
    let e = (a, step(), l);
    j.lock().unwrap().levels.push(e);
    msg(&format!("max level {}", l));
    lg
}
fn start(j: &J, first_level: usize) -> (Setup, LoggerGuard) {
    // UTC offsets the local time zone may have
    std::env::set_var("TZ", ["UTC0", "KST-9", "EST5", "LINT-14", "IST-5:30"][w(5) as usize]);
    sim().tsc_num = [16u64, 48, 40, 7][w(4) as usize];
    sim().cpus_refused = w(8) == 0;
    let i0 = now();
    let lg = Logger::initialize();
    let d_init = now() - i0;
    if w(4) == 0 { // logging before there is a file
        probe("logged_before_file");
        drop(set_level(j, Logger::initialize(), 5));
        if w(2) == 0 { std::mem::forget(Logger::initialize().with_console_report(w(2) == 1).launch()); }
        let n = 1 + w(6);
        for seq in 0..n { emit(j, 70, seq, 1 + w(5) as usize, [0, 1, 2, 5, 6, 6][w(6) as usize], text(70, seq)); if w(2) == 0 { sleep_ns(w(6_000_000)) } }
    }
    let dir = format!("/simfs/logs{}", ["", "/deep", "/deep/er"][w(3) as usize]);
    let lg = lg.with_file(&dir, "engine").unwrap_or_else(|e| violate("with-file", format!("{}", e)));
    let lg = set_level(j, lg.with_console_report(w(3) == 1).with_timezone(tz(j, w(4))), first_level);
    (Setup { d_init, dir }, lg.launch())
}
fn benign_disk() {
    let r = [0u64, 0, 40, 250];
    let c = vfs::Cfg { eintr: r[w(4) as usize], short: r[w(4) as usize], slow: r[w(4) as usize] / 2, ..Default::default() };
    sim().vfs.cfg = c;
}
fn pause() {
    match w(10) { 0..=4 => {} 5 | 6 => sleep_ns(w(3000) * 1000), 7 => sleep_ns(2_100_000), 8 => sleep_ns(1_000_000 * w(500)), _ => sleep_ns(3_600_000_000_000 * w(20) + 1) }
}
fn workers(j: &J, n: u64, max: u64, tbase: u64) -> Vec<std::thread::JoinHandle<()>> {
    (0..n).map(|t| {
        let k = 1 + w(max);
        let plan: Vec<(usize, u64, String)> = (0..k).map(|s| (1 + w(5) as usize, a_form(), text(tbase + t, s))).collect();
        let j = j.clone();
        let busy = w(2) == 1;
        spawn(&format!("user{}", tbase + t), move || for (s, (lv, form, tx)) in plan.into_iter().enumerate() {
            emit(&j, tbase + t, s as u64, lv, form, tx);
            if !busy { pause(); }
        })
    }).collect()
}

/// What the log files hold: in file order, the identified records; and what was left over.
struct Found { ids: Vec<(u64, u64, Value)>, junk: Vec<String>, dup: Option<String>, tail: usize, beats: u64 }
impl Found { fn index(&self) -> BTreeSet<(u64, u64)> { self.ids.iter().map(|x| (x.0, x.1)).collect() } }
fn key(s: &str) -> Option<(u64, u64)> {
    let r = s.strip_prefix('t')?;
    let (t, r) = r.split_once('m')?;
    let (q, _) = r.split_once(':')?;
    Some((t.parse().ok()?, q.parse().ok()?))
}
fn scan(files: &[Vec<u8>]) -> Found {
    let mut f = Found { ids: vec![], junk: vec![], dup: None, tail: 0, beats: 0 };
    let mut seen: BTreeMap<(u64, u64), ()> = BTreeMap::new();
    for b in files {
        let mut parts: Vec<&[u8]> = b.split(|c| *c == b'\n').collect();
        let last = parts.pop().unwrap_or(&[]);
        f.tail += last.len();
        for p in parts {
            let s = String::from_utf8_lossy(p);
            let v = match serde_json::from_str::<Value>(&s) { Ok(v) => v, Err(_) => {
                // a record appended to the torn remainder of an earlier write
                match s.rfind("{\"data\"").or_else(|| s.rfind("{\"static\"")).and_then(|i| serde_json::from_str::<Value>(&s[i..]).ok()) { Some(v) => { f.junk.push(s[..s.len().min(60)].to_string()); v } None => { f.junk.push(s.chars().take(80).collect()); continue; } }
            } };
            if v["topic"] == "logger" { continue; }
            if v["static"] == "beat" { f.beats += 1; continue; }
            let id = v["static"].as_str().or(v["data"]["id"].as_str()).or(v["data"]["text"].as_str()).or(v["topic"].as_str()).unwrap_or("").to_string();
            match key(&id) {
                Some((t, q)) => { if seen.insert((t, q), ()).is_some() { f.dup = Some(format!("record t{} m{} is in the log twice", t, q)); } f.ids.push((t, q, v)); }
                None => f.junk.push(s.chars().take(80).collect()),
            }
        }
    }
    f
}
fn check_content(j: &Journal, f: &Found) {
    let recs = j.index();
    for (t, q, v) in &f.ids {
        let r = match recs.get(&(*t, *q)) { Some(r) => r, None => continue };
        if r.form == 6 { require!(v["static"] == r.text.as_str(), "content", "record t{} m{} reads {}", t, q, v); continue; }
        require!(v["level"] == level(r.level).to_string().as_str(), "content", "record t{} m{} has level {}, logged at {}", t, q, v["level"], level(r.level));
        let d = &v["data"];
        if r.form == 8 { violate("content", format!("record t{} m{}, whose content could not be worked out, reads {}", t, q, v)); }
        if r.form == 9 {
            require!(v["topic"] == r.text.as_str() && d["error"].is_string(), "content", "record t{} m{}, a structure that cannot be written, reads {}", t, q, v);
            continue;
        }
        let got = d["text"].as_str().or(d["id"].as_str()).or(v["topic"].as_str()).unwrap_or("");
        require!(got == r.text, "content", "record t{} m{} reads {:?}, logged {:?}", t, q, got, r.text);
        match r.form {
            0 | 3 => require!(v["topic"] == "not given" && d.as_object().map(|o| o.len()) == Some(1), "content", "record t{} m{}: {}", t, q, v),
            7 => require!(d["n"] == r.seq && v["topic"] == "topic" && d["bad"]["error"].is_string(), "content", "record t{} m{}, one value of which cannot be written, reads {}", t, q, v),
            10 if r.level >= 4 => require!(v["topic"] == r.text.as_str() && *d == "talkative", "content", "record t{} m{}: {}", t, q, v),
            10 => require!(d["n"] == r.seq && v["topic"] == "topic" && d["more"] == "talkative", "content", "record t{} m{}: {}", t, q, v),
            1 | 2 | 4 => require!(d["n"] == r.seq && v["topic"] == "topic", "content", "record t{} m{}: {}", t, q, v),
            _ => require!(d["px"] == r.seq as f64 + 0.5 && d["lots"] == serde_json::json!([1, 2]), "content", "record t{} m{}: {}", t, q, v),
        }
    }
}
fn check_order(f: &Found) {
    let mut last: BTreeMap<u64, u64> = BTreeMap::new();
    for (t, q, _) in &f.ids {
        if let Some(p) = last.insert(*t, *q) { require!(p < *q, "order", "thread {}'s record {} comes after its record {}", t, p, q); }
    }
}
fn check_time(j: &Journal, s: &Setup, f: &Found) {
    let recs = j.index();
    for (t, q, v) in &f.ids {
        let r = match recs.get(&(*t, *q)) { Some(r) => r, None => continue };
        if r.form == 6 { continue; }
        let (d, tm, off) = (v["date"].as_str().unwrap_or(""), v["time"].as_str().unwrap_or(""), v["offset"].as_i64().unwrap_or(99));
        let p = |s: &str| s.parse::<i64>().unwrap_or_else(|_| violate("time-format", format!("{} {}", d, tm)));
        require!(d.len() == 8 && tm.len() == 20, "time-format", "{:?} {:?}", d, tm);
        let (y, m, day) = (p(&d[..4]), p(&d[4..6]), p(&d[6..8]));
        require!((1..=12).contains(&m) && (1..=31).contains(&day) && p(&tm[..2]) < 24 && p(&tm[3..5]) < 60 && p(&tm[6..8]) < 60, "time-format", "{} {}", d, tm);
        let days = chrono::NaiveDate::from_ymd_opt(y as i32, m as u32, day as u32).unwrap_or_else(|| violate("time-format", format!("{} is no date", d))).signed_duration_since(chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap()).num_days();
        let ns = (((days * 24 + p(&tm[..2]) - off) * 60 + p(&tm[3..5])) * 60 + p(&tm[6..8])) * 1_000_000_000 + p(&tm[9..12]) * 1_000_000 + p(&tm[13..16]) * 1000 + p(&tm[17..20]);
        let base = sim().wall_base;
        let (lo, hi) = (base + r.a_now as i64 - s.d_init as i64 - 3, base + r.b_now as i64 + s.d_init as i64 + 13);
        require!(j.zones.contains(&off) || (r.t == 70 && off == 0), "zone", "record t{} m{} is stamped with an offset of {} hours; the zones configured have {:?}", t, q, off, j.zones);
        require!(lo <= ns && ns <= hi, "timestamp", "record t{} m{} is stamped {} {} (offset {}), {} ns outside the call", t, q, d, tm, off, if ns < lo { ns - lo } else { ns - hi });
    }
}
/// The whole oracle for a clean shutdown without disk errors.
fn check_delivery(j: &Journal, files: &[Vec<u8>]) -> Found {
    let f = scan(files);
    if let Some(d) = &f.dup { violate("duplicate", d); }
    require!(f.junk.is_empty() && f.tail == 0, "garbled", "the log holds something nobody logged: {:?} (unfinished tail of {} bytes)", f.junk.first(), f.tail);
    let (mut must, mut filtered) = (0, 0);
    let ids = f.index();
    for r in &j.recs {
        let here = ids.contains(&(r.t, r.seq));
        match due(j, r) {
            Due::Must => { must += 1; require!(here, "lost", "record t{} m{} (level {}, form {}) was logged before shutdown and is not in the log", r.t, r.seq, r.level, r.form); }
            Due::Never => { filtered += 1; require!(!here, "unfiltered", "record t{} m{} (level {}) must not be in the log", r.t, r.seq, r.level); }
            Due::Maybe => probe("undetermined_record"),
        }
    }
    let recs = j.index();
    for (t, q, _) in &f.ids { require!(recs.contains_key(&(*t, *q)), "garbled", "the log holds record t{} m{} nobody logged", t, q); }
    check_order(&f);
    check_content(j, &f);
    if must > 0 { nontrivial(); }
    if filtered > 0 { probe("record_filtered"); }
    f
}
fn log_files(extra: &[String]) -> Vec<Vec<u8>> {
    let mut names = vfs::list();
    names.retain(|n| !extra.contains(n));
    let mut v: Vec<(Vec<u8>, String)> = names.iter().map(|n| (vfs::contents(n).unwrap(), n.clone())).collect();
    v.sort_by_key(|x| x.1.clone());
    v.into_iter().map(|x| x.0).collect()
}

/// `timed`: judge time stamps (L04) instead of delivery (L01).
fn delivery(timed: bool) {
    swarm_sched();
    benign_disk();
    wall_start();
    let j: J = Default::default();
    let lv = [3usize, 5, 5, 4, 2, 1, 0][w(7) as usize];
    let (s, guard) = start(&j, lv);
    if timed { swarm_wall(); }
    let late = w(4) == 3;
    let mut guards = vec![guard];
    let hs = workers(&j, 1 + w(4), 10, 0);
    let mut files_in_order: Vec<String> = vec![];
    let mut preloaded: Option<(String, Vec<u8>)> = None;
    if !timed && w(100) == 0 { burst(&j, 80); }
    // The same record again and again: each of them counts.
    let (beating, mut beats) = (!timed && w(4) == 0, 0);
    for k in 0..w(4) {
        pause();
        if beating { let n = 1 + w(3); for _ in 0..n { let _ = LOG_SENDER.try_send(LogMessage::StaticString("{\"static\":\"beat\"}\n")); beats += 1; if w(4) == 0 { pause(); } } probe("same_record_again"); }
        match w(5) {
            0 => { let lg = set_level(&j, Logger::initialize(), w(6) as usize); drop(lg); }
            1 => { sleep_ns(1_100_000_000); /* another second, another file name */ if let Ok(lg) = Logger::initialize().with_file(&s.dir, "engine") { guards.push(lg.launch()); probe("rotated"); } }
            2 => { let _ = Logger::initialize().with_timezone(tz(&j, w(4))); }
            3 => {
                let p = format!("/simfs/old{}.log", k);
                if preloaded.is_none() { let old = format!("{}\n", serde_json::json!({"static": format!("t90m{}:old", k)})).into_bytes(); vfs::preload(&p, &old); preloaded = Some((p.clone(), old)); }
                let _ = LOG_SENDER.send(LogMessage::SetFile(p.into()));
                probe("rotated");
            }
            _ => emit(&j, 50, k, 1, w(3), text(50, k)),
        }
    }
    files_in_order.push(String::new());
    let hs: Vec<_> = if late { probe("shutdown_while_logging"); pause(); hs } else { hs.into_iter().for_each(join); vec![] };
    let a = step();
    let t0 = now();
    drop(guards.pop());
    let b = step();
    j.lock().unwrap().fin = Some((a, b));
    msg("logger finalized");
    require!(now() - t0 < 3_600_000_000_000 * 30, "shutdown", "shutting the logger down took {} simulated ns", now() - t0);
    let after: BTreeMap<String, Vec<u8>> = vfs::list().into_iter().map(|n| { let c = vfs::contents(&n).unwrap(); (n, c) }).collect();
    if !timed { for (n, c) in &after { require!(vfs::durable(n).as_ref() == Some(c), "not-durable", "{} was not on disk when shutdown returned", n); } }
    // Using the logger after shutdown is harmless.
    emit(&j, 60, 0, 1, w(3), text(60, 0));
    drop(guards);
    hs.into_iter().for_each(join);
    emit(&j, 60, 1, 1, w(7), text(60, 1));
    sleep_ns(5_000_000);
    for (n, c) in &after { require!(vfs::contents(n).as_ref() == Some(c), "after-shutdown", "{} changed after shutdown returned", n); }
    if let Some((p, old)) = &preloaded { require!(vfs::contents(p).unwrap().starts_with(old), "overwritten", "the log file's earlier content was lost"); }
    let jj = j.lock().unwrap();
    let old: Vec<String> = preloaded.iter().map(|p| p.0.clone()).collect();
    // Order across files only matters when the file names sort in time order; a pre-existing file is scanned apart.
    let files = log_files(&old);
    let mut all = files.clone();
    if let Some((p, o)) = &preloaded { all.push(vfs::contents(p).unwrap()[o.len()..].to_vec()); }
    let pan = unasked();
    require!(pan.is_empty(), "panic", "{:?}", pan);
    if beats > 0 { let b = scan(&all).beats; require!(b == beats, if b < beats { "lost" } else { "duplicate" }, "one and the same record was logged {} times and is in the log {} times", beats, b); }
    if timed {
        let f = scan(&all);
        check_time(&jj, &s, &f);
        if !f.ids.is_empty() { nontrivial(); }
    } else if preloaded.is_some() {
        // Two sequences of files interleave in time: check order within each file only.
        let mut merged = vec![];
        for b in &all { check_order(&scan(&[b.clone()])); merged.extend_from_slice(b); }
        let f = scan(&[merged]);
        if let Some(d) = &f.dup { violate("duplicate", d); }
        require!(f.junk.is_empty() && f.tail == 0, "garbled", "{:?}", f.junk.first());
        let ids = f.index();
        for r in &jj.recs {
            let here = ids.contains(&(r.t, r.seq));
            match due(&jj, r) { Due::Must => require!(here, "lost", "record t{} m{} is not in any log file", r.t, r.seq), Due::Never => require!(!here, "unfiltered", "record t{} m{} (level {}) must not be in the log", r.t, r.seq, r.level), _ => {} }
        }
        check_content(&jj, &f);
        nontrivial();
    } else { check_delivery(&jj, &all); }
    note(format!("level {}, {} log calls by {} threads, files {}, shutdown while logging: {}", lv, jj.recs.len(), sim().threads.len(), after.len(), late));
}
fn l01() { delivery(false) }
fn l04() { delivery(true) }

fn disk_faults() {
    swarm_sched();
    wall_start();
    let j: J = Default::default();
    std::env::set_var("TZ", "UTC0");
    let r = [0u64, 0, 40, 250, 700];
    let writes = w(3) != 0; // else only opening, making directories, syncing and the console fail
    let c = vfs::Cfg { eintr: r[w(4) as usize], short: r[w(5) as usize], eio_write: if writes { r[w(5) as usize] } else { 0 }, enospc: if writes { r[w(4) as usize] } else { 0 }, eio_sync: r[w(4) as usize],
        open_fail: r[w(5) as usize], mkdir_fail: r[w(4) as usize], slow: r[w(4) as usize] / 2, free_after_ns: 1_000_000 << w(10), console_err: r[w(5) as usize] };
    sim().vfs.cfg = c.clone();
    let console = w(2) == 1;
    sim().cpus_refused = w(4) == 0;
    let mut guards: Vec<LoggerGuard> = vec![];
    let lg = set_level(&j, Logger::initialize(), 5).with_console_report(console);
    match lg.with_file("/simfs/a", "engine") { Ok(l) => guards.push(l.launch()), Err(_) => { probe("with_file_failed"); guards.push(Logger::initialize().launch()); } }
    let hs = workers(&j, 1 + w(3), 8, 0);
    for k in 0..w(4) { pause(); let _ = LOG_SENDER.try_send(LogMessage::SetFile(format!("/simfs/{}{}.log", if w(4) == 0 { "gone/" } else { "a" }, k).into())); }
    hs.into_iter().for_each(join);
    sleep_ns(10_000_000_000);
    // Unless nothing but the writing works: then shutdown comes in the middle of the faults.
    let heals = writes || w(3) != 0;
    // The disk heals; a fresh file is attached; from here on nothing may be lost.
    let (errors, writes_failed) = (sim().vfs.failed_ops > 0, sim().vfs.failed_writes > 0);
    if heals {
        sim().vfs.cfg = vfs::Cfg { slow: c.slow, short: c.short, ..Default::default() };
        sim().vfs.full = false;
        msg("faults stop");
        match Logger::initialize().with_file("/simfs/z", "engine") { Ok(l) => guards.push(l.launch()), Err(e) => violate("with-file", format!("on a healthy disk: {}", e)) }
    }
    let hs = workers(&j, 1 + w(3), 6, 10);
    hs.into_iter().for_each(join);
    let a = step();
    drop(guards.pop());
    msg("logger finalized");
    drop(guards);
    let pan = unasked();
    require!(pan.is_empty(), "panic", "a disk or console error took a thread down: {:?}", pan);
    let jj = j.lock().unwrap();
    let files = log_files(&[]);
    let f = scan(&files);
    if let Some(d) = &f.dup { violate("duplicate", d); }
    if !heals && files.is_empty() { probe("never_a_file"); return; }
    if !heals { probe("shutdown_amid_faults"); }
    if !writes_failed { require!(f.junk.is_empty(), "garbled", "no write failed, yet the log holds {:?}", f.junk.first()); }
    check_content(&jj, &f);
    let after = Found { ids: f.ids.iter().filter(|x| x.0 % 1000 >= 10).cloned().collect(), junk: vec![], dup: None, tail: 0, beats: 0 };
    check_order(&after);
    if !writes_failed { check_order(&f); }
    let mut lost = 0;
    for r in jj.recs.iter().filter(|r| r.form != 8) {
        let here = f.ids.iter().any(|(t, q, _)| *t == r.t && *q == r.seq);
        if r.t >= 1000 && r.b_step >= a { continue; }
        if r.t % 1000 >= 10 || !writes_failed { require!(here, "lost", "record t{} m{}, {}, is not in the log", r.t, r.seq, if r.t % 1000 >= 10 { "logged while the disk was healthy" } else { "though no write failed" }); } else if !here { lost += 1; }
    }
    if errors { nontrivial(); }
    if lost > 0 { probe("records_lost_to_disk_errors"); }
    note(format!("fault rates {:?}: {} log calls, {} failed disk operations, {} records lost", c, jj.recs.len(), sim().vfs.failed_ops, lost));
}

/// The logger's thread can not be started: its users carry on without a log.
fn no_thread() {
    swarm_sched();
    benign_disk();
    wall_start();
    let j: J = Default::default();
    if w(4) != 0 { drop(set_level(&j, Logger::initialize(), 5)); }
    let by = w(4);
    sim().spawn_refused = Some(if by == 0 { 1 } else { 0 });
    let hs = match by {
        0 => workers(&j, 1 + w(3), 4, 0),
        1 => { emit(&j, 50, 0, 1, w(7), text(50, 0)); vec![] }
        2 => { Logger::finalize(); vec![] }
        _ => vec![],
    };
    let guard = match Logger::initialize().with_file("/simfs/logs", "engine") { Ok(lg) => lg.launch(), Err(e) => violate("with-file", format!("on a healthy disk: {}", e)) };
    let refused = sim().spawn_refused.is_none();
    if by != 0 { require!(refused, "harness", "nobody started the logger's thread"); }
    sim().spawn_refused = None;
    let more = workers(&j, w(3), 4, 10);
    emit(&j, 50, 1, 1, a_form(), text(50, 1));
    if w(2) == 0 { hs.into_iter().for_each(join); more.into_iter().for_each(join); drop(guard); } else { drop(guard); hs.into_iter().for_each(join); more.into_iter().for_each(join); }
    emit(&j, 50, 2, 1, w(7), text(50, 2));
    Logger::finalize();
    let pan = unasked();
    require!(pan.is_empty(), "panic", "without the logger's thread: {:?}", pan);
    let jj = j.lock().unwrap();
    let f = scan(&log_files(&[]));
    if let Some(d) = &f.dup { violate("duplicate", d); }
    require!(f.junk.is_empty() && f.tail == 0, "garbled", "the log holds {:?}", f.junk.first());
    check_order(&f);
    check_content(&jj, &f);
    if refused { nontrivial(); }
    note(format!("the logger's thread could not be started, {} log calls", jj.recs.len()));
}

fn crash() {
    swarm_sched();
    benign_disk();
    wall_start();
    let j: J = Default::default();
    let (s, guard) = start(&j, 5);
    std::mem::forget(guard);
    let hs = workers(&j, 1 + w(4), 12, 0);
    let mut rotations = 0;
    let n = w(3);
    for _ in 0..n { pause(); if w(2) == 1 { sleep_ns(1_100_000_000); if let Ok(lg) = Logger::initialize().with_file(&s.dir, "engine") { std::mem::forget(lg.launch()); rotations += 1; } } }
    match w(4) {
        0 => for _ in 0..w(400) { point("before-crash", 0); },
        1 => sleep_ns(w(60_000) * 100),
        2 => { pause(); pause(); }
        _ => hs.into_iter().for_each(join),
    }
    let power = w(2) == 1;
    msg(&format!("crash, power failure {}", power));
    sim().preempt = false; // nothing of the process runs any more
    let jj = j.lock().unwrap();
    let mut names = vfs::list();
    names.sort();
    let files: Vec<Vec<u8>> = names.iter().map(|n| if power { vfs::crash(n).unwrap() } else { vfs::contents(n).unwrap() }).collect();
    let pan = unasked();
    require!(pan.is_empty(), "panic", "{:?}", pan);
    let mut cut: Vec<Vec<u8>> = vec![];
    for (i, b) in files.iter().enumerate() {
        let complete = b.last().map_or(true, |c| *c == b'\n');
        if !complete {
            // Only the file being written may end in an unfinished record.
            require!(files[i + 1..].iter().all(|x| x.is_empty()), "torn-middle", "{} ends in an unfinished record although a later file has data", names[i]);
            probe("unfinished_last_record");
        }
        let e = b.iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1);
        cut.push(b[..e].to_vec());
    }
    let f = scan(&cut);
    if let Some(d) = &f.dup { violate("duplicate", d); }
    require!(f.junk.is_empty(), "garbled", "after the crash the log holds {:?}", f.junk.first());
    check_order(&f);
    check_content(&jj, &f);
    // Nothing in front of a surviving record of the same thread may be missing.
    for (t, q, _) in &f.ids { for k in 0..*q {
        if !jj.recs.iter().any(|r| r.t == *t && r.seq == k && r.form != 8) { continue; }
        require!(f.ids.iter().any(|x| x.0 == *t && x.1 == k), "hole", "record t{} m{} survived the crash but the earlier m{} did not", t, q, k);
    } }
    if !f.ids.is_empty() { nontrivial(); }
    if f.ids.len() < jj.recs.len() { probe("records_lost_in_crash"); }
    note(format!("crash (power failure: {}) after {} log calls, {} survived, {} rotations", power, jj.recs.len(), f.ids.len(), rotations));
}
fn flush() {
    swarm_sched();
    benign_disk();
    wall_start();
    let j: J = Default::default();
    let (_s, guard) = start(&j, 5);
    std::mem::forget(guard);
    let hs = if w(2) == 1 { workers(&j, 1 + w(2), 6, 10) } else { vec![] };
    let mut seq = 0;
    for _ in 0..1 + w(3) {
        for _ in 0..w(4) { emit(&j, 0, seq, 1 + w(5) as usize, a_form(), text(0, seq)); seq += 1; if w(2) == 1 { pause(); } }
        let lv = [1usize, 3, 4, 5][w(4) as usize];
        emit(&j, 0, seq, lv, [2, 11][w(2) as usize], text(0, seq));
        // Once the logger had time to act, the process may die without losing any of this.
        let deadline = now() + 60_000_000_000;
        loop {
            let f = scan(&log_files(&[]));
            let poisoned: Vec<u64> = j.lock().unwrap().recs.iter().filter(|r| r.t == 0 && r.form == 8).map(|r| r.seq).collect();
            let have = |q: u64| poisoned.contains(&q) || f.ids.iter().any(|x| x.0 == 0 && x.1 == q);
            if (0..=seq).all(have) { break; }
            require!(now() < deadline, "not-flushed", "a flushing record (m{}) logged {} simulated ns ago, or one before it, has still not left the process", seq, now() - deadline + 60_000_000_000);
            sleep_ns(100_000_000);
        }
        nontrivial();
        seq += 1;
    }
    hs.into_iter().for_each(join);
    note(format!("{} records, each flushing one waited for", seq));
}
const REAL: &str = "trading-engine logger.rs with its thread, macros, BufWriter and std::fs; utils/timer.rs; real crossbeam-channel, once_cell, serde_json, chrono";
const STUB: &str = "kernel: scheduler, futexes, file system (/simfs), wall and monotonic clocks, CPU affinity; quanta's time-stamp counter";
const RULE: &str = "one seed = one run: random threads, log forms, levels, sizes, pauses, rotations, clock and disk faults";
pub const L01: Prop = Prop { id: "L01", quick: 40_000, thorough: 2_000_000, scenarios: &[Scenario { name: "delivery", weight: 1, body: l01, max_steps: 3_000_000, cpu_s: 30 }], real: REAL, stub: STUB,
    rule: RULE, assumptions: &["disk errors are excluded here (L02); interrupted, short and slow writes are included"], expect: &["short_write", "eintr_write", "slow_io", "rotated", "shutdown_while_logging", "record_filtered", "unwritable_value", "poisoned_record", "record_logged_by_a_record", "same_record_again", "cpus_refused", "burst", "huge_record", "thread_stall", "spurious_wakeup"] };
pub const L02: Prop = Prop { id: "L02", quick: 40_000, thorough: 2_000_000, scenarios: &[Scenario { name: "disk-faults", weight: 12, body: disk_faults, max_steps: 3_000_000, cpu_s: 30 }, Scenario { name: "no-thread", weight: 1, body: no_thread, max_steps: 400_000, cpu_s: 30 }], real: REAL, stub: STUB,
    rule: RULE, assumptions: &["records logged while the disk fails may be lost, never duplicated or invented"], expect: &["write_eio", "write_enospc", "disk_space_freed", "open_error", "mkdir_error", "sync_eio", "console_error", "short_write", "records_lost_to_disk_errors", "shutdown_amid_faults", "thread_not_started", "cpus_refused"] };
pub const L03: Prop = Prop { id: "L03", quick: 40_000, thorough: 2_000_000, scenarios: &[Scenario { name: "crash", weight: 3, body: crash, max_steps: 3_000_000, cpu_s: 30 }, Scenario { name: "flush", weight: 1, body: flush, max_steps: 400_000, cpu_s: 30 }], real: REAL, stub: STUB,
    rule: RULE, assumptions: &["the simulated disk keeps an append-only file's writes in order; directory entries are durable at once"], expect: &["power_failure", "torn_write", "lost_unsynced_write", "unfinished_last_record", "records_lost_in_crash"] };
pub const L04: Prop = Prop { id: "L04", quick: 40_000, thorough: 2_000_000, scenarios: &[Scenario { name: "timestamps", weight: 1, body: l04, max_steps: 3_000_000, cpu_s: 30 }], real: REAL, stub: STUB,
    rule: RULE, assumptions: &["the clock is anchored when the logger is initialised; the stamp may be off by the time that took"], expect: &["wall_clock_jump", "thread_stall"] };
