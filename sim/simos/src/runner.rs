//! Runs many simulated executions, each in a forked child, several at a time; minimises and records
//! violations; writes evidence.
use crate::core::{self, RunSpec, ST_HARNESS, ST_OK, ST_VIOLATION};
use crate::raw;
use crate::rng::{hash_str, mix};
use crate::shm::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
pub struct Scenario { pub name: &'static str, pub weight: u32, pub body: fn(), pub max_steps: u64, pub cpu_s: u64 }
#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str, pub scenarios: &'static [Scenario], pub quick: u64, pub thorough: u64,
    pub real: &'static str, pub stub: &'static str, pub rule: &'static str, pub assumptions: &'static [&'static str],
    /// Fault kinds and probes that must have occurred at least once in a whole batch; reported when not.
    pub expect: &'static [&'static str],
}
#[derive(Clone, Default, Debug)]
pub struct Outcome {
    pub status: u32, pub class: String, pub msg: String, pub digest: String, pub sched: String, pub steps: u64, pub switches: u64,
    pub sim_ns: u64, pub threads: u64, pub faults: BTreeMap<String, u64>, pub probes: BTreeMap<String, u64>, pub panics: Vec<String>, pub note: String,
    pub nontrivial: bool, pub choices: Choices, pub trace: String,
}
impl Outcome { fn bad(&self) -> bool { self.status == ST_VIOLATION } }
#[derive(Clone)]
struct Job { scen: Scenario, seed: u64, replay: Option<Choices>, verbose: bool, tag: u64 }

fn parse(shm: &Shm, wstatus: i32, keep: bool) -> Outcome {
    let mut o = Outcome { status: shm.status().load(std::sync::atomic::Ordering::SeqCst), ..Default::default() };
    if o.status == 0 {
        // The run never reported: it was killed by a signal, or it called exit.
        if libc::WIFSIGNALED(wstatus) {
            let sg = libc::WTERMSIG(wstatus);
            match sg {
                libc::SIGALRM => { o.status = ST_HARNESS; o.class = "wall-timeout".into(); o.msg = "the run blocked outside the simulator".into(); }
                libc::SIGPROF | libc::SIGXCPU | libc::SIGVTALRM => { o.status = ST_VIOLATION; o.class = "hang".into(); o.msg = "the code under test ran on without making progress (processor-time limit)".into(); }
                libc::SIGKILL => { o.status = ST_HARNESS; o.class = "killed".into(); o.msg = "the run was killed from outside".into(); }
                _ => { o.status = ST_VIOLATION; o.class = format!("signal-{}", sg); o.msg = format!("the process under test died of signal {}", sg); }
            }
        } else { o.status = ST_VIOLATION; o.class = "exit".into(); o.msg = format!("the process under test exited by itself with status {}", libc::WEXITSTATUS(wstatus)); }
    }
    for line in shm.report().lines() {
        let (k, v) = match line.split_once('\t') { Some(x) => x, None => continue };
        let n = || v.parse::<u64>().unwrap_or(0);
        match k {
            "class" => o.class = v.into(), "msg" => o.msg = v.replace("\\n", "\n"), "digest" => o.digest = v.into(), "sched" => o.sched = v.into(),
            "steps" => o.steps = n(), "switches" => o.switches = n(), "sim_ns" => o.sim_ns = n(), "threads" => o.threads = n(),
            "panic" => o.panics.push(v.into()), "note" => o.note = v.into(), "nontrivial" => o.nontrivial = v == "1",
            _ => if let Some(f) = k.strip_prefix("f:") { o.faults.insert(f.into(), n()); } else if let Some(p) = k.strip_prefix("p:") { o.probes.insert(p.into(), n()); }
        }
    }
    if o.bad() || keep { o.choices = shm.choices(); o.trace = shm.trace(); }
    o
}

unsafe fn spawn(job: &Job, shm: Shm, slot: usize, ncpu: usize) -> libc::pid_t {
    shm.reset();
    let pid = libc::fork();
    if pid != 0 { assert!(pid > 0, "fork failed"); return pid; }
    let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_RDWR);
    if std::env::var_os("SIM_KEEP_OUTPUT").is_none() { libc::dup2(null, 1); libc::dup2(null, 2); }
    libc::dup2(null, 0);
    let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    libc::setrlimit(libc::RLIMIT_CORE, &rl);
    // A run may not take the machine down: 6 GB of address space beyond what is mapped is plenty.
    let rl = libc::rlimit { rlim_cur: 64 << 30, rlim_max: 64 << 30 };
    libc::setrlimit(libc::RLIMIT_AS, &rl);
    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    let it = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: job.scen.cpu_s as i64, tv_usec: 0 } };
    raw::syscall6(libc::SYS_setitimer, 2, &it as *const _ as i64, 0, 0, 0, 0);
    libc::alarm(240);
    let mut set = [0u8; 128];
    let c = slot % ncpu;
    set[c / 8] |= 1 << (c % 8);
    raw::syscall6(libc::SYS_sched_setaffinity, 0, 128, set.as_ptr() as i64, 0, 0, 0);
    let body = job.scen.body;
    core::run_sim(RunSpec { seed: job.seed, replay: job.replay.clone(), verbose: job.verbose, max_steps: job.scen.max_steps }, shm, Box::new(move || body()))
}

pub struct Pool { slots: Vec<Shm>, ncpu: usize }
impl Pool {
    pub fn new(n: usize) -> Pool { Pool { slots: (0..n).map(|_| Shm::create()).collect(), ncpu: ncpu() } }
    /// Runs jobs produced by `next` until it returns None; `done` returns false to stop launching.
    fn run(&self, mut next: impl FnMut() -> Option<Job>, mut done: impl FnMut(&Job, Outcome) -> bool, keep: bool) {
        let mut busy: HashMap<libc::pid_t, (usize, Job)> = HashMap::new();
        let mut free: Vec<usize> = (0..self.slots.len()).rev().collect();
        let mut go = true;
        loop {
            while go && !free.is_empty() {
                match next() {
                    Some(j) => { let s = free.pop().unwrap(); let pid = unsafe { spawn(&j, self.slots[s], s, self.ncpu) }; busy.insert(pid, (s, j)); }
                    None => { go = false; }
                }
            }
            if busy.is_empty() { break; }
            let mut st = 0;
            let pid = unsafe { libc::waitpid(-1, &mut st, 0) };
            if let Some((s, j)) = busy.remove(&pid) {
                let o = parse(&self.slots[s], st, keep);
                free.push(s);
                if !done(&j, o) { go = false; }
            }
        }
    }
    fn one(&self, j: Job) -> Outcome {
        let mut out = None; let mut jj = Some(j);
        self.run(|| jj.take(), |_, o| { out = Some(o); true }, true);
        out.unwrap()
    }
    fn many(&self, js: Vec<Job>) -> Vec<Outcome> {
        let n = js.len(); let mut out: Vec<Option<Outcome>> = vec![None; n]; let mut it = js.into_iter().enumerate();
        self.run(|| it.next().map(|(i, mut j)| { j.tag = i as u64; j }), |j, o| { out[j.tag as usize] = Some(o); true }, true);
        out.into_iter().map(|o| o.unwrap()).collect()
    }
}
fn ncpu() -> usize {
    let mut set = [0u8; 128];
    let r = unsafe { raw::syscall6(libc::SYS_sched_getaffinity, 0, 128, set.as_mut_ptr() as i64, 0, 0, 0) };
    if r <= 0 { return 1; }
    set.iter().map(|b| b.count_ones() as usize).sum::<usize>().max(1)
}

fn pick_scenario(p: &Prop, i: u64) -> Scenario {
    let tot: u32 = p.scenarios.iter().map(|s| s.weight).sum();
    let mut r = (i % tot as u64) as u32;
    for s in p.scenarios { if r < s.weight { return *s; } r -= s.weight; }
    p.scenarios[0]
}
fn run_seed(base: u64, id: &str, i: u64) -> u64 { mix(mix(base, hash_str(id)), i) }

#[derive(Clone, Debug)]
pub struct Known { pub property: String, pub class: String, pub matching: String, pub what: String, pub fixed: bool }
pub fn load_known(path: &str) -> Vec<Known> {
    let txt = std::fs::read_to_string(path).unwrap_or_default();
    txt.lines().filter(|l| l.trim_start().starts_with('{')).filter_map(|l| serde_json::from_str::<Value>(l).ok()).map(|v| {
        let g = |k: &str| v[k].as_str().unwrap_or("").to_string();
        Known { property: g("property"), class: g("class"), matching: g("match"), what: g("what"), fixed: g("kind") == "fixed" }
    }).collect()
}
fn is_known(k: &[Known], id: &str, o: &Outcome) -> bool { k.iter().any(|k| !k.fixed && k.property == id && k.class == o.class && !k.class.is_empty() && o.msg.contains(&k.matching)) }

// ---- minimisation --------------------------------------------------------------------------------
fn total(c: &Choices) -> usize { c.iter().map(|s| s.len()).sum() }
fn nonzero(c: &Choices) -> usize { c.iter().map(|s| s.iter().filter(|v| **v != 0).count()).sum() }
fn trim(c: &mut Choices) { for s in c.iter_mut() { while s.last() == Some(&0) { s.pop(); } } }

fn minimise(pool: &Pool, scen: Scenario, seed: u64, first: Outcome, limit: Duration) -> (Outcome, u64) {
    let t0 = Instant::now();
    let class = first.class.clone();
    let mut tried = 0u64;
    let mut best = first;
    let mut cur = best.choices.clone();
    trim(&mut cur);
    let par = pool.slots.len();
    // Tries candidates in batches; adopts the first that still fails the same way.
    let mut attempt = |cands: Vec<Choices>, cur: &mut Choices, best: &mut Outcome| -> Option<usize> {
        let mut base = 0;
        for ch in cands.chunks(par) {
            if t0.elapsed() > limit { return None; }
            let js = ch.iter().map(|c| Job { scen, seed, replay: Some(c.clone()), verbose: false, tag: 0 }).collect();
            let outs = pool.many(js);
            tried += ch.len() as u64;
            for (i, o) in outs.into_iter().enumerate() {
                if o.bad() && o.class == class {
                    let mut c = ch[i].clone();
                    trim(&mut c);
                    *cur = c;
                    *best = o;
                    return Some(base + i);
                }
            }
            base += ch.len();
        }
        None
    };
    let mut round = 0;
    loop {
        let before = (total(&cur), nonzero(&cur));
        // Drop whole streams, then the tails of streams.
        for st in [F, M, N, S, W] {
            if cur[st].is_empty() { continue; }
            let mut c = Vec::new();
            let mut full = cur.clone(); full[st].clear(); c.push(full);
            for k in 1..8usize { let mut x = cur.clone(); let n = x[st].len() * k / 8; x[st].truncate(n); c.push(x); }
            attempt(c, &mut cur, &mut best);
        }
        // Delete, then zero, chunks.
        for st in [W, F, N, S, M] {
            for mode in 0..2 {
                let mut size = (cur[st].len() / 2).max(1);
                while size >= 1 && t0.elapsed() < limit {
                    let mut pos = 0;
                    while pos < cur[st].len() && t0.elapsed() < limit {
                        let mut cands = Vec::new(); let mut starts = Vec::new();
                        let mut q = pos;
                        while q < cur[st].len() && cands.len() < par {
                            let e = (q + size).min(cur[st].len());
                            if mode == 0 || cur[st][q..e].iter().any(|v| *v != 0) {
                                let mut x = cur.clone();
                                if mode == 0 { x[st].drain(q..e); } else { for v in &mut x[st][q..e] { *v = 0; } }
                                cands.push(x); starts.push(q);
                            }
                            q += size;
                        }
                        match attempt(cands, &mut cur, &mut best) { Some(i) => { pos = if mode == 0 { starts[i] } else { starts[i] + size }; } None => { pos = q; } }
                    }
                    if size == 1 { break; }
                    size /= 2;
                    if cur[st].len() > 4000 && size < cur[st].len() / 256 { break; }
                }
            }
        }
        // Make the remaining workload values simpler.
        for st in [W, F, N] {
            if cur[st].len() > 300 { continue; }
            let mut i = 0;
            while i < cur[st].len() && t0.elapsed() < limit {
                let v = cur[st][i];
                if v > 1 {
                    let mut c = Vec::new();
                    for nv in [1, v / 2, v - 1] { if nv < v { let mut x = cur.clone(); x[st][i] = nv; c.push(x); } }
                    attempt(c, &mut cur, &mut best);
                }
                i += 1;
            }
        }
        round += 1;
        if (total(&cur), nonzero(&cur)) >= before || round > 6 || t0.elapsed() > limit { break; }
    }
    let o = pool.one(Job { scen, seed, replay: Some(cur.clone()), verbose: true, tag: 0 });
    if o.bad() && o.class == class { let mut o = o; o.choices = cur; return (o, tried); }
    (best, tried)
}

fn replay_json(p: &Prop, scen: &Scenario, seed: u64, o: &Outcome, orig: usize, tried: u64) -> Value {
    let mut ch = serde_json::Map::new();
    for st in 0..NS { ch.insert(STREAM_NAMES[st].into(), json!(o.choices[st])); }
    let tr: Vec<&str> = o.trace.lines().collect();
    let tail: Vec<&str> = if tr.len() > 400 { tr[tr.len() - 400..].to_vec() } else { tr.clone() };
    json!({"property": p.id, "scenario": scen.name, "seed": seed, "class": o.class, "message": o.msg, "digest": o.digest,
        "original_choices": orig, "minimised_choices": total(&o.choices), "candidate_runs": tried,
        "faults": o.faults, "panics": o.panics, "choices": ch, "trace_lines": tr.len(), "trace": tail})
}
fn write_file(path: &str, s: &str) {
    if let Some(d) = std::path::Path::new(path).parent() { let _ = std::fs::create_dir_all(d); }
    let tmp = format!("{}.tmp", path);
    std::fs::write(&tmp, s).expect("cannot write");
    std::fs::rename(&tmp, path).expect("cannot rename");
}

fn no_aslr() {
    unsafe {
        let cur = libc::personality(0xffffffff);
        if cur >= 0 && cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_REEXEC").is_none() {
            if libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("SIM_REEXEC", "1").exec();
                eprintln!("re-exec failed: {}", e);
            }
        }
    }
}

pub fn main(props: &'static [Prop]) -> ! {
    no_aslr();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) };
    let find = |id: &str| -> &'static Prop { match props.iter().find(|p| p.id == id) { Some(p) => p, None => { eprintln!("unknown property {}", id); std::process::exit(2) } } };
    let par = opt("--par").and_then(|v| v.parse().ok()).unwrap_or_else(|| ncpu().min(8));
    let code = match args.first().map(|s| s.as_str()) {
        Some("list") => { for p in props { println!("{}", p.id); } 0 }
        Some("check") => check(find(&args[1]), &opt, par),
        Some("replay") => replay(props, &args[1], par),
        Some("one") => {
            let p = find(&args[1]);
            let i: u64 = opt("--run").and_then(|v| v.parse().ok()).unwrap_or(0);
            let base: u64 = opt("--seed").and_then(|v| v.parse().ok()).unwrap_or(1);
            let scen = match opt("--scenario") { Some(n) => *p.scenarios.iter().find(|s| s.name == n).expect("scenario"), None => pick_scenario(p, i) };
            let o = Pool::new(1).one(Job { scen, seed: run_seed(base, p.id, i), replay: None, verbose: true, tag: 0 });
            print!("{}", o.trace);
            println!("status {} class {} msg {}\nfaults {:?}\nprobes {:?}\npanics {:?}\nsteps {} switches {} sim_ns {} threads {} digest {} nontrivial {}\nnote {}", o.status, o.class, o.msg, o.faults, o.probes, o.panics, o.steps, o.switches, o.sim_ns, o.threads, o.digest, o.nontrivial, o.note);
            0
        }
        Some("determinism") => determinism(props, &opt),
        _ => { eprintln!("usage: check <id> | replay <file> | one <id> --run i | list | determinism"); 2 }
    };
    std::process::exit(code)
}

/// Runs every property's first runs twice, at different degrees of parallelism, and compares digests.
fn determinism(props: &'static [Prop], opt: &dyn Fn(&str) -> Option<String>) -> i32 {
    let n: u64 = opt("--runs").and_then(|v| v.parse().ok()).unwrap_or(200);
    let base: u64 = opt("--seed").and_then(|v| v.parse().ok()).unwrap_or(1);
    let only = opt("--property");
    let mut bad = 0;
    for p in props {
        if only.as_ref().map_or(false, |o| o != p.id) { continue; }
        let go = |par: usize| -> Vec<String> {
            let js = (0..n).map(|i| Job { scen: pick_scenario(p, i), seed: run_seed(base, p.id, i), replay: None, verbose: false, tag: 0 }).collect();
            Pool::new(par).many(js).into_iter().map(|o| format!("{} {} {} {} {} {}", o.status, o.class, o.digest, o.sched, o.steps, o.sim_ns)).collect()
        };
        let a = go(8); let b = go(3);
        let d = a.iter().zip(&b).filter(|(x, y)| x != y).count();
        if d > 0 { let k = a.iter().zip(&b).position(|(x, y)| x != y).unwrap(); println!("{}: {} of {} runs differ; first {}: {} | {}", p.id, d, n, k, a[k], b[k]); bad += 1; } else { println!("{}: {} runs identical", p.id, n); }
    }
    if bad > 0 { 2 } else { 0 }
}

fn check(p: &'static Prop, opt: &dyn Fn(&str) -> Option<String>, par: usize) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = opt("--seed").and_then(|v| v.parse().ok()).unwrap_or(1);
    let tier = opt("--tier").unwrap_or("quick".into());
    let runs: u64 = opt("--runs").and_then(|v| v.parse().ok()).unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    let budget = Duration::from_secs(opt("--budget").and_then(|v| v.parse().ok()).unwrap_or(if tier == "thorough" { 3600 } else { 240 }));
    let evidence = opt("--evidence").unwrap_or(format!("evidence/{}.json", p.id));
    let replays = opt("--replays").unwrap_or("replays".into());
    let known = load_known(&opt("--known").unwrap_or("known-findings.jsonl".into()));
    let pool = Pool::new(par);
    let mut digests: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut per_scen: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (mut evals, mut steps, mut switches, mut sim_ns, mut with_faults, mut max_threads, mut known_hits) = (0u64, 0u64, 0u64, 0u128, 0u64, 0u64, 0u64);
    let mut samples: Vec<Value> = vec![];
    let mut fails: Vec<(u64, Job, Outcome)> = vec![];
    let mut harness: Option<(Job, Outcome)> = None;
    let mut check_digests: Vec<(u64, String)> = vec![];
    let mut i = 0u64;
    let mut cut = false;
    pool.run(|| {
        if i >= runs { return None; }
        if t0.elapsed() > budget { cut = true; return None; }
        let j = Job { scen: pick_scenario(p, i), seed: run_seed(seed, p.id, i), replay: None, verbose: false, tag: i };
        i += 1;
        Some(j)
    }, |j, o| {
        evals += 1; steps += o.steps; switches += o.switches; sim_ns += o.sim_ns as u128; max_threads = max_threads.max(o.threads);
        *per_scen.entry(j.scen.name).or_insert(0) += 1;
        let d = u64::from_str_radix(&o.digest, 16).unwrap_or(0);
        digests.insert(d);
        scheds.insert(u64::from_str_radix(&o.sched, 16).unwrap_or(0));
        if o.nontrivial { nontrivial.insert(d); }
        if !o.faults.is_empty() { with_faults += 1; }
        for (k, v) in &o.faults { *faults.entry(k.clone()).or_insert(0) += v; }
        for (k, v) in &o.probes { *probes.entry(k.clone()).or_insert(0) += v; }
        if j.tag < 24 { check_digests.push((j.tag, o.digest.clone())); }
        if samples.len() < 6 && (o.nontrivial || evals > 50) {
            samples.push(json!({"run": j.tag, "scenario": j.scen.name, "seed": j.seed, "steps": o.steps, "switches": o.switches, "threads": o.threads, "simulated_ns": o.sim_ns, "faults": o.faults, "history": o.note}));
        }
        match o.status {
            ST_OK => true,
            ST_VIOLATION => { if is_known(&known, p.id, &o) { known_hits += 1; true } else { fails.push((j.tag, j.clone(), o)); false } }
            _ => { harness = Some((j.clone(), o)); false }
        }
    }, false);
    let search_s = t0.elapsed().as_secs_f64();
    // Replay fidelity of this very batch: the first runs again, one after another.
    let mut det = (0, 0);
    if fails.is_empty() && harness.is_none() {
        let js: Vec<Job> = check_digests.iter().map(|(i, _)| Job { scen: pick_scenario(p, *i), seed: run_seed(seed, p.id, *i), replay: None, verbose: false, tag: 0 }).collect();
        let outs = Pool::new(2.min(par)).many(js);
        for (o, (_, d)) in outs.iter().zip(&check_digests) { det.0 += 1; if o.digest == *d { det.1 += 1; } }
    }
    let mut viol = 0;
    let mut code = 0;
    let mut lines: Vec<String> = vec![];
    for k in &known { if k.property == p.id && !k.fixed { lines.push(format!("KNOWN-FINDING: property={} {}", p.id, k.what)); } }
    if let Some((_, j, o)) = fails.into_iter().min_by_key(|f| f.0) {
        viol = 1;
        let orig = total(&o.choices);
        let lim = Duration::from_secs(if tier == "thorough" { 300 } else { 60 });
        // The run must fail again from its recorded choices before anything is believed.
        let again = pool.one(Job { scen: j.scen, seed: j.seed, replay: Some(o.choices.clone()), verbose: true, tag: 0 });
        let (m, tried) = if again.bad() && again.class == o.class { minimise(&pool, j.scen, j.seed, Outcome { choices: o.choices.clone(), ..again }, lim) } else { (o.clone(), 0) };
        let path = format!("{}/{}-{}-{}.json", replays, p.id, j.scen.name, j.seed);
        write_file(&path, &serde_json::to_string_pretty(&replay_json(p, &j.scen, j.seed, &m, orig, tried)).unwrap());
        let abs = std::fs::canonicalize(&path).map(|x| x.display().to_string()).unwrap_or(path);
        println!("run {} of scenario {} (seed {}): {}: {}", j.tag, j.scen.name, j.seed, m.class, m.msg);
        for l in m.panics.iter().take(5) { println!("  panic: {}", l); }
        println!("  minimised from {} to {} choices in {} candidate runs", orig, total(&m.choices), tried);
        lines.push(format!("VIOLATION property={} replay={}", p.id, abs));
        code = 1;
    } else if let Some((j, o)) = harness {
        eprintln!("harness error in run {} of {} (seed {}): {}: {} {:?}", j.tag, j.scen.name, j.seed, o.class, o.msg, o.panics);
        code = 2;
    }
    let missing: Vec<&str> = p.expect.iter().filter(|e| !faults.contains_key(**e) && !probes.contains_key(**e)).copied().collect();
    if !missing.is_empty() && code == 0 { eprintln!("note: never reached in this batch: {:?}", missing); }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": viol, "assumptions": p.assumptions,
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": nontrivial.len(), "rule": p.rule, "samples": samples,
            "simulated_runs": evals, "seeds_per_hour": (evals as f64 / search_s.max(0.001) * 3600.0) as u64, "simulated_seconds": sim_ns as f64 / 1e9,
            "steps": steps, "context_switches": switches, "distinct_histories": digests.len(), "distinct_interleavings": scheds.len(),
            "interleaving_measure": "hash over every context switch of (thread switched to, hash of all operations so far)",
            "runs_per_scenario": per_scen, "runs_with_a_fault": with_faults, "faults_injected": faults, "probes": probes, "not_reached": missing, "max_threads": max_threads,
            "real_components": p.real, "stubbed_components": p.stub, "known_finding_hits": known_hits, "stopped_by_time_budget": cut,
            "determinism_recheck": {"runs": det.0, "identical": det.1}
        }
    });
    write_file(&evidence, &serde_json::to_string_pretty(&ev).unwrap());
    for l in &lines { println!("{}", l); }
    if code == 0 { println!("ok property={} runs={} distinct={} interleavings={} simulated_s={:.1} wall_s={:.1}", p.id, evals, nontrivial.len(), scheds.len(), sim_ns as f64 / 1e9, wall); }
    code
}

fn replay(props: &'static [Prop], path: &str, _par: usize) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("cannot read the replay file")).expect("bad replay file");
    let p = props.iter().find(|p| p.id == v["property"].as_str().unwrap_or("")).expect("unknown property");
    let scen = *p.scenarios.iter().find(|s| s.name == v["scenario"].as_str().unwrap_or("")).expect("unknown scenario");
    let mut ch: Choices = Default::default();
    for st in 0..NS { ch[st] = v["choices"][STREAM_NAMES[st]].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u16).collect()).unwrap_or_default(); }
    let o = Pool::new(1).one(Job { scen, seed: v["seed"].as_u64().unwrap_or(0), replay: Some(ch), verbose: true, tag: 0 });
    print!("{}", o.trace);
    println!("status {} class {}: {}", o.status, o.class, o.msg);
    for l in &o.panics { println!("  panic: {}", l); }
    if o.bad() {
        let same = o.class == v["class"].as_str().unwrap_or("") && o.digest == v["digest"].as_str().unwrap_or("");
        println!("{}", if same { "replayed exactly" } else { "fails, but not exactly as recorded (the code has changed since?)" });
        println!("VIOLATION property={} replay={}", p.id, path);
        1
    } else if o.status == ST_HARNESS { 2 } else { println!("does not fail on this tree"); 0 }
}
