//! Seeded search: runs cases in forked children, collects coverage, minimises and replays violations.
use crate::rt::{self, Cfg, Dev, Outcome, Rng, RunFn, Shared};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng) -> Value,
    pub run: RunFn,
    /// Longest stall (ns of simulated time) the scheduler may inject without invalidating the oracle.
    pub max_stall_ns: u64,
    pub max_time_ns: u64,
    /// A process group that may crash at a random step (0 = none).
    pub crash_group: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stubs: &'static str,
}

#[derive(Clone, Debug)]
pub struct RunRes { pub o: Outcome, pub steps: u64, pub now_ns: u64, pub sched_hash: u64, pub event_hash: u64, pub log: Vec<String>, pub panics: Vec<String>, pub devs: Vec<Dev>, pub stats: [u64; 5], pub counters: Vec<u64> }

pub fn map_shared() -> *mut Shared {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut Shared
    }
}

/// Runs one case in a forked child.
pub fn exec(prop: &Prop, sh: *mut Shared, cfg: &Cfg, case: &str, replay: Option<&[Dev]>, want_devs: bool, trace: Option<i32>) -> RunRes {
    let mut cfg = *cfg;
    unsafe {
        let s = &mut *sh;
        s.done = 0; s.out_len = 0; s.ndevs = 0; s.devs_overflow = 0; s.nreplay = 0;
        s.steps = 0; s.switches = 0; s.now_ns = 0; s.stalls = 0; s.spurious = 0; s.crashes = 0; s.sched_hash = 0; s.event_hash = 0; s.nthreads = 0;
        s.counters = [0; 64];
        if let Some(d) = replay { cfg.replay = 1; s.nreplay = d.len().min(rt::MAX_DEVS) as u64; s.replay[..s.nreplay as usize].copy_from_slice(&d[..s.nreplay as usize]); }
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            // A child that stops reaching scheduling points is ended after this much CPU time.
            let lim = libc::rlimit { rlim_cur: 60, rlim_max: 61 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &nocore);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if std::env::var_os("SIM_STDERR").is_none() { let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY); libc::dup2(n, 2); if n > 2 { libc::close(n); } }
            rt::run_child(&cfg, sh, case.to_string(), prop.run, trace.unwrap_or(-1));
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let s = &*sh;
        let (o, log, panics) = if s.done == 1 && s.out_len > 0 {
            let v: Value = serde_json::from_slice(&s.out[..s.out_len as usize]).unwrap_or(json!({"class":"harness","msg":"bad outcome"}));
            let sv = |k: &str| v[k].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect::<Vec<_>>()).unwrap_or_default();
            (Outcome { class: v["class"].as_str().unwrap_or("harness").into(), msg: v["msg"].as_str().unwrap_or("").into(), nontrivial: v["nontrivial"].as_bool().unwrap_or(false) }, sv("log"), sv("panics"))
        } else if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            let c = if sig == libc::SIGXCPU || sig == libc::SIGKILL { "livelock" } else { "crash" };
            (Outcome::bad(c, format!("process ended by signal {sig}{}", if c == "livelock" { " (no progress within the CPU limit)" } else { " (memory error or abort)" })), vec![], vec![])
        } else { (Outcome::bad("harness", format!("child exit status {}", libc::WEXITSTATUS(st))), vec![], vec![]) };
        RunRes { o, steps: s.steps, now_ns: s.now_ns, sched_hash: s.sched_hash, event_hash: s.event_hash, log, panics,
            devs: if want_devs { s.devs[..s.ndevs as usize].to_vec() } else { vec![] },
            stats: [s.switches, s.stalls, s.spurious, s.crashes, s.nthreads], counters: s.counters.to_vec() }
    }
}

fn mixs(a: u64, b: u64) -> u64 { let mut r = Rng(a ^ b.wrapping_mul(0xD6E8FEB86659FD93)); r.next() }
fn hash_id(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }

/// Everything about run `i` follows from (property, base seed, i).
pub fn make(prop: &Prop, base: u64, i: u64) -> (String, Cfg) {
    let mut r = Rng(mixs(mixs(base, hash_id(prop.id)), i));
    let mut gr = Rng(r.next());
    let case = (prop.gen)(&mut gr);
    let mut c = Cfg { seed_sched: r.next(), seed_data: r.next(), ..Default::default() };
    match r.below(100) {
        0..=54 => { c.strategy = 1; c.preempt_1in = r.pick(&[8, 25, 60, 150, 400, 1000, 4000, 0]); c.wake_1in = r.pick(&[0, 2, 4, 10]); }
        55..=79 => { c.strategy = 2; c.pct_depth = r.range(1, 12); c.pct_len = r.pick(&[500, 2000, 6000, 15000, 40000]); }
        80..=92 => { c.strategy = 3; }
        _ => { c.strategy = 0; }
    }
    // A connection does not survive a process that stalls for longer than its heartbeats allow.
    let max_stall = if case["amqp"].is_null() { prop.max_stall_ns } else { prop.max_stall_ns.min(2_000_000_000) };
    if max_stall > 0 && r.chance(35, 100) { c.stall_1in = r.pick(&[500, 2000, 8000, 20000]); c.stall_max_ns = r.pick(&[1_000_000, 50_000_000, 2_000_000_000, 30_000_000_000]).min(max_stall); }
    if r.chance(20, 100) { c.spurious_1in = r.pick(&[300, 2000, 10000]); }
    c.tick_ns = r.pick(&[1, 10, 100, 1000]);
    c.max_steps = 40_000_000;
    c.max_time_ns = prop.max_time_ns;
    if prop.crash_group > 0 && r.chance(70, 100) { c.crash_step = r.range(1, r.clone().pick(&[5_000, 20_000, 60_000, 150_000])); c.crash_group = prop.crash_group; }
    (case.to_string(), c)
}

pub fn devs_json(d: &[Dev]) -> Value { Value::Array(d.iter().map(|d| json!([d.step, d.kind, d.tid, d.arg])).collect()) }
pub fn devs_from(v: &Value) -> Vec<Dev> {
    v.as_array().map(|a| a.iter().map(|d| Dev { step: d[0].as_u64().unwrap(), kind: d[1].as_u64().unwrap() as u32, tid: d[2].as_i64().unwrap() as i32, arg: d[3].as_u64().unwrap() }).collect()).unwrap_or_default()
}
pub fn cfg_json(c: &Cfg) -> Value {
    json!({"seed_sched": c.seed_sched, "seed_data": c.seed_data, "strategy": c.strategy, "preempt_1in": c.preempt_1in, "wake_1in": c.wake_1in, "stall_1in": c.stall_1in, "stall_max_ns": c.stall_max_ns,
        "spurious_1in": c.spurious_1in, "pct_depth": c.pct_depth, "pct_len": c.pct_len, "tick_ns": c.tick_ns, "max_steps": c.max_steps, "max_time_ns": c.max_time_ns, "crash_step": c.crash_step, "crash_group": c.crash_group})
}
pub fn cfg_from(v: &Value) -> Cfg {
    let g = |k: &str| v[k].as_u64().unwrap_or(0);
    Cfg { seed_sched: g("seed_sched"), seed_data: g("seed_data"), strategy: g("strategy"), preempt_1in: g("preempt_1in"), wake_1in: g("wake_1in"), stall_1in: g("stall_1in"), stall_max_ns: g("stall_max_ns"),
        spurious_1in: g("spurious_1in"), pct_depth: g("pct_depth"), pct_len: g("pct_len"), tick_ns: g("tick_ns"), max_steps: g("max_steps"), max_time_ns: g("max_time_ns"), replay: 0, crash_step: g("crash_step"), crash_group: g("crash_group") }
}

// ---- known findings ----
/// Lines "finding: property=<id> class=<class> match=<text> :: <description>".
pub struct Finding { pub prop: String, pub class: String, pub matches: String, pub desc: String }
pub fn findings(path: &str) -> Vec<Finding> {
    let t = std::fs::read_to_string(path).unwrap_or_default();
    t.lines().filter_map(|l| {
        let l = l.strip_prefix("finding: ")?;
        let (head, desc) = l.split_once(" :: ")?;
        let (head, m) = head.split_once(" match=")?;
        let mut prop = ""; let mut class = "";
        for w in head.split_whitespace() { if let Some(x) = w.strip_prefix("property=") { prop = x } if let Some(x) = w.strip_prefix("class=") { class = x } }
        Some(Finding { prop: prop.into(), class: class.into(), matches: m.into(), desc: desc.into() })
    }).collect()
}

// ---- search ----
struct Ctl { stop: u64 }
fn worker(prop: &Prop, w: u64, nw: u64, base: u64, deadline: Instant, max_runs: u64, ctl: *mut Ctl, known: &[Finding], out: &str) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(w as usize % 64, &mut set);
        // Direct system call: sched_getaffinity is interposed, this one is not, but an unavailable CPU is not an error.
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let sh = map_shared();
    let mut scheds: HashSet<u64> = HashSet::new(); let mut evs: HashSet<u64> = HashSet::new();
    let (mut n, mut nontriv, mut steps, mut simns, mut maxsteps) = (0u64, 0u64, 0u64, 0u128, 0u64);
    let mut stats = [0u64; 5]; let mut counters = vec![0u64; 64]; let mut strat = [0u64; 4]; let mut distinct = HashSet::new();
    let mut samples: Vec<Value> = vec![]; let mut viol: Option<Value> = None; let mut known_hits: BTreeMap<usize, u64> = BTreeMap::new();
    let mut i = w;
    while i < max_runs && Instant::now() < deadline && unsafe { std::ptr::read_volatile(&(*ctl).stop) } == 0 {
        let (case, cfg) = make(prop, base, i);
        let t0 = Instant::now();
        let r = exec(prop, sh, &cfg, &case, None, false, None);
        if std::env::var_os("SIM_SLOW").is_some() && t0.elapsed() > Duration::from_secs(2) { println!("run {i}: {:.1} s, {} steps, {:.0} simulated s", t0.elapsed().as_secs_f64(), r.steps, r.now_ns as f64 / 1e9) }
        n += 1; steps += r.steps; simns += r.now_ns as u128; maxsteps = maxsteps.max(r.steps);
        strat[cfg.strategy as usize] += 1;
        for k in 0..5 { stats[k] += r.stats[k] }
        for k in 0..64 { counters[k] += r.counters[k] }
        scheds.insert(r.sched_hash); evs.insert(r.event_hash);
        if r.o.nontrivial { nontriv += 1; distinct.insert(mixs(r.sched_hash, hash_id(&case))); }
        if samples.len() < 2 && r.o.nontrivial { samples.push(json!({"run": i, "case": serde_json::from_str::<Value>(&case).unwrap(), "steps": r.steps, "simulated_us": r.now_ns / 1000, "strategy": cfg.strategy})); }
        if !r.o.class.is_empty() {
            if let Some(k) = known.iter().position(|f| f.prop == prop.id && f.class == r.o.class && r.o.msg.contains(&f.matches)) { *known_hits.entry(k).or_default() += 1; }
            else { viol = Some(json!({"run": i, "class": r.o.class, "msg": r.o.msg})); unsafe { std::ptr::write_volatile(&mut (*ctl).stop, 1) } }
        }
        i += nw;
    }
    let h = |s: &HashSet<u64>| s.iter().copied().collect::<Vec<_>>();
    let v = json!({"n": n, "nontriv": nontriv, "steps": steps, "simns": simns as f64, "maxsteps": maxsteps, "stats": stats, "counters": counters, "scheds": h(&scheds), "evs": h(&evs), "distinct": h(&distinct),
        "samples": samples, "viol": viol, "strat": strat, "known": known_hits.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()});
    std::fs::write(out, v.to_string()).unwrap();
}

pub struct Opts { pub seed: u64, pub tier: String, pub secs: f64, pub max_runs: u64, pub jobs: u64, pub evidence: Option<String>, pub replay_dir: String, pub tmp: String, pub known: String }

pub fn check(prop: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(o.secs);
    let known = findings(&o.known);
    std::fs::create_dir_all(&o.tmp).unwrap();
    let ctl = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut Ctl };
    let mut pids = vec![];
    for w in 0..o.jobs {
        let out = format!("{}/{}-{}.json", o.tmp, prop.id, w);
        let _ = std::fs::remove_file(&out);
        let pid = unsafe { libc::fork() };
        if pid == 0 { worker(prop, w, o.jobs, o.seed, deadline, o.max_runs, ctl, &known, &out); unsafe { libc::_exit(0) } }
        pids.push((pid, out));
    }
    let mut vs: Vec<Value> = vec![]; let mut broken = false;
    for (pid, out) in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} }
        match std::fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str(&t).ok()) { Some(v) => vs.push(v), None => { eprintln!("worker failed: status {st}"); broken = true } }
        let _ = std::fs::remove_file(&out);
    }
    let explore_s = t0.elapsed().as_secs_f64();
    let sum = |k: &str| vs.iter().map(|v| v[k].as_u64().unwrap_or(0)).sum::<u64>();
    let uni = |k: &str| { let mut s = HashSet::new(); for v in &vs { for x in v[k].as_array().unwrap() { s.insert(x.as_u64().unwrap()); } } s.len() as u64 };
    let n = sum("n");
    let simns: f64 = vs.iter().map(|v| v["simns"].as_f64().unwrap_or(0.0)).sum();
    let vecsum = |k: &str, i: usize| vs.iter().map(|v| v[k][i].as_u64().unwrap_or(0)).sum::<u64>();
    let mut faults = BTreeMap::new();
    for (i, nme) in ["thread_stalls", "spurious_futex_wakes", "process_crashes"].iter().enumerate() { faults.insert(nme.to_string(), vecsum("stats", i + 1)); }
    for (i, nme) in rt::COUNTERS.iter().enumerate() { let c = vecsum("counters", i); if c > 0 { faults.insert(nme.to_string(), c); } }
    let mut viol: Vec<&Value> = vs.iter().filter(|v| !v["viol"].is_null()).map(|v| &v["viol"]).collect();
    viol.sort_by_key(|v| v["run"].as_u64());
    let mut khits: BTreeMap<usize, u64> = BTreeMap::new();
    for v in &vs { for k in v["known"].as_array().unwrap() { *khits.entry(k[0].as_u64().unwrap() as usize).or_default() += k[1].as_u64().unwrap(); } }
    // every listed finding of this property is announced, with how often it was met
    for (k, f) in known.iter().enumerate().filter(|(_, f)| f.prop == prop.id) { println!("KNOWN-FINDING: property={} {} (met in {} runs)", prop.id, f.desc, khits.get(&k).unwrap_or(&0)); }
    let mut rc = 0; let mut replay_path = None;
    if let Some(v) = viol.first() {
        let i = v["run"].as_u64().unwrap();
        println!("property {}: run {} (seed {}): {}: {}", prop.id, i, o.seed, v["class"].as_str().unwrap(), v["msg"].as_str().unwrap());
        if v["class"] == "harness" { println!("harness error, not a verdict"); rc = 2; }
        else {
            let path = minimise(prop, o, i, v["class"].as_str().unwrap());
            println!("VIOLATION property={} replay={}", prop.id, path);
            replay_path = Some(path); rc = 1;
        }
    } else if broken || n == 0 { rc = 2; println!("no verdict: a worker process failed"); }
    if let Some(ev) = &o.evidence {
        let samples: Vec<Value> = vs.iter().flat_map(|v| v["samples"].as_array().unwrap().clone()).take(4).collect();
        let e = json!({
            "property": prop.id, "tier": o.tier, "seed": o.seed, "level": "exploration", "wall_s": t0.elapsed().as_secs_f64(), "violations": if rc == 1 { 1 } else { 0 },
            "coverage": {
                "evaluations": n, "distinct_nontrivial": uni("distinct"), "rule": prop.rule, "samples": samples,
                "nontrivial_runs": sum("nontriv"), "distinct_schedules": uni("scheds"), "distinct_schedules_measure": "64-bit hash over the sequence of (from thread, to thread) context switches",
                "distinct_histories": uni("evs"), "distinct_histories_measure": "64-bit hash over the ordered application events (operation executions, publications, deliveries, ends)",
                "runs_per_hour": (n as f64 / explore_s * 3600.0) as u64, "seeds_per_hour": (n as f64 / explore_s * 3600.0) as u64,
                "explore_wall_s": explore_s, "simulated_seconds": simns / 1e9, "scheduling_points": sum("steps"), "context_switches": vecsum("stats", 0), "max_steps_in_one_run": vs.iter().map(|v| v["maxsteps"].as_u64().unwrap_or(0)).max(),
                "threads_created": vecsum("stats", 4), "faults_and_events": faults, "strategies": {"default": vecsum("strat", 0), "random": vecsum("strat", 1), "pct": vecsum("strat", 2), "sticky": vecsum("strat", 3)},
                "known_findings_met": khits.values().sum::<u64>(), "real_components": prop.real, "stubbed_components": prop.stubs, "replay": replay_path,
            },
            "assumptions": ["atomics are explored as sequentially consistent: reorderings allowed only by weaker memory orderings are not simulated", "code inside the precompiled standard library is preempted only where it calls the runtime (futex, clock, I/O) or is inlined into instrumented crates"]
        });
        if let Some(d) = std::path::Path::new(ev).parent() { let _ = std::fs::create_dir_all(d); }
        std::fs::write(ev, serde_json::to_string_pretty(&e).unwrap()).unwrap();
    }
    println!("property {}: {} runs, {} distinct non-trivial, {} distinct schedules, {:.0} simulated s, {:.1} s wall, result {}", prop.id, n, uni("distinct"), uni("scheds"), simns / 1e9, t0.elapsed().as_secs_f64(), rc);
    rc
}

// ---- minimisation ----
fn paths(v: &Value, pre: Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(m) => for (k, x) in m { if k.starts_with('_') { continue } let mut p = pre.clone(); p.push(k.clone()); out.push(p.clone()); paths(x, p, out); },
        Value::Array(a) => for (i, x) in a.iter().enumerate() { let mut p = pre.clone(); p.push(i.to_string()); out.push(p.clone()); paths(x, p, out); },
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut c = v;
    for k in p { c = match c { Value::Object(m) => m.get_mut(k)?, Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?, _ => return None } }
    Some(c)
}
fn candidates(v: &Value) -> Vec<Value> {
    let mut out = vec![]; let mut ps = vec![vec![]]; paths(v, vec![], &mut ps);
    for p in ps {
        let mut c = v.clone();
        let Some(x) = at(&mut c, &p) else { continue };
        match x.clone() {
            Value::Array(a) if !a.is_empty() => {
                let mut sz = a.len().div_ceil(2);
                loop {
                    let mut s = 0;
                    while s < a.len() { let mut b = a.clone(); b.drain(s..(s + sz).min(a.len())); let mut c = v.clone(); *at(&mut c, &p).unwrap() = Value::Array(b); out.push(c); s += sz; }
                    if sz == 1 { break } sz = sz.div_ceil(2);
                }
            }
            Value::Number(n) => if let Some(n) = n.as_u64() { for k in [0, n / 2, n.saturating_sub(1)] { if k < n { let mut c = v.clone(); *at(&mut c, &p).unwrap() = json!(k); out.push(c); } } },
            Value::Bool(true) => { let mut c = v.clone(); *at(&mut c, &p).unwrap() = json!(false); out.push(c); }
            _ => {}
        }
    }
    out
}

fn minimise(prop: &Prop, o: &Opts, run: u64, class: &str) -> String {
    let t0 = Instant::now(); let budget = Duration::from_secs(std::env::var("SIM_MIN_SECS").ok().and_then(|v| v.parse().ok()).unwrap_or(if o.tier == "thorough" { 180 } else { 40 }));
    let sh = map_shared();
    let (case0, cfg0) = make(prop, o.seed, run);
    let first = exec(prop, sh, &cfg0, &case0, None, true, None);
    let mut best = (case0.clone(), cfg0, first.clone());
    // 1. a simpler schedule configuration, then a smaller case, that still fails the same way
    let try_case = |case: &str, cfgs: &[Cfg]| -> Option<(Cfg, RunRes)> { for c in cfgs { let r = exec(prop, sh, c, case, None, true, None); if r.o.class == class { return Some((*c, r)) } } None };
    for k in 0..4 {
        let mut c = best.1;
        match k { 0 => c.stall_1in = 0, 1 => c.spurious_1in = 0, 2 => { c.strategy = 0; c.preempt_1in = 0; } _ => c.crash_step = 0 }
        if let Some((c, r)) = try_case(&best.0.clone(), &[c]) { best = (best.0, c, r); }
    }
    let mut progress = true;
    while progress && t0.elapsed() < budget / 2 {
        progress = false;
        let v: Value = serde_json::from_str(&best.0).unwrap();
        for cand in candidates(&v) {
            if t0.elapsed() >= budget / 2 { break }
            let mut cfgs = vec![best.1];
            for k in 1..6u64 { let mut c = best.1; c.seed_sched = mixs(c.seed_sched, k); c.seed_data = mixs(c.seed_data, k); cfgs.push(c); }
            let s = cand.to_string();
            if let Some((c, r)) = try_case(&s, &cfgs) { best = (s, c, r); progress = true; break; }
        }
    }
    // 2. fewest deviations from the default schedule
    let (case, cfg, res) = best;
    let mut devs = res.devs.clone();
    let mut rcfg = cfg; rcfg.stall_1in = 0; rcfg.spurious_1in = 0; rcfg.crash_step = 0; rcfg.strategy = 0; rcfg.preempt_1in = 0;
    let fails = |d: &[Dev]| exec(prop, sh, &rcfg, &case, Some(d), false, None).o.class == class;
    let exact = fails(&devs);
    if exact {
        let mut n = 2usize;
        if fails(&[]) { devs.clear(); }
        while devs.len() >= 2 && t0.elapsed() < budget {
            let sz = devs.len().div_ceil(n); let mut hit = false; let mut s = 0;
            while s < devs.len() {
                let mut d = devs.clone(); d.drain(s..(s + sz).min(devs.len()));
                if fails(&d) { devs = d; n = n.saturating_sub(1).max(2); hit = true; break }
                s += sz; if t0.elapsed() >= budget { break }
            }
            if !hit { if n >= devs.len() { break } n = (n * 2).min(devs.len()); }
        }
        if devs.len() == 1 && fails(&[]) { devs.clear(); }
    }
    let fin = exec(prop, sh, &rcfg, &case, Some(&devs), false, None);
    let v = json!({
        "property": prop.id, "class": class, "msg": fin.o.msg, "seed": o.seed, "run": run, "case": serde_json::from_str::<Value>(&case).unwrap(), "cfg": cfg_json(&rcfg),
        "deviations": devs_json(&devs), "deviation_format": "[scheduling step, kind (0 switch, 1 stall, 2 spurious wake, 3 process crash, 4 preempt), thread, argument]",
        "reproduced_exactly": fin.o.class == class, "sched_hash": fin.sched_hash, "event_hash": fin.event_hash, "steps": fin.steps, "log": fin.log, "panics": fin.panics,
        "original": {"case": serde_json::from_str::<Value>(&case0).unwrap(), "cfg": cfg_json(&cfg0), "msg": first.o.msg, "deviations": first.devs.len()}
    });
    std::fs::create_dir_all(&o.replay_dir).unwrap();
    let path = format!("{}/{}-{}-{}.json", o.replay_dir, prop.id, o.seed, run);
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    println!("minimised: {} schedule deviations (from {}), replay reproduces: {}, {}", devs.len(), first.devs.len(), fin.o.class == class, fin.o.msg);
    path
}

pub fn replay(props: &[Prop], path: &str, trace: bool) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let p = props.iter().find(|p| p.id == v["property"].as_str().unwrap()).expect("unknown property");
    let sh = map_shared();
    let r = exec(p, sh, &cfg_from(&v["cfg"]), &v["case"].to_string(), Some(&devs_from(&v["deviations"])), false, if trace { Some(1) } else { None });
    for l in &r.log { println!("  {l}"); }
    println!("outcome: class={:?} {}", r.o.class, r.o.msg);
    println!("schedule hash {:x} (recorded {:x}), event hash {:x} (recorded {:x})", r.sched_hash, v["sched_hash"].as_u64().unwrap_or(0), r.event_hash, v["event_hash"].as_u64().unwrap_or(0));
    if r.o.class == v["class"].as_str().unwrap() { println!("VIOLATION property={} replay={}", p.id, path); 1 } else { println!("not reproduced"); 0 }
}

/// Every seed twice in separate processes, then its recorded schedule: all three must agree bit for bit.
pub fn selftest(props: &[Prop], seed: u64, n: u64, only: Option<&str>) -> i32 {
    let sh = map_shared(); let mut bad = 0;
    for p in props.iter().filter(|p| only.is_none_or(|o| o == p.id)) {
        let mut okn = 0;
        for i in 0..n {
            let (case, cfg) = make(p, seed, i);
            let a = exec(p, sh, &cfg, &case, None, true, None);
            let b = exec(p, sh, &cfg, &case, None, true, None);
            let mut rc = cfg; rc.stall_1in = 0; rc.spurious_1in = 0; rc.crash_step = 0; rc.strategy = 0; rc.preempt_1in = 0;
            let c = exec(p, sh, &rc, &case, Some(&a.devs), false, None);
            let key = |r: &RunRes| (r.o.class.clone(), r.o.msg.clone(), r.steps, r.now_ns, r.sched_hash, r.event_hash, r.log.clone());
            if key(&a) != key(&b) || key(&a) != key(&c) { bad += 1; println!("{} run {}: NOT deterministic: {:?}\n {:?}\n {:?}", p.id, i, (&a.o, a.steps, a.sched_hash, a.event_hash), (&b.o, b.steps, b.sched_hash, b.event_hash), (&c.o, c.steps, c.sched_hash, c.event_hash)); } else { okn += 1 }
        }
        println!("{}: {}/{} runs repeated and replayed identically", p.id, okn, n);
    }
    if bad > 0 { 1 } else { 0 }
}
