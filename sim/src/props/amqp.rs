//! C13-C16, C20: leader, workers and broker as simulated processes that talk AMQP over a simulated network.
use super::directives::us;
use crate::broker::{Broker, Fault, Opts, What, When};
use crate::driver::Prop;
use crate::ops::*;
use crate::rt::{self, Outcome, Rng};
use crate::world::*;
use futures::StreamExt;
use paladin::config::Config;
use paladin::directive::{Directive, IndexedStream, Literal};
use paladin::acker::Acker;
use paladin::channel::{queue::QueueChannelFactory, Channel, ChannelFactory, ChannelType, LeaseGuard};
use paladin::operation::RemoteExecute;
use paladin::queue::amqp::{AMQPConnection, AMQPConnectionOptions};
use paladin::queue::in_memory::InMemoryConnection;
use paladin::queue::{Connection, Publisher, QueueOptions, SyndicationMode};
use paladin::runtime::{CommandIpc, Runtime, WorkerRuntime, COMMAND_IPC_ABORT_ALL_KEY, COMMAND_IPC_ROUTING_KEY, TASK_IPC_ROUTING_KEY};
use paladin::serializer::Serializer;
use paladin::task::{AnyTask, AnyTaskResult};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub const S: u64 = 1_000_000_000;
pub const LEADER: i32 = 1;
pub const REAL: &str = "paladin (all of it, unmodified), paladin-opkind-derive, lapin with its protocol codec, I/O loop and reactor, tokio (scheduler, blocking pool, timers, I/O driver, sync), futures, dashmap, crossbeam, postcard/ciborium";
pub const STUBS: &str = "operating system: thread scheduler, futexes, clocks, sleep, epoll and poll waits and randomness are simulated; the network and the AMQP broker are simulated; operations are scripted; leader and workers share one address space";

#[derive(Clone, Debug, Default)]
pub struct Status { pub ready: bool, pub ended: Option<String>, pub at: u64 }
pub static STATUS: Mutex<BTreeMap<i32, Status>> = Mutex::new(BTreeMap::new());
pub fn status<T>(g: i32, f: impl FnOnce(&mut Status) -> T) -> T { f(STATUS.lock().unwrap_or_else(|e| e.into_inner()).entry(g).or_default()) }

pub fn amqp_config(cbor: bool) -> Config {
    Config { runtime: paladin::config::Runtime::Amqp, amqp_uri: Some("amqp://127.0.0.1:5672/%2f".into()), num_workers: None, ..config(1, cbor, None) }
}
/// Runs `f` as the simulated process `g`: a thread with a tokio runtime of its own.
pub fn process<F: Future<Output = ()> + Send + 'static>(g: i32, threads: u64, f: F) {
    let p = rt::group();
    rt::set_group(g);
    let _ = std::thread::Builder::new().name(format!("proc{g}")).spawn(move || {
        let rt = if threads == 0 { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() } else { tokio::runtime::Builder::new_multi_thread().worker_threads(threads as usize).enable_all().build().unwrap() };
        rt.block_on(f);
        std::mem::forget(rt);
        loop { std::thread::sleep(Duration::from_secs(1_000_000)) }
    });
    rt::set_group(p);
}
pub fn worker(g: i32, threads: u64, cbor: bool) { worker_on(g, threads, cbor, None) }
pub fn worker_on(g: i32, threads: u64, cbor: bool, bus: Option<String>) {
    slog!("worker process {g} starts");
    status(g, |_| ());
    process(g, threads, async move {
        let r = match WorkerRuntime::from_config(&Config { task_bus_routing_key: bus, ..amqp_config(cbor) }, crate::props::register()).await {
            Ok(w) => { status(g, |s| s.ready = true); w.main_loop().await.map_err(|e| format!("{e:#}")) }
            Err(e) => Err(format!("connecting: {e:#}")),
        };
        rt::die_if_crashed();
        slog!("worker process {g} returned: {r:?}");
        status(g, |s| { s.at = rt::now(); s.ended = Some(format!("{r:?}")) });
    });
}
/// Polls until `f` gives something or `max` ns of simulated time have passed.
pub fn wait<T>(what: &str, max: u64, mut f: impl FnMut() -> Option<T>) -> Option<T> {
    rt::waiting(what);
    let end = rt::now() + max; let mut d = 500u64;
    loop {
        if let Some(x) = f() { return Some(x) }
        if rt::now() >= end { return None }
        std::thread::sleep(Duration::from_micros(d)); d = (d * 3 / 2).min(500_000);
    }
}
/// Restarts worker processes that died or returned.
pub struct Sup { live: Vec<i32>, next: i32, due: Vec<u64>, restart: u64, threads: u64, cbor: bool, pub restarts: u32, bus: Option<String> }
impl Sup {
    pub fn new(c: &Value) -> Sup { Sup { live: vec![], next: 2, due: vec![], restart: u(c, "restart_ms") * 1_000_000, threads: u(c, "wthreads"), cbor: b(c, "cbor"), restarts: 0, bus: None } }
    pub fn start(&mut self) -> i32 { let g = self.next; self.next += 1; worker_on(g, self.threads, self.cbor, self.bus.clone()); self.live.push(g); g }
    pub fn poll(&mut self) {
        let now = rt::now();
        let dead: Vec<i32> = self.live.iter().copied().filter(|g| rt::group_crashed(*g) || status(*g, |s| s.ended.is_some())).collect();
        for g in dead { rt::crash_group(g); self.live.retain(|x| *x != g); if self.restarts < 40 { self.restarts += 1; self.due.push(now + self.restart) } }
        let n = self.due.iter().filter(|t| **t <= now).count();
        self.due.retain(|t| *t > now);
        for _ in 0..n { self.start(); }
    }
}

pub fn net(r: &mut Rng) -> Value {
    let l = r.pick(&[[0u64, 0], [0, 0], [50, 1_500], [500, 40_000], [0, 600_000]]);
    json!({"lat": l, "frag": r.chance(1, 2), "frame_max": r.pick(&[4096, 8192, 131_072]), "hb": r.pick(&[10, 60]), "seed": r.below(1 << 32)})
}
pub fn opts(c: &Value) -> Opts {
    let n = &c["net"];
    let leader_too = b(c, "leader_faults");
    let faults = arr(c, "faults").iter().filter(|f| leader_too || u(f, "g") >= 2).map(|f| Fault {
        group: u(f, "g") as i32,
        when: match u(f, "when") { 0 => When::Recv(u(f, "n")), 1 => When::Sent(u(f, "n")), _ => When::At(u(f, "n") * 1000) },
        what: match u(f, "what") { 0 => What::Kill, 1 => What::Crash, 2 => What::Cut, 3 => What::Blackhole, 4 => What::Unqueue, 5 => What::Chan, _ => What::Restart },
    }).collect();
    Opts { seed: u(n, "seed"), lat_us: (n["lat"][0].as_u64().unwrap_or(0), n["lat"][1].as_u64().unwrap_or(0)), frag: b(n, "frag"), frame_max: u(n, "frame_max").max(4096) as u32, heartbeat: u(n, "hb").max(5) as u16, faults }
}
pub fn fault(r: &mut Rng, g: u64) -> Value {
    let when = r.pick(&[0u64, 0, 0, 1, 1, 2]);
    let n = if when == 2 { r.pick(&[5_000u64, 200_000, 3_000_000, 30_000_000]) + r.below(3_000_000) } else if r.chance(1, 3) { r.range(1, 30) } else { r.range(15, 120) };
    json!({"g": g, "when": when, "n": n, "what": r.pick(&[0, 1, 1, 2, 2, 3, 5])})
}

// ---- the other properties over AMQP ----
/// One case in `n` of the properties about directives runs over AMQP, without network faults.
pub fn maybe_amqp(r: &mut Rng, n: u64) -> Value {
    if !r.chance(1, n) { return Value::Null }
    let mut v = net(r);
    v["hb"] = json!(60); v["wthreads"] = json!(r.below(3)); v["restart_ms"] = json!(r.pick(&[20, 1_000]));
    v
}
/// Starts a broker and `workers` worker processes per task bus, which are started anew when they stop.
pub fn cluster(c: &Value, workers: u64, cbor: bool, buses: &[Option<String>]) -> Arc<Broker> {
    let br = Arc::new(Broker::start(opts(&json!({"net": c["amqp"]}))));
    let (buses, n) = (buses.to_vec(), c["amqp"].clone());
    let _ = std::thread::Builder::new().name("supervisor".into()).spawn(move || {
        let mut sups: Vec<Sup> = buses.iter().enumerate().map(|(i, bus)| Sup { live: vec![], next: 10 * (i as i32 + 1), due: vec![], restart: u(&n, "restart_ms") * 1_000_000, threads: u(&n, "wthreads"), cbor, restarts: 0, bus: bus.clone() }).collect();
        for s in &mut sups { for _ in 0..workers.max(1) { s.start(); } }
        loop { std::thread::sleep(Duration::from_millis(500)); for s in &mut sups { s.poll() } }
    });
    br
}
pub async fn leader_on(cbor: bool, bus: Option<String>) -> anyhow::Result<Runtime> {
    Runtime::from_config(&Config { task_bus_routing_key: bus, ..amqp_config(cbor) }, crate::props::register()).await
}
/// The runtime of a case: in memory, or the leader of a cluster if the case says so.
pub async fn runtime(c: &Value, workers: u64) -> anyhow::Result<Runtime> {
    let bus = b(c, "bus").then(|| "some-bus".to_string());
    if c["amqp"].is_null() { return in_memory(workers, b(c, "cbor"), bus).await }
    std::mem::forget(cluster(c, workers, b(c, "cbor"), &[bus.clone()]));
    leader_on(b(c, "cbor"), bus).await
}

// ---- jobs ----
pub fn job(r: &mut Rng) -> Value {
    let slow = r.chance(1, 3); let slowop = r.chance(1, 2);
    let n = match r.below(8) { 0 => r.below(2), 1..=5 => r.range(2, 6), _ => r.range(7, 13) };
    json!({"kind": r.pick(&[0, 0, 1, 1, 2, 2, 3]), "end": if slow { us(r) } else { 0 }, "items": (0..n).map(|_| json!({"d": if slow { us(r) } else { 0 }, "dur": if slowop { r.pick(&[0, 300, 20_000, 1_500_000]) } else { 0 }, "v": r.below(1000)})).collect::<Vec<_>>()})
}
pub fn script_jobs(c: &Value) { script_from(c, 0) }
pub fn script_from(c: &Value, base: u32) {
    with_script(|s| for (j, job) in arr(c, "jobs").iter().enumerate() { for (i, it) in arr(job, "items").iter().enumerate() { for st in 1..3 { s.durs.insert((base + j as u32 + 1, st, i as u64), u(it, "dur")); } } });
}
pub fn job_ref(j: u32, job: &Value) -> Vec<(usize, El)> {
    let els: Vec<El> = arr(job, "items").iter().enumerate().map(|(i, it)| El::one(i as u64, u(it, "v"))).collect();
    let mapped = |els: &[El]| els.iter().map(|e| map_ref(j, 1, e)).collect::<Vec<_>>();
    let fold = |els: Vec<El>| match els.len() { 0 => vec![0xE0 + j as u64], _ => els.into_iter().flat_map(|e| e.items).collect() };
    match u(job, "kind") {
        0 => mapped(&els).into_iter().enumerate().collect(),
        1 => vec![(0, El { items: fold(els), ..Default::default() })],
        3 => vec![(0, map_ref(j, 1, &els.first().cloned().unwrap_or_else(|| El::one(0, 7))))],
        _ => vec![(0, El { items: fold(mapped(&els)), ..Default::default() })],
    }
}
pub type JobResult = std::result::Result<Vec<(usize, El)>, String>;
pub async fn run_job(r: &Runtime, j: u32, job: &Value) -> JobResult {
    let input: Vec<_> = arr(job, "items").iter().enumerate().map(|(i, it)| (u(it, "d"), Ok((i, El::one(i as u64, u(it, "v")))))).collect();
    let s = IndexedStream::new(slow_stream(input, u(job, "end")));
    let (m, f) = (MapOp { job: j, stage: 1 }, CatOp { job: j, stage: 2 });
    rt::count("directives");
    let m: &'static MapOp = Box::leak(Box::new(m)); let f: &'static CatOp = Box::leak(Box::new(f));
    let res = match u(job, "kind") {
        0 => async {
            let mut st = Directive::map(s, m).run(r).await?;
            let mut got = vec![];
            while let Some(x) = st.next().await { let x = x?; rt::ev(2, x.0 as u64); slog!("job {j}: item {}", x.0); got.push(x) }
            Ok::<_, anyhow::Error>(got)
        }.await,
        3 => Literal(arr(job, "items").first().map_or(El::one(0, 7), |it| El::one(0, u(it, "v")))).map(m).run(r).await.map(|e: Literal<El>| vec![(0, e.0)]),
        1 => Directive::fold(s, f).run(r).await.map(|e: El| vec![(0, El { items: e.items, ..Default::default() })]),
        _ => Directive::fold(Directive::map(s, m), f).run(r).await.map(|e: El| vec![(0, El { items: e.items, ..Default::default() })]),
    };
    rt::ev(3, j as u64);
    slog!("job {j}: {}", match &res { Ok(_) => "done".to_string(), Err(e) => format!("{e:#}") });
    res.map(|mut v| { v.sort_by_key(|x| x.0); v }).map_err(|e| format!("{e:#}"))
}
pub type Results = Arc<Mutex<BTreeMap<u32, JobResult>>>;
/// Starts the leader process, which runs the jobs one after the other or concurrently.
fn leader(c: &Value) -> Results { leader_as(c, LEADER) }
fn leader_as(c: &Value, g: i32) -> Results { leader_from(c, g, 0) }
/// Like `leader_as`; the jobs have the numbers after `base`.
pub fn leader_from(c: &Value, g: i32, base: u32) -> Results {
    let res: Results = Default::default();
    let (c, r2) = (c.clone(), res.clone());
    status(g, |_| ());
    process(g, u(&c, "lthreads"), async move {
        let r = match Runtime::from_config(&amqp_config(b(&c, "cbor")), crate::props::register()).await { Ok(r) => r, Err(e) => { status(g, |s| s.ended = Some(format!("connecting: {e:#}"))); return } };
        status(g, |s| s.ready = true);
        let one = |j: usize, job: Value| { let (r, r2) = (&r, r2.clone()); async move { let j = base + j as u32 + 1; let x = run_job(r, j, &job).await; r2.lock().unwrap().insert(j, x); } };
        let jobs = arr(&c, "jobs").iter().cloned().enumerate();
        if b(&c, "conc") { futures::future::join_all(jobs.map(|(j, job)| one(j, job))).await; } else { for (j, job) in jobs { one(j, job).await } }
        status(g, |s| { s.at = rt::now(); s.ended = Some("ok".into()) });
        futures::future::pending::<()>().await;
    });
    res
}
pub fn compare(c: &Value, got: &BTreeMap<u32, JobResult>) -> Result<(), Outcome> { compare_from(c, got, 0) }
pub fn compare_from(c: &Value, got: &BTreeMap<u32, JobResult>, base: u32) -> Result<(), Outcome> {
    for (j, job) in arr(c, "jobs").iter().enumerate() {
        let j = base + j as u32 + 1; let want = job_ref(j, job);
        match got.get(&j) {
            None => return Err(Outcome::bad("hang", format!("job {j} has no result"))),
            Some(Err(e)) => return Err(Outcome::bad("error", format!("job {j} failed although no operation did and the leader's connection is fine: {e}"))),
            Some(Ok(g)) => check_items(j, g, &want)?,
        }
    }
    Ok(())
}
pub fn check_items(j: u32, g: &[(usize, El)], want: &[(usize, El)]) -> Result<(), Outcome> {
    for w in g.windows(2) { if w[0].0 == w[1].0 { return Err(Outcome::bad("duplicate", format!("job {j} yielded index {} more than once", w[0].0))) } }
    if g.len() != want.len() { return Err(Outcome::bad("count", format!("job {j} yielded {} results instead of {}: indices {:?}", g.len(), want.len(), g.iter().map(|x| x.0).collect::<Vec<_>>()))) }
    for (a, w) in g.iter().zip(want) { if a.0 != w.0 || a.1.items != w.1.items { return Err(Outcome::bad("value", format!("job {j} yielded {a:?} instead of {w:?}"))) } }
    Ok(())
}

// ---- C13 ----
fn gen_c13(r: &mut Rng) -> Value {
    let w = r.range(1, 4);
    let jobs: Vec<Value> = (0..r.pick(&[1, 1, 1, 2, 3])).map(|_| job(r)).collect();
    let nf = r.pick(&[0, 1, 1, 2, 2, 3, 4]);
    let faults: Vec<Value> = (0..nf).map(|_| { let g = r.range(2, 2 + w); fault(r, g) }).collect();
    let nd = r.pick(&[0, 0, 1, 2]);
    let deaths: Vec<Value> = (0..nd).map(|_| json!({"job": r.range(1, jobs.len() as u64), "stage": r.range(1, 2), "key": r.below(8), "attempt": r.below(2), "phase": r.below(2)})).collect();
    json!({"lthreads": r.below(3), "wthreads": r.below(3), "workers": w, "late": r.chance(1, 4), "cbor": r.chance(1, 3), "jobs": jobs, "conc": r.chance(1, 2), "net": net(r), "faults": faults, "deaths": deaths, "restart_ms": r.pick(&[0, 20, 1_000, 30_000])})
}
fn run_c13(c: &Value) -> Outcome {
    script_jobs(c);
    with_script(|s| for d in arr(c, "deaths") { s.deaths.insert((u(d, "job") as u32, u(d, "stage") as u32, u(d, "key")), (u(d, "attempt") as usize, u(d, "phase"))); });
    let br = Broker::start(opts(c));
    let mut sup = Sup::new(c);
    let w = u(c, "workers").max(1);
    if !b(c, "late") { for _ in 0..w { sup.start(); } }
    let res = leader(c);
    if b(c, "late") { std::thread::sleep(Duration::from_millis(300)); for _ in 0..w { sup.start(); } }
    let mut extra = false; let t0 = rt::now();
    let done = wait("all directives", 3_600 * S, || {
        sup.poll();
        // Faults stop after a while, and a worker without any is there from then on.
        if !extra && rt::now() > t0 + 600 * S { br.quiesce(); sup.start(); extra = true; }
        status(LEADER, |s| s.ended.clone())
    });
    let got = res.lock().unwrap().clone();
    let crashes = br.fired().len() as u64;
    if let Some(e) = br.errors().first() { slog!("broker errors: {:?}", br.errors()); let _ = e; }
    match done {
        Some(e) if e == "ok" => {}
        Some(e) => return Outcome::bad("error", format!("the leader failed: {e}")),
        None => {
            // A wrong result of another job says more than the hang.
            for (j, job) in arr(c, "jobs").iter().enumerate() { if let Some(Ok(g)) = got.get(&(j as u32 + 1)) { if let Err(o) = check_items(j as u32 + 1, g, &job_ref(j as u32 + 1, job)) { return o } } }
            return Outcome::bad("hang", format!("after 1 h of simulated time {} of {} directives have a result although a worker without faults has been there for most of it", got.len(), arr(c, "jobs").len()))
        }
    }
    if let Err(o) = compare(c, &got) { return o }
    if let Some(x) = with_script(|s| s.bad.first().cloned()) { return Outcome::bad("nonadjacent", x) }
    let deaths = execs().iter().any(|x| !x.done);
    Outcome { nontrivial: crashes > 0 || deaths || sup.restarts > 0, ..Outcome::ok() }
}

// ---- C14 ----
/// Result queues that the leader declared and nobody has deleted since.
fn leaked(br: &Broker) -> Vec<String> {
    let del = br.deleted();
    br.declared_by(LEADER).into_iter().filter(|n| n != TASK_IPC_ROUTING_KEY && !n.starts_with(COMMAND_IPC_ROUTING_KEY) && !n.starts_with("direct-") && !del.iter().any(|d| d.1 == *n)).collect()
}
fn gen_c14(r: &mut Rng) -> Value {
    if r.chance(1, 6) { return super::more::gen_c14_heap(r) }
    if r.chance(1, 5) { return json!({"mem": true, "threads": r.below(3), "chans": r.range(1, 4), "dropped": r.range(1, 3), "msgs": r.below(4), "outside": r.chance(1, 3), "used": r.chance(2, 3), "gap": us(r) / 4}) }
    let n = r.range(1, 5);
    let jobs: Vec<Value> = (0..n).map(|_| { let mut j = job(r); let m = r.pick(&[0u64, 1, 1, 2, 2, 3, 4, 5]); j["mode"] = json!(m); j["take"] = json!(r.below(4)); j["cancel"] = json!(us(r)); if m == 1 || m == 4 { j["kind"] = json!(0) } j }).collect();
    json!({"lthreads": r.below(3), "wthreads": r.below(3), "workers": r.range(1, 3), "cbor": r.chance(1, 3), "jobs": jobs, "conc": r.chance(2, 3), "net": net(r), "faults": if r.chance(1, 4) { vec![fault(r, 2)] } else { vec![] }, "restart_ms": r.pick(&[0, 1_000]), "direct": if r.chance(1, 4) { r.range(1, 6) } else { 0 }})
}
/// Ends the output of a directive in the given way. Gives the result if the directive ran to its end.
async fn run_mode(r: &'static Runtime, j: u32, job: &Value) -> Option<JobResult> {
    rt::count("leases_dropped");
    let m: &'static MapOp = Box::leak(Box::new(MapOp { job: j, stage: 1 }));
    let input = |fail: bool| {
        let mut v: Vec<_> = arr(job, "items").iter().enumerate().map(|(i, it)| (u(it, "d"), Ok((i, El::one(i as u64, u(it, "v")))))).collect();
        if fail { rt::count("input_errors"); let p = (u(job, "take") as usize).min(v.len()); v.truncate(p); v.push((0, Err(anyhow::anyhow!("input failure")))) }
        IndexedStream::new(slow_stream(v, u(job, "end")))
    };
    match u(job, "mode") {
        1 | 4 => {
            let mut st = match Directive::map(input(false), m).run(r).await { Ok(s) => s, Err(e) => return Some(Err(format!("{e:#}"))) };
            let k = u(job, "take");
            if k <= arr(job, "items").len() as u64 { for _ in 0..k { st.next().await; } }
            slog!("job {j}: dropping its stream");
            if u(job, "mode") == 4 { rt::count("runtime_drops"); let h = std::thread::spawn(move || { drop(st); }); while !h.is_finished() { tokio::time::sleep(Duration::from_millis(1)).await } if h.join().is_err() { return Some(Err("dropping the stream outside of the runtime panicked".into())) } }
            None
        }
        2 => { rt::count("cancelled_futures"); let _ = tokio::time::timeout(Duration::from_micros(u(job, "cancel")), run_job(r, j, job)).await; slog!("job {j}: dropped"); None }
        3 => {
            let x = match u(job, "kind") {
                0 => { let mut st = match Directive::map(input(true), m).run(r).await { Ok(s) => s, Err(_) => return None }; let mut e = false; while let Some(x) = st.next().await { if x.is_err() { e = true; break } } e }
                _ => { let f: &'static CatOp = Box::leak(Box::new(CatOp { job: j, stage: 2 })); Directive::fold(input(true), f).run(r).await.is_err() }
            };
            if !x { return Some(Err("a failing input was not reported".into())) }
            None
        }
        5 => {
            let l = r.lease_coordinated_task_channel::<MapOp, u64>().await;
            match l { Ok((_, tx, rx)) => { if u(job, "take") % 2 == 0 { drop(tx); drop(rx) } else { drop(rx); drop(tx) } None } Err(e) => Some(Err(format!("{e:#}"))) }
        }
        _ => Some(run_job(r, j, job).await),
    }
}
fn run_c14(c: &Value) -> Outcome {
    if b(c, "mem") { return run_c14_mem(c) }
    if b(c, "heap") { return super::more::run_c14_heap(c) }
    script_jobs(c);
    let br = Broker::start(opts(c));
    let mut sup = Sup::new(c);
    for _ in 0..u(c, "workers").max(1) { sup.start(); }
    let res: Results = Default::default();
    status(LEADER, |_| ());
    let (c2, r2) = (c.clone(), res.clone());
    process(LEADER, u(c, "lthreads"), async move {
        let c = c2;
        let r: &'static Runtime = match Runtime::from_config(&amqp_config(b(&c, "cbor")), crate::props::register()).await { Ok(r) => Box::leak(Box::new(r)), Err(e) => { status(LEADER, |s| s.ended = Some(format!("connecting: {e:#}"))); return } };
        let one = |j: usize, job: Value| { let r2 = r2.clone(); async move { let x = run_mode(r, j as u32 + 1, &job).await; if let Some(x) = x { r2.lock().unwrap().insert(j as u32 + 1, x); } } };
        let jobs = arr(&c, "jobs").iter().cloned().enumerate();
        if b(&c, "conc") { futures::future::join_all(jobs.map(|(j, job)| one(j, job))).await; } else { for (j, job) in jobs { one(j, job).await } }
        let n = u(&c, "direct");
        if n > 0 {
            // Queues deleted through the connection itself, all at once.
            let o = AMQPConnectionOptions { uri: "amqp://127.0.0.1:5672/%2f", qos: Some(1), serializer: ser(b(&c, "cbor")) };
            let r: anyhow::Result<()> = async {
                let conn = AMQPConnection::new(o).await?;
                for k in 0..n + 1 { conn.declare_queue(&format!("direct-{k}"), QueueOptions { syndication_mode: if k % 2 == 0 { SyndicationMode::ExactlyOnce } else { SyndicationMode::Broadcast }, ..Default::default() }).await?; }
                futures::future::try_join_all((0..n).map(|k| { let conn = &conn; async move { conn.delete_queue(&format!("direct-{k}")).await } })).await?;
                Ok(())
            }.await;
            if let Err(e) = r { status(LEADER, |s| s.ended = Some(format!("deleting queues: {e:#}"))); return }
        }
        status(LEADER, |s| { s.at = rt::now(); s.ended = Some("ok".into()) });
        futures::future::pending::<()>().await;
    });
    let mut extra = false;
    let done = wait("all directives to end", 3_600 * S, || { sup.poll(); if !extra && rt::now() > 600 * S { br.quiesce(); sup.start(); extra = true } status(LEADER, |s| s.ended.clone()) });
    match done { Some(e) if e == "ok" => {} Some(e) => return Outcome::bad("error", format!("the leader failed: {e}")), None => return Outcome::bad("hang", "a directive that ran while others were dropped did not end within 1 h") }
    let t = rt::now();
    for (j, x) in res.lock().unwrap().iter() {
        match x { Err(e) => return Outcome::bad("error", format!("job {j}: {e}")), Ok(g) => if let Err(o) = check_items(*j, g, &job_ref(*j, &arr(c, "jobs")[*j as usize - 1])) { return o } }
    }
    let gone = wait("result queues to be removed", 60 * S, || { sup.poll(); leaked(&br).is_empty().then_some(()) });
    if gone.is_none() { return Outcome::bad("leak", format!("result queues {:?} still exist {} s after the directives were dropped", leaked(&br), (rt::now() - t) / S)) }
    for n in br.deleted() { if n.1 == TASK_IPC_ROUTING_KEY || n.1 == COMMAND_IPC_ROUTING_KEY && br.declared_by(LEADER).contains(&n.1) { return Outcome::bad("other", format!("queue {} was deleted", n.1)) } }
    let names = br.queue_names();
    if !names.iter().any(|n| n == TASK_IPC_ROUTING_KEY) && br.declared_by(LEADER).iter().chain(&(2..sup.next).flat_map(|g| br.declared_by(g)).collect::<Vec<_>>()).any(|n| n == TASK_IPC_ROUTING_KEY) { return Outcome::bad("other", "the task queue is gone") }
    if br.declared_by(LEADER).iter().any(|n| n == "direct-0") {
        let n = u(c, "direct");
        if n % 2 == 0 && !names.contains(&format!("direct-{n}")) { return Outcome::bad("other", "a queue that was not deleted is gone") }
        if let Some(k) = (0..n).step_by(2).find(|k| names.contains(&format!("direct-{k}"))) { return Outcome::bad("leak", format!("queue direct-{k} still exists after it was deleted")) }
    }
    // The workers still take commands and tasks. Late results may have brought a result queue back: it goes away on its own.
    std::thread::sleep(Duration::from_secs(2_400));
    sup.poll();
    let left: Vec<String> = br.queue_names().into_iter().filter(|n| n != TASK_IPC_ROUTING_KEY && !n.starts_with(COMMAND_IPC_ROUTING_KEY) && !n.starts_with("direct-")).collect();
    if !left.is_empty() { return Outcome::bad("leak", format!("queues {left:?} exist 40 min after the last directive was dropped")) }
    Outcome::ok()
}
pub fn ser(cbor: bool) -> Serializer { Serializer::from(&amqp_config(cbor)) }
fn run_c14_mem(c: &Value) -> Outcome {
    let c = c.clone();
    block_on(u(&c, "threads"), async move {
        let f = QueueChannelFactory::new(InMemoryConnection::new(ser(false)));
        let (n, d, m) = (u(&c, "chans").max(1), u(&c, "dropped").max(1), u(&c, "msgs"));
        let mut keep = vec![]; let mut drop_ = vec![];
        for k in 0..n + d {
            let (id, ch) = match f.issue(ChannelType::ExactlyOnce).await { Ok(x) => x, Err(e) => return Outcome::bad("error", format!("{e:#}")) };
            let rx = ch.receiver::<u64>().await.unwrap();
            let tx = ch.sender::<u64>().await.unwrap();
            for i in 0..m { let _ = tx.publish(&(1000 * k + i)).await; }
            let mut g = LeaseGuard::new(ch, rx);
            if b(&c, "used") && m > 0 { if let Some((_, a)) = g.next().await { let _ = a.ack().await; } }
            if k < d { drop_.push((id, g)) } else { keep.push((id, g, k)) }
        }
        let mut ids = vec![];
        for (id, g) in drop_ {
            rt::count("leases_dropped");
            ids.push(id);
            if b(&c, "outside") { rt::count("runtime_drops"); let h = std::thread::spawn(move || drop(g)); while !h.is_finished() { tokio::time::sleep(Duration::from_millis(1)).await } if h.join().is_err() { return Outcome::bad("panic", "dropping a lease outside of the runtime panicked") } } else { drop(g) }
            sleep_us(u(&c, "gap")).await;
        }
        tokio::time::sleep(Duration::from_secs(10)).await;
        for id in ids {
            // What is declared under the same name now is a new channel.
            let ch = f.get(id.clone(), ChannelType::ExactlyOnce).await.unwrap();
            let mut rx = ch.receiver::<u64>().await.unwrap();
            if let Ok(Some((x, _))) = tokio::time::timeout(Duration::from_secs(5), rx.next()).await { return Outcome::bad("leak", format!("channel {id} still has message {x} 10 s after its lease was dropped")) }
            let tx = ch.sender::<u64>().await.unwrap();
            let _ = tx.publish(&77).await;
            match tokio::time::timeout(Duration::from_secs(5), rx.next()).await { Ok(Some((77, _))) => {} Ok(x) => return Outcome::bad("other", format!("channel {id} declared again yields {:?} instead of the message published to it", x.map(|x| x.0))), Err(_) => return Outcome::bad("other", format!("channel {id} declared again does not deliver the message published to it")) }
        }
        for (id, mut g, k) in keep {
            let from = if b(&c, "used") { 1 } else { 0 };
            for i in from..m { match tokio::time::timeout(Duration::from_secs(5), g.next()).await { Ok(Some((x, a))) if x == 1000 * k + i => { let _ = a.ack().await; } x => return Outcome::bad("other", format!("channel {id}, which was not dropped, yields {:?} instead of message {i}", x.map(|x| x.map(|x| x.0)))) } }
        }
        Outcome::ok()
    })
}

// ---- C15 ----
fn gen_c15(r: &mut Rng) -> Value {
    let g = |r: &mut Rng| json!({"kind": r.below(6), "to": r.pick(&[0, 0, 0, 0, 1, 2]), "at": us(r), "seed": r.below(1 << 32)});
    let bad = (0..r.range(1, 5)).map(|_| g(r)).collect::<Vec<_>>();
    let mut j = job(r); if arr(&j, "items").is_empty() { j = job(r) }
    json!({"lthreads": r.below(3), "wthreads": r.below(3), "workers": r.range(1, 3), "cbor": r.chance(1, 3), "jobs": [j.clone(), j], "net": net(r), "bad": bad, "faults": [], "before": r.chance(1, 2),
        "poison": if r.chance(1, 2) { json!({"kind": r.below(3), "n": r.range(1, 3), "lib": r.chance(1, 2)}) } else { json!(null) }, "restart_ms": r.pick(&[20, 1_000])})
}
fn garbage(kind: u64, seed: u64, cbor: bool) -> Vec<u8> {
    let mut r = Rng(seed);
    let good = ser(cbor).to_bytes(&AnyTask { routing_key: "garbage".into(), metadata: ser(cbor).to_bytes(&3u64).unwrap(), op: ser(cbor).to_bytes(&MapOp { job: 9, stage: 1 }).unwrap(), operation_id: MapOp::ID, input: ser(cbor).to_bytes(&El::one(1, 2)).unwrap(), serializer: ser(cbor) }).unwrap().to_vec();
    let v = match kind {
        0 => vec![],
        1 => (0..r.range(1, 40)).map(|_| r.next() as u8).collect(),
        2 => good[..r.below(good.len() as u64 - 1) as usize].to_vec(),
        3 => vec![0xFF; r.range(1, 2000) as usize],
        4 => { let n = r.range(5_000, 40_000); (0..n).map(|_| 0xFFu8 ^ (r.next() as u8 & 1)).collect() }
        _ => { let mut v = good; let n = r.range(1, 3); for _ in 0..n { let p = r.below(v.len() as u64) as usize; v[p] = 0xFF } v }
    };
    v
}
fn run_c15(c: &Value) -> Outcome {
    script_jobs(c);
    let cbor = b(c, "cbor");
    let br = Arc::new(Broker::start(opts(c)));
    let mut sup = Sup::new(c);
    let w = u(c, "workers").max(1);
    for _ in 0..w { sup.start(); }
    if b(c, "before") && wait("workers", 600 * S, || (br.subscribers(TASK_IPC_ROUTING_KEY) as u64 >= w).then_some(())).is_none() { return Outcome::bad("harness", "the workers did not connect") }
    let first = json!({"cbor": c["cbor"], "lthreads": c["lthreads"], "jobs": [arr(c, "jobs")[0]]});
    let res = leader(&first);
    let t0 = rt::now();
    // Only what nobody can decode: anything else is a task, whose failure ends the program.
    let mut bad: Vec<Value> = arr(c, "bad").to_vec(); bad.sort_by_key(|x| u(x, "at"));
    let mut sent = 0u64;
    let mut done = None;
    for g in &bad {
        while rt::now() < t0 + u(g, "at") * 1000 && done.is_none() { sup.poll(); std::thread::sleep(Duration::from_micros(200)); done = status(LEADER, |s| s.ended.clone()); }
        let body = garbage(u(g, "kind"), u(g, "seed"), cbor);
        match u(g, "to") {
            1 => if ser(cbor).from_bytes::<CommandIpc>(&body).is_err() { slog!("garbage ({} bytes) to the command channel", body.len()); br.publish_exchange(COMMAND_IPC_ROUTING_KEY, body); sent += 1 },
            2 => if ser(cbor).from_bytes::<AnyTaskResult>(&body).is_err() { if let Some(q) = leaked(&br).first() { slog!("garbage ({} bytes) to result queue {q}", body.len()); br.inject(q, body); sent += 1 } },
            _ => if ser(cbor).from_bytes::<AnyTask>(&body).is_err() { slog!("garbage ({} bytes) to the task channel", body.len()); if br.inject(TASK_IPC_ROUTING_KEY, body) { sent += 1 } },
        }
        rt::count_n("garbage_messages", 1);
    }
    let done = wait("the directive behind undecodable messages", 3_600 * S, || { sup.poll(); status(LEADER, |s| s.ended.clone()) });
    match done {
        Some(e) if e == "ok" => {}
        Some(e) => return Outcome::bad("error", format!("the leader failed: {e}")),
        None => return Outcome::bad("hang", format!("the directive did not end within 1 h: {} of {sent} undecodable messages are still unsettled", br.unacked(TASK_IPC_ROUTING_KEY))),
    }
    if let Err(o) = compare(&first, &res.lock().unwrap()) { return o }
    std::thread::sleep(Duration::from_secs(30));
    sup.poll();
    if sup.restarts > 0 { return Outcome::bad("stopped", format!("{} worker(s) ended because of messages that they cannot decode", sup.restarts)) }
    let left = br.queue_len(TASK_IPC_ROUTING_KEY).unwrap_or(0) + br.unacked(TASK_IPC_ROUTING_KEY);
    if left > 0 { return Outcome::bad("stuck", format!("{left} undecodable message(s) on the task channel are still not settled")) }
    if br.max_delivered() > 1 { return Outcome::bad("redelivered", format!("a message was delivered {} times although no worker or connection failed", br.max_delivered())) }
    // A task that is decoded but can't be executed fails its own job, and the workers' supervisor starts them anew.
    let p = &c["poison"];
    if p.is_null() { return Outcome { nontrivial: sent > 0, ..Outcome::ok() } }
    let key = "poison-results";
    for i in 0..u(p, "n") {
        let (mut op, mut input, mut id) = (ser(cbor).to_bytes(&MapOp { job: 9, stage: 1 }).unwrap(), ser(cbor).to_bytes(&El::one(i, 2)).unwrap(), MapOp::ID);
        match u(p, "kind") { 0 => id = 200 + i as u8, 1 => op = vec![0xFF; 3].into(), _ => input = vec![0xFF; 3].into() }
        let t = AnyTask { routing_key: key.into(), metadata: ser(cbor).to_bytes(&(i, ser(cbor).to_bytes(&i).unwrap())).unwrap(), op, operation_id: id, input, serializer: ser(cbor) };
        slog!("task that cannot be executed (kind {})", u(p, "kind")); rt::count("garbage_messages");
        br.inject(TASK_IPC_ROUTING_KEY, ser(cbor).to_bytes(&t).unwrap().to_vec());
    }
    let reported = wait("the failure of the poisoned job", 60 * S, || { sup.poll(); br.bodies(key).first().cloned() });
    match reported {
        None => return Outcome::bad("unreported", "a task that cannot be executed was not reported to its job within 60 s"),
        Some(x) => match ser(cbor).from_bytes::<AnyTaskResult>(&x) { Ok(AnyTaskResult::Err(_)) => {} o => return Outcome::bad("unreported", format!("a task that cannot be executed was reported as {o:?}")) },
    }
    if let Some(p) = rt::PANICS.lock().unwrap().first() { return Outcome::bad("panic", format!("a worker panicked: {p}")) }
    let t = rt::now();
    while rt::now() < t + 120 * S { sup.poll(); std::thread::sleep(Duration::from_millis(100)) }
    if br.max_delivered() as u64 > 1 + w + u(p, "n") { return Outcome::bad("redelivered", format!("a message was delivered {} times", br.max_delivered())) }
    // Another job runs as if nothing had happened; workers that have been told to stop but had no task to notice do so now.
    let second = json!({"cbor": c["cbor"], "lthreads": c["lthreads"], "jobs": [arr(c, "jobs")[1]]});
    let idle = (0..w).map(|_| ()).count();
    for i in 0..2 * idle as u64 {
        let t = AnyTask { routing_key: "nobody".into(), metadata: ser(cbor).to_bytes(&(i, ser(cbor).to_bytes(&i).unwrap())).unwrap(), op: ser(cbor).to_bytes(&MapOp { job: 8, stage: 1 }).unwrap(), operation_id: MapOp::ID, input: ser(cbor).to_bytes(&El::one(i, 2)).unwrap(), serializer: ser(cbor) };
        br.inject(TASK_IPC_ROUTING_KEY, ser(cbor).to_bytes(&t).unwrap().to_vec());
    }
    let t = rt::now();
    while rt::now() < t + 120 * S { sup.poll(); std::thread::sleep(Duration::from_millis(100)) }
    status(LEADER, |s| s.ended = None);
    rt::crash_group(LEADER);
    let res = leader_as(&second, 90);
    let done = wait("a directive after a poisoned job", 3_600 * S, || { sup.poll(); status(90, |s| s.ended.clone()) });
    match done { Some(e) if e == "ok" => {} Some(e) => return Outcome::bad("error", format!("the leader failed: {e}")), None => return Outcome::bad("hang", "a directive submitted after a job whose tasks cannot be executed did not end within 1 h") }
    if let Err(o) = compare(&second, &res.lock().unwrap()) { return o }
    Outcome::ok()
}

// ---- C16 ----
fn gen_c16(r: &mut Rng) -> Value {
    if r.chance(1, 3) { return json!({"abort": true, "lthreads": r.below(3), "wthreads": r.below(3), "workers": r.range(1, 4), "cbor": r.chance(1, 3), "net": net(r), "faults": [], "restart_ms": 1000, "busy": r.below(4), "dur": r.pick(&[200, 5_000, 30_000]), "cmds": r.range(1, 3)}) }
    let k = r.range(1, 5);
    json!({"net": net(r), "cbor": r.chance(1, 3), "procs": (0..r.range(1, 4)).map(|_| r.range(1, 3)).collect::<Vec<_>>(), "msgs": k, "gap": us(r) / 4, "late": r.below(3), "leave": r.below(3), "how": r.below(3), "threads": r.below(3), "faults": []})
}
fn run_c16(c: &Value) -> Outcome { if b(c, "abort") { run_c16_abort(c) } else { run_c16_subs(c) } }
type Got = Arc<Mutex<BTreeMap<(i32, u64), Vec<String>>>>;
fn subscriber(g: i32, n: u64, c: &Value, got: Got, leave_after: Option<u64>) {
    let (cbor, th) = (b(c, "cbor"), u(c, "threads"));
    status(g, |_| ());
    process(g, th, async move {
        let w = match WorkerRuntime::from_config(&amqp_config(cbor), crate::props::register()).await { Ok(w) => w, Err(e) => { status(g, |s| s.ended = Some(format!("{e:#}"))); return } };
        let mut all = vec![];
        for k in 0..n {
            let mut s = match w.get_command_ipc_receiver().await { Ok(s) => s, Err(e) => { status(g, |s| s.ended = Some(format!("{e:#}"))); return } };
            got.lock().unwrap().insert((g, k), vec![]);
            let got = got.clone();
            all.push(tokio::spawn(async move {
                let mut i = 0;
                loop {
                    if leave_after == Some(i) && k == 0 { slog!("subscriber {g}/{k} leaves"); rt::count("dropped_consumers"); break }
                    match s.next().await { Some(CommandIpc::Abort { routing_key }) => { rt::ev(7, g as u64 * 100 + k); slog!("subscriber {g}/{k}: {routing_key}"); got.lock().unwrap().get_mut(&(g, k)).unwrap().push(routing_key) } None => break }
                    i += 1;
                }
            }));
        }
        status(g, |s| s.ready = true);
        futures::future::join_all(all).await;
        futures::future::pending::<()>().await;
    });
}
fn run_c16_subs(c: &Value) -> Outcome {
    let br = Broker::start(opts(c));
    let got: Got = Default::default();
    let procs: Vec<u64> = arr(c, "procs").iter().filter_map(|v| v.as_u64()).collect();
    let m = u(c, "msgs");
    // The first process loses its first consumer: it is dropped, or the whole process dies.
    let (leave, how) = (u(c, "leave"), u(c, "how"));
    let leaver = procs.len() > 1 && leave > 0;
    for (i, n) in procs.iter().enumerate() { subscriber(2 + i as i32, *n, c, got.clone(), (leaver && how == 0 && i == 0).then_some(leave)) }
    if wait("subscribers", 600 * S, || (0..procs.len()).all(|i| status(2 + i as i32, |s| s.ready)).then_some(())).is_none() { return Outcome::bad("hang", "subscribing did not end within 600 s") }
    let cbor = b(c, "cbor"); let gap = u(c, "gap"); let late = u(c, "late");
    // Publishes in two halves, from the leader and from another worker process.
    let phase = Arc::new(Mutex::new((0u64, 0u64)));
    let p2 = phase.clone();
    status(LEADER, |_| ());
    process(LEADER, u(c, "threads"), async move {
        let r: anyhow::Result<()> = async {
            let r = Runtime::from_config(&amqp_config(cbor), crate::props::register()).await?;
            let w = WorkerRuntime::from_config(&amqp_config(cbor), crate::props::register()).await?;
            let (a, b) = (r.get_command_ipc_sender().await?, w.get_command_ipc_sender().await?);
            for half in 0..2u64 {
                while p2.lock().unwrap().0 < half { tokio::time::sleep(Duration::from_millis(5)).await }
                for i in 0..m {
                    rt::count("aborts_sent");
                    let c = CommandIpc::Abort { routing_key: format!("m{}", half * 100 + i) };
                    if half == 0 { a.publish(&c).await? } else { b.publish(&c).await? }
                    sleep_us(gap).await;
                }
                p2.lock().unwrap().1 = half + 1;
            }
            futures::future::pending::<()>().await;
            Ok(())
        }.await;
        if let Err(e) = r { status(LEADER, |s| s.ended = Some(format!("{e:#}"))) }
    });
    if wait("publishing", 600 * S, || (phase.lock().unwrap().1 >= 1).then_some(())).is_none() { return Outcome::bad("hang", format!("publishing did not end: {:?}", status(LEADER, |s| s.ended.clone()))) }
    if leaver && how > 0 { br.fault(2, if how == 1 { What::Kill } else { What::Cut }); }
    std::thread::sleep(Duration::from_secs(30));
    let nl = procs.len() as i32;
    for i in 0..late { subscriber(2 + nl + i as i32, 1, c, got.clone(), None) }
    if wait("late subscribers", 600 * S, || (0..late).all(|i| status(2 + nl + i as i32, |s| s.ready)).then_some(())).is_none() { return Outcome::bad("hang", "subscribing did not end within 600 s") }
    phase.lock().unwrap().0 = 1;
    if wait("publishing", 600 * S, || (phase.lock().unwrap().1 >= 2).then_some(())).is_none() { return Outcome::bad("hang", format!("publishing did not end: {:?}", status(LEADER, |s| s.ended.clone()))) }
    std::thread::sleep(Duration::from_secs(30));
    let firsts: Vec<String> = (0..m).map(|i| format!("m{i}")).collect(); let seconds: Vec<String> = (0..m).map(|i| format!("m{}", 100 + i)).collect();
    for ((g, k), v) in got.lock().unwrap().iter() {
        let left = leaver && *g == 2 && (how > 0 || *k == 0);
        let want: Vec<String> = if *g >= 2 + nl { seconds.clone() } else { firsts.iter().chain(&seconds).cloned().collect() };
        let mut sorted = v.clone(); sorted.sort(); sorted.dedup();
        if sorted.len() != v.len() { return Outcome::bad("duplicate", format!("subscriber {g}/{k} received a message more than once: {v:?}")) }
        if left { if let Some(x) = v.iter().find(|x| !want.contains(x)) { return Outcome::bad("foreign", format!("subscriber {g}/{k} received {x}")) } continue }
        if *v != want { return Outcome::bad("missed", format!("subscriber {g}/{k} received {v:?} instead of {want:?}")) }
    }
    let n = got.lock().unwrap().len();
    Outcome { nontrivial: n > 1, ..Outcome::ok() }
}
fn run_c16_abort(c: &Value) -> Outcome {
    let br = Broker::start(opts(c));
    let w = u(c, "workers").max(1) as i32; let cbor = b(c, "cbor");
    with_script(|s| for k in 0..10 { s.acts.insert((1, 1, k), vec![Act::UntilAbort { ms: u(c, "dur"), tail_ms: 0 }]); });
    for i in 0..w { worker(2 + i, u(c, "wthreads"), cbor) }
    if wait("workers", 600 * S, || (br.subscribers(TASK_IPC_ROUTING_KEY) as i32 >= w && br.exchange_bindings(COMMAND_IPC_ROUTING_KEY) as i32 >= w).then_some(())).is_none() {
        // With one queue for all there are fewer bindings than workers.
        if br.subscribers(TASK_IPC_ROUTING_KEY) as i32 != w { return Outcome::bad("hang", "the workers did not subscribe within 600 s") }
    }
    std::thread::sleep(Duration::from_secs(10));
    let task = |job: u32, i: u64| ser(cbor).to_bytes(&AnyTask { routing_key: "nobody".into(), metadata: ser(cbor).to_bytes(&(i, ser(cbor).to_bytes(&i).unwrap())).unwrap(), op: ser(cbor).to_bytes(&MapOp { job, stage: 1 }).unwrap(), operation_id: MapOp::ID, input: ser(cbor).to_bytes(&El::one(i, 2)).unwrap(), serializer: ser(cbor) }).unwrap().to_vec();
    let busy = u(c, "busy").min(w as u64);
    for k in 0..busy { br.inject(TASK_IPC_ROUTING_KEY, task(1, k)); }
    std::thread::sleep(Duration::from_secs(3));
    let cmds = u(c, "cmds");
    let sent: Arc<Mutex<Option<std::result::Result<(), String>>>> = Default::default(); let s2 = sent.clone();
    process(LEADER, u(c, "lthreads"), async move {
        let x: anyhow::Result<()> = async { let r = Runtime::from_config(&amqp_config(cbor), crate::props::register()).await?; let s = r.get_command_ipc_sender().await?; for i in 0..cmds { rt::count("aborts_sent"); s.publish(&CommandIpc::Abort { routing_key: if i + 1 == cmds { COMMAND_IPC_ABORT_ALL_KEY.into() } else { format!("other-{i}") } }).await? } Ok(()) }.await;
        *s2.lock().unwrap() = Some(x.map_err(|e| format!("{e:#}")));
        futures::future::pending::<()>().await;
    });
    match wait("the abort command", 600 * S, || sent.lock().unwrap().clone()) { Some(Ok(())) => {} x => return Outcome::bad("error", format!("publishing the abort command: {x:?}")) }
    std::thread::sleep(Duration::from_secs(5));
    // An idle worker notices at its next task.
    for k in 0..3 * w as u64 { br.inject(TASK_IPC_ROUTING_KEY, task(2, k)); }
    let all = wait("all workers to stop", 120 * S, || (0..w).all(|i| status(2 + i, |s| s.ended.is_some())).then_some(()));
    if all.is_none() { let n = (0..w).filter(|i| status(2 + *i, |s| s.ended.is_none())).count(); return Outcome::bad("missed", format!("{n} of {w} workers are still running 120 s after the command to abort all of them, although each had a task to notice it")) }
    Outcome::ok()
}

// ---- C20 ----
fn gen_c20(r: &mut Rng) -> Value {
    let who = r.pick(&[1u64, 1, 1, 2, 2]);
    let mut faults = vec![];
    let w = r.range(1, 3);
    if who == 1 { let mut f = fault(r, 1); f["what"] = json!(r.pick(&[2, 2, 3, 3, 4, 4, 5, 5, 6])); if r.chance(1, 3) { f["when"] = json!(r.below(2)); f["n"] = json!(r.range(20, 60)) } faults.push(f) }
    else { for g in 2..2 + w { let mut f = fault(r, g); f["what"] = json!(r.pick(&[2, 3, 5])); faults.push(f) } }
    let jobs: Vec<Value> = (0..r.range(1, 3)).map(|_| job(r)).collect();
    let close = if who == 1 && r.chance(1, 4) { faults.clear(); json!(us(r) * 2) } else { Value::Null };
    json!({"who": who, "close": close, "lthreads": r.below(3), "wthreads": r.below(3), "workers": w, "cbor": r.chance(1, 3), "jobs": jobs, "conc": r.chance(1, 2), "net": net(r), "faults": faults, "leader_faults": true, "refuse": r.chance(1, 2), "idle": r.chance(1, 4), "restart_ms": 1_000})
}
fn run_c20(c: &Value) -> Outcome {
    let mut c = c.clone();
    if let Some(f) = c["faults"].as_array_mut() { for f in f { if u(f, "what") < 2 { f["what"] = json!(2) } } }
    let c = &c;
    script_jobs(c);
    let br = Broker::start(opts(c));
    let w = u(c, "workers").max(1) as i32; let cbor = b(c, "cbor"); let who = u(c, "who");
    for i in 0..w { worker(2 + i, u(c, "wthreads"), cbor) }
    let res: Results = Default::default();
    let after: Arc<Mutex<Vec<String>>> = Default::default();
    status(LEADER, |_| ());
    let (c2, r2, a2) = (c.clone(), res.clone(), after.clone());
    let lost = Arc::new(Mutex::new(false)); let l2 = lost.clone();
    let closed: Arc<Mutex<Option<u64>>> = Default::default(); let k2 = closed.clone();
    process(LEADER, u(c, "lthreads"), async move {
        let c = c2;
        let r = match Runtime::from_config(&amqp_config(cbor), crate::props::register()).await { Ok(r) => r, Err(e) => { status(LEADER, |s| { s.at = rt::now(); s.ended = Some(format!("connecting: {e:#}")) }); return } };
        status(LEADER, |s| s.ready = true);
        let one = |j: usize, job: Value| { let (r, r2) = (&r, r2.clone()); async move { let x = run_job(r, j as u32 + 1, &job).await; r2.lock().unwrap().insert(j as u32 + 1, x); } };
        let jobs = arr(&c, "jobs").iter().cloned().enumerate();
        let all = async { if b(&c, "conc") { futures::future::join_all(jobs.map(|(j, job)| one(j, job))).await; } else { for (j, job) in jobs { one(j, job).await } } };
        // The leader may close its runtime itself.
        let closed = async { if !c["close"].is_null() { sleep_us(u(&c, "close")).await; slog!("the leader closes its runtime"); let _ = r.close().await; k2.lock().unwrap().get_or_insert(rt::now()); } };
        futures::join!(all, closed);
        status(LEADER, |s| { s.at = rt::now(); s.ended = Some("jobs".into()) });
        if who == 1 {
            // Once the connection has been lost for good, everything fails.
            while !*l2.lock().unwrap() { tokio::time::sleep(Duration::from_millis(100)).await }
            let mut v = vec![];
            if r.get_command_ipc_sender().await.is_ok() { v.push("declaring a channel".to_string()) }
            if r.lease_coordinated_task_channel::<MapOp, u64>().await.is_ok() { v.push("leasing a task channel".to_string()) }
            let job = json!({"kind": 1, "items": [{"v": 1}, {"v": 2}]});
            if run_job(&r, 90, &job).await.is_ok() { v.push("running a directive".to_string()) }
            let _ = r.close().await;
            *a2.lock().unwrap() = v;
            status(LEADER, |s| s.ended = Some("ok".into()));
        }
        futures::future::pending::<()>().await;
    });
    let hb = u(&c["net"], "hb").max(5);
    // Two missed heartbeats, latency, stalls, the slowest input and operation.
    let bound = (4 * hb + 120) * S;
    let fired = |g: i32| br.fired().iter().find(|f| f.0 == g).map(|f| (f.0, format!("{:?}", f.1), f.2)).or_else(|| closed.lock().unwrap().filter(|_| g == LEADER).map(|t| (g, "closed by the leader".to_string(), t)));
    let mut refused = false;
    let mut on_fault = |g: i32| { if b(c, "refuse") && !refused && fired(g).is_some() { refused = true; rt::count("connects_refused"); br.refuse(g, true) } };
    if who == 1 {
        let end = wait("the leader after the loss of its connection", 1_200 * S, || {
            on_fault(LEADER);
            if status(LEADER, |s| s.ended.is_some()) { return Some(()) }
            match fired(LEADER) { Some(f) if rt::now() > f.2 + bound => Some(()), _ => None }
        });
        let s = status(LEADER, |s| s.clone());
        let f = fired(LEADER);
        let _ = end;
        // A connection that is never established has not been lost.
        if !s.ready && s.ended.is_none() && f.is_some() { return Outcome { nontrivial: false, ..Outcome::ok() } }
        if s.ended.is_none() { return Outcome::bad("hang", format!("{} of {} directives of the leader have not ended {}", arr(c, "jobs").len() - res.lock().unwrap().len(), arr(c, "jobs").len(), match &f { Some(f) => format!("{} s after the leader's connection failed ({:?})", bound / S, f.1), None => "after 20 min although no fault was injected".into() })) }
        for (j, x) in res.lock().unwrap().iter() {
            if let Ok(g) = x { if let Err(o) = check_items(*j, g, &job_ref(*j, &arr(c, "jobs")[*j as usize - 1])) { return Outcome::bad(if o.class == "count" { "partial" } else { &o.class }, format!("{} ({:?})", o.msg, f.map(|f| f.1))) } }
            if let (Err(e), None) = (x, &f) { return Outcome::bad("error", format!("job {j} failed although no fault was injected: {e}")) }
        }
        if s.ended.as_deref().is_some_and(|e| e.starts_with("connecting")) { return if f.is_some() { Outcome::ok() } else { Outcome::bad("error", format!("{:?}", s.ended)) } }
        // From here on the connection is lost for good at the latest.
        br.fault(LEADER, if u(&c["net"], "seed") % 2 == 0 { What::Cut } else { What::Blackhole });
        br.refuse(LEADER, true);
        std::thread::sleep(Duration::from_nanos(bound));
        *lost.lock().unwrap() = true;
        if wait("operations on a lost connection", bound, || status(LEADER, |s| s.ended.clone()).filter(|e| e == "ok")).is_none() { return Outcome::bad("hang", format!("operations on the lost connection did not end within {} s", bound / S)) }
        if let Some(x) = after.lock().unwrap().first() { return Outcome::bad("alive", format!("{x} succeeded although the connection is lost")) }
        return Outcome { nontrivial: true, ..Outcome::ok() }
    }
    // Workers: each loses its connection at some point; at the latest now.
    wait("the faults", 120 * S, || (2..2 + w).all(|g| fired(g).is_some()).then_some(()));
    for g in 2..2 + w { if status(g, |s| s.ended.is_none()) { br.fault(g, if (u(&c["net"], "seed") + g as u64) % 2 == 0 { What::Cut } else { What::Blackhole }) } if b(c, "refuse") { br.refuse(g, true) } }
    let t = rt::now();
    let all = wait("worker main loops", bound, || (2..2 + w).all(|g| status(g, |s| s.ended.is_some() || !s.ready && fired(g).is_some())).then_some(()));
    if let Some(p) = rt::PANICS.lock().unwrap().first() { return Outcome::bad("panic", format!("a worker panicked: {p}")) }
    if all.is_none() { return Outcome::bad("hang", format!("the main loop of worker {:?} has not returned {} s after its connection failed", (2..2 + w).filter(|g| status(*g, |s| s.ended.is_none())).map(|g| (g, fired(g).map(|f| f.1))).collect::<Vec<_>>(), (rt::now() - t) / S)) }
    for (j, x) in res.lock().unwrap().iter() { if let Ok(g) = x { if let Err(o) = check_items(*j, g, &job_ref(*j, &arr(c, "jobs")[*j as usize - 1])) { return o } } }
    Outcome { nontrivial: true, ..Outcome::ok() }
}

pub fn props() -> Vec<Prop> {
    let p = |id, gen, run, rule| Prop { id, gen, run, max_stall_ns: 2_000_000_000, max_time_ns: 60_000_000_000_000, crash_group: 0, rule, real: REAL, stubs: STUBS };
    vec![
        p("C13", gen_c13, run_c13, "1-3 map, fold or map-fold directives of 0-13 elements, in sequence or concurrently, 1-4 worker processes that are killed, crash, or have their connection reset or blackholed at frames, times and operation boundaries, and are restarted; non-trivial: a fault fired"),
        p("C14", gen_c14, run_c14, "1-5 directives or leases, in sequence or concurrently, that are finished, failed, abandoned after some items, cancelled at a time or dropped outside of the runtime, over AMQP or in memory, with the live heap compared after the drop in some in-memory runs; every run is non-trivial"),
        p("C15", gen_c15, run_c15, "1-5 undecodable messages on the task, command and result channels around a directive, then in half of the runs 1-3 tasks that name an unknown operation or have undecodable operation or input bytes, and another directive; non-trivial: such a message was sent"),
        p("C16", gen_c16, run_c16, "1-4 processes with 1-3 subscribers each, which join late, leave, die or lose their connection, 1-5 messages from each of two publishers; or an abort-all command to 1-4 idle or busy workers; non-trivial: several subscribers"),
        p("C20", gen_c20, run_c20, "the connection of the leader or of every worker is reset or blackholed, or closed by the leader itself, or the leader's result queues are deleted, at a frame or a time, while 1-3 directives run; every run is non-trivial"),
    ]
}
