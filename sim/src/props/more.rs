//! C23, C24: how tasks are shared among workers, and the AMQP exactly-once queue by itself.
use super::amqp::*;
use crate::broker::{Broker, What};
use crate::driver::Prop;
use crate::ops::*;
use crate::rt::{self, Outcome, Rng};
use crate::world::*;
use futures::StreamExt;
use paladin::acker::Acker;
use paladin::directive::{Directive, IndexedStream};
use paladin::queue::amqp::{AMQPConnection, AMQPConnectionOptions};
use paladin::operation::RemoteExecute;
use paladin::task::AnyTask;
use paladin::queue::{Connection, DeliveryMode, Publisher, QueueDurability, QueueHandle, QueueOptions, SyndicationMode};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ---- C23: no task waits while a worker is idle ----
fn gen_c23(r: &mut Rng) -> Value {
    let k = r.range(1, 3);
    let jobs: Vec<Value> = (0..k).map(|_| json!({"at": r.pick(&[0u64, 0, 1_000, 7_000_000, 40_000_000]), "durs": (0..r.range(1, 9)).map(|_| r.pick(&[4_000u64, 6_000, 15_000, 30_000]) + r.below(3_000)).collect::<Vec<_>>()})).collect();
    let amqp = if r.chance(1, 2) { let mut v = net(r); v["lat"] = r.pick(&[json!([0, 0]), json!([50, 1_500]), json!([500, 20_000])]); v["hb"] = json!(60); v["wthreads"] = json!(r.below(3)); v["restart_ms"] = json!(1_000); v } else { Value::Null };
    json!({"threads": r.below(4), "workers": r.range(1, 5), "late": r.pick(&[0, 0, 1, 2]), "late_at": r.range(1, 40), "cbor": r.chance(1, 3), "jobs": jobs, "amqp": amqp})
}
fn run_c23(c: &Value) -> Outcome {
    let c = c.clone();
    let jobs = arr(&c, "jobs").to_vec();
    with_script(|s| for (j, job) in jobs.iter().enumerate() { for (i, d) in arr(job, "durs").iter().enumerate() { s.durs.insert((j as u32 + 1, 1, i as u64), d.as_u64().unwrap_or(1).max(4_000) * 1000); } });
    let w = u(&c, "workers").max(1);
    // Between the end of an operation and the start of the next one there are a few messages and thread switches.
    const SLACK: u64 = 3 * S;
    block_on(u(&c, "threads"), async move {
        let over = !c["amqp"].is_null();
        let mut caps: Vec<(u64, u64)> = vec![(0, w)];
        let r = if over {
            let br = Arc::new(Broker::start(opts(&json!({"net": c["amqp"]}))));
            for g in 0..w { worker(10 + g as i32, u(&c["amqp"], "wthreads"), b(&c, "cbor")) }
            while (br.subscribers(paladin::runtime::TASK_IPC_ROUTING_KEY) as u64) < w { if rt::now() > 600 * S { return Outcome::bad("hang", "the workers did not subscribe within 600 s") } tokio::time::sleep(Duration::from_millis(100)).await }
            let cbor = b(&c, "cbor");
            let (n, c, br2) = (u(&c, "late"), c.clone(), br.clone());
            std::mem::forget(br);
            let t0 = rt::now();
            let joined = Arc::new(Mutex::new(vec![]));
            if n > 0 {
                let j2 = joined.clone();
                let _ = std::thread::Builder::new().name("joiner".into()).spawn(move || {
                    std::thread::sleep(Duration::from_secs(5 + u(&c, "late_at")));
                    for g in 0..n { worker(50 + g as i32, u(&c["amqp"], "wthreads"), b(&c, "cbor")) }
                    while (br2.subscribers(paladin::runtime::TASK_IPC_ROUTING_KEY) as u64) < w + n { if rt::now() > t0 + 600 * S { return } std::thread::sleep(Duration::from_millis(100)) }
                    j2.lock().unwrap().push((rt::now(), n));
                });
            }
            match leader_on(cbor, None).await { Ok(r) => (r, joined), Err(e) => return Outcome::bad("harness", format!("{e}")) }
        } else {
            match in_memory(w, b(&c, "cbor"), None).await { Ok(r) => (r, Default::default()), Err(e) => return Outcome::bad("harness", format!("{e}")) }
        };
        let (r, joined) = (Arc::new(r.0), r.1);
        tokio::time::sleep(Duration::from_secs(5)).await;
        let t0 = rt::now();
        let hs: Vec<_> = jobs.iter().cloned().enumerate().map(|(j, job)| { let r = r.clone(); tokio::spawn(async move {
            sleep_us(u(&job, "at")).await;
            rt::count("directives");
            let n = arr(&job, "durs").len();
            let op = MapOp { job: j as u32 + 1, stage: 1 };
            let mut st = Directive::map(IndexedStream::new(slow_stream((0..n).map(|i| (0, Ok((i, El::one(i as u64, i as u64))))).collect(), 0)), &op).run(&r).await?;
            let mut k = 0;
            while let Some(x) = st.next().await { x?; k += 1 }
            if k != n { anyhow::bail!("{k} of {n} results") }
            Ok::<_, anyhow::Error>(())
        }) }).collect();
        for h in hs { match timed("a directive", HANG, h).await { Ok(Ok(Ok(()))) => {} Ok(Ok(Err(e))) => return Outcome::bad("error", format!("{e:#}")), Ok(Err(e)) => return Outcome::bad("panic", format!("{e}")), Err(o) => return o } }
        for (t, n) in joined.lock().unwrap().iter() { caps.push((*t, *n)) }
        let ex = execs();
        let total: usize = jobs.iter().map(|j| arr(j, "durs").len()).sum();
        if ex.len() != total { return Outcome::bad("executions", format!("{} executions of {total} tasks", ex.len())) }
        let mut ts: Vec<u64> = ex.iter().flat_map(|x| [x.start, x.end]).chain(caps.iter().map(|c| c.0)).chain(jobs.iter().map(|j| t0 + u(j, "at") * 1000)).collect();
        ts.sort(); ts.dedup();
        let most = w + if over { u(&c, "late") } else { 0 };
        if let Some(x) = ex.iter().find(|x| ex.iter().filter(|y| y.start <= x.start && y.end > x.start).count() as u64 > most) { return Outcome::bad("parallel", format!("more than {most} tasks were being executed by {most} workers when task {} of job {} was started", x.key, x.job)) }
        if over { if let Some((x, y)) = ex.iter().flat_map(|x| ex.iter().map(move |y| (x, y))).find(|(x, y)| x.group == y.group && x.start < y.start && x.end > y.start) { return Outcome::bad("parallel", format!("worker {} executed tasks {} and {} at the same time", x.group, x.key, y.key)) } }
        // Since when a worker has been idle while a task was waiting.
        let mut since: Option<u64> = None;
        for t in ts {
            let running = ex.iter().filter(|x| x.start <= t && x.end > t).count() as u64;
            let cap: u64 = caps.iter().filter(|c| c.0 <= t).map(|c| c.1).sum();
            let waiting = ex.iter().filter(|x| x.start > t && t0 + u(&jobs[x.job as usize - 1], "at") * 1000 <= t).count();
            if let Some(s) = since { if t > s + SLACK { return Outcome::bad("idle", format!("for {} ms a task was waiting although only {} of {} workers were busy", (t - s) / 1_000_000, ex.iter().filter(|x| x.start <= s && x.end > s).count(), caps.iter().filter(|c| c.0 <= s).map(|c| c.1).sum::<u64>())) } }
            if running < cap && waiting > 0 { since = since.or(Some(t)) } else { since = None }
        }
        Outcome { nontrivial: total as u64 > w, ..Outcome::ok() }
    })
}

// ---- C24: the AMQP exactly-once queue ----
fn gen_c24(r: &mut Rng) -> Value {
    let n = r.range(1, 3);
    let nf = r.pick(&[0, 0, 1, 1, 2, 3]);
    let faults: Vec<Value> = (0..nf).map(|_| { let g = r.range(2, 1 + n); fault(r, g) }).collect();
    let slow = r.chance(1, 2);
    let msgs: Vec<Value> = (0..r.range(1, 14)).map(|_| json!({"p": r.below(2), "d": if slow { super::directives::us(r) / 4 } else { 0 }, "v": r.pick(&[0, 0, 0, 0, 1]), "hold": if r.chance(1, 3) { super::directives::us(r) / 8 } else { 0 }, "size": r.pick(&[1, 1, 50, 9_000])})).collect();
    json!({"threads": r.below(3), "consumers": n, "qos": r.pick(&[1, 1, 2, 5]), "cbor": r.chance(1, 3), "durable": r.chance(1, 2), "msgs": msgs, "net": net(r), "faults": faults, "before": r.chance(1, 2), "restart_ms": r.pick(&[20, 1_000]), "broker": r.chance(1, 4)})
}
type Log = Arc<Mutex<Vec<(u64, i32, u64, bool)>>>;
type Body = (u64, Vec<u8>);
fn c24_options(c: &Value) -> QueueOptions { QueueOptions { delivery_mode: DeliveryMode::Persistent, syndication_mode: SyndicationMode::ExactlyOnce, durability: if b(c, "durable") { QueueDurability::Durable } else { QueueDurability::NonDurable } } }
async fn c24_queue(c: &Value) -> anyhow::Result<paladin::queue::amqp::AMQPQueueHandle> {
    let conn = AMQPConnection::new(AMQPConnectionOptions { uri: "amqp://127.0.0.1:5672/%2f", qos: Some(u(c, "qos").max(1) as u16), serializer: ser(b(c, "cbor")) }).await?;
    let q = conn.declare_queue("work", c24_options(c)).await?;
    std::mem::forget(conn);
    Ok(q)
}
fn c24_consumer(g: i32, c: &Value, log: Log) {
    status(g, |_| ());
    let c = c.clone();
    process(g, u(&c, "threads"), async move {
        let x: anyhow::Result<()> = async {
            let mut s = c24_queue(&c).await?.declare_consumer::<Body>(&format!("consumer-{g}")).await?;
            status(g, |s| s.ready = true);
            while let Some(((id, _), a)) = s.next().await {
                rt::die_if_crashed();
                rt::ev(2, id); slog!("consumer {g}: message {id}");
                let m = &arr(&c, "msgs")[id as usize % arr(&c, "msgs").len()];
                log.lock().unwrap().push((id, g, rt::now(), false));
                sleep_us(u(m, "hold")).await;
                if u(m, "v") != 0 { rt::count("rejected") }
                if u(m, "v") == 0 { a.ack().await? } else { a.nack().await? }
                rt::die_if_crashed();
                if let Some(x) = log.lock().unwrap().iter_mut().rev().find(|x| x.0 == id && x.1 == g) { x.3 = true }
            }
            Ok(())
        }.await;
        rt::die_if_crashed();
        slog!("consumer {g} ends: {x:?}");
        status(g, |s| { s.at = rt::now(); s.ended = Some(format!("{x:?}")) });
    });
}
struct Pool { c: Value, log: Log, next: i32, live: Vec<i32>, lost: BTreeMap<i32, u64>, restarts: u32 }
impl Pool {
    fn start(&mut self) { c24_consumer(self.next, &self.c, self.log.clone()); self.live.push(self.next); self.next += 1 }
    fn poll(&mut self) {
        let dead: Vec<i32> = self.live.iter().copied().filter(|g| rt::group_crashed(*g) || status(*g, |s| s.ended.is_some())).collect();
        for g in dead { self.lost.insert(g, rt::now()); rt::crash_group(g); self.live.retain(|x| *x != g); if self.restarts < 30 { self.restarts += 1; std::thread::sleep(Duration::from_millis(u(&self.c, "restart_ms"))); self.start() } }
    }
}
fn run_c24(c: &Value) -> Outcome {
    let br = Broker::start(opts(c));
    let log: Log = Default::default();
    let msgs = arr(c, "msgs").to_vec();
    let n = u(c, "consumers").max(1) as i32;
    let mut pool = Pool { c: c.clone(), log: log.clone(), next: 2, live: vec![], lost: BTreeMap::new(), restarts: 0 };
    if b(c, "before") { for _ in 0..n { pool.start() } }
    // Two publishers; a message is published when publish() has returned.
    let published: Arc<Mutex<Vec<u64>>> = Default::default(); let done = Arc::new(Mutex::new(0));
    for p in 0..2u64 {
        let (c, published, done, msgs) = (c.clone(), published.clone(), done.clone(), msgs.clone());
        process(50 + p as i32, u(&c, "threads"), async move {
            let x: anyhow::Result<()> = async {
                let t = c24_queue(&c).await?.publisher::<Body>();
                for (i, m) in msgs.iter().enumerate().filter(|m| u(m.1, "p") == p) {
                    sleep_us(u(m, "d")).await;
                    t.publish(&(i as u64, vec![7; u(m, "size") as usize])).await?;
                    slog!("published {i}"); rt::ev(1, i as u64);
                    published.lock().unwrap().push(i as u64);
                }
                Ok(())
            }.await;
            if let Err(e) = x { status(50, |s| s.ended = Some(format!("{e:#}"))) }
            *done.lock().unwrap() += 1;
            futures::future::pending::<()>().await;
        });
    }
    if wait("the publishers", 1_200 * S, || { pool.poll(); (*done.lock().unwrap() == 2).then_some(()) }).is_none() { return Outcome::bad("hang", "publishing did not end") }
    if let Some(e) = status(50, |s| s.ended.clone()) { return Outcome::bad("error", format!("publishing failed: {e}")) }
    std::thread::sleep(Duration::from_secs(20));
    let broker = b(c, "broker") && b(c, "durable");
    if broker { br.restart(); rt::count("broker_restarts"); std::thread::sleep(Duration::from_secs(1)); }
    if !b(c, "before") { for _ in 0..n { pool.start() } }
    let t0 = rt::now(); let mut quiet = false;
    let drained = wait("the queue to be drained", 3_600 * S, || {
        pool.poll();
        if !quiet && rt::now() > t0 + 300 * S { quiet = true; br.quiesce() }
        (quiet && br.queue_len("work").unwrap_or(0) == 0 && br.unacked("work") == 0).then_some(())
    });
    std::thread::sleep(Duration::from_secs(5));
    let log = log.lock().unwrap().clone(); let fired = br.fired();
    let seen: BTreeSet<u64> = log.iter().map(|l| l.0).collect();
    if let Some(x) = (0..msgs.len() as u64).find(|i| !seen.contains(i)) { return Outcome::bad("lost", format!("message {x} was published and never delivered")) }
    if drained.is_none() { return Outcome::bad("stuck", format!("{} messages are in the queue and {} unacknowledged after 1 h, although consumers that settle each message are there", br.queue_len("work").unwrap_or(0), br.unacked("work"))) }
    for i in 0..msgs.len() as u64 {
        let d: Vec<_> = log.iter().filter(|l| l.0 == i).collect();
        for w in d.windows(2) {
            let g = w[0].1;
            // Only a consumer that disappeared may be replaced. What it had received it may still look at after its replacement.
            if !broker && !fired.iter().any(|f| (f.0 == g || f.0 == w[1].1) && f.2 <= w[1].2) && !pool.lost.get(&g).is_some_and(|t| *t <= w[1].2) { return Outcome::bad("redelivered", format!("message {i} was delivered to consumer {g}{} and again to consumer {}, although the connection of consumer {g} was not lost", if w[0].3 { " and settled" } else { "" }, w[1].1)) }
        }
    }
    if n == 1 && pool.lost.is_empty() && fired.is_empty() && !broker && msgs.iter().all(|m| u(m, "v") == 0) {
        for p in 0..2u64 { let ids: Vec<u64> = log.iter().map(|l| l.0).filter(|i| u(&msgs[*i as usize], "p") == p).collect(); if ids.windows(2).any(|w| w[0] > w[1]) { return Outcome::bad("order", format!("the single consumer received the messages of publisher {p} as {ids:?}")) } }
    }
    if br.peak_unacked() > u(c, "qos").max(1) as usize { return Outcome::bad("qos", format!("a consumer had {} unsettled messages, although the quality of service allows {}", br.peak_unacked(), u(c, "qos").max(1))) }
    if let Some(e) = br.errors().first() { if fired.is_empty() && !broker { return Outcome::bad("protocol", format!("the broker reported {e}")) } }
    Outcome { nontrivial: true, ..Outcome::ok() }
}

// ---- C07 over AMQP: the main loops of worker processes ----
pub fn gen_c07_amqp(r: &mut Rng) -> Value {
    let w = r.range(1, 4);
    json!({"dist": true, "lthreads": r.below(3), "wthreads": r.below(3), "workers": w, "cbor": r.chance(1, 3), "net": net(r), "cause": r.pick(&[0, 0, 1, 1, 2]), "busy": r.below(w + 1), "pre": r.below(3), "post": r.below(2), "between": r.pick(&[0, 50, 20_000, 2_000_000]),
        "tails": (0..4).map(|_| r.pick(&[0u64, 0, 1_000, 5_000, 8_500, 30_000])).collect::<Vec<_>>(), "wait": super::directives::us(r) / 4, "late": r.pick(&[0, 0, 4_000_000, 20_000_000, 100_000_000])})
}
pub fn run_c07_amqp(c: &Value) -> Outcome {
    use paladin::runtime::*;
    let br = Broker::start(opts(c));
    let w = u(c, "workers").max(1); let cbor = b(c, "cbor"); let busy = u(c, "busy").min(w); let cause = u(c, "cause");
    const FAIL: u64 = 1000;
    with_script(|s| {
        for k in 0..busy { s.acts.insert((1, 1, k), vec![Act::UntilAbort { ms: if cause == 2 { 3_000 } else { 60_000 }, tail_ms: arr(c, "tails").get(k as usize).and_then(|v| v.as_u64()).unwrap_or(0) }]); }
        s.acts.insert((1, 1, FAIL), vec![Act::Fatal { ignore: false }]);
    });
    for i in 0..w { worker(2 + i as i32, u(c, "wthreads"), cbor) }
    let _ = wait("workers", 600 * S, || (br.subscribers(TASK_IPC_ROUTING_KEY) as u64 >= w && br.exchange_bindings(COMMAND_IPC_ROUTING_KEY) as u64 >= w).then_some(()));
    if br.subscribers(TASK_IPC_ROUTING_KEY) as u64 != w { return Outcome::bad("hang", "the workers did not subscribe within 600 s") }
    std::thread::sleep(Duration::from_secs(10));
    let task = |job: u32, i: u64| ser(cbor).to_bytes(&AnyTask { routing_key: format!("job-{job}"), metadata: ser(cbor).to_bytes(&(i, ser(cbor).to_bytes(&i).unwrap())).unwrap(), op: ser(cbor).to_bytes(&MapOp { job, stage: 1 }).unwrap(), operation_id: MapOp::ID, input: ser(cbor).to_bytes(&El::one(i, 2)).unwrap(), serializer: ser(cbor) }).unwrap().to_vec();
    for k in 0..busy { br.inject(TASK_IPC_ROUTING_KEY, task(1, k)); }
    if wait("the busy workers", 60 * S, || (execs().len() as u64 >= busy).then_some(())).is_none() { return Outcome::bad("lost", "a task offered to an idle worker was not started within 60 s") }
    std::thread::sleep(Duration::from_micros(u(c, "wait")));
    let sent: Arc<Mutex<Option<std::result::Result<(), String>>>> = Default::default(); let s2 = sent.clone();
    let (pre, post, between) = (u(c, "pre"), u(c, "post"), u(c, "between"));
    let t0 = Arc::new(Mutex::new(0u64)); let t1 = t0.clone();
    process(LEADER, u(c, "lthreads"), async move {
        let x: anyhow::Result<()> = async {
            let r = Runtime::from_config(&amqp_config(cbor), crate::props::register()).await?;
            let s = r.get_command_ipc_sender().await?;
            for i in 0..pre { s.publish(&CommandIpc::Abort { routing_key: format!("other-{i}") }).await?; sleep_us(between).await }
            *t1.lock().unwrap() = rt::now();
            if cause == 0 { rt::count("aborts_sent"); s.publish(&CommandIpc::Abort { routing_key: COMMAND_IPC_ABORT_ALL_KEY.into() }).await? }
            for i in 0..post { sleep_us(between).await; s.publish(&CommandIpc::Abort { routing_key: format!("other-{}", 10 + i) }).await? }
            Ok(())
        }.await;
        *s2.lock().unwrap() = Some(x.map_err(|e| format!("{e:#}")));
        futures::future::pending::<()>().await;
    });
    match wait("the commands", 600 * S, || sent.lock().unwrap().clone()) { Some(Ok(())) => {} x => return Outcome::bad("error", format!("publishing the abort command: {x:?}")) }
    let mut t = *t0.lock().unwrap();
    if cause == 1 {
        br.inject(TASK_IPC_ROUTING_KEY, task(1, FAIL));
        match wait("the failing task", 100 * S, || execs().iter().find(|x| x.key == FAIL && x.done).map(|x| x.end)) { Some(e) => t = e, None => return Outcome::bad("lost", "the failing task was not executed within 100 s") }
    }
    std::thread::sleep(Duration::from_secs(15));
    let ended = |g: i32| status(g, |s| s.ended.clone().map(|_| s.at));
    for x in execs().iter().filter(|x| x.job == 1 && x.key < busy) {
        if cause == 2 { if x.abort_at_start || x.saw_abort.is_some() { return Outcome::bad("signal", format!("task {} saw the abort signal although nobody aborted its worker", x.key)) } continue }
        if x.start + S / 10 > t || x.start + 50 * S < t { continue }
        match x.saw_abort {
            None => return Outcome::bad("signal", format!("task {} was executing when the abort command was sent and never saw the abort signal", x.key)),
            Some(a) if a < t => return Outcome::bad("signal", format!("task {} saw the abort signal before the command", x.key)),
            Some(a) if a > t + 4 * S => return Outcome::bad("signal", format!("task {} saw the abort signal {} ms after the command", x.key, (a - t) / 1_000_000)),
            _ => {}
        }
        match ended(x.group) {
            None => return Outcome::bad("grace", format!("the worker that executed task {} is still running 15 s after the abort command", x.key)),
            // An operation that reacts in time is not cut off.
            Some(at) if !x.done && at < x.saw_abort.unwrap() + 9 * S || x.done && x.end < x.saw_abort.unwrap() + 9 * S && at < x.end => return Outcome::bad("cutoff", format!("the worker of task {} ended {} ms after the operation saw the abort signal and before it was finished, although it has 10 s to do so", x.key, at.saturating_sub(x.saw_abort.unwrap()) / 1_000_000)),
            _ => {}
        }
    }
    std::thread::sleep(Duration::from_micros(u(c, "late")));
    let from = rt::now();
    for k in 0..3 * w { br.inject(TASK_IPC_ROUTING_KEY, task(2, k)); }
    if cause == 2 {
        std::thread::sleep(Duration::from_secs(60));
        let n = execs().iter().filter(|x| x.done && (x.job == 2 || x.key < busy)).count() as u64;
        if n != 3 * w + busy { return Outcome::bad("lost", format!("{n} of {} tasks were executed although no worker was aborted", 3 * w + busy)) }
        if let Some(g) = (2..2 + w as i32).find(|g| ended(*g).is_some()) { return Outcome::bad("stopped", format!("worker {g} ended although nobody aborted it: {:?}", status(g, |s| s.ended.clone()))) }
        if let Some(x) = execs().iter().find(|x| x.abort_at_start || x.saw_abort.is_some()) { return Outcome::bad("signal", format!("task {} saw the abort signal although nobody aborted its worker", x.key)) }
        return Outcome { nontrivial: pre + post > 0, ..Outcome::ok() }
    }
    if wait("all workers to stop", 120 * S, || (2..2 + w as i32).all(|g| ended(g).is_some()).then_some(())).is_none() { return Outcome::bad("continues", format!("{} of {w} workers are still running 120 s after the command to abort all of them, although each had a task to notice it", (2..2 + w as i32).filter(|g| ended(*g).is_none()).count())) }
    let mut per: BTreeMap<i32, usize> = BTreeMap::new();
    for x in execs().iter().filter(|x| x.start >= from) { *per.entry(x.group).or_default() += 1 }
    if let Some((g, n)) = per.iter().find(|p| *p.1 > 1) { return Outcome::bad("continues", format!("worker {g} started {n} tasks after it had been told to abort")) }
    Outcome::ok()
}

// ---- C25: the loss of a leader ----
fn gen_c25(r: &mut Rng) -> Value {
    let lost = r.range(1, 2);
    let jobs = |r: &mut Rng, n: u64| (0..r.range(1, n)).map(|_| job(r)).collect::<Vec<_>>();
    let faults: Vec<Value> = (0..lost).map(|i| { let mut f = fault(r, 80 + i); if r.chance(1, 3) { f["when"] = json!(r.below(2)); f["n"] = json!(r.range(20, 60)) } f }).collect();
    json!({"lthreads": r.below(3), "wthreads": r.below(3), "workers": r.range(1, 3), "cbor": r.chance(1, 3), "conc": r.chance(1, 2), "jobs": jobs(r, 3), "doomed": (0..lost).map(|_| jobs(r, 3)).collect::<Vec<_>>(), "net": net(r), "faults": faults, "restart_ms": 1_000, "late": r.pick(&[0, 300, 5_000])})
}
fn run_c25(c: &Value) -> Outcome {
    let doomed: Vec<Value> = arr(c, "doomed").iter().map(|d| { let mut c = c.clone(); c["jobs"] = d.clone(); c }).collect();
    script_jobs(c);
    for (i, d) in doomed.iter().enumerate() { script_from(d, 100 * (i as u32 + 1)) }
    let br = Broker::start(opts(c));
    let mut sup = Sup::new(c);
    for _ in 0..u(c, "workers").max(1) { sup.start(); }
    let lost: Vec<Results> = doomed.iter().enumerate().map(|(i, d)| leader_from(d, 80 + i as i32, 100 * (i as u32 + 1))).collect();
    std::thread::sleep(Duration::from_millis(u(c, "late")));
    let res = leader_from(c, LEADER, 0);
    let mut cut = false;
    let done = wait("the directives of the other leader", 3_600 * S, || {
        sup.poll();
        // A leader that has not failed by now dies.
        if !cut && rt::now() > 300 * S { cut = true; for i in 0..doomed.len() as i32 { br.fault(80 + i, What::Crash) } }
        status(LEADER, |s| s.ended.clone())
    });
    let got = res.lock().unwrap().clone();
    match done { Some(e) if e == "ok" => {} Some(e) => return Outcome::bad("error", format!("the leader failed: {e}")), None => return Outcome::bad("hang", format!("{} of {} directives of a leader have a result 1 h after another leader was lost", got.len(), arr(c, "jobs").len())) }
    if let Err(o) = compare(c, &got) { return o }
    for (i, d) in doomed.iter().enumerate() { let base = 100 * (i as u32 + 1); for (j, x) in lost[i].lock().unwrap().iter() { if let Ok(g) = x { if let Err(o) = check_items(*j, g, &job_ref(*j, &arr(d, "jobs")[(*j - base) as usize - 1])) { return Outcome::bad(&o.class, format!("of the lost leader: {}", o.msg)) } } } }
    let fired = br.fired().len();
    for i in 0..doomed.len() as i32 { if !br.fired().iter().any(|f| f.0 == 80 + i) { br.fault(80 + i, What::Crash) } }
    // Its tasks are done by now, its channels are not used any more.
    std::thread::sleep(Duration::from_secs(2_400));
    if let Some(g) = (2..2 + u(c, "workers").max(1) as i32).find(|g| status(*g, |s| s.ended.is_some())) { return Outcome::bad("stopped", format!("the main loop of worker {g} ended when another process, a leader, was lost: {:?}", status(g, |s| s.ended.clone()))) }
    let (n, k) = (br.queue_len(paladin::runtime::TASK_IPC_ROUTING_KEY).unwrap_or(0), br.unacked(paladin::runtime::TASK_IPC_ROUTING_KEY));
    if n + k > 0 { return Outcome::bad("stuck", format!("{n} tasks are waiting and {k} unacknowledged 40 min after their leader was lost")) }
    let left: Vec<String> = br.queue_names().into_iter().filter(|n| n != paladin::runtime::TASK_IPC_ROUTING_KEY && !n.starts_with(paladin::runtime::COMMAND_IPC_ROUTING_KEY)).collect();
    if !left.is_empty() { return Outcome::bad("leak", format!("queues {left:?} exist 40 min after their leader was lost")) }
    // The workers still serve.
    let mut again = c.clone(); again["jobs"] = json!([{"kind": 2, "items": [{"v": 1}, {"v": 2}, {"v": 3}]}]);
    let res = leader_from(&again, 90, 500);
    match wait("a directive of a new leader", 600 * S, || { sup.poll(); status(90, |s| s.ended.clone()) }) { Some(e) if e == "ok" => {} e => return Outcome::bad("hang", format!("a directive of a leader that was started later did not end: {e:?}")) }
    let got = res.lock().unwrap().clone();
    if let Err(o) = compare_from(&again, &got, 500) { return o }
    Outcome { nontrivial: fired > 0, ..Outcome::ok() }
}

// ---- C14 in memory: what a dropped result channel holds is freed ----
pub fn gen_c14_heap(r: &mut Rng) -> Value {
    let d: Vec<Value> = (0..r.range(1, 4)).map(|_| json!({"n": r.range(3, 9), "take": r.below(4), "mode": r.pick(&[0u64, 1, 1, 1, 2, 3]), "dur": r.pick(&[0, 1_000, 700_000]), "wait": super::directives::us(r)})).collect();
    json!({"heap": true, "threads": r.below(3), "workers": r.range(1, 4), "cbor": r.chance(1, 3), "dirs": d, "outside": r.chance(1, 5)})
}
const BIG: usize = 20_000;
fn big(i: u64) -> El { El { lo: i, hi: i, items: (0..BIG as u64).map(|k| mix(i, k)).collect(), poison: Poison(0) } }
pub fn run_c14_heap(c: &Value) -> Outcome {
    let c = c.clone();
    let dirs = arr(&c, "dirs").to_vec();
    with_script(|s| for (j, d) in dirs.iter().enumerate() { for k in 0..u(d, "n") { s.durs.insert((j as u32 + 2, 1, k), u(d, "dur")); } });
    block_on(u(&c, "threads"), async move {
        let r = match in_memory(u(&c, "workers"), b(&c, "cbor"), None).await { Ok(r) => r, Err(e) => return Outcome::bad("harness", format!("{e}")) };
        let r: &'static paladin::runtime::Runtime = Box::leak(Box::new(r));
        let run = |j: u32, n: u64| { let op: &'static MapOp = Box::leak(Box::new(MapOp { job: j, stage: 1 })); Directive::map(IndexedStream::new(slow_stream((0..n).map(|i| (0, Ok((i as usize, big(i))))).collect(), 0)), op).run(r) };
        // Fill what is filled once.
        match timed("a directive", HANG, async { let mut st = run(1, 9).await?; while let Some(x) = st.next().await { x?; } Ok::<_, anyhow::Error>(()) }).await { Ok(Ok(())) => {} Ok(Err(e)) => return Outcome::bad("error", format!("{e:#}")), Err(o) => return o }
        tokio::time::sleep(Duration::from_secs(10)).await;
        let base = rt::live_bytes();
        let mut late = 0;
        for (j, d) in dirs.iter().enumerate() {
            let (n, j) = (u(d, "n"), j as u32 + 2);
            rt::count("leases_dropped");
            let x = timed("a directive", HANG, async {
                match u(d, "mode") {
                    3 => { let op: &'static CatOp = Box::leak(Box::new(CatOp { job: j, stage: 2 })); let _: El = Directive::fold(run(j, n).await?, op).run(r).await?; }
                    m => {
                        let mut st = run(j, n).await?;
                        let k = if m == 0 { n + 1 } else { u(d, "take").min(n - 2) };
                        for _ in 0..k { if let Some(x) = st.next().await { x?; } }
                        if m == 1 {
                            // The input is only read while the output is.
                            let mut k = k;
                            while (execs().iter().filter(|x| x.job == j && x.done).count() as u64) < n && k < n - 2 { st.next().await; k += 1 }
                            let started = execs().iter().filter(|x| x.job == j).count();
                            while execs().iter().filter(|x| x.job == j && x.done).count() < started { tokio::time::sleep(Duration::from_millis(100)).await }
                            tokio::time::sleep(Duration::from_secs(5)).await;
                        }
                        if m == 2 { let _ = tokio::time::timeout(Duration::from_micros(u(d, "wait") / 4), st.next()).await; late += n - k }
                        if b(&c, "outside") { let h = std::thread::spawn(move || drop(st)); while !h.is_finished() { tokio::time::sleep(Duration::from_millis(1)).await } } else { drop(st) }
                    }
                }
                Ok::<_, anyhow::Error>(())
            }).await;
            match x { Ok(Ok(())) => {} Ok(Err(e)) => return Outcome::bad("error", format!("{e:#}")), Err(o) => return o }
        }
        tokio::time::sleep(Duration::from_secs(30)).await;
        let more = rt::live_bytes() - base;
        slog!("{more} bytes more than before {} directives, {late} results of which may have come after their directive was dropped", dirs.len());
        if more > 100_000 { return if late > 0 && more < 100_000 + (late as i64) * (BIG as i64) * 25 { Outcome::bad("late", format!("{late} results of tasks that were being executed when their in-memory directive was dropped stay in memory: {} KB 30 s later", more / 1000)) } else { Outcome::bad("heap", format!("{} KB more are allocated 30 s after {} directives ended or were dropped than before (a result is {} KB)", more / 1000, dirs.len(), BIG * 10 / 1000)) } }
        Outcome::ok()
    })
}

pub fn props() -> Vec<Prop> {
    let p = |id, gen, run, max_stall_ns, rule| Prop { id, gen, run, max_stall_ns, max_time_ns: 60_000_000_000_000, crash_group: 0, rule, real: REAL, stubs: STUBS };
    vec![
        Prop { real: super::directives::BOTH, stubs: super::directives::BOTH_STUBS, ..p("C23", gen_c23, run_c23, 20_000_000, "1-3 map directives of 1-9 long tasks over 1-5 workers, in memory or over AMQP, with up to two workers that join later; non-trivial: more tasks than workers") },
        p("C24", gen_c24, run_c24, 2_000_000_000, "1-14 messages of two publishers, acknowledged or rejected by 1-3 consumers that die or lose their connection and are replaced, with a broker restart in some runs; every run is non-trivial"),
        p("C25", gen_c25, run_c25, 2_000_000_000, "1-2 leaders that die, are killed, or lose their connection while they run 1-3 directives, and another one that runs 1-3 directives on the same 1-3 workers, then a new one; non-trivial: a fault fired while directives were running"),
    ]
}
