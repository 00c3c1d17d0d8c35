//! C26-C28: the building blocks users assemble themselves: leased task channels, retries, the in-memory connection.
use super::amqp::{leader_on, maybe_amqp, opts, worker};
use super::directives::{us, BOTH, BOTH_STUBS};
use crate::broker::Broker;
use crate::driver::Prop;
use crate::ops::*;
use crate::rt::{self, count, Outcome, Rng};
use crate::world::*;
use futures::StreamExt;
use paladin::acker::Acker;
use paladin::operation::{FatalError, FatalStrategy, OperationError, RetryStrategy, TransientError};
use paladin::queue::in_memory::InMemoryConnection;
use paladin::queue::{Connection, DeliveryMode, Publisher, QueueDurability, QueueHandle, QueueOptions, SyndicationMode};
use paladin::runtime::{Runtime, WorkerRuntime, TASK_IPC_ROUTING_KEY};
use paladin::serializer::Serializer;
use paladin::task::Task;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::num::NonZeroU32;
use std::sync::{Arc, Mutex};
use std::time::Duration;

const S: u64 = 1_000_000_000;
const MS: u64 = 1_000_000;
fn lk<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> { m.lock().unwrap_or_else(|e| e.into_inner()) }

// ---- C26: a leased task channel ----
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Meta { chan: u64, k: u64, note: String, tail: Vec<u8> }
fn meta(chan: u64, k: u64, n: u64) -> Meta { Meta { chan, k, note: format!("task {k}"), tail: (0..n).map(|i| (i + k) as u8).collect() } }

fn gen_c26(r: &mut Rng) -> Value {
    let amqp = maybe_amqp(r, 3);
    let t = r.chance(1, 2);
    let mut d = |r: &mut Rng| if t { us(r) / 8 } else { 0 };
    let chans: Vec<Value> = (0..r.range(1, 3)).map(|_| {
        let pubs = r.range(1, 3);
        let tasks: Vec<Value> = (0..r.below(9)).map(|_| json!({"p": r.below(pubs), "d": d(r), "dur": if r.chance(1, 3) { d(r) } else { 0 }, "meta": r.pick(&[0, 0, 3, 200]), "act": r.pick(&[0, 0, 0, 0, 1, 2])})).collect();
        // close: 0 after the last publication, 1 the sender is dropped, 2 after the last result was acknowledged, 3 at a moment
        // ack: 0 at once, 1 later, in order, 2 later, concurrently, 3 all at the end (in memory only)
        json!({"pubs": pubs, "tasks": tasks, "close": r.pick(&[0, 0, 0, 1, 1, 2, 3]), "at": d(r), "ack": r.pick(&[0, 0, 1, 2, 3]), "slow": d(r), "lit": r.chance(1, 4)})
    }).collect();
    // custom: workers with a loop of their own; bit 0: they acknowledge before they answer, bit 1: they answer twice
    json!({"threads": r.below(4), "workers": r.range(1, 4), "cbor": r.chance(1, 3), "chans": chans, "custom": if amqp.is_null() { vec![] } else { (0..r.below(3)).map(|_| r.below(4)).collect::<Vec<_>>() }, "amqp": amqp})
}
/// A worker with a hand-written loop, as the documentation of `get_task_receiver` shows it.
fn custom_worker(g: i32, threads: u64, cbor: bool, mode: u64) {
    super::amqp::process(g, threads, async move {
        let Ok(w) = WorkerRuntime::from_config(&super::amqp::amqp_config(cbor), crate::props::register()).await else { return };
        let Ok(mut tasks) = w.get_task_receiver().await else { return };
        while let Some((task, acker)) = tasks.next().await {
            let key = task.routing_key.clone();
            if mode & 1 == 1 { let _ = acker.ack().await; }
            let res = task.remote_execute(None).await;
            for i in 0..if mode & 2 == 2 { 2 } else { 1 } {
                if i > 0 { count("answered_twice") }
                if let Ok(o) = &res {
                    let output = paladin::task::AnyTaskOutput { metadata: o.metadata.clone(), output: o.output.clone(), serializer: o.serializer };
                    let _ = w.dispatch_ok(paladin::runtime::ExecutionOk { routing_key: key.clone(), output }).await;
                }
            }
            if mode & 1 == 0 { let _ = if res.is_ok() { acker.ack().await } else { acker.nack().await }; }
        }
    });
}
fn run_c26(c: &Value) -> Outcome {
    let c = c.clone();
    let chans = arr(&c, "chans").to_vec();
    with_script(|s| for (j, ch) in chans.iter().enumerate() { for (k, t) in arr(ch, "tasks").iter().enumerate() {
        let id = (j as u32 + 1, 1, k as u64);
        s.durs.insert(id, u(t, "dur"));
        match u(t, "act") { 1 => { s.acts.insert(id, vec![Act::Transient { retry: 0, max: 2, ms: 0, max_ms: 0, ignore: false }, Act::Ok]); } 2 if !b(ch, "lit") => { s.acts.insert(id, vec![Act::Fatal { ignore: true }]); } _ => {} }
    } });
    block_on(u(&c, "threads"), async move {
        let w = u(&c, "workers").max(1); let cbor = b(&c, "cbor");
        let over = !c["amqp"].is_null();
        let r = if over {
            let br = Broker::start(opts(&json!({"net": c["amqp"]})));
            let custom = arr(&c, "custom");
            for g in 0..w { worker(10 + g as i32, u(&c["amqp"], "wthreads"), cbor) }
            for (g, m) in custom.iter().enumerate() { custom_worker(40 + g as i32, u(&c["amqp"], "wthreads"), cbor, m.as_u64().unwrap_or(0)) }
            let n = w as usize + custom.len();
            while br.subscribers(TASK_IPC_ROUTING_KEY) < n { if rt::now() > 600 * S { return Outcome::bad("hang", "the workers did not subscribe within 600 s") } tokio::time::sleep(Duration::from_millis(100)).await }
            std::mem::forget(br);
            leader_on(cbor, None).await
        } else { in_memory(w, cbor, None).await };
        let r = match r { Ok(r) => Arc::new(r), Err(e) => return Outcome::bad("harness", format!("{e}")) };
        let hs: Vec<_> = chans.iter().cloned().enumerate().map(|(j, ch)| tokio::spawn(one_channel(r.clone(), j as u64, ch, over))).collect();
        for h in hs { match h.await { Ok(Ok(())) => {} Ok(Err(o)) => return o, Err(e) => return Outcome::bad("panic", format!("{e}: {:?}", rt::PANICS.lock().unwrap().last())) } }
        Outcome { nontrivial: chans.iter().any(|c| !arr(c, "tasks").is_empty()), ..Outcome::ok() }
    })
}
async fn one_channel(r: Arc<Runtime>, j: u64, ch: Value, over: bool) -> Result<(), Outcome> {
    let bad = |c: &str, m: String| Err(Outcome::bad(c, format!("channel {j}: {m}")));
    let op: &'static MapOp = Box::leak(Box::new(MapOp { job: j as u32 + 1, stage: 1 }));
    let (id, tx, mut rx) = match r.lease_coordinated_task_channel::<MapOp, Meta>().await { Ok(x) => x, Err(e) => return bad("error", format!("leasing failed: {e:#}")) };
    count("directives");
    let tasks = arr(&ch, "tasks").to_vec();
    let ignored = |k: usize| u(&tasks[k], "act") == 2 && !b(&ch, "lit");
    let tx = Arc::new(Mutex::new(Some(Arc::new(tx))));
    let closed: Arc<Mutex<Option<(u64, u64)>>> = Default::default(); // when closing started and ended
    let sent: Arc<Mutex<BTreeMap<u64, u64>>> = Default::default(); // successful publications
    let begun: Arc<Mutex<BTreeMap<u64, u64>>> = Default::default();
    let failed: Arc<Mutex<Vec<(u64, u64, String)>>> = Default::default();
    // Publishers.
    let mut pubs = vec![];
    for p in 0..u(&ch, "pubs").max(1) {
        let mine: Vec<(u64, Value)> = tasks.iter().enumerate().filter(|(_, t)| u(t, "p") % u(&ch, "pubs").max(1) == p).map(|(k, t)| (k as u64, t.clone())).collect();
        let (tx, id, sent, failed, begun) = (lk(&tx).clone().unwrap(), id.clone(), sent.clone(), failed.clone(), begun.clone());
        pubs.push(tokio::spawn(async move {
            for (k, t) in mine {
                sleep_us(u(&t, "d")).await;
                let t0 = rt::now(); lk(&begun).insert(k, t0);
                match tx.publish(&Task { routing_key: id.clone(), metadata: meta(j, k, u(&t, "meta")), op, input: El::one(k, mix(j, k)) }).await {
                    Ok(()) => { lk(&sent).insert(k, rt::now()); }
                    Err(e) => lk(&failed).push((k, rt::now(), format!("{e:#}"))),
                }
            }
        }));
    }
    // The one who closes.
    let kind = u(&ch, "close");
    let early = kind == 3;
    let close = { let (tx, closed, at) = (tx.clone(), closed.clone(), u(&ch, "at")); move |wait: bool| async move {
        if wait { sleep_us(at).await }
        let t = lk(&tx).take();
        let t0 = rt::now();
        if let Some(t) = t { lk(&closed).get_or_insert((t0, u64::MAX)); if kind != 1 { let _ = t.close().await; } drop(t); if let Some(c) = lk(&closed).as_mut() { c.1 = rt::now() } }
    } };
    let closer = if early { Some(tokio::spawn(close.clone()(true))) } else { None };
    let last = if kind < 2 { let c = close.clone(); Some(tokio::spawn(async move { for p in pubs.drain(..) { let _ = p.await; } c(false).await; })) } else { Some(tokio::spawn(async move { for p in pubs.drain(..) { let _ = p.await; } })) };
    // The receiver.
    let got: Arc<Mutex<Vec<(Meta, El)>>> = Default::default(); let acked = Arc::new(Mutex::new(0u64));
    let want_ok = |k: usize| !ignored(k);
    let all_ok = (0..tasks.len()).filter(|k| want_ok(*k)).count();
    let mut later = vec![]; let mut held = vec![];
    let ackmode = if (over || kind == 3) && u(&ch, "ack") == 3 { 1 } else { u(&ch, "ack") };
    let slow = u(&ch, "slow");
    let mut ended = false;
    let any_ignored = (0..tasks.len()).any(ignored);
    // With an ignored failure the channel stays open: reading goes on until nothing more comes.
    let patience = Duration::from_secs(if any_ignored { 600 } else { 14_400 });
    rt::waiting("results");
    loop {
        if kind == 2 && lk(&acked).clone() as usize == all_ok && later.is_empty() { close.clone()(true).await }
        if ackmode == 3 && lk(&got).len() == all_ok {
            // Nothing is acknowledged yet: the channel must not end.
            if all_ok > 0 { if let Ok(None) = tokio::time::timeout(Duration::from_secs(5), rx.next()).await { return bad("early", format!("the results ended although none of {all_ok} was acknowledged")) } }
            let hs: Vec<Box<dyn Acker>> = std::mem::take(&mut held);
            futures::future::join_all(hs.iter().map(|a| a.ack())).await;
            *lk(&acked) += hs.len() as u64;
            if kind == 2 { close.clone()(true).await }
        }
        let next = match tokio::time::timeout(patience, rx.next()).await { Ok(x) => x, Err(_) => break };
        let Some((res, acker)) = next else { ended = true; break };
        let x = match res { Ok(x) => x, Err(e) => return bad("error", format!("error result without any failure: {e:#}")) };
        slog!("channel {j}: result of {}", x.metadata.k); rt::ev(2, mix(j, x.metadata.k));
        lk(&got).push((x.metadata, x.output));
        match ackmode {
            0 => { if acker.ack().await.is_err() { return bad("error", "acknowledging a result failed".into()) } *lk(&acked) += 1; }
            1 => { sleep_us(slow).await; if acker.ack().await.is_err() { return bad("error", "acknowledging a result failed".into()) } *lk(&acked) += 1; }
            2 => { let acked = acked.clone(); let h = tokio::spawn(async move { sleep_us(slow).await; let _ = acker.ack().await; *lk(&acked) += 1; });
                if kind == 2 || over { let _ = h.await; } else { later.push(h) } }
            _ => held.push(acker),
        }
    }
    if let Some(h) = closer { let _ = h.await; }
    if let Some(h) = last { let _ = h.await; }
    for h in later { let _ = h.await; }
    let sent = lk(&sent).clone(); let got = lk(&got).clone(); let closed = *lk(&closed);
    for (k, t0, e) in lk(&failed).iter() { if !closed.is_some_and(|c| c.0 <= *t0) || kind < 2 { return bad("error", format!("publishing task {k} failed although the channel was open: {e}")) } }
    if let Some((k, _, _)) = closed.filter(|_| early).and_then(|c| lk(&begun).iter().find(|(k, t)| **t > c.1 && sent.contains_key(k)).map(|(k, t)| (*k, *t, c.1))) { return bad("closed", format!("task {k} was published after the channel had been closed")) }
    let mut n: BTreeMap<u64, u64> = BTreeMap::new();
    for (m, o) in &got {
        if m.chan != j { return bad("mixed", format!("received the result of task {} of channel {}", m.k, m.chan)) }
        let Some(t) = tasks.get(m.k as usize) else { return bad("metadata", format!("unknown metadata {m:?}")) };
        if *m != meta(j, m.k, u(t, "meta")) { return bad("metadata", format!("the result of task {} has other metadata than the task: {m:?}", m.k)) }
        if *o != map_ref(j as u32 + 1, 1, &El::one(m.k, mix(j, m.k))) { return bad("value", format!("wrong result of task {}: {o:?}", m.k)) }
        if !sent.contains_key(&m.k) && kind < 2 { return bad("value", format!("result of task {} which was not published", m.k)) }
        *n.entry(m.k).or_default() += 1;
    }
    if let Some((k, x)) = n.iter().find(|(_, x)| **x > 1) { return bad("duplicate", format!("{x} results of task {k}")) }
    let want: Vec<u64> = sent.keys().copied().filter(|k| !ignored(*k as usize)).collect();
    if let Some(k) = want.iter().find(|k| !n.contains_key(k)) { return bad("lost", format!("no result of task {k}: {} of {} results arrived and the results {}", n.len(), want.len(), if ended { "ended" } else { "did not end" })) }
    let open = sent.keys().any(|k| ignored(*k as usize));
    if !ended && !open { return bad("hang", format!("the results of a closed channel did not end within {} s after the last of {} was acknowledged", patience.as_secs(), n.len())) }
    if ended && open { return bad("early", "the results ended although a task was never answered".into()) }
    Ok(())
}

// ---- C27: retries ----
fn gen_c27(r: &mut Rng) -> Value {
    let strat = |r: &mut Rng| match r.below(3) { 0 => json!({"s": 0, "max": r.range(1, 6)}), 1 => json!({"s": 1, "max": r.range(1, 5), "ms": r.pick(&[0, 1, 40, 1_500, 60_000])}), _ => json!({"s": 2, "ms": r.pick(&[1, 20, 500, 2_000]), "max_ms": r.pick(&[0, 10, 300, 5_000, 60_000])}) };
    let runs: Vec<Value> = (0..r.range(1, 4)).map(|_| json!({"strat": strat(r), "at": us(r) / 20, "dur": if r.chance(1, 2) { us(r) / 100 } else { 0 }, "fails": r.below(8), "ends": r.pick(&[0, 0, 0, 1, 2]),
        // api: 0 RetryStrategy::retry, 1 ::retry_trace, 2 OperationError::retry, 3 ::retry_trace
        "api": r.below(4), "ignore": r.chance(1, 2), "first_fatal": r.chance(1, 8), "cancel": if r.chance(1, 5) { us(r) / 10 + 1 } else { 0 }})).collect();
    json!({"threads": r.below(4), "runs": runs})
}
fn strategy(v: &Value) -> RetryStrategy {
    let m = NonZeroU32::new(u(v, "max").max(1) as u32).unwrap();
    match u(v, "s") { 0 => RetryStrategy::Immediate { max_retries: m }, 1 => RetryStrategy::After { max_retries: m, duration: Duration::from_millis(u(v, "ms")) }, _ => RetryStrategy::Exponential { min_duration: Duration::from_millis(u(v, "ms").max(1)), max_duration: Duration::from_millis(u(v, "max_ms")) } }
}
fn run_c27(c: &Value) -> Outcome {
    let c = c.clone();
    block_on(u(&c, "threads"), async move {
        let hs: Vec<_> = arr(&c, "runs").iter().cloned().enumerate().map(|(i, x)| tokio::spawn(async move { sleep_us(u(&x, "at")).await; one_retry(i, x).await })).collect();
        let mut nontrivial = false;
        for h in hs { match h.await { Ok(Ok(x)) => nontrivial |= x, Ok(Err(o)) => return o, Err(e) => return Outcome::bad("panic", format!("{e}: {:?}", rt::PANICS.lock().unwrap().last())) } }
        Outcome { nontrivial, ..Outcome::ok() }
    })
}
/// The attempts of a retry: fail `fails` times, then succeed (or, for the operation errors, end with a fatal error).
async fn one_retry(i: usize, x: Value) -> Result<bool, Outcome> {
    let bad = |c: &str, m: String| Err(Outcome::bad(c, format!("retry {i} ({}): {m}", x)));
    let api = u(&x, "api"); let fails = u(&x, "fails"); let dur = u(&x, "dur"); let ends = u(&x, "ends");
    let fs = |ignore: bool| if ignore { FatalStrategy::Ignore } else { FatalStrategy::Terminate };
    let st = strategy(&x["strat"]);
    let att: Arc<Mutex<Vec<(u64, u64)>>> = Default::default();
    let traced: Arc<Mutex<Vec<u64>>> = Default::default();
    // What the last attempt says: 0 success, 1 fatal with the other fatal strategy, 2 never succeeds.
    let last = if ends == 2 { u64::MAX } else { fails };
    let begin = |att: &Mutex<Vec<(u64, u64)>>| { let mut a = lk(att); a.push((rt::now(), 0)); rt::ev(1, a.len() as u64); count("op_executed"); a.len() as u64 - 1 };
    let t0 = rt::now();
    // Errors: the number of the attempt.
    type R = Result<u64, (Option<u64>, Option<(FatalStrategy, bool)>)>;
    let work = { let (att, traced, x) = (att.clone(), traced.clone(), x.clone()); async move {
        let (a2, t2) = (att.clone(), traced.clone());
        let r: R = if api < 2 {
            let f = || async { let k = begin(&a2); sleep_us(dur).await; lk(&a2)[k as usize].1 = rt::now(); if k < last { count("op_failed_transient"); Err(k) } else { Ok(k) } };
            if api == 0 { st.retry(f).await } else { st.retry_trace(f, |e| lk(&t2).push(e)).await }.map_err(|e| (Some(e), None))
        } else {
            let num = |e: &OperationError| e.as_err().to_string().rsplit(' ').next().and_then(|n| n.parse::<u64>().ok());
            let f = || async {
                let k = begin(&a2); sleep_us(dur).await; lk(&a2)[k as usize].1 = rt::now();
                // Later attempts come with another strategy: the first error's one counts.
                if k < last { count("op_failed_transient"); Err(OperationError::from(TransientError::from_str(&format!("attempt {k}"), RetryStrategy::Immediate { max_retries: NonZeroU32::new(9).unwrap() }, fs(!b(&x, "ignore"))))) }
                else if ends == 1 { count("op_failed_fatal"); Err(FatalError::from_str(&format!("attempt {k}"), fs(!b(&x, "ignore"))).into()) }
                else { Ok(k) }
            };
            let first: OperationError = if b(&x, "first_fatal") { FatalError::from_str("first 77", fs(b(&x, "ignore"))).into() } else { TransientError::from_str("first 77", st, fs(b(&x, "ignore"))).into() };
            let r = if api == 2 { first.retry(f).await } else { first.retry_trace(f, |e| lk(&t2).push(num(&e).unwrap_or(999))).await };
            r.map_err(|e| (num(&e), Some((e.fatal_strategy(), matches!(e, OperationError::Fatal { .. })))))
        };
        r
    } };
    let cancel = u(&x, "cancel");
    let res = if cancel > 0 { tokio::time::timeout(Duration::from_micros(cancel), work).await.ok() } else { rt::waiting("a retry"); match timed("a retry", HANG, work).await { Ok(r) => Some(r), Err(o) => return Err(o) } };
    let t1 = rt::now();
    let Some(res) = res else {
        // Cancelled: no attempt is made afterwards.
        let n = lk(&att).len(); count("consumer_cancelled");
        tokio::time::sleep(Duration::from_secs(200)).await;
        if lk(&att).len() != n { return bad("cancelled", "an attempt was made after the retry had been dropped".into()) }
        return Ok(n > 0)
    };
    let a = lk(&att).clone(); let tr = lk(&traced).clone();
    let n = a.len() as u64;
    if api >= 2 && b(&x, "first_fatal") {
        if n > 0 { return bad("attempts", format!("{n} attempts although the error is fatal")) }
        return match res { Err((Some(77), Some((s, true)))) if matches!(s, FatalStrategy::Ignore) == b(&x, "ignore") => Ok(true), r => bad("result", format!("a fatal error came back as {r:?}")) };
    }
    let s = &x["strat"]; let kind = u(s, "s");
    // Attempts.
    if kind < 2 {
        let want = (u(s, "max").max(1) + 1).min(last.saturating_add(1));
        if n != want { return bad("attempts", format!("{n} attempts, expected {want}")) }
    } else {
        if last != u64::MAX && n > last + 1 { return bad("attempts", format!("{n} attempts although attempt {} succeeded", last + 1)) }
        if n == 0 { return bad("attempts", "no attempt".into()) }
        if n < last.saturating_add(1) {
            // It gave up: the next delay would have exceeded the maximum duration.
            let iv = (u(s, "ms").max(1) as f64 * 1.5f64.powi(n as i32 - 1)).min(60_000.0) * 1.5 * MS as f64;
            let el = a[n as usize - 1].1 - t0;
            if (el as f64) + iv + (S as f64) * 0.25 < u(s, "max_ms") as f64 * MS as f64 { return bad("gave up", format!("gave up after {n} attempts and {} ms", el / MS)) }
        } else if n > 1 && a[n as usize - 1].0 - t0 > u(s, "max_ms") * MS + dur * 1000 + 2 * S { return bad("attempts", format!("an attempt was started {} ms after the first one", (a[n as usize - 1].0 - t0) / MS)) }
    }
    // Delays.
    for (k, w) in a.windows(2).enumerate() {
        let gap = w[1].0 - w[0].1;
        let (lo, hi) = match kind { 0 => (0, 0), 1 => (u(s, "ms") * MS, u(s, "ms") * MS), _ => { let iv = (u(s, "ms").max(1) as f64 * 1.5f64.powi(k as i32)).min(60_000.0) * MS as f64; ((iv * 0.5) as u64, (iv * 1.5) as u64) } };
        if gap + MS < lo || gap > hi + S { return bad("delay", format!("{} us between attempts {} and {}", gap / 1000, k + 1, k + 2)) }
    }
    if t1 > a[n as usize - 1].1 + S { return bad("delay", format!("the result came {} ms after the last attempt", (t1 - a[n as usize - 1].1) / MS)) }
    // The result.
    let gave_up = n < last.saturating_add(1);
    let ok = match &res {
        Ok(k) => !gave_up && *k == last && !(api >= 2 && ends == 1),
        Err((e, None)) => gave_up && *e == Some(n - 1),
        // Exhausted: the message of the last attempt, the fatal strategy of the first error. Fatal: its own.
        Err((e, Some((f, fatal)))) => *e == Some(n - 1) && *fatal && if gave_up { matches!(f, FatalStrategy::Ignore) == b(&x, "ignore") } else { ends == 1 && matches!(f, FatalStrategy::Ignore) != b(&x, "ignore") },
    };
    if !ok { return bad("result", format!("{res:?} after {n} attempts")) }
    // The tracer sees every error that is followed by another attempt, in order.
    if api % 2 == 1 { let want: Vec<u64> = (0..n - 1).collect(); if tr != want { return bad("tracer", format!("the tracer saw {tr:?} of {n} attempts")) } }
    Ok(n > 1)
}

// ---- C28: the queues of an in-memory connection ----
fn gen_c28(r: &mut Rng) -> Value {
    let t = r.chance(1, 3);
    let mut d = |r: &mut Rng| if t { us(r) / 40 } else { 0 };
    let names = r.range(1, 3); let conns = r.range(1, 2);
    let acts: Vec<Value> = (0..r.range(2, 8)).map(|_| json!({"c": r.below(conns), "q": r.below(names), "at": d(r), "pub": r.chance(1, 2), "n": r.range(1, 4), "d": d(r), "os": r.chance(1, 3)})).collect();
    json!({"threads": r.below(4), "cbor": r.chance(1, 3), "acts": acts, "conns": conns, "names": names, "broadcast": (0..names).map(|_| r.chance(1, 3)).collect::<Vec<_>>(), "del": r.chance(1, 3), "del_at": d(r), "twice": r.chance(1, 3)})
}
fn run_c28(c: &Value) -> Outcome {
    let c = c.clone();
    block_on(u(&c, "threads"), async move {
        let conns: Vec<InMemoryConnection> = (0..u(&c, "conns").max(1)).map(|_| InMemoryConnection::new(if b(&c, "cbor") { Serializer::Cbor } else { Serializer::Postcard })).collect();
        let nq = u(&c, "names").max(1);
        let bc: Vec<bool> = (0..nq as usize).map(|q| c["broadcast"][q].as_bool().unwrap_or(false)).collect();
        let options = |q: usize| QueueOptions { delivery_mode: DeliveryMode::Ephemeral, syndication_mode: if bc[q] { SyndicationMode::Broadcast } else { SyndicationMode::ExactlyOnce }, durability: QueueDurability::NonDurable };
        type Got = Arc<Mutex<Vec<(u64, u64, usize, u64)>>>; // connection, queue, consumer, message
        let got: Got = Default::default();
        let sent: Arc<Mutex<Vec<(u64, u64, u64, u64)>>> = Default::default(); // connection, queue, message, when publishing started
        let subs: Arc<Mutex<Vec<(u64, u64, usize, u64)>>> = Default::default(); // connection, queue, consumer, declared at
        let n = conns.len() as u64;
        let mut hs = vec![];
        for (i, a) in arr(&c, "acts").iter().cloned().enumerate() {
            let (ci, q) = (u(&a, "c") % n, u(&a, "q") % nq);
            let conn = conns[ci as usize].clone(); let o = options(q as usize);
            let (got, sent, subs) = (got.clone(), sent.clone(), subs.clone());
            let consumer = { let (conn, a, got, subs) = (conn.clone(), a.clone(), got.clone(), subs.clone()); async move {
                sleep_us(u(&a, "at")).await;
                let Ok(h) = conn.declare_queue(&format!("q{q}"), o).await else { return };
                let Ok(mut k) = h.declare_consumer::<u64>(&format!("c{i}")).await else { return };
                lk(&subs).push((ci, q, i, rt::now()));
                while let Some((m, _)) = k.next().await { rt::ev(2, m); lk(&got).push((ci, q, i, m)) }
            } };
            let publisher = { let a = a.clone(); async move {
                sleep_us(u(&a, "at")).await;
                let Ok(h) = conn.declare_queue(&format!("q{q}"), o).await else { return };
                let p = h.publisher::<u64>();
                for k in 0..u(&a, "n") { sleep_us(u(&a, "d")).await; let m = i as u64 * 100 + k; let t = rt::now(); if p.publish(&m).await.is_ok() { rt::ev(1, m); lk(&sent).push((ci, q, m, t)) } }
            } };
            if b(&a, "pub") { hs.push(tokio::spawn(publisher)) } else { tokio::spawn(consumer); }
        }
        if b(&c, "del") {
            // Deleting another queue, on the same connection, affects nobody.
            let conn = conns[0].clone(); let at = u(&c, "del_at"); let twice = b(&c, "twice");
            hs.push(tokio::spawn(async move {
                for _ in 0..if twice { 2 } else { 1 } {
                    sleep_us(at).await;
                    let o = QueueOptions { delivery_mode: DeliveryMode::Persistent, syndication_mode: SyndicationMode::ExactlyOnce, durability: QueueDurability::NonDurable };
                    if let Ok(h) = conn.declare_queue("other", o).await { let _ = h.publisher::<u64>().publish(&1).await; }
                    let _ = conn.delete_queue("other").await;
                }
            }));
        }
        for h in hs { let _ = h.await; }
        // The deleted queue is gone, with what was in it: one of the same name is a new one.
        if b(&c, "del") {
            let o = QueueOptions { delivery_mode: DeliveryMode::Persistent, syndication_mode: SyndicationMode::ExactlyOnce, durability: QueueDurability::NonDurable };
            if let Ok(h) = conns[0].declare_queue("other", o).await { if let Ok(mut k) = h.declare_consumer::<u64>("x").await { if let Ok(Some(_)) = tokio::time::timeout(Duration::from_secs(1), k.next()).await { return Outcome::bad("deleted", "a message of a deleted queue was received from a new one of the same name") } } }
        }
        // Late consumers take what is left in the exactly-once queues.
        tokio::time::sleep(Duration::from_secs(5)).await;
        for ci in 0..n { for q in 0..nq { if !bc[q as usize] {
            let (conn, got, o) = (conns[ci as usize].clone(), got.clone(), options(q as usize));
            tokio::spawn(async move { if let Ok(h) = conn.declare_queue(&format!("q{q}"), o).await { if let Ok(mut k) = h.declare_consumer::<u64>("late").await { while let Some((m, _)) = k.next().await { lk(&got).push((ci, q, 999, m)) } } } });
        } } }
        tokio::time::sleep(Duration::from_secs(5)).await;
        let got = lk(&got).clone(); let sent = lk(&sent).clone(); let subs = lk(&subs).clone();
        for (ci, q, _, m) in &got {
            let Some(s) = sent.iter().find(|s| s.2 == *m) else { return Outcome::bad("value", format!("message {m} was received but never published")) };
            if s.0 != *ci { return Outcome::bad("mixed", format!("message {m} of connection {} was received on connection {ci}", s.0)) }
            if s.1 != *q { return Outcome::bad("mixed", format!("message {m} of queue q{} was received from queue q{q}", s.1)) }
        }
        for (ci, q, m, t) in &sent {
            let n = got.iter().filter(|g| g.3 == *m).count();
            if bc[*q as usize] {
                for s in subs.iter().filter(|s| s.0 == *ci && s.1 == *q && s.3 < *t) {
                    let n = got.iter().filter(|g| g.3 == *m && g.2 == s.2).count();
                    if n != 1 { return Outcome::bad(if n == 0 { "lost" } else { "duplicate" }, format!("consumer c{} received message {m} of broadcast queue q{q} {n} times", s.2)) }
                }
            } else if n != 1 { return Outcome::bad(if n == 0 { "lost" } else { "duplicate" }, format!("message {m} of queue q{q} was received {n} times, by handles declared under that name on one connection")) }
        }
        Outcome { nontrivial: !sent.is_empty(), ..Outcome::ok() }
    })
}

pub fn props() -> Vec<Prop> {
    let p = |id, gen, run, max_stall_ns, rule| Prop { id, gen, run, max_stall_ns, max_time_ns: 60_000_000_000_000, crash_group: 0, rule, real: BOTH, stubs: BOTH_STUBS };
    vec![
        p("C26", gen_c26, run_c26, 2_000_000_000, "1-3 task channels leased at the same time, 0-8 tasks each, published by 1-3 tasks, closed or dropped at any moment, results acknowledged at once, later, concurrently or at the end; workers with the default loop or, over AMQP, with a loop of their own that answers early or twice; non-trivial: at least one task"),
        p("C27", gen_c27, run_c27, 20_000_000, "1-4 concurrent retries through each entry point, with each strategy, 0-7 failures, a fatal error or success at the end, some of them cancelled; non-trivial: at least one attempt was repeated"),
        p("C28", gen_c28, run_c28, 50_000_000, "2-8 publishers and consumers that declare 1-3 queues by name on 1-2 connections at the same time, while another queue is deleted; non-trivial: at least one message"),
    ]
}
