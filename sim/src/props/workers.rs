//! C07, C08: abort commands and the workers' reaction, on the in-memory runtime.
use super::directives::us;
use crate::driver::Prop;
use crate::ops::*;
use crate::rt::{self, Outcome, Rng};
use crate::world::*;
use futures::StreamExt;
use paladin::queue::Publisher;
use paladin::runtime::{CommandIpc, Runtime, COMMAND_IPC_ABORT_ALL_KEY};
use paladin::task::Task;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use std::time::Duration;

const S: u64 = 1_000_000_000;
async fn command(r: &Runtime, key: &str) -> anyhow::Result<()> {
    rt::count("aborts_sent");
    slog!("abort command for {key}");
    let s = r.get_command_ipc_sender().await?;
    s.publish(&CommandIpc::Abort { routing_key: key.to_string() }).await
}

// ---- C07 ----
fn gen_c07(r: &mut Rng) -> Value {
    let w = r.range(1, 4);
    if r.chance(1, 3) { return super::more::gen_c07_amqp(r) }
    json!({"threads": r.below(4), "workers": w, "cause": r.pick(&[0, 0, 0, 1, 1, 2]), "busy": r.below(w + 1), "quick": r.below(5), "wait": us(r) / 2,
        "pre": r.below(3), "post": r.below(3), "again": r.chance(1, 4), "gap": r.pick(&[0, 1000, 300_000, 2_000_000]), "later": r.pick(&[0, 10_000, 3_000_000, 16_000_000, 90_000_000]), "between": r.pick(&[0, 0, 50, 20_000])})
}
fn run_c07(c: &Value) -> Outcome {
    if b(c, "dist") { return super::more::run_c07_amqp(c) }
    let c = c.clone();
    let w = u(&c, "workers").max(1); let busy = u(&c, "busy").min(w); let quick = u(&c, "quick"); let cause = u(&c, "cause");
    // Keys: 0..busy run until the abort signal, then quick ones, then the failing one, then those submitted after the abort.
    let fail_key = 1000u64;
    with_script(|s| {
        for k in 0..busy { s.acts.insert((1, 1, k), vec![Act::UntilAbort { ms: if cause == 2 { 3_000 } else { 40_000 }, tail_ms: 0 }]); }
        s.acts.insert((1, 1, fail_key), vec![Act::Fatal { ignore: false }]);
    });
    block_on(u(&c, "threads"), async move {
        let alive = || tokio::runtime::Handle::current().metrics().num_alive_tasks();
        let base = alive();
        let r = match in_memory(w, false, None).await { Ok(r) => r, Err(e) => return Outcome::bad("harness", format!("{e}")) };
        // Let every worker subscribe to commands first.
        tokio::time::sleep(Duration::from_secs(100)).await;
        let op: &'static MapOp = Box::leak(Box::new(MapOp { job: 1, stage: 1 }));
        let (id, tx, mut rx) = match r.lease_coordinated_task_channel::<MapOp, u64>().await { Ok(x) => x, Err(e) => return Outcome::bad("harness", format!("{e}")) };
        let results = Arc::new(Mutex::new(vec![]));
        let reader = tokio::spawn({ let results = results.clone(); async move { while let Some((x, a)) = rx.next().await { let _ = a.ack().await; results.lock().unwrap().push(x.map(|o| o.metadata).map_err(|e| format!("{e:#}"))); } } });
        let send = |k: u64| { let (id, tx) = (id.clone(), &tx); async move { let _ = tx.publish(&Task { routing_key: id, metadata: k, op, input: El::one(k, k) }).await; } };
        for k in 0..busy { send(k).await }
        tokio::time::sleep(Duration::from_secs(1)).await;
        for k in 0..quick { send(100 + k).await; sleep_us(u(&c, "gap") / 10).await }
        sleep_us(u(&c, "wait")).await;
        for k in 0..u(&c, "pre") { let _ = command(&r, &format!("other-{k}")).await; sleep_us(u(&c, "between")).await }
        let mut t = rt::now();
        match cause {
            0 => { if command(&r, COMMAND_IPC_ABORT_ALL_KEY).await.is_err() { return Outcome::bad("error", "publishing the abort command failed") } }
            1 => {
                send(fail_key).await;
                // With every worker busy the failing task has to wait.
                let end = rt::now() + 100 * S;
                while rt::now() < end && !execs().iter().any(|x| x.key == fail_key && x.done) { tokio::time::sleep(Duration::from_millis(20)).await }
                match execs().iter().find(|x| x.key == fail_key && x.done) { Some(x) => t = x.end, None => return Outcome::bad("lost", "the failing task was not executed within 100 s") }
            }
            _ => {}
        }
        for k in 0..u(&c, "post") { sleep_us(u(&c, "between")).await; let _ = command(&r, &format!("other-{}", 10 + k)).await; }
        if b(&c, "again") && cause != 2 { let _ = command(&r, COMMAND_IPC_ABORT_ALL_KEY).await; }
        // Tasks submitted after the command.
        let at = rt::now() + u(&c, "later") * 1000;
        if cause != 2 {
            tokio::time::sleep(Duration::from_secs(14)).await;
            if busy == w && cause == 0 && alive() > base + 1 { return Outcome::bad("grace", format!("{} background tasks are alive 14 s after the abort command although every worker was executing a task", alive() - base - 1)) }
        }
        while rt::now() < at { tokio::time::sleep(Duration::from_millis(100)).await }
        let m = 4 * w;
        // A worker skips the tasks of a job that failed on it: these belong to another one.
        let op2: &'static MapOp = Box::leak(Box::new(MapOp { job: 2, stage: 1 }));
        let (id2, tx2, mut rx2) = match r.lease_coordinated_task_channel::<MapOp, u64>().await { Ok(x) => x, Err(e) => return Outcome::bad("harness", format!("{e}")) };
        let reader2 = tokio::spawn({ let results = results.clone(); async move { while let Some((x, a)) = rx2.next().await { let _ = a.ack().await; results.lock().unwrap().push(x.map(|o| o.metadata).map_err(|e| format!("{e:#}"))); } } });
        for k in 2000..2000 + m {
            let _ = tx2.publish(&Task { routing_key: id2.clone(), metadata: k, op: op2, input: El::one(k, k) }).await;
            sleep_us(u(&c, "gap")).await
        }
        tokio::time::sleep(Duration::from_secs(60)).await;
        let ex = execs();
        if cause == 2 {
            for x in &ex { if x.abort_at_start || x.saw_abort.is_some() { return Outcome::bad("signal", format!("task {} saw the abort signal although nobody aborted its worker", x.key)) } }
            let done = results.lock().unwrap().iter().filter(|x| x.is_ok()).count() as u64;
            if done != busy + quick + m { return Outcome::bad("lost", format!("{done} results for {} tasks although no worker was aborted", busy + quick + m)) }
            reader.abort(); reader2.abort();
            return Outcome { nontrivial: u(&c, "pre") + u(&c, "post") > 0, ..Outcome::ok() }
        }
        for x in &ex { if x.start < t && x.abort_at_start { return Outcome::bad("signal", format!("task {} saw the abort signal before the command", x.key)) } }
        for x in ex.iter().filter(|x| x.key < busy && x.start + S / 10 < t && x.start + 30 * S > t) {
            match x.saw_abort {
                None => return Outcome::bad("signal", format!("task {} was executing when the abort command was sent and never saw the abort signal", x.key)),
                Some(s) if s < t => return Outcome::bad("signal", format!("task {} saw the abort signal before the command", x.key)),
                Some(s) if s > t + 3 * S => return Outcome::bad("signal", format!("task {} saw the abort signal {} ms after the command", x.key, (s - t) / 1_000_000)),
                _ => {}
            }
        }
        // A worker that is idle when it is told to stop does so at its next task, which it may start.
        let late: Vec<_> = ex.iter().filter(|x| x.start > t + 3 * S).collect();
        if late.len() as u64 > w { return Outcome::bad("continues", format!("{} tasks were started after all {w} workers had been told to abort", late.len())) }
        reader.abort(); reader2.abort();
        tokio::time::sleep(Duration::from_secs(30)).await;
        if alive() > base { return Outcome::bad("grace", format!("{} background tasks of aborted workers are alive after each of them was offered a task", alive() - base)) }
        Outcome::ok()
    })
}

// ---- C08 ----
fn gen_c08(r: &mut Rng) -> Value {
    json!({"threads": r.below(4), "workers": r.range(1, 4), "jobs": r.range(1, 3), "victims": r.range(1, 2), "dur": r.pick(&[0, 1000, 30_000]), "long": r.pick(&[0, 0, 1_500_000, 4_000_000]), "before": r.range(0, 3), "during": r.range(1, 4), "after": r.range(1, 3),
        "offs": (0..6).map(|_| r.below(38_000_000)).collect::<Vec<_>>(), "other_fails": r.chance(1, 6), "unknown": r.chance(1, 3), "amqp": super::amqp::maybe_amqp(r, 8), "bus": r.chance(1, 4)})
}
fn run_c08(c: &Value) -> Outcome {
    let c = c.clone();
    let jobs = u(&c, "jobs").max(1) as u32 + 1; let victims = u(&c, "victims").clamp(1, jobs as u64 - 1) as u32;
    let (before, during, after) = (u(&c, "before"), u(&c, "during").max(1), u(&c, "after").max(1));
    with_script(|s| for j in 0..jobs {
        s.default_dur_us.insert(j, u(&c, "dur"));
        for k in 0..before { s.durs.insert((j, 1, k), u(&c, "long")); }
        if b(&c, "other_fails") { s.acts.insert((j, 1, 100), vec![Act::Fatal { ignore: true }]); }
    });
    block_on(u(&c, "threads"), async move {
        let r = match super::amqp::runtime(&c, u(&c, "workers")).await { Ok(r) => r, Err(e) => return Outcome::bad("harness", format!("{e}")) };
        tokio::time::sleep(Duration::from_secs(100)).await;
        let mut chans = vec![]; let results = Arc::new(Mutex::new(vec![]));
        for j in 0..jobs {
            let op: &'static MapOp = Box::leak(Box::new(MapOp { job: j, stage: 1 }));
            let (id, tx, mut rx) = match r.lease_coordinated_task_channel::<MapOp, u64>().await { Ok(x) => x, Err(e) => return Outcome::bad("harness", format!("{e}")) };
            let results = results.clone();
            tokio::spawn(async move { while let Some((x, a)) = rx.next().await { let _ = a.ack().await; if let Ok(o) = x { results.lock().unwrap().push((j, o.metadata)); } } });
            chans.push((id, tx, op));
        }
        let send = |j: u32, k: u64| { let (id, tx, op) = &chans[j as usize]; let id = id.clone(); async move { let _ = tx.publish(&Task { routing_key: id, metadata: k, op, input: El::one(k, k) }).await; } };
        for k in 0..before { for j in 0..jobs { send(j, k).await } }
        // Everything sent before the command has been received once this much time has passed only if it is being executed by then.
        tokio::time::sleep(Duration::from_millis(500)).await;
        if b(&c, "unknown") { let _ = command(&r, "nobody").await; }
        for j in 0..victims { let _ = command(&r, &chans[j as usize].0).await; }
        let t = rt::now();
        let started_before: Vec<(u32, u64)> = execs().iter().map(|x| (x.job, x.key)).collect();
        tokio::time::sleep(Duration::from_secs(3)).await;
        let t_marked = rt::now();
        let mut offs: Vec<u64> = arr(&c, "offs").iter().map(|v| v.as_u64().unwrap_or(0)).collect(); offs.sort();
        offs.truncate(during as usize);
        for (k, o) in offs.iter().enumerate() {
            let at = t + 3 * S + o * 1000; while rt::now() < at { tokio::time::sleep(Duration::from_millis(200)).await }
            for j in 0..jobs { send(j, 100 + k as u64).await }
        }
        let nd = offs.len() as u64;
        while rt::now() < t + 130 * S { tokio::time::sleep(Duration::from_secs(1)).await }
        {
            let res = results.lock().unwrap();
            for j in victims..jobs { for k in (0..before).chain(100..100 + nd) { if !(b(&c, "other_fails") && k == 100) && !res.contains(&(j, k)) { return Outcome::bad("lost", format!("task {k} of job {j}, which was not aborted, has no result")) } } }
            for x in execs().iter().filter(|x| x.job < victims && x.start > t_marked) { return Outcome::bad("executed", format!("task {} of the aborted job {} was executed {} ms after the abort command", x.key, x.job, (x.start - t) / 1_000_000)) }
            for (j, k) in started_before.iter().filter(|x| x.0 < victims) { if !res.contains(&(*j, *k)) { return Outcome::bad("interrupted", format!("task {k} of job {j} was being executed when its job was aborted and has no result")) } }
        }
        for k in 0..after { for j in 0..jobs { send(j, 200 + k).await } }
        tokio::time::sleep(Duration::from_secs(100)).await;
        let res = results.lock().unwrap();
        for j in 0..jobs { for k in 200..200 + after { if !res.contains(&(j, k)) { return Outcome::bad("blocked", format!("task {k} of job {j}, submitted 130 s after the abort command, has no result")) } } }
        let mut n = std::collections::BTreeMap::new();
        for x in execs() {
            *n.entry((x.job, x.key)).or_insert(0) += 1;
            if x.abort_at_start || x.saw_abort.is_some() { return Outcome::bad("signal", format!("task {} of job {} saw the abort signal although only a job was aborted", x.key, x.job)) }
        }
        if let Some((k, v)) = n.iter().find(|(_, v)| **v > 1) { return Outcome::bad("executions", format!("task {} of job {} was executed {v} times", k.1, k.0)) }
        Outcome::ok()
    })
}

pub fn props() -> Vec<Prop> {
    let p = |id, gen, run, rule| Prop { id, gen, run, max_stall_ns: 50_000_000, max_time_ns: 60_000_000_000_000, crash_group: 0, rule, real: super::directives::BOTH, stubs: super::directives::BOTH_STUBS };
    vec![
        p("C07", gen_c07, run_c07, "1-4 workers (in memory, or processes over AMQP), 0-4 of them executing a task when an abort-all command arrives (from the leader or from a failing task) among other commands; non-trivial: an abort was sent"),
        p("C08", gen_c08, run_c08, "2-4 concurrent jobs of which 1-2 are aborted, tasks submitted before, during the 60 s after and 130 s after the command; every run is non-trivial"),
    ]
}
