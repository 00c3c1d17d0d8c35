//! C01-C06, C19: directives on the in-memory runtime.
use super::amqp::{maybe_amqp, runtime};
use crate::driver::Prop;
use crate::ops::*;
use crate::rt::{self, Outcome, Rng};
use crate::world::*;
use futures::StreamExt;
use paladin::directive::indexed_stream::{from_into_iterator, try_from_into_iterator};
use paladin::directive::{Directive, IndexedStream, Literal};
use paladin::runtime::Runtime;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub const REAL: &str = "paladin (all of it, unmodified), paladin-opkind-derive, tokio (scheduler, blocking pool, timers, sync), futures, dashmap, crossbeam, postcard/ciborium";
pub const STUBS: &str = "operating system: thread scheduler, futexes, clocks, sleep, epoll waits and randomness are simulated; operations are scripted";
pub const BOTH: &str = "paladin (all of it, unmodified), paladin-opkind-derive, tokio (scheduler, blocking pool, timers, sync), futures, dashmap, crossbeam, postcard/ciborium; in the runs over AMQP also lapin with its protocol codec, I/O loop and reactor";
pub const BOTH_STUBS: &str = "operating system: thread scheduler, futexes, clocks, sleep, epoll and poll waits and randomness are simulated; in the runs over AMQP the network and the AMQP broker are simulated; operations are scripted; leader and workers share one address space";

pub fn us(r: &mut Rng) -> u64 { match r.below(10) { 0..=4 => 0, 5 => r.below(50), 6 => r.below(2_000), 7 => 1_000 * r.below(30), 8 => r.below(400_000), _ => 1_000_000 * r.below(40) } }
pub fn len(r: &mut Rng) -> u64 { match r.below(10) { 0 => 0, 1 => 1, 2..=5 => r.range(2, 6), 6..=8 => r.range(7, 14), _ => r.range(15, 40) } }

fn gen_c01(r: &mut Rng) -> Value {
    let slow = r.chance(1, 2); let slowop = r.chance(1, 2);
    let items: Vec<Value> = (0..len(r)).map(|_| json!({"d": if slow { us(r) } else { 0 }, "dur": if slowop { us(r) } else { 0 }, "v": r.below(1000)})).collect();
    json!({"threads": r.below(4), "workers": r.range(1, 5), "cbor": r.chance(1, 3), "items": items, "end": if r.chance(1, 2) { us(r) } else { 0 }, "shuffle": r.chance(1, 4), "sorted": r.chance(1, 4), "slow_reader": if r.chance(1, 4) { us(r) } else { 0 }, "window": if r.chance(1, 4) { r.range(1, 5) } else { 0 }, "ctor": r.below(4), "amqp": maybe_amqp(r, 10), "bus": r.chance(1, 4)})
}
fn run_c01(c: &Value) -> Outcome {
    let c = c.clone();
    let items = arr(&c, "items").to_vec();
    with_script(|s| for (i, it) in items.iter().enumerate() { s.durs.insert((1, 1, i as u64), u(it, "dur")); });
    block_on(u(&c, "threads"), async move {
        let r = match runtime(&c, u(&c, "workers")).await { Ok(r) => r, Err(e) => return Outcome::bad("harness", format!("{e}")) };
        let n = items.len();
        let mut input: Vec<_> = items.iter().enumerate().map(|(i, it)| (u(it, "d"), Ok((i, El::one(i as u64, u(it, "v")))))).collect();
        if b(&c, "shuffle") { for i in (1..input.len()).rev() { let j = (mix(i as u64, 77) % (i as u64 + 1)) as usize; input.swap(i, j) } }
        let want: Vec<El> = items.iter().enumerate().map(|(i, it)| map_ref(1, 1, &El::one(i as u64, u(it, "v")))).collect();
        let op = MapOp { job: 1, stage: 1 };
        rt::count("directives");
        // With a window the input goes on only as results come out of the stream.
        let gate = Arc::new(tokio::sync::Semaphore::new(u(&c, "window") as usize));
        let src = if b(&c, "sorted") || u(&c, "window") == 0 { source(&c, input) } else {
            let gate = gate.clone();
            IndexedStream::new(slow_stream(input, u(&c, "end")).then(move |x| { let gate = gate.clone(); async move { if let Ok(p) = gate.acquire().await { p.forget() } x } }))
        };
        let dir = Directive::map(src, &op);
        let fut = async {
            let mut st = dir.run(&r).await?;
            if b(&c, "sorted") { let v: Vec<El> = st.into_values_sorted().await?.into_iter().collect(); return Ok::<_, anyhow::Error>(v.into_iter().enumerate().collect::<Vec<_>>()) }
            let mut got = vec![];
            while let Some(x) = st.next().await { let x = x?; rt::ev(2, x.0 as u64); slog!("item {}", x.0); got.push(x); gate.add_permits(1); sleep_us(u(&c, "slow_reader")).await }
            Ok(got)
        };
        let mut got = match timed("map output stream", HANG, fut).await { Ok(Ok(g)) => g, Ok(Err(e)) => return Outcome::bad("error", format!("map failed without any fault: {e:#}")), Err(o) => return o };
        if got.len() != n { return Outcome::bad("count", format!("{} results for {} inputs", got.len(), n)) }
        got.sort_by_key(|g| g.0);
        for (i, (idx, e)) in got.iter().enumerate() {
            if *idx != i { return Outcome::bad("index", format!("indices delivered: {:?}", got.iter().map(|g| g.0).collect::<Vec<_>>())) }
            if *e != want[i] { return Outcome::bad("value", format!("wrong value at index {i}: {e:?}, expected {:?}", want[i])) }
        }
        let mut per = vec![0; n];
        for x in execs() { per[x.key as usize] += 1 }
        if let Some(i) = per.iter().position(|p| *p != 1) { return Outcome::bad("executions", format!("element {i} was executed {} times", per[i])) }
        Outcome { nontrivial: n > 0, ..Outcome::ok() }
    })
}


/// An input without pauses in index order may come from one of the crate's own constructors.
fn source(c: &Value, input: Vec<(u64, anyhow::Result<(usize, El)>)>) -> IndexedStream<'static, El> {
    let plain = u(c, "end") == 0 && input.iter().enumerate().all(|(i, x)| x.0 == 0 && x.1.as_ref().map_or(true, |x| x.0 == i));
    match u(c, "ctor") {
        1 if plain && input.iter().all(|x| x.1.is_ok()) => from_into_iterator(input.into_iter().map(|x| x.1.map(|x| x.1).unwrap_or_default())),
        2 if plain && input.iter().all(|x| x.1.is_ok()) => IndexedStream::from(input.into_iter().map(|x| x.1.map(|x| x.1).unwrap_or_default()).collect::<Vec<_>>()),
        3 if plain => try_from_into_iterator(input.into_iter().map(|x| x.1.map(|x| x.1)).collect::<Vec<_>>()),
        _ => IndexedStream::new(slow_stream(input, u(c, "end"))),
    }
}

// ---- C02: fold ----
fn gen_c02(r: &mut Rng) -> Value {
    let slow = r.chance(1, 2); let slowop = r.chance(1, 2);
    let n = match r.below(8) { 0 => 0, 1 => 1, 2 => 2, 3..=5 => r.range(3, 8), _ => r.range(9, 24) };
    let items: Vec<Value> = (0..n).map(|_| json!({"d": if slow { us(r) } else { 0 }, "dur": if slowop { us(r) } else { 0 }, "v": r.below(1000)})).collect();
    json!({"threads": r.below(4), "workers": r.range(1, 5), "cbor": r.chance(1, 3), "items": items, "end": if r.chance(1, 2) { us(r) } else { 0 }, "order": r.pick(&[0, 0, 1, 2]), "oseed": r.below(1000), "offset": if r.chance(1, 5) { r.range(1, 50) } else { 0 }, "amqp": maybe_amqp(r, 10), "bus": r.chance(1, 4)})
}
/// Arrival order: 0 in order, 1 reversed, 2 shuffled.
fn arrange<T>(v: &mut [T], order: u64, seed: u64) {
    match order { 1 => v.reverse(), 2 => for i in (1..v.len()).rev() { let j = (mix(i as u64, seed) % (i as u64 + 1)) as usize; v.swap(i, j) }, _ => {} }
}
fn cat_ref(job: u32, els: &[El]) -> El {
    if els.is_empty() { return El { lo: 1, hi: 0, items: vec![0xE0 + job as u64], poison: Poison(0) } }
    El { lo: els[0].lo, hi: els[els.len() - 1].hi, items: els.iter().flat_map(|e| e.items.clone()).collect(), poison: Poison(0) }
}
fn run_c02(c: &Value) -> Outcome {
    let c = c.clone();
    let items = arr(&c, "items").to_vec();
    with_script(|s| for (i, it) in items.iter().enumerate() { s.durs.insert((1, 1, i as u64), u(it, "dur")); });
    block_on(u(&c, "threads"), async move {
        let r = match runtime(&c, u(&c, "workers")).await { Ok(r) => r, Err(e) => return Outcome::bad("harness", format!("{e}")) };
        let els: Vec<El> = items.iter().enumerate().map(|(i, it)| El::one(i as u64, u(it, "v"))).collect();
        let off = u(&c, "offset") as usize;
        let mut input: Vec<_> = els.iter().enumerate().map(|(i, e)| (u(&items[i], "d"), Ok((i + off, e.clone())))).collect();
        arrange(&mut input, u(&c, "order"), u(&c, "oseed"));
        let op = CatOp { job: 1, stage: 1 };
        rt::count("directives");
        let fut = Directive::fold(IndexedStream::new(slow_stream(input, u(&c, "end"))), &op).run(&r);
        let got = match timed("fold result", HANG, fut).await { Ok(Ok(g)) => g, Ok(Err(e)) => return Outcome::bad("error", format!("fold failed without any fault: {e:#}")), Err(o) => return o };
        let want = cat_ref(1, &els);
        if got != want { return Outcome::bad("value", format!("fold returned {got:?}, expected {want:?}")) }
        if let Err(o) = fold_execs(1, 1, els.len()) { return o }
        Outcome { nontrivial: els.len() > 1, ..Outcome::ok() }
    })
}
/// Exactly one execution per boundary between neighbours, all over adjacent ranges.
fn fold_execs(job: u32, stage: u32, n: usize) -> Result<(), Outcome> {
    let mut per = vec![0; n.max(1)];
    for x in execs().iter().filter(|x| x.job == job && x.stage == stage) { per[x.key as usize] += 1 }
    if let Some(bad) = with_script(|s| s.bad.first().cloned()) { return Err(Outcome::bad("adjacency", bad)) }
    for (i, p) in per.iter().enumerate() { let w = if i + 1 < n { 1 } else { 0 }; if *p != w { return Err(Outcome::bad("executions", format!("boundary {i} combined {p} times, expected {w}"))) } }
    Ok(())
}

// ---- C03: chains and concurrency ----
fn gen_c03(r: &mut Rng) -> Value {
    let k = r.range(2, 5);
    let jobs: Vec<Value> = (0..k).map(|_| json!({"kind": r.below(8), "n": match r.below(4) { 0 => r.below(3), _ => r.range(2, 10) }, "start": if r.chance(1, 2) { us(r) } else { 0 }, "gap": if r.chance(1, 3) { us(r) / 8 } else { 0 }, "dur": if r.chance(1, 2) { us(r) / 8 } else { 0 }, "order": r.pick(&[0, 0, 2])})).collect();
    json!({"threads": r.below(4), "workers": r.range(1, 4), "cbor": r.chance(1, 3), "jobs": jobs, "sequential": r.chance(1, 6), "leaders": r.pick(&[1, 2, 2, 3]), "buses": r.chance(1, 2), "amqp": maybe_amqp(r, 10), "bus": r.chance(1, 4)})
}
/// Runs one job (a chain of directives) and compares its result with the composition of its stages.
pub async fn run_job(r: &Runtime, job: u32, j: &Value) -> Outcome {
    let n = u(j, "n") as usize;
    sleep_us(u(j, "start")).await;
    rt::count("directives");
    let els: Vec<El> = (0..n).map(|i| El::one(i as u64, mix(job as u64, i as u64) % 1000)).collect();
    let mut input: Vec<_> = els.iter().enumerate().map(|(i, e)| (u(j, "gap"), Ok((i, e.clone())))).collect();
    arrange(&mut input, u(j, "order"), job as u64);
    let src = IndexedStream::new(slow_stream(input, u(j, "gap")));
    let (m1, m2, m3, cat, len) = (MapOp { job, stage: 1 }, MapOp { job, stage: 2 }, MapOp { job, stage: 3 }, CatOp { job, stage: 9 }, LenOp { job, stage: 4 });
    let m = |st: u32, v: &[El]| -> Vec<El> { v.iter().map(|e| map_ref(job, st, e)).collect() };
    let errs = |e: anyhow::Error| Outcome::bad("error", format!("job {job} failed without any fault: {e:#}"));
    async fn collect<T>(st: anyhow::Result<IndexedStream<'_, T>>) -> anyhow::Result<Vec<(usize, T)>> {
        let mut st = st?; let mut v = vec![];
        while let Some(x) = st.next().await { let x = x?; rt::ev(3, x.0 as u64); v.push(x); }
        v.sort_by_key(|x| x.0);
        Ok(v)
    }
    fn same<T: PartialEq + std::fmt::Debug>(job: u32, got: Vec<(usize, T)>, want: Vec<T>) -> Outcome {
        let want: Vec<(usize, T)> = want.into_iter().enumerate().collect();
        if got != want { Outcome::bad("value", format!("job {job} returned {got:?}, expected {want:?}")) } else { Outcome::ok() }
    }
    let o = match u(j, "kind") {
        0 => match collect(Directive::map(src, &m1).run(r).await).await { Ok(g) => same(job, g, m(1, &els)), Err(e) => errs(e) },
        1 => match collect(Directive::map(Directive::map(src, &m1), &m2).run(r).await).await { Ok(g) => same(job, g, m(2, &m(1, &els))), Err(e) => errs(e) },
        2 => match Directive::fold(src, &cat).run(r).await { Ok(g) => same(job, vec![(0, g)], vec![cat_ref(job, &els)]), Err(e) => errs(e) },
        3 => match Directive::fold(Directive::map(src, &m1), &cat).run(r).await { Ok(g) => same(job, vec![(0, g)], vec![cat_ref(job, &m(1, &els))]), Err(e) => errs(e) },
        4 => match Directive::map(Literal(El::one(0, job as u64)), &m1).run(r).await { Ok(g) => same(job, vec![(0, g.0)], m(1, &[El::one(0, job as u64)])), Err(e) => errs(e) },
        5 => match collect(Directive::map(src, &len).run(r).await).await { Ok(g) => same(job, g, els.iter().map(len_ref).collect()), Err(e) => errs(e) },
        6 => match Directive::fold(Directive::map(Directive::map(src, &m1), &m3), &cat).run(r).await { Ok(g) => same(job, vec![(0, g)], vec![cat_ref(job, &m(3, &m(1, &els)))]), Err(e) => errs(e) },
        _ => match Directive::map(Directive::map(Literal(El::one(0, job as u64)), &m1), &len).run(r).await { Ok(g) => same(job, vec![(0, g.0)], vec![len_ref(&map_ref(job, 1, &El::one(0, job as u64)))]), Err(e) => errs(e) },
    };
    slog!("job {job} done");
    o
}
/// Every (job, stage, key) was executed exactly once.
fn once_each() -> Outcome {
    let mut m = std::collections::BTreeMap::new();
    for x in execs() { *m.entry((x.job, x.stage, x.key)).or_insert(0) += 1 }
    for (k, v) in m { if v != 1 { return Outcome::bad("executions", format!("job {} stage {} element {} executed {v} times", k.0, k.1, k.2)) } }
    Outcome::ok()
}
fn run_c03(c: &Value) -> Outcome {
    let c = c.clone();
    let jobs = arr(&c, "jobs").to_vec();
    with_script(|s| for (k, j) in jobs.iter().enumerate() { s.default_dur_us.insert(k as u32 + 1, u(j, "dur")); });
    // Over AMQP: several leaders, each a process of its own, share one broker, on one task bus or on one each.
    let nl = if c["amqp"].is_null() { 1 } else { u(&c, "leaders").clamp(1, 3) as usize };
    if nl > 1 { return run_c03_leaders(&c, nl) }
    block_on(u(&c, "threads"), async move {
        let r = match runtime(&c, u(&c, "workers")).await { Ok(r) => Arc::new(r), Err(e) => return Outcome::bad("harness", format!("{e}")) };
        if b(&c, "sequential") {
            for (k, j) in jobs.iter().enumerate() { match timed(&format!("job {}", k + 1), HANG, run_job(&r, k as u32 + 1, j)).await { Ok(o) if o.class.is_empty() => {}, Ok(o) | Err(o) => return o } }
            return once_each()
        }
        let hs: Vec<_> = jobs.into_iter().enumerate().map(|(k, j)| { let r = r.clone(); tokio::spawn(async move { run_job(&r, k as u32 + 1, &j).await }) }).collect();
        for (k, h) in hs.into_iter().enumerate() {
            match timed(&format!("result of concurrent job {}", k + 1), HANG, h).await {
                Ok(Ok(o)) => if !o.class.is_empty() { return o },
                Ok(Err(e)) => return Outcome::bad("panic", format!("job {} panicked: {e}", k + 1)),
                Err(o) => return o,
            }
        }
        once_each()
    })
}
fn run_c03_leaders(c: &Value, nl: usize) -> Outcome {
    let jobs = arr(c, "jobs").to_vec();
    let sep = b(c, "buses");
    let buses: Vec<Option<String>> = if sep { (0..nl).map(|i| (i > 0).then(|| format!("bus-{i}"))).collect() } else { vec![None] };
    std::mem::forget(super::amqp::cluster(c, if sep { 1 + u(c, "workers") / 2 } else { u(c, "workers") }, b(c, "cbor"), &buses));
    let bus_of = |job: u32| (job as usize - 1) % nl;
    let res: Arc<Mutex<std::collections::BTreeMap<u32, Outcome>>> = Default::default();
    for l in 0..nl {
        let (res, bus, cbor) = (res.clone(), buses[if sep { l } else { 0 }].clone(), b(c, "cbor"));
        let mine: Vec<(u32, Value)> = jobs.iter().enumerate().map(|(k, j)| (k as u32 + 1, j.clone())).filter(|(k, _)| bus_of(*k) == l).collect();
        super::amqp::process(1 + l as i32, u(c, "threads"), async move {
            let done = |k: u32, o: Outcome| { res.lock().unwrap_or_else(|e| e.into_inner()).insert(k, o); };
            let r: &'static Runtime = match super::amqp::leader_on(cbor, bus).await { Ok(r) => Box::leak(Box::new(r)), Err(e) => { for (k, _) in &mine { done(*k, Outcome::bad("harness", format!("{e}"))) } return } };
            let hs: Vec<_> = mine.into_iter().map(|(k, j)| (k, tokio::spawn(async move { run_job(r, k, &j).await }))).collect();
            for (k, h) in hs { done(k, h.await.unwrap_or_else(|e| Outcome::bad("panic", format!("job {k} panicked: {e}")))) }
        });
    }
    for k in 1..=jobs.len() as u32 {
        let what = format!("result of concurrent job {k} of leader {}", 1 + bus_of(k));
        let failed = || res.lock().unwrap_or_else(|e| e.into_inner()).values().find(|o| !o.class.is_empty()).cloned();
        match super::amqp::wait(&what, HANG.as_nanos() as u64, || failed().or_else(|| res.lock().unwrap_or_else(|e| e.into_inner()).get(&k).cloned())) {
            None => return Outcome::bad("hang", format!("{what} did not finish within {} s of simulated time", HANG.as_secs())),
            Some(o) => if !o.class.is_empty() { return o },
        }
    }
    if sep { for x in execs() { if x.group / 10 - 1 != bus_of(x.job) as i32 { return Outcome::bad("bus", format!("a task of job {}, submitted on task bus {}, was executed by a worker of bus {}", x.job, bus_of(x.job), x.group / 10 - 1)) } } }
    once_each()
}

// ---- C04: failures reach the caller ----
fn gen_c04(r: &mut Rng) -> Value {
    let n = r.range(1, 10);
    let slow = r.chance(1, 2);
    let nf = if r.chance(3, 4) { 1 } else { r.range(1, 3) };
    let fails: Vec<Value> = (0..nf).map(|_| json!({"at": r.below(n), "kind": r.below(8)})).collect();
    json!({"threads": r.below(4), "workers": r.range(1, 4), "cbor": r.chance(1, 3), "n": n, "gap": if slow { us(r) / 4 } else { 0 }, "dur": if r.chance(1, 2) { us(r) / 4 } else { 0 }, "end": if r.chance(1, 2) { us(r) } else { 0 },
        "fails": fails, "what": r.pick(&[0, 0, 0, 1, 1, 2, 3]), "order": r.pick(&[0, 0, 2]), "sorted": r.chance(1, 4), "ctor": r.below(4), "amqp": maybe_amqp(r, 10), "bus": r.chance(1, 4)})
}
fn run_c04(c: &Value) -> Outcome {
    let c = c.clone();
    let n = u(&c, "n").max(1) as usize; let what = u(&c, "what");
    let n = if what == 1 || what == 3 { n.max(2) } else { n };
    let mut els: Vec<El> = (0..n).map(|i| El::one(i as u64, i as u64 + 100)).collect();
    let mut input_errs = std::collections::BTreeSet::new();
    // Texts of which the reported error must contain one; an empty text accepts any error.
    let mut accept: Vec<String> = vec![];
    with_script(|s| {
        s.default_dur_us.insert(1, u(&c, "dur"));
        for f in arr(&c, "fails") {
            let at = u(f, "at") as usize % n;
            // The operation under test: the map (what 0, 2), the fold (1) or the map before a fold (3). A literal has one task.
            let (stage, key) = match what { 1 => (9u32, (at % (n - 1)) as u64), 2 => (1, 0), _ => (1, at as u64) };
            let input_only = what == 2;
            match u(f, "kind") {
                0 | 1 => { s.acts.insert((1, stage, key), vec![Act::Fatal { ignore: false }]); accept.push(msg(1, stage, key)); }
                2 => { s.acts.insert((1, stage, key), vec![Act::Panic]); accept.push("panicked".into()); }
                3 => { s.acts.insert((1, stage, key), vec![Act::Transient { retry: 0, max: 2, ms: 0, max_ms: 0, ignore: false }]); accept.push(msg(1, stage, key)); }
                4 => { s.acts.insert((1, stage, key), vec![Act::BadOutput]); accept.push(String::new()); }
                5 => { els[if what == 2 { 0 } else { at }].poison = Poison(POISON_DE); accept.push(String::new()); }
                6 => { els[if what == 2 { 0 } else { at }].poison = Poison(POISON_SER); rt::count("publish_failures"); accept.push(String::new()); }
                _ if input_only => { s.acts.insert((1, stage, key), vec![Act::Fatal { ignore: false }]); accept.push(msg(1, stage, key)); }
                _ => { input_errs.insert(at); rt::count("input_errors"); accept.push(format!("siminput-{at}.")); }
            }
        }
    });
    let failing = !arr(&c, "fails").is_empty();
    block_on(u(&c, "threads"), async move {
        let r = match runtime(&c, u(&c, "workers")).await { Ok(r) => r, Err(e) => return Outcome::bad("harness", format!("{e}")) };
        let want: Vec<El> = els.iter().map(|e| map_ref(1, 1, e)).collect();
        let mut input: Vec<(u64, anyhow::Result<(usize, El)>)> = els.iter().enumerate().map(|(i, e)| (u(&c, "gap"), if input_errs.contains(&i) { Err(anyhow::anyhow!("siminput-{i}.")) } else { Ok((i, e.clone())) })).collect();
        arrange(&mut input, u(&c, "order"), 5);
        let src = source(&c, input);
        let (m, cat) = (MapOp { job: 1, stage: 1 }, CatOp { job: 1, stage: 9 });
        rt::count("directives");
        let mut seen: Vec<(usize, El)> = vec![];
        let res: anyhow::Result<()> = match timed("the failing directive's error", HANG, async {
            match what {
                1 => { Directive::fold(src, &cat).run(&r).await?; }
                2 => { Directive::map(Literal(els[0].clone()), &m).run(&r).await?; }
                3 => { Directive::fold(Directive::map(src, &m), &cat).run(&r).await?; }
                _ if b(&c, "sorted") => { let _: Vec<El> = Directive::map(src, &m).run(&r).await?.into_values_sorted().await?.into_iter().collect(); }
                _ => { let mut st = Directive::map(src, &m).run(&r).await?; while let Some(x) = st.next().await { seen.push(x?); } }
            }
            Ok(())
        }).await { Ok(x) => x, Err(o) => return o };
        for x in execs() {
            let act = with_script(|s| s.acts.get(&(x.job, x.stage, x.key)).and_then(|a| a.last().cloned()));
            if x.attempt > 0 && matches!(act, Some(Act::Fatal { .. } | Act::Panic)) { return Outcome::bad("executions", format!("task {} of stage {} failed fatally and was executed again", x.key, x.stage)) }
        }
        let mut idx = std::collections::BTreeSet::new();
        for (i, e) in &seen {
            if !idx.insert(*i) { return Outcome::bad("duplicate", format!("index {i} delivered twice")) }
            if *i >= n || *e != want[*i] { return Outcome::bad("value", format!("wrong value at index {i} before the error: {e:?}")) }
        }
        match res {
            Ok(()) if failing => Outcome::bad("swallowed", format!("the directive reported success ({} items) although a task or its input failed", seen.len())),
            Ok(()) => Outcome::trivial(),
            Err(e) => {
                let t = format!("{e:#}");
                slog!("error: {t}");
                if failing && !accept.iter().any(|a| t.contains(a.as_str())) { return Outcome::bad("message", format!("the error is {t:?}, it contains none of {accept:?}")) }
                if !failing { return Outcome::bad("error", format!("directive failed without any fault: {t}")) }
                Outcome::ok()
            }
        }
    })
}

// ---- C05: retries ----
fn gen_c05(r: &mut Rng) -> Value {
    let n = r.range(1, 5);
    let items: Vec<Value> = (0..n).map(|_| {
        let retry = r.below(3);
        let max = r.range(1, 5);
        json!({"retry": retry, "max": max, "ms": r.range(100, 5000), "max_ms": r.range(1000, 120_000), "ignore": r.chance(1, 4),
            // how many attempts fail before "then" happens
            "fails": r.range(0, if retry == 2 { 14 } else { max + 3 }), "then": r.pick(&[0, 0, 0, 1, 2, 3]), "dur": if r.chance(1, 3) { us(r) / 20 } else { 0 }})
    }).collect();
    json!({"threads": r.below(4), "workers": r.range(1, 3), "cbor": r.chance(1, 3), "items": items, "amqp": maybe_amqp(r, 10), "bus": r.chance(1, 4)})
}
fn run_c05(c: &Value) -> Outcome {
    let c = c.clone();
    let items = arr(&c, "items").to_vec();
    with_script(|s| for (i, it) in items.iter().enumerate() {
        let t = Act::Transient { retry: u(it, "retry") as u8, max: u(it, "max").max(1) as u32, ms: u(it, "ms").max(1), max_ms: u(it, "max_ms"), ignore: b(it, "ignore") };
        let mut v = vec![t; u(it, "fails") as usize];
        v.push(match u(it, "then") { 0 => Act::Ok, 1 => Act::Fatal { ignore: false }, 2 => Act::Fatal { ignore: true }, _ => Act::Panic });
        s.acts.insert((1, 1, i as u64), v);
        s.durs.insert((1, 1, i as u64), u(it, "dur"));
    });
    block_on(u(&c, "threads"), async move {
        let r = match runtime(&c, u(&c, "workers")).await { Ok(r) => r, Err(e) => return Outcome::bad("harness", format!("{e}")) };
        let n = items.len();
        let input: Vec<_> = (0..n).map(|i| (0, Ok((i, El::one(i as u64, i as u64))))).collect();
        let op = MapOp { job: 1, stage: 1 };
        rt::count("directives");
        let mut got = std::collections::BTreeMap::new(); let mut err: Option<String> = None; let mut ended = false;
        let fut = async {
            let mut st = match Directive::map(IndexedStream::new(slow_stream(input, 0)), &op).run(&r).await { Ok(s) => s, Err(e) => { err = Some(format!("{e:#}")); return } };
            loop { match st.next().await { Some(Ok((i, e))) => { got.insert(i, e); }, Some(Err(e)) => { err = Some(format!("{e:#}")); return }, None => { ended = true; return } } }
        };
        // Long enough for every retry there can be; tasks that are ignored leave the stream waiting (documented).
        let _ = tokio::time::timeout(Duration::from_secs(3600), fut).await;
        let ex = execs();
        let mut any_term = vec![]; let mut any_ignored = false; let mut ok = vec![];
        for (i, it) in items.iter().enumerate() {
            let a: Vec<&Exec> = ex.iter().filter(|x| x.key == i as u64).collect();
            let (fails, then, max, retry) = (u(it, "fails") as usize, u(it, "then"), u(it, "max").max(1) as usize, u(it, "retry"));
            let ms = u(it, "ms").max(1) as f64; let max_ms = u(it, "max_ms") as f64;
            // The first retry is immediate, the bound and the delays apply to the retries after it.
            let bound = if retry == 2 { usize::MAX } else { max + 2 };
            let mut exhausted = false;
            let expect = if fails >= bound { exhausted = true; bound } else { fails + 1 };
            let n_exec = a.len();
            // delays
            const SLACK: f64 = 1_500.0;
            if n_exec >= 2 { let gap = (a[1].start - a[0].end) as f64 / 1e6; if gap > SLACK { return Outcome::bad("delay", format!("element {i}: the first retry, which is immediate, started {gap:.1} ms after the first attempt")) } }
            for k in 2..n_exec {
                let gap = (a[k].start - a[k - 1].end) as f64 / 1e6;
                match retry {
                    0 if gap > SLACK => return Outcome::bad("delay", format!("element {i}: retry {k} started {gap:.1} ms after the previous attempt, although the strategy retries immediately")),
                    1 if gap > ms + SLACK => return Outcome::bad("delay", format!("element {i}: retry {k} started {gap:.1} ms after the previous attempt, the strategy says {ms} ms")),
                    2 if gap > 1.5 * (ms * 1.5f64.powi(k as i32 - 2)).min(60_000.0) * 1.001 + SLACK => return Outcome::bad("delay", format!("element {i}: retry {k} started {gap:.1} ms after the previous attempt, which is too long for exponential backoff from {ms} ms")),
                    1 if gap < ms => return Outcome::bad("delay", format!("element {i}: retry {k} started {gap:.1} ms after the previous attempt, the strategy says {ms} ms")),
                    2 => { let lo = 0.5 * (ms * 1.5f64.powi(k as i32 - 2)).min(60_000.0) * 0.999 - 1.0; if gap < lo { return Outcome::bad("delay", format!("element {i}: retry {k} started {gap:.1} ms after the previous attempt, exponential backoff from {ms} ms requires at least {lo:.1} ms")) } }
                    _ => {}
                }
            }
            // The exponential strategy gives up once the next delay would exceed the maximum duration.
            let mut gave_up = false;
            if retry == 2 && n_exec >= 2 {
                let t0 = a[1].start as f64 / 1e6; let lastend = a[n_exec - 1].end as f64 / 1e6;
                let laststart = a[n_exec - 1].start as f64 / 1e6;
                if n_exec > 2 && laststart - t0 > max_ms + 10_000.0 { return Outcome::bad("bound", format!("element {i}: attempt {n_exec} started {:.0} ms after the first retry, the maximum duration is {max_ms} ms", laststart - t0)) }
                if n_exec < fails + 1 && n_exec <= fails {
                    gave_up = true;
                    let next_max = 1.5 * (ms * 1.5f64.powi(n_exec as i32 - 2)).min(60_000.0);
                    // Whoever else terminated the runtime may have cut the retries short.
                    if lastend - t0 + next_max + 10_000.0 < max_ms && err.as_ref().is_none_or(|e| e.contains(&msg(1, 1, i as u64))) && err.is_some() {
                        return Outcome::bad("bound", format!("element {i} failed for good after {:.0} ms and {n_exec} attempts, the maximum duration is {max_ms} ms", lastend - t0))
                    }
                }
            }
            if n_exec > expect { return Outcome::bad("executions", format!("element {i} was executed {n_exec} times, at most {expect} allowed ({it})")) }
            let term = if exhausted || gave_up { if b(it, "ignore") { any_ignored = true; None } else { Some(msg(1, 1, i as u64)) } }
                else { match then { 0 => { ok.push(i); None }, 1 => Some(msg(1, 1, i as u64)), 2 => { any_ignored = true; None }, _ => Some("panicked".to_string()) } };
            if let Some(t) = term { any_term.push((i, t)); }
            let settled = err.is_none();
            if settled && n_exec != expect && !gave_up { return Outcome::bad("executions", format!("element {i} was executed {n_exec} times, expected {expect} ({it})")) }
        }
        for (i, e) in &got {
            if *e != map_ref(1, 1, &El::one(*i as u64, *i as u64)) { return Outcome::bad("value", format!("wrong value at index {i}: {e:?}")) }
            if !ok.contains(i) { return Outcome::bad("value", format!("element {i} failed for good but a result was delivered")) }
        }
        match &err {
            Some(e) => {
                if any_term.is_empty() { return Outcome::bad("error", format!("error {e:?} although no failure terminates")) }
                let Some((i, _)) = any_term.iter().find(|(_, t)| e.contains(t.as_str())) else { return Outcome::bad("message", format!("error {e:?} matches none of {any_term:?}")) };
                let _ = i;
            }
            None => {
                if !any_term.is_empty() { return Outcome::bad("swallowed", format!("no error was reported for {any_term:?}")) }
                for i in &ok { if !got.contains_key(i) { return Outcome::bad("lost", format!("the result of element {i}, which succeeded within its retries, was not delivered")) } }
                if !any_ignored && !ended { return Outcome::bad("hang", "the map stream did not end although every element succeeded") }
            }
        }
        Outcome { nontrivial: items.iter().any(|i| u(i, "fails") > 0), ..Outcome::ok() }
    })
}

// ---- C06: ignored failures ----
fn gen_c06(r: &mut Rng) -> Value {
    let n = r.range(2, 12);
    let bad: Vec<Value> = (0..r.range(1, 3)).map(|_| json!({"at": r.below(n), "kind": r.below(3)})).collect();
    json!({"threads": r.below(4), "workers": r.range(1, 4), "cbor": r.chance(1, 3), "n": n, "gap": if r.chance(1, 2) { us(r) / 4 } else { 0 }, "dur": if r.chance(1, 2) { us(r) / 4 } else { 0 }, "bad": bad,
        "second": {"kind": r.below(8), "n": r.range(0, 6), "start": 0, "gap": 0, "dur": 0, "order": 0}, "concurrent": r.chance(1, 2), "fold": r.chance(1, 5), "amqp": maybe_amqp(r, 10), "bus": r.chance(1, 4)})
}
fn run_c06(c: &Value) -> Outcome {
    let c = c.clone();
    let n = u(&c, "n").max(2) as usize;
    let fold = b(&c, "fold");
    let mut bad = std::collections::BTreeMap::new();
    with_script(|s| {
        s.default_dur_us.insert(1, u(&c, "dur"));
        for f in arr(&c, "bad") {
            let at = (u(f, "at") as usize % if fold { n - 1 } else { n }) as u64;
            let (v, k) = match u(f, "kind") { 0 => (vec![Act::Fatal { ignore: true }], 1), 1 => (vec![Act::Transient { retry: 0, max: 1, ms: 0, max_ms: 0, ignore: true }], 3), _ => (vec![Act::Transient { retry: 1, max: 2, ms: 100, max_ms: 0, ignore: false }, Act::Fatal { ignore: true }], 2) };
            s.acts.insert((1, if fold { 9 } else { 1 }, at), v); bad.insert(at as usize, k);
        }
    });
    block_on(u(&c, "threads"), async move {
        let r = match runtime(&c, u(&c, "workers")).await { Ok(r) => Arc::new(r), Err(e) => return Outcome::bad("harness", format!("{e}")) };
        let second = { let (r, j) = (r.clone(), c["second"].clone()); async move { run_job(&r, 2, &j).await } };
        let mut second = Some(second);
        let conc = if b(&c, "concurrent") { Some(tokio::spawn(second.take().unwrap())) } else { None };
        let input: Vec<_> = (0..n).map(|i| (u(&c, "gap"), Ok((i, El::one(i as u64, i as u64))))).collect();
        let src = IndexedStream::new(slow_stream(input, 0));
        let (op, cat) = (MapOp { job: 1, stage: 1 }, CatOp { job: 1, stage: 9 });
        rt::count("directives");
        let mut got = std::collections::BTreeMap::new(); let mut err = None; let mut dup = None; let mut done = false;
        let _ = tokio::time::timeout(Duration::from_secs(if c["amqp"].is_null() { 7200 } else { 1500 }), async {
            if fold { match Directive::fold(src, &cat).run(&r).await { Ok(_) => done = true, Err(e) => err = Some(format!("{e:#}")) } return }
            let mut st = match Directive::map(src, &op).run(&r).await { Ok(s) => s, Err(e) => { err = Some(format!("{e:#}")); return } };
            while let Some(x) = st.next().await { match x { Ok((i, e)) => if got.insert(i, e).is_some() { dup = Some(i) }, Err(e) => err = Some(format!("{e:#}")) } }
        }).await;
        if let Some(e) = err { return Outcome::bad("error", format!("an ignored failure was reported: {e}")) }
        if let Some(i) = dup { return Outcome::bad("duplicate", format!("index {i} delivered twice")) }
        if fold && done && !bad.is_empty() { return Outcome::bad("swallowed", "the fold returned a result although one of its combinations was lost") }
        if !fold {
            for i in 0..n {
                match (bad.contains_key(&i), got.get(&i)) {
                    (false, None) => return Outcome::bad("lost", format!("the result of element {i} is missing, only {:?} failed", bad.keys())),
                    (true, Some(_)) => return Outcome::bad("value", format!("element {i} failed but a result was delivered")),
                    (false, Some(e)) if *e != map_ref(1, 1, &El::one(i as u64, i as u64)) => return Outcome::bad("value", format!("wrong value at index {i}: {e:?}")),
                    _ => {}
                }
                let k = execs().iter().filter(|x| x.job == 1 && x.key == i as u64).count(); let w = bad.get(&i).copied().unwrap_or(1);
                if k != w { return Outcome::bad("executions", format!("element {i} was executed {k} times, expected {w}")) }
            }
        }
        let o = match (conc, second) {
            (Some(h), _) => match timed("concurrent directive", HANG, h).await { Ok(Ok(o)) => o, Ok(Err(e)) => Outcome::bad("panic", format!("{e}")), Err(o) => o },
            (None, Some(f)) => match timed("later directive", HANG, f).await { Ok(o) | Err(o) => o },
            _ => Outcome::ok(),
        };
        if !o.class.is_empty() { return Outcome { msg: format!("other directive on the runtime: {}", o.msg), ..o } }
        Outcome { nontrivial: !bad.is_empty(), ..Outcome::ok() }
    })
}

// ---- C19: dropping the runtime ----
fn gen_c19(r: &mut Rng) -> Value {
    json!({"threads": r.below(4), "workers": r.range(1, 4), "n": r.range(6, 30), "gap": if r.chance(1, 3) { us(r) / 100 } else { 0 }, "dur": r.pick(&[0, 500, 20_000, 1_000_000, 10_000_000, 10_000_000]), "drop_at": if r.chance(1, 5) { 0 } else { us(r) / 4 },
        "keep_stream": r.chance(1, 2), "other": {"kind": r.below(8), "n": r.range(0, 6), "start": us(r) / 8, "gap": us(r) / 40, "dur": us(r) / 40, "order": 0}, "otherw": r.range(1, 3)})
}
fn run_c19(c: &Value) -> Outcome {
    let c = c.clone();
    with_script(|s| { s.default_dur_us.insert(1, u(&c, "dur")); s.default_dur_us.insert(2, u(&c["other"], "dur")); });
    block_on(u(&c, "threads"), async move {
        let alive = || tokio::runtime::Handle::current().metrics().num_alive_tasks();
        let base = alive();
        let w = u(&c, "workers").max(1);
        let r = match in_memory(w, false, None).await { Ok(r) => r, Err(e) => return Outcome::bad("harness", format!("{e}")) };
        let n = u(&c, "n") as usize;
        let input: Vec<_> = (0..n).map(|i| (u(&c, "gap"), Ok((i, El::one(i as u64, i as u64))))).collect();
        let op: &'static MapOp = Box::leak(Box::new(MapOp { job: 1, stage: 1 }));
        rt::count("directives"); rt::count("runtime_drops");
        let mut st = match Directive::map(IndexedStream::new(slow_stream(input, 0)), op).run(&r).await { Ok(s) => s, Err(e) => return Outcome::bad("error", format!("{e:#}")) };
        let _ = tokio::time::timeout(Duration::from_micros(u(&c, "drop_at")), async { while let Some(x) = st.next().await { if x.is_err() { break } } std::future::pending::<()>().await }).await;
        let done_before = execs().len();
        drop(r);
        let t = rt::now();
        slog!("runtime dropped");
        let other = { let j = c["other"].clone(); let w = u(&c, "otherw"); tokio::spawn(async move {
            let r = match in_memory(w, false, None).await { Ok(r) => r, Err(e) => return Outcome::bad("harness", format!("{e}")) };
            run_job(&r, 2, &j).await
        }) };
        // The caller may go on submitting tasks of the directive.
        if b(&c, "keep_stream") { let _ = tokio::time::timeout(Duration::from_secs(1800), async { while let Some(x) = st.next().await { if x.is_err() { break } } std::future::pending::<()>().await }).await; } else { drop(st); tokio::time::sleep(Duration::from_secs(1800)).await; }
        // A worker in the middle of a poll when it was aborted may go on until that poll ends: a moment, also with stalls.
        if let Some(x) = execs().iter().find(|x| x.job == 1 && x.start > t + 5_000_000_000) { return Outcome::bad("executions", format!("element {} was executed {} ms after the runtime was dropped", x.key, (x.start - t) / 1_000_000)) }
        match timed("directive of the other runtime", HANG, other).await { Ok(Ok(o)) => if !o.class.is_empty() { return Outcome { msg: format!("other runtime: {}", o.msg), ..o } }, Ok(Err(e)) => return Outcome::bad("panic", format!("{e}")), Err(o) => return o }
        tokio::time::sleep(Duration::from_secs(300)).await;
        let now_alive = alive();
        if now_alive > base { return Outcome::bad("leak", format!("{} background tasks are still alive 300 s after both runtimes were dropped", now_alive - base)) }
        Outcome { nontrivial: n > done_before, ..Outcome::ok() }
    })
}

pub fn props() -> Vec<Prop> {
    let p = |id, gen, run, max_stall_ns, rule| Prop { id, gen, run, max_stall_ns, max_time_ns: 60_000_000_000_000, crash_group: 0, rule, real: BOTH, stubs: BOTH_STUBS };
    vec![
        p("C01", gen_c01, run_c01, 30_000_000_000, "random map directive (0-40 elements, delays, worker and thread counts, serializer) under a random schedule; non-trivial: at least one element"),
        p("C02", gen_c02, run_c02, 30_000_000_000, "random fold (0-24 elements, arrival order, delays of inputs, combinations and end of input) under a random schedule; non-trivial: at least two elements"),
        p("C03", gen_c03, run_c03, 30_000_000_000, "2-5 random chains of map, fold and literal map on one runtime, or over AMQP on the runtimes of several leaders and task buses, concurrently or one after another; every run is non-trivial"),
        p("C04", gen_c04, run_c04, 30_000_000_000, "random map, fold, map-fold or literal with 1-3 injected failures (fatal, panic, exhausted retries, undecodable or unserializable values, input errors); non-trivial: a failure was injected"),
        p("C05", gen_c05, run_c05, 20_000_000, "1-5 elements, in memory or over AMQP, each with a random retry strategy, number of failing attempts and final behaviour; non-trivial: some attempt fails transiently"),
        p("C06", gen_c06, run_c06, 30_000_000_000, "map or fold with 1-3 ignored failures, with a second directive concurrent or later; non-trivial: a failure was injected"),
        Prop { real: REAL, stubs: STUBS, ..p("C19", gen_c19, run_c19, 200_000_000, "an in-memory runtime dropped at a random moment of a running map, with a second runtime in the process; non-trivial: tasks were left when it was dropped") },
    ]
}
