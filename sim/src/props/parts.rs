//! C09-C12, C17, C18: the building blocks, driven directly.
use super::directives::REAL;
use crate::driver::Prop;
use crate::rt::{self, count, Outcome, Rng};
use crate::world::*;
use async_trait::async_trait;
use futures::{Stream, StreamExt};
use paladin::acker::{Acker, ComposedAcker};
use paladin::channel::coordinated_channel::coordinated_channel;
use paladin::contiguous::{Contiguous, ContiguousQueue};
use paladin::queue::in_memory::InMemoryConnection;
use paladin::queue::{Connection, DeliveryMode, Publisher, PublisherExt, QueueDurability, QueueHandle, QueueOptions, SyndicationMode};
use paladin::serializer::Serializer;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

type Msg = (u64, u64);
fn ser(c: &Value) -> Serializer { if b(c, "cbor") { Serializer::Cbor } else { Serializer::Postcard } }
fn lk<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> { m.lock().unwrap_or_else(|e| e.into_inner()) }
fn small(r: &mut Rng) -> u64 { match r.below(8) { 0..=3 => 0, 4 => r.below(20), 5 => r.below(3_000), _ => 1_000 * r.below(12) } }

// ---- C09 ----
fn gen_c09(r: &mut Rng) -> Value {
    let t = r.chance(1, 2);
    let mut d = |r: &mut Rng| if t { small(r) } else { 0 };
    let pubs: Vec<Value> = (0..r.range(1, 3)).map(|_| { let n = r.range(0, 6); let ds: Vec<u64> = (0..n).map(|_| d(r)).collect(); json!({"at": d(r), "d": ds}) }).collect();
    // kind: 0 reads for ever, 1 reads n messages and is dropped, 2 is dropped at a moment (most often while waiting), 3 is never polled, 4 reads with each wait cancelled now and then
    let cons: Vec<Value> = (0..r.range(1, 5)).map(|_| json!({"at": d(r), "kind": r.pick(&[0, 0, 1, 1, 2, 2, 3, 4]), "n": r.below(4), "t": small(r), "slow": d(r), "same": r.chance(1, 4)})).collect();
    json!({"threads": r.below(4), "cbor": r.chance(1, 3), "pubs": pubs, "cons": cons, "del": r.below(2), "redeclare": r.chance(1, 2), "clone": r.chance(1, 2)})
}
fn run_c09(c: &Value) -> Outcome {
    let c = c.clone();
    block_on(u(&c, "threads"), async move {
        let conn = InMemoryConnection::new(ser(&c));
        let opts = QueueOptions { delivery_mode: if u(&c, "del") == 1 { DeliveryMode::Ephemeral } else { DeliveryMode::Persistent }, syndication_mode: SyndicationMode::ExactlyOnce, durability: QueueDurability::NonDurable };
        let q = match conn.declare_queue("q", opts).await { Ok(q) => q, Err(e) => return Outcome::bad("error", format!("{e}")) };
        let got: Arc<Mutex<Vec<(usize, Msg)>>> = Default::default();
        let mut tasks = vec![]; let mut total = 0; let mut live = false;
        for (p, x) in arr(&c, "pubs").iter().enumerate() {
            let x = x.clone(); total += arr(&x, "d").len();
            let q = if b(&c, "redeclare") { match conn.clone().declare_queue("q", opts).await { Ok(q) => q, Err(e) => return Outcome::bad("error", format!("{e}")) } } else { q.clone() };
            tasks.push(tokio::spawn(async move {
                sleep_us(u(&x, "at")).await;
                let h = q.publisher::<Msg>();
                for (k, d) in arr(&x, "d").iter().enumerate() {
                    sleep_us(d.as_u64().unwrap_or(0)).await;
                    if let Err(e) = h.publish(&(p as u64, k as u64)).await { return Err(format!("publishing failed: {e}")) }
                    rt::ev(1, (p * 100 + k) as u64); slog!("published {p}.{k}");
                }
                Ok(())
            }));
        }
        let mut ends = vec![]; let mut keep = vec![];
        for (i, x) in arr(&c, "cons").iter().enumerate() {
            let x = x.clone(); let q = q.clone(); let got = got.clone(); let kind = u(&x, "kind");
            let name = if b(&x, "same") { "c".to_string() } else { format!("c{i}") };
            if kind == 0 || kind == 4 { live = true }
            if kind == 3 { match q.declare_consumer::<Msg>(&name).await { Ok(c) => keep.push(c), Err(e) => return Outcome::bad("error", format!("{e}")) } continue }
            let f = async move {
                sleep_us(u(&x, "at")).await;
                let mut cons = match q.declare_consumer::<Msg>(&name).await { Ok(c) => c, Err(_) => return };
                let mut n = 0; let end = rt::now() + u(&x, "t") * 1000;
                loop {
                    if kind == 1 && n >= u(&x, "n") { break }
                    let m = if kind == 2 {
                        if rt::now() >= end && u(&x, "t") > 0 { break }
                        match tokio::time::timeout(Duration::from_nanos(end.saturating_sub(rt::now())), cons.next()).await { Ok(m) => m, Err(_) => { count("consumer_cancelled"); break } }
                    } else if kind == 4 {
                        match tokio::time::timeout(Duration::from_micros(500 + u(&x, "t")), cons.next()).await { Ok(m) => m, Err(_) => { count("consumer_cancelled"); continue } }
                    } else { cons.next().await };
                    let Some((m, a)) = m else { return };
                    lk(&got).push((i, m)); rt::ev(2, (i as u64) << 32 | m.0 * 100 + m.1); slog!("consumer {i} got {}.{}", m.0, m.1);
                    sleep_us(u(&x, "slow")).await;
                    let _ = a.ack().await;
                    n += 1;
                }
                count("dropped_consumers"); slog!("consumer {i} dropped");
                drop(cons);
            };
            let h = tokio::spawn(f);
            if kind == 1 || kind == 2 { ends.push(h) }
        }
        rt::waiting("publishers");
        for t in tasks { match t.await { Ok(Ok(())) => {} Ok(Err(e)) => return Outcome::bad("error", e), Err(e) => return Outcome::bad("panic", format!("publisher: {e}")) } }
        if !live {
            // Consumers that read a limited number may wait for ever: give them time, then one that reads everything takes the rest.
            tokio::time::sleep(Duration::from_secs(2)).await;
            let got = got.clone(); let q = q.clone();
            tokio::spawn(async move { if let Ok(mut c) = q.declare_consumer::<Msg>("last").await { while let Some((m, _)) = c.next().await { lk(&got).push((1000, m)); } } });
        }
        let end = rt::now() + 60_000_000_000;
        while rt::now() < end && lk(&got).len() < total { tokio::time::sleep(Duration::from_millis(5)).await }
        tokio::time::sleep(Duration::from_secs(1)).await;
        let g = lk(&got).clone();
        if let Some(p) = rt::PANICS.lock().unwrap().first() { return Outcome::bad("panic", p.clone()) }
        let mut n: BTreeMap<Msg, u64> = BTreeMap::new();
        for (_, m) in &g { *n.entry(*m).or_default() += 1 }
        if let Some((m, k)) = n.iter().find(|(_, k)| **k > 1) { return Outcome::bad("duplicate", format!("message {}.{} was received {k} times", m.0, m.1)) }
        if g.len() < total { return Outcome::bad("lost", format!("{} of {total} messages were received although a consumer has been waiting for 60 s", g.len())) }
        let mut last: BTreeMap<(usize, u64), u64> = BTreeMap::new();
        for (i, m) in &g { if let Some(l) = last.insert((*i, m.0), m.1) { if l > m.1 { return Outcome::bad("order", format!("consumer {i} received {}.{} after {}.{l}", m.0, m.1, m.0)) } } }
        Outcome { nontrivial: total > 0, ..Outcome::ok() }
    })
}

// ---- C10 ----
fn gen_c10(r: &mut Rng) -> Value {
    let t = r.chance(1, 2);
    let mut d = |r: &mut Rng| if t { small(r) } else { 0 };
    let pubs: Vec<Value> = (0..r.range(1, 3)).map(|_| { let n = r.range(0, 4); let ds: Vec<u64> = (0..n).map(|_| d(r)).collect(); json!({"at": d(r), "d": ds}) }).collect();
    let cons: Vec<Value> = (0..r.range(1, 5)).map(|_| json!({"at": d(r), "name": r.below(4), "slow": d(r), "cut": r.pick(&[0, 0, 0, 1, 2])})).collect();
    json!({"threads": r.below(4), "cbor": r.chance(1, 3), "ephemeral": r.chance(1, 2), "pubs": pubs, "cons": cons, "late": r.chance(1, 3), "early": r.chance(1, 4)})
}
fn run_c10(c: &Value) -> Outcome {
    let c = c.clone();
    block_on(u(&c, "threads"), async move {
        let conn = InMemoryConnection::new(ser(&c));
        let eph = b(&c, "ephemeral");
        let opts = QueueOptions { delivery_mode: if eph { DeliveryMode::Ephemeral } else { DeliveryMode::Persistent }, syndication_mode: SyndicationMode::Broadcast, durability: QueueDurability::NonDurable };
        let q = match conn.declare_queue("b", opts).await { Ok(q) => q, Err(e) => return Outcome::bad("error", format!("{e}")) };
        let got: Arc<Mutex<Vec<(u64, Msg)>>> = Default::default();
        // Scheduling steps at which a name's first declaration began and ended, and each publication began and ended.
        let decl: Arc<Mutex<BTreeMap<u64, (u64, u64)>>> = Default::default();
        let sent: Arc<Mutex<BTreeMap<Msg, (u64, u64)>>> = Default::default();
        let consumer = |x: Value| {
            let (q, got, decl) = (q.clone(), got.clone(), decl.clone());
            async move {
                sleep_us(u(&x, "at")).await;
                let name = u(&x, "name"); let mut cut = u(&x, "cut");
                let s = rt::step(); rt::yield_now();
                let mut h = match q.declare_consumer::<Msg>(&format!("n{name}")).await { Ok(h) => h, Err(_) => return };
                rt::yield_now();
                let e = rt::step();
                { let mut d = lk(&decl); let x = d.entry(name).or_insert((s, e)); x.0 = x.0.min(s); x.1 = x.1.min(e); }
                slog!("consumer n{name} declared");
                loop {
                    let m = if cut > 0 { match tokio::time::timeout(Duration::from_micros(300), h.next()).await { Ok(m) => m, Err(_) => {
                        // Another handle under the same name continues where this one stopped.
                        cut -= 1; count("dropped_consumers"); drop(h);
                        h = match q.declare_consumer::<Msg>(&format!("n{name}")).await { Ok(h) => h, Err(_) => return }; continue } } } else { h.next().await };
                    let Some((m, a)) = m else { return };
                    lk(&got).push((name, m)); rt::ev(2, name << 32 | m.0 * 100 + m.1); slog!("consumer n{name} got {}.{}", m.0, m.1);
                    let _ = a.ack().await;
                    sleep_us(u(&x, "slow")).await;
                }
            }
        };
        let publisher = |p: u64, x: Value| {
            let (q, sent) = (q.clone(), sent.clone());
            async move {
                sleep_us(u(&x, "at")).await;
                for (k, d) in arr(&x, "d").iter().enumerate() {
                    sleep_us(d.as_u64().unwrap_or(0)).await;
                    let m = (p, k as u64);
                    let s = rt::step(); rt::yield_now();
                    if let Err(e) = q.publish(&m).await { return Err(format!("publishing failed: {e}")) }
                    rt::yield_now();
                    lk(&sent).insert(m, (s, rt::step())); rt::ev(1, m.0 * 100 + m.1); slog!("published {}.{}", m.0, m.1);
                }
                Ok(())
            }
        };
        let mut readers = vec![]; let mut tasks = vec![];
        let cons = arr(&c, "cons").to_vec(); let pubs = arr(&c, "pubs").to_vec();
        if b(&c, "early") { for x in &cons { readers.push(tokio::spawn(consumer(x.clone()))) } tokio::time::sleep(Duration::from_secs(1)).await; }
        for (p, x) in pubs.iter().enumerate() { tasks.push(tokio::spawn(publisher(p as u64, x.clone()))) }
        if b(&c, "late") && !b(&c, "early") { tokio::time::sleep(Duration::from_secs(1)).await; }
        if !b(&c, "early") { for x in &cons { readers.push(tokio::spawn(consumer(x.clone()))) } }
        rt::waiting("publishers");
        for t in tasks { match t.await { Ok(Ok(())) => {} Ok(Err(e)) => return Outcome::bad("error", e), Err(e) => return Outcome::bad("panic", format!("publisher: {e}")) } }
        tokio::time::sleep(Duration::from_secs(3)).await;
        if let Some(p) = rt::PANICS.lock().unwrap().first() { return Outcome::bad("panic", p.clone()) }
        let (g, decl, sent) = (lk(&got).clone(), lk(&decl).clone(), lk(&sent).clone());
        let mut n: BTreeMap<(u64, Msg), u64> = BTreeMap::new();
        for x in &g { *n.entry(*x).or_default() += 1 }
        if let Some(((name, m), k)) = n.iter().find(|(_, k)| **k > 1) { return Outcome::bad("duplicate", format!("consumer n{name} received message {}.{} {k} times", m.0, m.1)) }
        let first = decl.values().map(|d| d.0).min().unwrap_or(u64::MAX);
        for (m, (s, e)) in &sent {
            for (name, d) in &decl {
                if d.1 < *s && !n.contains_key(&(*name, *m)) { return Outcome::bad("lost", format!("consumer n{name}, declared before message {}.{} was published, never received it", m.0, m.1)) }
                if eph && *e < d.0 && n.contains_key(&(*name, *m)) { return Outcome::bad("replayed", format!("consumer n{name} received the ephemeral message {}.{} published before it was declared", m.0, m.1)) }
            }
            if !eph && !decl.is_empty() && !n.keys().any(|k| k.1 == *m) { return Outcome::bad("lost", format!("the persistent message {}.{} was received by nobody ({})", m.0, m.1, if *e < first { "published before the first consumer was declared" } else { "published while consumers were being declared" })) }
        }
        for r in readers { r.abort() }
        Outcome { nontrivial: !sent.is_empty(), ..Outcome::ok() }
    })
}

// ---- C11 ----
/// What a publication does: 0 delivers, 1 fails, 2 is cancelled by its caller before the message is delivered.
struct Inner { tx: Mutex<Option<tokio::sync::mpsc::UnboundedSender<u64>>>, plan: Vec<Value>, close_us: u64, close_fails: bool }
#[async_trait]
impl Publisher<u64> for Inner {
    async fn publish(&self, k: &u64) -> anyhow::Result<()> {
        let x = &self.plan[*k as usize];
        sleep_us(u(x, "pre")).await;
        match u(x, "act") {
            1 => { count("publish_failures"); anyhow::bail!("publication {k} failed") }
            2 => { futures::future::pending::<()>().await; unreachable!() }
            _ => { let _ = lk(&self.tx).as_ref().unwrap().send(*k); slog!("delivered {k}"); }
        }
        sleep_us(u(x, "post")).await;
        Ok(())
    }
    async fn close(&self) -> anyhow::Result<()> { sleep_us(self.close_us).await; if self.close_fails { anyhow::bail!("close failed") } Ok(()) }
}
fn gen_c11(r: &mut Rng) -> Value {
    let t = r.chance(1, 2); let lossy = r.chance(1, 10);
    let mut d = |r: &mut Rng| if t { small(r) } else { 0 };
    let items: Vec<Value> = (0..r.range(0, 8)).map(|_| json!({"by": r.below(3), "d": d(r), "pre": d(r), "post": d(r), "act": r.pick(&[0, 0, 0, 0, 0, 1, 2]),
        // 0 ack at once, 1 ack later, 2 nack, 3 ack twice, 4 ack from several tasks at once, 5 drop the acker
        "ack": if lossy { r.below(6) } else { r.below(5) }, "late": d(r), "cancel": 1 + d(r)})).collect();
    json!({"threads": r.below(4), "items": items, "how": r.pick(&[0, 0, 1, 1, 2]), "at": d(r), "wait_pubs": r.chance(2, 3), "close_us": d(r), "close_fails": r.chance(1, 10), "closers": r.range(1, 2), "after": r.below(3),
        "hand": (0..r.below(3)).map(|_| r.below(4)).collect::<Vec<_>>(), "slow": d(r), "reader_at": d(r)})
}
fn run_c11(c: &Value) -> Outcome {
    let c = c.clone();
    block_on(u(&c, "threads"), async move {
        let items = arr(&c, "items").to_vec();
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel::<u64>();
        let inner = Inner { tx: Mutex::new(Some(tx)), plan: items.clone(), close_us: u(&c, "close_us"), close_fails: b(&c, "close_fails") };
        // Backend queues never end by themselves.
        let raw = futures::stream::unfold(rx, |mut rx| async move { rx.recv().await.map(|m| (m, rx)) }).chain(futures::stream::pending());
        let (publisher, stream) = coordinated_channel::<u64, u64, _, _>(inner, raw);
        let publisher = Arc::new(publisher);
        #[derive(Default)]
        struct St { ok: BTreeSet<u64>, failed: BTreeSet<u64>, acked: BTreeSet<u64>, received: BTreeSet<u64>, closing: bool, ended: Option<(bool, BTreeSet<u64>)>, bad: Option<Outcome>, pending_acks: u64, dropped: u64 }
        let st: Arc<Mutex<St>> = Default::default();
        let (mut tasks, mut cleanup) = (vec![], vec![]);
        for by in 0..3 {
            let mine: Vec<(u64, Value)> = items.iter().enumerate().filter(|(_, x)| u(x, "by") == by).map(|(k, x)| (k as u64, x.clone())).collect();
            if mine.is_empty() { continue }
            let p = publisher.clone(); let st = st.clone();
            tasks.push(tokio::spawn(async move {
                for (k, x) in mine {
                    sleep_us(u(&x, "d")).await;
                    let r = if u(&x, "act") == 2 {
                        count("publish_cancelled");
                        let _ = tokio::time::timeout(Duration::from_micros(u(&x, "cancel")), p.publish(&k)).await; Err(anyhow::anyhow!("cancelled"))
                    } else { p.publish(&k).await };
                    slog!("publish {k}: {}", r.is_ok()); rt::ev(1, k * 2 + r.is_ok() as u64);
                    let mut s = lk(&st);
                    if r.is_ok() {
                        if u(&x, "act") == 1 { s.bad = Some(Outcome::bad("error", format!("publication {k} failed but was reported as a success"))) }
                        s.ok.insert(k);
                    } else { s.failed.insert(k); }
                }
            }));
        }
        // Reader, handed from task to task.
        let reader = {
            let st = st.clone(); let items = items.clone(); let hand = arr(&c, "hand").to_vec(); let slow = u(&c, "slow"); let at = u(&c, "reader_at");
            async move {
                sleep_us(at).await;
                let mut stream = Box::pin(stream); let mut n = 0u64; let mut hands = hand.into_iter();
                let mut limit = hands.next().and_then(|v| v.as_u64());
                loop {
                    let stc = st.clone(); let itemsc = items.clone();
                    let part = tokio::spawn(async move {
                        loop {
                            if Some(n) == limit { 
                                // Leave a waker of this task behind.
                                let m = tokio::time::timeout(Duration::from_micros(1), stream.next()).await;
                                match m { Err(_) => return Some((stream, n)), Ok(m) => if !handle(m, &stc, &itemsc) { return None } }
                                n += 1; return Some((stream, n));
                            }
                            let m = stream.next().await;
                            if !handle(m, &stc, &itemsc) { return None }
                            n += 1; sleep_us(slow).await;
                        }
                    });
                    match part.await { Ok(Some((s, k))) => { stream = s; n = k; limit = hands.next().and_then(|v| v.as_u64()).map(|l| l + k); } _ => return }
                }
            }
        };
        fn handle(m: Option<(u64, paladin::channel::coordinated_channel::coordinated_stream::CoordinatedAcker)>, st: &Arc<Mutex<St>>, items: &[Value]) -> bool {
            let Some((k, a)) = m else { let mut s = lk(st); s.ended = Some((s.closing, s.acked.clone())); slog!("end"); rt::ev(3, 0); return false };
            slog!("received {k}"); rt::ev(2, k);
            let x = items[k as usize].clone();
            { let mut s = lk(st); if !s.received.insert(k) { s.bad = Some(Outcome::bad("duplicate", format!("message {k} was received twice"))) } if u(&x, "ack") == 5 { s.dropped += 1 } else { s.pending_acks += 1 } }
            if u(&x, "ack") == 5 { return true }
            let st = st.clone();
            tokio::spawn(async move {
                sleep_us(u(&x, "late")).await;
                lk(&st).acked.insert(k); slog!("ack {k}");
                match u(&x, "ack") {
                    2 => { let _ = Acker::nack(&a).await; }
                    3 => { let _ = Acker::ack(&a).await; let _ = Acker::ack(&a).await; let _ = Acker::nack(&a).await; }
                    4 => { let a = Arc::new(a); let hs: Vec<_> = (0..3).map(|i| { let a = a.clone(); tokio::spawn(async move { let _ = if i == 1 { Acker::nack(&*a).await } else { Acker::ack(&*a).await }; }) }).collect(); for h in hs { let _ = h.await; } }
                    _ => { let _ = Acker::ack(&a).await; }
                }
                lk(&st).pending_acks -= 1;
            });
            true
        }
        cleanup.push(tokio::spawn(reader));
        sleep_us(u(&c, "at")).await;
        rt::waiting("publishers of the coordinated channel");
        let how = u(&c, "how");
        if b(&c, "wait_pubs") || how == 2 { for t in tasks.drain(..) { if let Err(e) = t.await { return Outcome::bad("panic", format!("publisher: {e}")) } } }
        // how: 0 close, 1 drop, 2 neither for a while
        if how == 2 {
            tokio::time::sleep(Duration::from_secs(5)).await;
            if lk(&st).ended.is_some() { return Outcome::bad("early", "the receiver ended although the publisher is neither closed nor dropped") }
        }
        let mut closed = false;
        if how != 1 {
            lk(&st).closing = true; slog!("closing");
            let hs: Vec<_> = (0..u(&c, "closers").max(1)).map(|_| { let p = publisher.clone(); tokio::spawn(async move { p.close().await.is_ok() }) }).collect();
            for h in hs { closed |= h.await.unwrap_or(false) }
            if closed == b(&c, "close_fails") { return Outcome::bad("error", "close() did not report what the inner publisher reported") }
            if closed { for k in 0..u(&c, "after") {
                let k = if items.is_empty() { break } else { k % items.len() as u64 };
                if u(&items[k as usize], "act") != 2 && publisher.publish(&k).await.is_ok() { return Outcome::bad("closed", "a publication after close() succeeded") }
            } }
        }
        for t in tasks.drain(..) { if let Err(e) = t.await { return Outcome::bad("panic", format!("publisher: {e}")) } }
        if !closed { lk(&st).closing = true; slog!("dropping the publisher"); drop(publisher); }
        let end = rt::now() + 30_000_000_000;
        while rt::now() < end { { let s = lk(&st); if s.ended.is_some() || s.bad.is_some() { break } } tokio::time::sleep(Duration::from_millis(10)).await }
        tokio::time::sleep(Duration::from_secs(1)).await;
        let mut s = lk(&st);
        if let Some(o) = s.bad.take() { return o }
        match &s.ended {
            Some((closing, acked)) => {
                if !closing { return Outcome::bad("early", "the receiver ended before the publisher was closed or dropped") }
                if let Some(k) = s.ok.iter().find(|k| !acked.contains(k)) { return Outcome::bad("early", format!("the receiver ended before message {k} was {}", if s.received.contains(k) { "acknowledged" } else { "received" })) }
            }
            None => {
                if let Some(k) = s.ok.iter().find(|k| !s.received.contains(k)) { return Outcome::bad("lost", format!("message {k} was not received within 30 s")) }
                if s.dropped == 0 { return Outcome::bad("hang", format!("the receiver did not end within 30 s although the publisher is gone and all {} messages are acknowledged", s.ok.len())) }
            }
        }
        for t in cleanup { t.abort() }
        Outcome { nontrivial: !s.ok.is_empty() || !s.failed.is_empty(), ..Outcome::ok() }
    })
}

// ---- C12 ----
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Rg { lo: u64, hi: u64, tag: Vec<u64> }
impl Contiguous for Rg {
    type Key = u64;
    fn is_contiguous(&self, o: &Self) -> bool { self.hi + 1 == o.lo || o.hi + 1 == self.lo }
    fn key(&self) -> &u64 { &self.lo }
}
#[derive(Clone, Debug)]
enum QOp { Acquire(Rg, Option<(Rg, Rg)>), Dequeue(u64, Option<Rg>), Queue(Rg) }
type Hist = Vec<(u64, u64, QOp)>;
fn gen_c12(r: &mut Rng) -> Value {
    let merge = r.chance(1, 3);
    let t = r.range(2, 4);
    if merge {
        let n = r.range(2, 14); let mut e: Vec<u64> = (0..n).collect();
        for i in (1..e.len()).rev() { let j = r.below(i as u64 + 1) as usize; e.swap(i, j) }
        json!({"merge": true, "els": e.iter().map(|x| json!([x, r.below(t)])).collect::<Vec<_>>(), "threads": t})
    } else {
        // [element, thread, kind]: kinds 0 acquire, 1 dequeue by key, 2 queue
        let n = r.range(3, 8); let mut e: Vec<u64> = (0..n).collect();
        for i in (1..e.len()).rev() { let j = r.below(i as u64 + 1) as usize; e.swap(i, j) }
        let mut ops: Vec<Value> = vec![];
        for x in &e { ops.push(json!([x, r.below(t), if r.chance(1, 8) { 2 } else { 0 }])); if r.chance(1, 5) { ops.push(json!([r.below(n), r.below(t), 1])) } }
        json!({"merge": false, "els": ops, "threads": t})
    }
}
fn run_c12(c: &Value) -> Outcome {
    let q: Arc<ContiguousQueue<Rg>> = Arc::new(ContiguousQueue::new());
    let t = u(c, "threads").max(1);
    let els: Vec<(u64, u64, u64)> = arr(c, "els").iter().map(|v| (v[0].as_u64().unwrap_or(0), v[1].as_u64().unwrap_or(0) % t, v[2].as_u64().unwrap_or(0))).collect();
    let merge = b(c, "merge");
    let hist: Arc<Mutex<Hist>> = Default::default();
    let hs: Vec<_> = (0..t).map(|me| {
        let mine: Vec<_> = els.iter().filter(|e| e.1 == me).copied().collect(); let q = q.clone(); let hist = hist.clone();
        std::thread::spawn(move || for (x, _, kind) in mine {
            let mut v = Rg { lo: x, hi: x, tag: vec![x] };
            let s = rt::step(); rt::yield_now();
            let log = |o: QOp| { rt::yield_now(); slog!("thread {me} {o:?}"); lk(&hist).push((s, rt::step(), o)) };
            match kind {
                1 => { let r = q.dequeue(&x); rt::ev(x, r.is_some() as u64); log(QOp::Dequeue(x, r)); }
                2 => { q.queue(v.clone()); log(QOp::Queue(v)); }
                _ => loop {
                    let r = q.acquire_contiguous_pair_or_queue(v.clone());
                    rt::ev(v.lo * 100 + v.hi, r.as_ref().map_or(0, |p| p.0.lo * 100 + p.1.hi + 1));
                    if !merge { log(QOp::Acquire(v, r)); break }
                    let Some((a, b)) = r else { break };
                    slog!("thread {me} merges {a:?} {b:?}");
                    if a.hi + 1 != b.lo { lk(&hist).push((0, 0, QOp::Queue(a))); return }
                    v = Rg { lo: a.lo, hi: b.hi, tag: [a.tag, b.tag].concat() };
                }
            }
        })
    }).collect();
    rt::waiting("threads using the contiguous queue");
    for h in hs { if h.join().is_err() { return Outcome::bad("panic", format!("{:?}", rt::PANICS.lock().unwrap().first())) } }
    let n = els.len() as u64;
    if merge {
        if let Some((_, _, QOp::Queue(a))) = lk(&hist).first() { return Outcome::bad("pair", format!("{a:?} was paired with a range that does not follow it")) }
        let mut left = vec![];
        for k in 0..20 { while let Some(v) = q.dequeue(&k) { left.push(v); if left.len() > 100 { break } } }
        let mut all: Vec<u64> = left.iter().flat_map(|v| v.tag.clone()).collect(); all.sort();
        let mut want: Vec<u64> = els.iter().map(|e| e.0).collect(); want.sort();
        if all != want { return Outcome::bad("conservation", format!("elements {want:?} were inserted and {all:?} remain")) }
        if left.windows(2).any(|w| w[0].hi + 1 == w[1].lo) { return Outcome::bad("stuck", format!("adjacent ranges are left waiting: {left:?}")) }
        for v in &left { if v.tag != (v.lo..=v.hi).collect::<Vec<_>>() { return Outcome::bad("order", format!("{v:?} was merged out of order")) } }
        return Outcome { nontrivial: n > 1, ..Outcome::ok() }
    }
    let mut h = std::mem::take(&mut *lk(&hist));
    let end = rt::step() + 1;
    for k in 0..12 { h.push((end + 2 * k, end + 2 * k + 1, QOp::Dequeue(k, q.dequeue(&k)))); }
    if linearizable(&h) { Outcome { nontrivial: n > 1, ..Outcome::ok() } } else { Outcome::bad("linearizability", format!("no order of the operations explains their results: {}", h.iter().map(|(s, e, o)| format!("[{s}-{e}] {}", match o { QOp::Acquire(v, r) => format!("acquire({}) = {:?}", v.lo, r.as_ref().map(|(a, b)| (a.lo, b.lo))), QOp::Dequeue(k, r) => format!("dequeue({k}) = {:?}", r.as_ref().map(|v| v.lo)), QOp::Queue(v) => format!("queue({})", v.lo) })).collect::<Vec<_>>().join("; "))) }
}
fn apply(m: &BTreeMap<u64, Rg>, o: &QOp) -> Option<BTreeMap<u64, Rg>> {
    let mut n = m.clone();
    match o {
        QOp::Queue(v) => { n.insert(v.lo, v.clone()); Some(n) }
        QOp::Dequeue(k, r) => (n.remove(k) == *r).then_some(n),
        QOp::Acquire(v, None) => { if m.values().any(|x| x.is_contiguous(v)) { return None } n.insert(v.lo, v.clone()); Some(n) }
        QOp::Acquire(v, Some((a, b))) => { let other = if a == v { b } else if b == v { a } else { return None }; if a.hi + 1 != b.lo || n.remove(&other.lo).as_ref() != Some(other) { return None } Some(n) }
    }
}
fn linearizable(h: &Hist) -> bool {
    fn go(h: &Hist, done: u64, m: &BTreeMap<u64, Rg>, seen: &mut std::collections::HashSet<(u64, Vec<u64>)>) -> bool {
        if done.count_ones() as usize == h.len() { return true }
        if !seen.insert((done, m.keys().copied().collect())) { return false }
        let first_end = (0..h.len()).filter(|i| done >> i & 1 == 0).map(|i| h[i].1).min().unwrap();
        (0..h.len()).filter(|i| done >> i & 1 == 0 && h[*i].0 <= first_end).any(|i| apply(m, &h[i].2).is_some_and(|n| go(h, done | 1 << i, &n, seen)))
    }
    go(h, 0, &BTreeMap::new(), &mut Default::default())
}

// ---- C17 ----
struct Sink { plan: Vec<Value>, log: Mutex<Vec<(u64, u64, Option<u64>)>>, threads: bool }
#[async_trait]
impl Publisher<u64> for Sink {
    async fn publish(&self, k: &u64) -> anyhow::Result<()> {
        let pos = { let mut l = lk(&self.log); l.push((*k, rt::now(), None)); l.len() - 1 };
        slog!("start {k}"); rt::ev(1, *k);
        let x = self.plan[*k as usize].clone();
        let ms = u(&x, "dur");
        if self.threads { let _ = tokio::spawn(async move { if ms > 0 { tokio::time::sleep(Duration::from_millis(ms)).await } }).await; } else if ms > 0 { tokio::time::sleep(Duration::from_millis(ms)).await }
        lk(&self.log)[pos].2 = Some(rt::now());
        slog!("end {k}"); rt::ev(2, *k);
        if b(&x, "fail") { count("publish_failures"); anyhow::bail!("simfail-pub-{k}.") }
        Ok(())
    }
    async fn close(&self) -> anyhow::Result<()> { Ok(()) }
}
fn gen_c17(r: &mut Rng) -> Value {
    let f = r.chance(1, 3); let slow = r.chance(1, 2);
    let items: Vec<Value> = (0..r.range(0, 14)).map(|_| json!({"at": if slow { 100 * r.below(12) } else { 0 }, "dur": r.pick(&[0, 100, 100, 200, 500, 900, 3000]), "fail": f && r.chance(1, 5)})).collect();
    json!({"threads": r.below(4), "items": items, "bound": r.below(6), "err_at": if r.chance(1, 5) { 1 + r.below(14) } else { 0 }, "spawn": r.chance(1, 2)})
}
fn run_c17(c: &Value) -> Outcome {
    let c = c.clone();
    block_on(u(&c, "threads"), async move {
        const MS: u64 = 1_000_000;
        let mut items = arr(&c, "items").to_vec(); let n = items.len();
        // Items become available at non-decreasing moments.
        let mut t = 0; for x in items.iter_mut() { t = t.max(u(x, "at")); x["at"] = json!(t); }
        let bound = u(&c, "bound") as usize;
        let sink = Arc::new(Sink { plan: items.clone(), log: Default::default(), threads: b(&c, "spawn") });
        let t0 = rt::now(); let start = tokio::time::Instant::now();
        let err_at = u(&c, "err_at") as usize;
        let its = items.clone();
        let stream = futures::stream::unfold(0usize, move |i| { let its = its.clone(); async move {
            if err_at > 0 && i + 1 == err_at { count("input_errors"); return Some((Err(anyhow::anyhow!("simfail-stream.")), usize::MAX)) }
            if i >= its.len() { return None }
            let at = u(&its[i], "at"); if at > 0 { tokio::time::sleep_until(start + Duration::from_millis(at)).await }
            Some((Ok(i as u64), i + 1))
        } });
        let stream: std::pin::Pin<Box<dyn Stream<Item = anyhow::Result<u64>> + Send>> = Box::pin(stream);
        let limit = if bound == 0 { None } else { Some(bound) };
        let r = match timed("publish_all", Duration::from_secs(600), sink.publish_all(stream, limit)).await { Ok(r) => r, Err(o) => return o };
        let log = lk(&sink.log).clone();
        let mut seen = BTreeSet::new();
        for (k, _, _) in &log { if !seen.insert(*k) { return Outcome::bad("duplicate", format!("item {k} was published twice")) } }
        for (i, (k, s, _)) in log.iter().enumerate() {
            let flying = log[..i].iter().filter(|x| x.2.is_none_or(|e| e > *s)).count();
            if bound > 0 && flying >= bound { return Outcome::bad("bound", format!("item {k} was started while {flying} publications were in flight (bound {bound})")) }
        }
        let failed: Vec<u64> = log.iter().filter(|x| x.2.is_some() && b(&items[x.0 as usize], "fail")).map(|x| x.0).collect();
        let err_expected = !failed.is_empty() || (err_at > 0 && err_at <= n + 1);
        match &r {
            Ok(()) => {
                if err_expected { return Outcome::bad("success", "success was reported although the stream or a publication failed") }
                if let Some(k) = (0..n as u64).find(|k| !seen.contains(k)) { return Outcome::bad("lost", format!("item {k} was never published")) }
                if let Some(x) = log.iter().find(|x| x.2.is_none()) { return Outcome::bad("early", format!("success was reported before publication {} completed", x.0)) }
            }
            Err(e) => {
                let e = format!("{e:#}");
                if !(e.contains("simfail-stream.") && err_at > 0) && !failed.iter().any(|k| e.contains(&format!("simfail-pub-{k}."))) { return Outcome::bad("error", format!("unexpected error: {e}")) }
                if let Some(k) = failed.iter().map(|k| log.iter().find(|x| x.0 == *k).unwrap().2.unwrap()).min() { if rt::now() > k + 2_000 * MS { return Outcome::bad("late", "the error was reported more than 2 s after the publication had failed") } }
            }
        }
        // A free slot with an available item is used at once (20 ms of timer granularity and scheduling).
        let mut prev = t0;
        for (i, (k, s, _)) in log.iter().enumerate() {
            if *k != i as u64 { break }
            let mut ready = prev.max(t0 + u(&items[i], "at") * MS);
            if bound > 0 && i >= bound {
                let mut ends: Vec<u64> = log[..i].iter().map(|x| x.2.unwrap_or(u64::MAX)).collect(); ends.sort();
                ready = ready.max(ends[i - bound]);
            }
            if *s > ready + 20 * MS { return Outcome::bad("idle", format!("item {k} was available with a free slot at {} ms and started at {} ms", (ready - t0) / MS, (s - t0) / MS)) }
            prev = *s;
        }
        Outcome { nontrivial: n > 0, ..Outcome::ok() }
    })
}

// ---- C18 ----
struct Scripted { who: u64, us: u64, fail: bool, log: Arc<Mutex<Vec<(u64, u64, bool, bool)>>>, call: Arc<AtomicU64>, other_task: bool }
impl Scripted {
    async fn settle(&self, ack: bool) -> anyhow::Result<()> {
        // (who, call, ack?, finished?)
        let call = self.call.load(SeqCst);
        lk(&self.log).push((self.who, call, ack, false)); rt::ev(self.who, ack as u64); slog!("acker {} {} begins", self.who, if ack { "ack" } else { "nack" });
        let us = self.us;
        if self.other_task { let _ = tokio::spawn(sleep_us(us)).await; } else { sleep_us(us).await }
        if self.fail { count("ack_failures"); anyhow::bail!("simfail-ack-{}.", self.who) }
        lk(&self.log).push((self.who, call, ack, true)); slog!("acker {} done", self.who);
        Ok(())
    }
}
#[async_trait]
impl Acker for Scripted {
    async fn ack(&self) -> anyhow::Result<()> { self.settle(true).await }
    async fn nack(&self) -> anyhow::Result<()> { self.settle(false).await }
}
struct Null;
#[async_trait]
impl Publisher<u64> for Null {
    async fn publish(&self, _: &u64) -> anyhow::Result<()> { Ok(()) }
    async fn close(&self) -> anyhow::Result<()> { Ok(()) }
}
fn gen_c18(r: &mut Rng) -> Value {
    let n = r.range(2, 4);
    json!({"threads": r.below(4), "ackers": (0..n).map(|_| json!({"us": small(r), "fail": r.chance(1, 5), "task": r.chance(1, 2)})).collect::<Vec<_>>(), "shape": r.below(2), "boxed": r.below(3),
        "calls": (0..r.range(1, 3)).map(|_| json!({"ack": r.chance(1, 2), "cancel": if r.chance(1, 3) { 1 + small(r) } else { 0 }})).collect::<Vec<_>>(),
        "repeat": r.range(1, 4), "verdicts": (0..4).map(|_| r.chance(1, 2)).collect::<Vec<_>>(), "fail_first": r.pick(&[0, 0, 1, 2]), "gap": small(r)})
}
fn run_c18(c: &Value) -> Outcome {
    let c = c.clone();
    block_on(u(&c, "threads"), async move {
        let log: Arc<Mutex<Vec<(u64, u64, bool, bool)>>> = Default::default(); let call: Arc<AtomicU64> = Default::default();
        let spec = arr(&c, "ackers").to_vec();
        let mk = |i: usize| -> Box<dyn Acker> { let x = &spec[i]; let s = Scripted { who: i as u64, us: u(x, "us"), fail: b(x, "fail"), log: log.clone(), call: call.clone(), other_task: b(x, "task") }; if u(&c, "boxed") == 1 { Box::new(Arc::new(s)) } else { Box::new(s) } };
        let n = spec.len();
        if n >= 2 {
            // Composition to the left or to the right: the order is the same.
            let acker: Box<dyn Acker> = if u(&c, "shape") == 0 { let mut a = mk(0); for i in 1..n { a = Box::new(ComposedAcker::new(a, mk(i))) } a } else { let mut a = mk(n - 1); for i in (0..n - 1).rev() { a = Box::new(ComposedAcker::new(mk(i), a)) } a };
            for (k, x) in arr(&c, "calls").iter().enumerate() {
                call.store(k as u64 + 1, SeqCst);
                let ack = b(x, "ack"); let cancel = u(x, "cancel");
                let f = async { if ack { acker.ack().await } else { acker.nack().await } };
                let r = if cancel > 0 { match tokio::time::timeout(Duration::from_micros(cancel), f).await { Ok(r) => Some(r), Err(_) => { count("ack_cancelled"); None } } } else { match timed("acknowledging", Duration::from_secs(600), f).await { Ok(r) => Some(r), Err(o) => return o } };
                sleep_us(50_000).await;
                let l: Vec<_> = lk(&log).iter().filter(|e| e.1 == k as u64 + 1).copied().collect();
                if let Some(e) = l.iter().find(|e| e.2 != ack) { return Outcome::bad("verdict", format!("acker {} was told to {} by a call to {}", e.0, if e.2 { "ack" } else { "nack" }, if ack { "ack" } else { "nack" })) }
                // begin 0, end 0, begin 1, end 1, ...
                for (j, e) in l.iter().enumerate() { if e.0 != j as u64 / 2 || e.3 != (j % 2 == 1) { return Outcome::bad("order", format!("ackers were settled in the wrong order: {l:?}")) } }
                let done = l.iter().filter(|e| e.3).count();
                let failed = matches!(r, Some(Err(_)));
                match r {
                    Some(Ok(())) => if done != n { return Outcome::bad("success", format!("success was reported after {done} of {n} ackers")) },
                    Some(Err(e)) => { let e = format!("{e:#}"); if done >= n || !b(&spec[done], "fail") || !e.contains(&format!("simfail-ack-{done}.")) { return Outcome::bad("error", format!("error {e} with {done} ackers settled")) } }
                    None => {}
                }
                if (0..n).all(|i| !b(&spec[i], "fail")) && failed { return Outcome::bad("error", "an error was reported although no acker failed") }
            }
        }
        // One message of two is acknowledged repeatedly, by several tasks: it counts once, and not at all if the first acker fails.
        let (publisher, stream) = coordinated_channel::<u64, u64, _, _>(Null, futures::stream::iter([1u64, 2]).chain(futures::stream::pending()));
        for k in 1..=2 { if publisher.publish(&k).await.is_err() { return Outcome::bad("error", "publishing failed") } }
        let _ = publisher.close().await;
        let mut stream = Box::pin(stream);
        let (Some((_, a1)), Some((_, a2))) = (stream.next().await, stream.next().await) else { return Outcome::bad("early", "the receiver ended with two messages in it") };
        let ended = Arc::new(AtomicBool::new(false));
        let reader = tokio::spawn({ let ended = ended.clone(); async move { while stream.next().await.is_some() {} ended.store(true, SeqCst) } });
        let ff = u(&c, "fail_first");
        let f = |fail| Scripted { who: 9, us: u(&c, "gap"), fail, log: Default::default(), call: Default::default(), other_task: true };
        let a1 = Arc::new(ComposedAcker::new(f(ff == 1), a1)); let a2 = Arc::new(ComposedAcker::new(f(ff == 2), a2));
        let rep = |a: Arc<dyn Acker>| { let v: Vec<bool> = arr(&c, "verdicts").iter().map(|v| v.as_bool().unwrap_or(true)).take(u(&c, "repeat").max(1) as usize).collect(); let gap = u(&c, "gap");
            async move { let hs: Vec<_> = v.into_iter().map(|ack| { let a = a.clone(); tokio::spawn(async move { if ack { let _ = a.ack().await; } else { let _ = a.nack().await; } sleep_us(gap).await }) }).collect(); for h in hs { let _ = h.await; } } };
        rep(a1).await;
        tokio::time::sleep(Duration::from_millis(200)).await;
        if ended.load(SeqCst) { return Outcome::bad("early", "the receiver ended with one of two messages acknowledged") }
        rep(a2).await;
        tokio::time::sleep(Duration::from_secs(2)).await;
        let e = ended.load(SeqCst); reader.abort();
        if e && ff > 0 { return Outcome::bad("early", "the receiver ended although the message's own acknowledgement failed") }
        if !e && ff == 0 { return Outcome::bad("hang", "the receiver did not end although both messages are acknowledged") }
        Outcome::ok()
    })
}

pub fn props() -> Vec<Prop> {
    let p = |id, gen, run, rule| Prop { id, gen, run, max_stall_ns: 50_000_000, max_time_ns: 60_000_000_000_000, crash_group: 0, rule, real: REAL, stubs: "operating system (threads, futexes, clocks, timers, randomness) is simulated; publishers and consumers are scripted" };
    vec![
        p("C09", gen_c09, run_c09, "1-3 publishers and 1-5 consumers (long-lived, limited, dropped while waiting, never polled, repeatedly cancelled) on one in-memory exactly-once queue; non-trivial: at least one message"),
        p("C10", gen_c10, run_c10, "1-3 publishers and 1-5 consumer handles under up to 4 names on one in-memory broadcast queue, persistent or ephemeral; non-trivial: at least one message"),
        p("C11", gen_c11, run_c11, "0-8 publications (delivered, failing, cancelled) by up to 3 tasks, acknowledged late, repeatedly, concurrently or never, closed or dropped at any moment, receiver moved between tasks; non-trivial: at least one publication"),
        p("C12", gen_c12, run_c12, "2-4 threads on one contiguous queue: short operation histories checked for linearizability, longer merge loops checked for conservation and completeness; non-trivial: at least two elements"),
        Prop { max_stall_ns: 1_000_000, ..p("C17", gen_c17, run_c17, "0-14 items with availability times, durations and failures, concurrency bound 1-5 or none; non-trivial: at least one item") },
        p("C18", gen_c18, run_c18, "2-4 composed scripted ackers (delays, failures, cancellation), and repeated concurrent acknowledgement of coordinated messages; every run is non-trivial"),
    ]
}
