//! Helpers shared by the properties: runtimes, timeouts, inputs.
use crate::ops::El;
use crate::rt::Outcome;
use futures::Stream;
use paladin::config::Config;
use paladin::runtime::Runtime;
use serde_json::Value;
use std::future::Future;
use std::time::Duration;

pub fn u(v: &Value, k: &str) -> u64 { v[k].as_u64().unwrap_or(0) }
pub fn b(v: &Value, k: &str) -> bool { v[k].as_bool().unwrap_or(false) }
pub fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] { v[k].as_array().map(|a| a.as_slice()).unwrap_or(&[]) }

/// Runs the scenario on a tokio runtime with `threads` workers (0 = current-thread runtime).
pub fn block_on<F: Future<Output = Outcome> + Send + 'static>(threads: u64, f: F) -> Outcome {
    let rt = if threads == 0 { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() }
        else { tokio::runtime::Builder::new_multi_thread().worker_threads(threads as usize).enable_all().build().unwrap() };
    let o = rt.block_on(async move {
        match tokio::spawn(f).await {
            Ok(o) => o,
            Err(e) if e.is_panic() => { let p = crate::rt::PANICS.lock().unwrap().last().cloned().unwrap_or_default(); Outcome::bad("panic", format!("directive panicked: {p}")) }
            Err(e) => Outcome::bad("harness", format!("{e}")),
        }
    });
    std::mem::forget(rt);
    o
}

pub const HANG: Duration = Duration::from_secs(14_400);
/// Bounded simulated time: anything that takes longer never finishes.
pub async fn timed<T>(what: &str, d: Duration, f: impl Future<Output = T>) -> Result<T, Outcome> {
    crate::rt::waiting(what);
    // The timer's own wake-up polls the future once more: what becomes ready only then would have waited for ever.
    let end = crate::rt::now() + d.as_nanos() as u64;
    match tokio::time::timeout(d, f).await {
        Ok(v) if crate::rt::now() < end => Ok(v),
        _ => Err(Outcome::bad("hang", format!("{what} did not finish within {} s of simulated time", d.as_secs()))),
    }
}

pub async fn in_memory(workers: u64, cbor: bool, key: Option<String>) -> anyhow::Result<Runtime> {
    // The marker that `register()` hands out is the only public way to build a runtime.
    Runtime::from_config(&config(workers, cbor, key), crate::props::register()).await
}
pub fn config(workers: u64, cbor: bool, key: Option<String>) -> Config {
    Config {
        runtime: paladin::config::Runtime::InMemory,
        serializer: if cbor { paladin::config::Serializer::Cbor } else { paladin::config::Serializer::Postcard },
        num_workers: Some(workers.max(1) as usize),
        task_bus_routing_key: key,
        ..Default::default()
    }
}

pub async fn sleep_us(us: u64) { if us > 0 { tokio::time::sleep(Duration::from_micros(us)).await } }

/// An input stream that pauses before each element (and before its end).
pub fn slow_stream(items: Vec<(u64, anyhow::Result<(usize, El)>)>, end_us: u64) -> impl Stream<Item = anyhow::Result<(usize, El)>> + Send + 'static {
    futures::stream::unfold((items.into_iter(), end_us), |(mut it, end)| async move {
        match it.next() {
            Some((d, x)) => { if d > 0 { crate::rt::count("slow_inputs"); } sleep_us(d).await; Some((x, (it, end))) }
            None => { sleep_us(end).await; None }
        }
    })
}
