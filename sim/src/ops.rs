//! Operations executed by the simulated workers, their scripted behaviour and the execution log.
use crate::rt::{self, count};
use paladin::operation::{FatalError, FatalStrategy, Monoid, Operation, Result, RetryStrategy, TransientError};
use paladin::{AbortSignal, RemoteExecute};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::num::NonZeroU32;
use std::sync::atomic::Ordering;
use std::sync::Mutex;
use std::time::Duration;

/// The element type of every simulated directive: a slice `lo..=hi` of the original input and a sequence of values.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Default)]
pub struct El { pub lo: u64, pub hi: u64, pub items: Vec<u64>, pub poison: Poison }

/// Makes serialization or deserialization of an element fail on demand.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Poison(pub u8);
pub const POISON_SER: u8 = 1;
pub const POISON_DE: u8 = 2;
impl Serialize for Poison {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        if self.0 == POISON_SER { return Err(serde::ser::Error::custom("poisoned value")) }
        s.serialize_u8(self.0)
    }
}
impl<'de> Deserialize<'de> for Poison {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        let v = u8::deserialize(d)?;
        if v == POISON_DE { return Err(serde::de::Error::custom("poisoned bytes")) }
        Ok(Poison(v))
    }
}

impl El { pub fn one(i: u64, v: u64) -> El { El { lo: i, hi: i, items: vec![v], poison: Poison(0) } } }

pub fn mix(a: u64, b: u64) -> u64 { let mut r = rt::Rng(a.wrapping_mul(0xA24BAED4963EE407) ^ b.wrapping_mul(0x9FB21C651E98DF25)); r.next() }

/// What one attempt of an operation does.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    Ok,
    /// retry: 0 immediate(max), 1 after(max, delay_ms), 2 exponential(min_ms, max_ms)
    Transient { retry: u8, max: u32, ms: u64, max_ms: u64, ignore: bool },
    Fatal { ignore: bool },
    Panic,
    /// The output cannot be serialized.
    BadOutput,
    /// Runs until the abort signal is set (or for the given time at most).
    UntilAbort { ms: u64, tail_ms: u64 },
}

#[derive(Clone, Debug)]
pub struct Exec { pub job: u32, pub stage: u32, pub key: u64, pub attempt: usize, pub start: u64, pub end: u64, pub done: bool, pub group: i32, pub saw_abort: Option<u64>, pub abort_at_start: bool }
pub static EXECS: Mutex<Vec<Exec>> = Mutex::new(Vec::new());
#[derive(Default)]
pub struct Script { pub acts: BTreeMap<(u32, u32, u64), Vec<Act>>, pub durs: BTreeMap<(u32, u32, u64), u64>, pub attempts: BTreeMap<(u32, u32, u64), usize>, pub default_dur_us: BTreeMap<u32, u64>, pub bad: Vec<String>, /** (job, stage, key) -> (attempt, phase): the process that executes this dies at the start (0) or the end (1) */ pub deaths: BTreeMap<(u32, u32, u64), (usize, u64)> }
pub static SCRIPT: Mutex<Option<Script>> = Mutex::new(None);
pub fn with_script<T>(f: impl FnOnce(&mut Script) -> T) -> T { f(SCRIPT.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(Default::default)) }
pub fn execs() -> Vec<Exec> { EXECS.lock().unwrap_or_else(|e| e.into_inner()).clone() }
pub fn msg(job: u32, stage: u32, key: u64) -> String { format!("simfail-{job}-{stage}-{key}.") }

fn perform(job: u32, stage: u32, key: u64, abort: &AbortSignal) -> Result<bool> {
    rt::die_if_crashed();
    count("op_executed");
    let (attempt, act, dur) = with_script(|s| {
        let k = (job, stage, key);
        let a = s.attempts.entry(k).or_insert(0); let attempt = *a; *a += 1;
        let act = s.acts.get(&k).map(|v| v.get(attempt).or(v.last()).cloned().unwrap_or(Act::Ok)).unwrap_or(Act::Ok);
        let dur = s.durs.get(&k).copied().or(s.default_dur_us.get(&job).copied()).unwrap_or(0);
        (attempt, act, dur)
    });
    // Look at the signal before looking at the clock: what was seen was there by then.
    let abort_at_start = abort.as_ref().is_some_and(|a| a.load(Ordering::SeqCst));
    let pos = {
        let mut e = EXECS.lock().unwrap_or_else(|e| e.into_inner());
        e.push(Exec { job, stage, key, attempt, start: rt::now(), end: 0, done: false, group: rt::group(), saw_abort: None, abort_at_start });
        e.len() - 1
    };
    rt::ev(1, mix(key, (job as u64) << 32 | stage as u64));
    slog!("exec job={job} stage={stage} key={key} attempt={attempt} {act:?} dur={dur}us");
    if dur > 0 { count("slow_ops"); }
    let death = with_script(|s| s.deaths.get(&(job, stage, key)).filter(|d| d.0 == attempt).map(|d| d.1));
    if death == Some(0) { slog!("process {} dies at the start of the operation", rt::group()); count("worker_crashes"); rt::crash_group(rt::group()) }
    // Operations watch the abort signal while they work.
    let mut left = dur; let mut seen = None;
    let look = |seen: &mut Option<u64>| if seen.is_none() && abort.as_ref().is_some_and(|a| a.load(Ordering::SeqCst)) { *seen = Some(rt::now()); };
    while left > 0 { let s = left.min(50_000.max(dur / 20)); std::thread::sleep(Duration::from_micros(s)); left -= s; look(&mut seen); }
    if let Act::UntilAbort { ms, tail_ms } = act {
        let end = rt::now() + ms * 1_000_000;
        while seen.is_none() && rt::now() < end { std::thread::sleep(Duration::from_millis(5)); look(&mut seen); }
        if seen.is_some() && tail_ms > 0 { EXECS.lock().unwrap_or_else(|e| e.into_inner())[pos].saw_abort = seen; std::thread::sleep(Duration::from_millis(tail_ms)) }
    }
    { let mut e = EXECS.lock().unwrap_or_else(|e| e.into_inner()); e[pos].end = rt::now(); e[pos].done = true; e[pos].saw_abort = seen; }
    if death == Some(1) { slog!("process {} dies at the end of the operation", rt::group()); count("worker_crashes"); rt::crash_group(rt::group()) }
    let fs = |i: bool| if i { FatalStrategy::Ignore } else { FatalStrategy::Terminate };
    match act {
        Act::Ok | Act::UntilAbort { .. } => Ok(false),
        Act::BadOutput => { count("op_failed_fatal"); Ok(true) }
        Act::Transient { retry, max, ms, max_ms, ignore } => {
            count("op_failed_transient");
            let m = NonZeroU32::new(max.max(1)).unwrap();
            let r = match retry {
                0 => RetryStrategy::Immediate { max_retries: m },
                1 => RetryStrategy::After { max_retries: m, duration: Duration::from_millis(ms) },
                _ => RetryStrategy::Exponential { min_duration: Duration::from_millis(ms), max_duration: Duration::from_millis(max_ms) },
            };
            Err(TransientError::from_str(&msg(job, stage, key), r, fs(ignore)).into())
        }
        Act::Fatal { ignore } => { count("op_failed_fatal"); Err(FatalError::from_str(&msg(job, stage, key), fs(ignore)).into()) }
        Act::Panic => { count("op_panicked"); panic!("{}", msg(job, stage, key)) }
    }
}

/// Maps every value of the element; the result depends on the job and the stage.
#[derive(Serialize, Deserialize, Debug, Clone, RemoteExecute)]
pub struct MapOp { pub job: u32, pub stage: u32 }
pub fn map_ref(job: u32, stage: u32, e: &El) -> El { El { lo: e.lo, hi: e.hi, items: e.items.iter().map(|v| mix(*v, ((job as u64) << 32) | stage as u64)).collect(), poison: Poison(0) } }
impl Operation for MapOp {
    type Input = El;
    type Output = El;
    fn execute(&self, e: El, abort: AbortSignal) -> Result<El> {
        let bad = perform(self.job, self.stage, e.lo, &abort)?;
        let mut o = map_ref(self.job, self.stage, &e);
        if bad { o.poison = Poison(POISON_SER) }
        Ok(o)
    }
}

/// Concatenation: associative, not commutative, and it checks that only adjacent slices are combined.
#[derive(Serialize, Deserialize, Debug, Clone, RemoteExecute)]
pub struct CatOp { pub job: u32, pub stage: u32 }
impl Monoid for CatOp {
    type Elem = El;
    fn empty(&self) -> El { El { lo: 1, hi: 0, items: vec![0xE0 + self.job as u64], poison: Poison(0) } }
    fn combine(&self, a: El, b: El, abort: AbortSignal) -> Result<El> {
        if a.hi + 1 != b.lo { with_script(|s| s.bad.push(format!("combine of non-adjacent {}..={} and {}..={}", a.lo, a.hi, b.lo, b.hi))) }
        // The boundary after a.hi is combined exactly once in a correct fold: it identifies the execution.
        let bad = perform(self.job, self.stage, a.hi, &abort)?;
        let mut items = a.items; items.extend(b.items);
        Ok(El { lo: a.lo, hi: b.hi, items, poison: Poison(if bad { POISON_SER } else { 0 }) })
    }
}

/// A second pair of operations, so that identifiers and executors of several types are in play.
#[derive(Serialize, Deserialize, Debug, Clone, RemoteExecute)]
pub struct LenOp { pub job: u32, pub stage: u32 }
impl Operation for LenOp {
    type Input = El;
    type Output = u64;
    fn execute(&self, e: El, abort: AbortSignal) -> Result<u64> { perform(self.job, self.stage, e.lo, &abort)?; Ok(e.items.iter().fold(e.lo, |a, b| mix(a, *b))) }
}
pub fn len_ref(e: &El) -> u64 { e.items.iter().fold(e.lo, |a, b| mix(a, *b)) }
