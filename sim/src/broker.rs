//! A simulated AMQP 0-9-1 broker: one thread that speaks the wire protocol over the simulated network, with RabbitMQ's
//! semantics for what paladin uses (exchanges, queues, expiry, prefetch, acknowledgement, redelivery), and injects
//! network faults. It is the environment of the code under test, not part of it.
use crate::rt::{self, count, Rng};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub enum When { /** after the n-th frame received from the process */ Recv(u64), /** after the n-th frame sent to it */ Sent(u64), /** at this simulated time (ns) */ At(u64) }
#[derive(Clone, Debug, PartialEq)]
pub enum What {
    /** the process dies; what it has written still arrives */ Kill,
    /** the machine dies: what is in flight is lost as well */ Crash,
    /** the connection is reset; what is in flight is lost */ Cut,
    /** nothing arrives any more in either direction */ Blackhole,
    /** the queues that the process reads its results from are deleted on the broker */ Unqueue,
    /** the broker closes the channels of the process with an error, as it does with a consumer that takes too long */ Chan,
    /** the broker restarts */ Restart,
}
#[derive(Clone, Debug)]
pub struct Fault { pub group: i32, pub when: When, pub what: What }

#[derive(Clone, Debug, Default)]
pub struct Opts { pub seed: u64, pub lat_us: (u64, u64), pub frag: bool, pub frame_max: u32, pub heartbeat: u16, pub faults: Vec<Fault> }

#[derive(Clone, Debug)]
pub struct Msg { pub seq: u64, pub redelivered: bool, pub props: Vec<u8>, pub body: Vec<u8>, pub deliveries: u32, pub exchange: String, pub rk: String, at: u64 }
#[derive(Clone, Debug)]
struct Sub { conn: usize, chan: u16, tag: String, no_ack: bool, prefetch: u16, excl: bool }
#[derive(Clone, Debug)]
pub struct Queue { pub msgs: VecDeque<Msg>, subs: Vec<Sub>, rr: usize, pub durable: bool, pub auto_delete: bool, pub exclusive: Option<usize>, pub expires_ms: Option<u64>, last_used: u64, had_subs: bool, args: Vec<u8> }
#[derive(Clone, Debug)]
pub struct Exchange { pub kind: String, durable: bool, auto_delete: bool, pub bindings: BTreeSet<(String, String)> }
#[derive(Clone, Debug)]
struct Unacked { queue: String, tag: String, msg: Msg }
#[derive(Default, Debug)]
struct Chan { open: bool, closing: bool, prefetch: u16, whole: u16, next: u64, unacked: BTreeMap<u64, Unacked>, publ: Option<(String, String, bool)>, size: u64, got: bool, props: Vec<u8>, body: Vec<u8>, confirm: Option<u64>, gen_tag: u64 }
#[derive(Default)]
struct Conn {
    fd: i32, group: i32, up: bool, header: bool, open: bool, since: u64, raw: Vec<u8>, inq: VecDeque<(u64, u8, u16, Vec<u8>)>, outq: VecDeque<(u64, Vec<u8>)>,
    last_in_t: u64, last_out_t: u64, last_recv: u64, last_sent: u64, chans: BTreeMap<u16, Chan>, recv: u64, sent: u64, hole: bool, flushed: u64, closing: bool, eof: bool,
}
#[derive(Default)]
pub struct Inner {
    opts: Opts, rng: Option<Rng>, conns: Vec<Conn>, pub queues: BTreeMap<String, Queue>, pub exchanges: BTreeMap<String, Exchange>, seq: u64, gen: u64, refuse: BTreeSet<i32>,
    recv_by: BTreeMap<i32, u64>, sent_by: BTreeMap<i32, u64>, pub fired: Vec<(i32, What, u64)>, pub errors: Vec<String>, pub deliveries: BTreeMap<u64, u32>, pub dropped_unroutable: u64, pub declared: BTreeMap<String, i32>, pub deleted: Vec<(u64, String)>, pub published_total: u64, off: bool,
    pub stop_faults: bool, ghosts: Vec<(u64, i32)>, pub max_delivered: u32, peak: usize,
}
pub struct Broker { pub st: Arc<Mutex<Inner>>, wake: i32 }

static PENDING: Mutex<Vec<(i32, i32)>> = Mutex::new(Vec::new());
static WAKE: Mutex<i32> = Mutex::new(-1);
static REFUSED: Mutex<BTreeSet<i32>> = Mutex::new(BTreeSet::new());
extern "C" fn on_connect(group: i32, fd: i32) -> i32 {
    if REFUSED.lock().unwrap_or_else(|e| e.into_inner()).contains(&group) { return -1 }
    PENDING.lock().unwrap_or_else(|e| e.into_inner()).push((group, fd));
    let w = *WAKE.lock().unwrap_or_else(|e| e.into_inner());
    poke(w);
    0
}
fn poke(fd: i32) { let one = 1u64; unsafe { libc::write(fd, &one as *const u64 as *const libc::c_void, 8); } }

// ---- codec ----
struct R<'a> { b: &'a [u8], p: usize }
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] { let e = (self.p + n).min(self.b.len()); let s = &self.b[self.p.min(e)..e]; self.p = e; s }
    fn n(&mut self, n: usize) -> u64 { self.take(n).iter().fold(0, |a, b| a << 8 | *b as u64) }
    fn sstr(&mut self) -> String { let n = self.n(1) as usize; String::from_utf8_lossy(self.take(n)).into_owned() }
    fn table(&mut self) -> &'a [u8] { let n = self.n(4) as usize; self.take(n) }
}
/// The integer value of a key of a field table.
fn table_int(t: &[u8], key: &str) -> Option<u64> {
    let mut r = R { b: t, p: 0 };
    while r.p < t.len() {
        let k = r.sstr();
        let v = match r.n(1) as u8 {
            b't' | b'b' | b'B' => Some(r.n(1)), b's' | b'u' | b'U' => Some(r.n(2)), b'I' | b'i' => Some(r.n(4)), b'f' => { r.n(4); None }
            b'l' | b'L' | b'T' => Some(r.n(8)), b'd' => { r.n(8); None } b'D' => { r.n(5); None }
            b'S' | b'A' | b'F' | b'x' => { r.table(); None } _ => None,
        };
        if k == key { return v }
    }
    None
}
/// The delivery mode in a list of message properties.
fn persistent(props: &[u8]) -> bool {
    let mut r = R { b: props, p: 0 };
    let flags = r.n(2);
    if flags & 0x8000 != 0 { r.sstr(); }
    if flags & 0x4000 != 0 { r.sstr(); }
    if flags & 0x2000 != 0 { r.table(); }
    flags & 0x1000 != 0 && r.n(1) == 2
}
/// How long (ms) a message stays in a queue.
fn ttl(q: &Queue, m: &Msg) -> Option<u64> {
    let own = expiration(&m.props);
    match (table_int(&q.args, "x-message-ttl"), own) { (Some(a), Some(b)) => Some(a.min(b)), (a, b) => a.or(b) }
}
/// The expiration in a list of message properties.
fn expiration(props: &[u8]) -> Option<u64> {
    let mut r = R { b: props, p: 0 };
    let flags = r.n(2);
    if flags & 0x0100 == 0 { return None }
    if flags & 0x8000 != 0 { r.sstr(); }
    if flags & 0x4000 != 0 { r.sstr(); }
    if flags & 0x2000 != 0 { r.table(); }
    for f in [0x1000, 0x0800] { if flags & f != 0 { r.n(1); } }
    for f in [0x0400, 0x0200] { if flags & f != 0 { r.sstr(); } }
    r.sstr().parse().ok()
}
fn sstr(o: &mut Vec<u8>, s: &str) { o.push(s.len() as u8); o.extend_from_slice(s.as_bytes()); }
fn lstr(o: &mut Vec<u8>, s: &[u8]) { o.extend_from_slice(&(s.len() as u32).to_be_bytes()); o.extend_from_slice(s); }
fn method(c: u16, m: u16, args: &[u8]) -> Vec<u8> { let mut v = vec![]; v.extend(c.to_be_bytes()); v.extend(m.to_be_bytes()); v.extend_from_slice(args); v }
fn frame(ty: u8, ch: u16, payload: &[u8]) -> Vec<u8> { let mut v = vec![ty]; v.extend(ch.to_be_bytes()); v.extend((payload.len() as u32).to_be_bytes()); v.extend_from_slice(payload); v.push(0xCE); v }

impl Broker {
    pub fn start(opts: Opts) -> Broker {
        let wake = unsafe { libc::eventfd(0, libc::EFD_NONBLOCK | libc::EFD_CLOEXEC) };
        *WAKE.lock().unwrap() = wake;
        unsafe { rt::simnet_set_connect(on_connect); }
        let mut i = Inner { rng: Some(Rng(opts.seed ^ 0xB40CE5)), ..Default::default() };
        i.opts = opts;
        let st = Arc::new(Mutex::new(i));
        let s2 = st.clone();
        std::thread::Builder::new().name("broker".into()).spawn(move || serve(s2, wake)).unwrap();
        Broker { st, wake }
    }
    fn with<T>(&self, f: impl FnOnce(&mut Inner) -> T) -> T { f(&mut self.st.lock().unwrap_or_else(|e| e.into_inner())) }
    /// Puts a message into a queue as another client would (through the default exchange); false if there is no such queue.
    pub fn inject(&self, queue: &str, body: Vec<u8>) -> bool { let r = self.with(|i| i.enqueue(queue, "", vec![0, 0], body, queue)); poke(self.wake); r }
    pub fn publish_exchange(&self, ex: &str, body: Vec<u8>) { self.with(|i| i.route(ex, "", vec![0, 0], body)); poke(self.wake); }
    pub fn queue_names(&self) -> Vec<String> { self.with(|i| i.queues.keys().cloned().collect()) }
    pub fn queue_len(&self, q: &str) -> Option<usize> { self.with(|i| i.queues.get(q).map(|q| q.msgs.len())) }
    pub fn subscribers(&self, q: &str) -> usize { self.with(|i| i.queues.get(q).map_or(0, |q| q.subs.len())) }
    pub fn unacked(&self, q: &str) -> usize { self.with(|i| i.conns.iter().filter(|c| c.up).flat_map(|c| c.chans.values()).flat_map(|c| c.unacked.values()).filter(|u| u.queue == q).count()) }
    /// The most messages that a consumer had before it acknowledged one of them.
    pub fn peak_unacked(&self) -> usize { self.with(|i| i.peak) }
    pub fn exchange_bindings(&self, e: &str) -> usize { self.with(|i| i.exchanges.get(e).map_or(0, |e| e.bindings.len())) }
    /// No fault fires from now on.
    pub fn quiesce(&self) { self.with(|i| i.stop_faults = true); }
    pub fn errors(&self) -> Vec<String> { self.with(|i| i.errors.clone()) }
    pub fn fired(&self) -> Vec<(i32, What, u64)> { self.with(|i| i.fired.clone()) }
    pub fn connections_of(&self, g: i32) -> usize { self.with(|i| i.conns.iter().filter(|c| c.up && c.group == g && c.open).count()) }
    pub fn fault(&self, group: i32, what: What) { self.with(|i| i.apply(group, what)); poke(self.wake); }
    /// The queues that a process was the first to declare.
    pub fn declared_by(&self, g: i32) -> Vec<String> { self.with(|i| i.declared.iter().filter(|d| *d.1 == g).map(|d| d.0.clone()).collect()) }
    pub fn deleted(&self) -> Vec<(u64, String)> { self.with(|i| i.deleted.clone()) }
    pub fn bodies(&self, q: &str) -> Vec<Vec<u8>> { self.with(|i| i.queues.get(q).map(|q| q.msgs.iter().map(|m| m.body.clone()).collect()).unwrap_or_default()) }
    pub fn max_delivered(&self) -> u32 { self.with(|i| i.max_delivered) }
    /// The broker stops and comes back at once: connections are lost, and of the queues only the durable ones with their persistent messages remain.
    pub fn restart(&self) { self.with(|i| i.restart()); poke(self.wake); }
    pub fn refuse(&self, group: i32, on: bool) { let mut r = REFUSED.lock().unwrap(); if on { r.insert(group); } else { r.remove(&group); } }
}

fn serve(st: Arc<Mutex<Inner>>, wake: i32) {
    loop {
        let (mut fds, deadline) = {
            let mut i = st.lock().unwrap_or_else(|e| e.into_inner());
            let p: Vec<_> = PENDING.lock().unwrap_or_else(|e| e.into_inner()).drain(..).collect();
            for (group, fd) in p { count("connections"); let t = rt::now(); i.conns.push(Conn { fd, group, up: true, since: t, last_recv: t, last_sent: t, ..Default::default() }); }
            i.turn();
            let mut fds = vec![libc::pollfd { fd: wake, events: libc::POLLIN, revents: 0 }];
            for c in i.conns.iter().filter(|c| c.up && !c.hole && !c.eof) { fds.push(libc::pollfd { fd: c.fd, events: libc::POLLIN, revents: 0 }); }
            (fds, i.next_deadline())
        };
        unsafe { rt::simnet_poll_until(fds.as_mut_ptr(), fds.len() as libc::nfds_t, deadline); }
        if fds[0].revents != 0 { let mut b = 0u64; unsafe { libc::read(wake, &mut b as *mut u64 as *mut libc::c_void, 8); } }
    }
}

impl Inner {
    fn lat(&mut self) -> u64 { let (a, b) = self.opts.lat_us; if b == 0 { return 0 } let l = self.rng.as_mut().unwrap().range(a, b.max(a)); if l > 0 { count("net_delays"); } l * 1000 }
    fn next_deadline(&self) -> u64 {
        let mut d = u64::MAX;
        for c in self.conns.iter().filter(|c| c.up) {
            if !c.hole { if let Some(f) = c.inq.front() { d = d.min(f.0) } if let Some(f) = c.outq.front() { d = d.min(f.0) } }
            if !c.open { d = d.min(c.since + 20_000_000_000) }
            else if self.opts.heartbeat > 0 {
                let hb = self.opts.heartbeat as u64 * 1_000_000_000;
                d = d.min(c.last_recv + 2 * hb); if !c.hole { d = d.min(c.last_sent + hb / 2) }
            }
        }
        for g in &self.ghosts { d = d.min(g.0) }
        for q in self.queues.values() { if let (Some(e), true) = (q.expires_ms, q.subs.is_empty()) { d = d.min(q.last_used + e * 1_000_000) } }
        for q in self.queues.values() { if let Some(m) = q.msgs.front() { if let Some(t) = ttl(q, m) { d = d.min(m.at + t * 1_000_000) } } }
        if !self.stop_faults { for f in &self.opts.faults { if let When::At(t) = f.when { d = d.min(t) } } }
        d
    }
    fn turn(&mut self) {
        let now = rt::now();
        if !self.stop_faults {
            let mut due = vec![];
            self.opts.faults.retain(|f| if matches!(f.when, When::At(t) if t <= now) { due.push(f.clone()); false } else { true });
            for f in due { self.apply(f.group, f.what) }
        }
        for c in 0..self.conns.len() { self.read(c) }
        // frames in order of arrival
        loop {
            let now = rt::now();
            let next = (0..self.conns.len()).filter(|c| self.conns[*c].up && !self.conns[*c].hole).filter_map(|c| self.conns[c].inq.front().map(|f| (f.0, c))).min();
            match next {
                Some((t, c)) if t <= now => { let (_, ty, ch, p) = self.conns[c].inq.pop_front().unwrap(); self.on_frame(c, ty, ch, &p); self.received(c); }
                _ => break,
            }
        }
        let now = rt::now();
        // a peer that closed its socket, once everything it sent has been processed
        for c in 0..self.conns.len() { if self.conns[c].up && self.conns[c].eof && self.conns[c].inq.is_empty() && !self.conns[c].hole { self.drop_conn(c) } }
        self.ghosts.retain(|(t, fd)| if *t <= now { unsafe { libc::shutdown(*fd, libc::SHUT_RDWR); libc::close(*fd); } false } else { true });
        let hb = self.opts.heartbeat as u64 * 1_000_000_000;
        for c in 0..self.conns.len() {
            let k = &self.conns[c]; if !k.up { continue }
            if !k.open && now >= k.since + 20_000_000_000 { self.drop_conn(c); continue }
            if k.open && hb > 0 {
                if now >= k.last_recv + 2 * hb { slog!("broker: no heartbeat from connection {c}"); self.drop_conn(c); continue }
                if now >= k.last_sent + hb / 2 && !k.hole { self.send_raw(c, frame(8, 0, &[])) }
            }
        }
        let exp: Vec<String> = self.queues.iter().filter(|(_, q)| q.subs.is_empty() && q.expires_ms.is_some_and(|e| now >= q.last_used + e * 1_000_000)).map(|(n, _)| n.clone()).collect();
        for n in exp { slog!("broker: queue {n} expired"); self.delete_queue(&n); }
        for q in self.queues.values_mut() { while q.msgs.front().is_some_and(|m| ttl(q, m).is_some_and(|t| now >= m.at + t * 1_000_000)) { count("msgs_expired"); q.msgs.pop_front(); } }
        self.deliver();
        for c in 0..self.conns.len() { self.flush(c) }
    }
    fn received(&mut self, c: usize) {
        let g = self.conns[c].group; count("frames");
        let n = { let e = self.recv_by.entry(g).or_insert(0); *e += 1; *e };
        self.trigger(g, |w| matches!(w, When::Recv(k) if *k == n));
    }
    fn trigger(&mut self, g: i32, m: impl Fn(&When) -> bool) {
        if self.stop_faults { return }
        if let Some(p) = self.opts.faults.iter().position(|f| f.group == g && m(&f.when)) { let f = self.opts.faults.remove(p); self.apply(g, f.what) }
    }
    fn apply(&mut self, g: i32, what: What) {
        self.fired.push((g, what.clone(), rt::now()));
        slog!("fault: {what:?} of process {g}");
        match what {
            What::Kill => { count("worker_crashes"); rt::crash_group(g) }
            What::Crash => { count("worker_crashes"); rt::crash_group(g); self.lose(g, false) }
            What::Cut => self.lose(g, false),
            What::Blackhole => self.lose(g, true),
            What::Restart => self.restart(),
            What::Chan => {
                let k: Vec<(usize, u16)> = (0..self.conns.len()).filter(|c| self.conns[*c].up && self.conns[*c].group == g).flat_map(|c| self.conns[c].chans.iter().filter(|h| h.1.open).map(|h| (c, *h.0)).collect::<Vec<_>>()).collect();
                for (c, ch) in k { count("chan_errors"); self.chan_error(c, ch, 406, "PRECONDITION_FAILED - delivery acknowledgement on channel timed out", 0, 0) }
            }
            What::Unqueue => {
                let names: Vec<String> = self.queues.iter().filter(|(n, q)| *n != paladin::runtime::TASK_IPC_ROUTING_KEY && q.subs.iter().any(|s| self.conns[s.conn].group == g)).map(|(n, _)| n.clone()).collect();
                for n in names { count("queues_removed"); self.delete_queue(&n) }
            }
        }
    }
    fn lose(&mut self, g: i32, hole: bool) {
        for c in 0..self.conns.len() { if self.conns[c].up && self.conns[c].group == g {
            count("conn_cuts"); self.conns[c].inq.clear(); self.conns[c].outq.clear(); self.conns[c].raw.clear();
            if hole { self.conns[c].hole = true } else { self.drop_conn(c) }
        } }
    }
    fn restart(&mut self) {
        count("broker_restarts"); slog!("fault: the broker restarts");
        for c in 0..self.conns.len() { if self.conns[c].up { self.conns[c].inq.clear(); self.conns[c].outq.clear(); self.conns[c].raw.clear(); self.drop_conn(c) } }
        self.queues.retain(|_, q| q.durable); self.exchanges.retain(|_, e| e.durable);
        for q in self.queues.values_mut() { q.msgs.retain(|m| persistent(&m.props)); q.last_used = rt::now(); }
        let names: BTreeSet<String> = self.queues.keys().cloned().collect();
        for e in self.exchanges.values_mut() { e.bindings.retain(|b| names.contains(&b.0)) }
    }
    fn read(&mut self, c: usize) {
        if !self.conns[c].up || self.conns[c].hole || self.conns[c].eof { return }
        let mut b = [0u8; 16384];
        loop {
            let n = unsafe { libc::recv(self.conns[c].fd, b.as_mut_ptr() as *mut libc::c_void, b.len(), libc::MSG_DONTWAIT) };
            if n == 0 { self.conns[c].eof = true; break }
            if n < 0 { let e = std::io::Error::last_os_error(); if e.kind() != std::io::ErrorKind::WouldBlock { self.conns[c].eof = true } break }
            self.conns[c].raw.extend_from_slice(&b[..n as usize]);
        }
        let now = rt::now();
        loop {
            let k = &self.conns[c];
            let (f, used) = if !k.header { if k.raw.len() < 8 { break } ((0, 0, k.raw[..8].to_vec()), 8) } else {
                if k.raw.len() < 7 { break }
                let len = u32::from_be_bytes(k.raw[3..7].try_into().unwrap()) as usize;
                if k.raw.len() < len + 8 { break }
                if k.raw[len + 7] != 0xCE { self.errors.push("frame without end octet".into()); }
                let k = &self.conns[c];
                ((k.raw[0], u16::from_be_bytes([k.raw[1], k.raw[2]]), k.raw[7..7 + len].to_vec()), len + 8)
            };
            let l = self.lat();
            let k = &mut self.conns[c];
            k.header = true; k.raw.drain(..used);
            let t = (now + l).max(k.last_in_t); k.last_in_t = t; k.last_recv = now;
            k.inq.push_back((t, f.0, f.1, f.2));
        }
    }
    fn send_raw(&mut self, c: usize, bytes: Vec<u8>) {
        let now = rt::now(); let l = self.lat();
        if !self.conns[c].up || self.conns[c].hole { return }
        let frag = self.opts.frag && bytes.len() > 1;
        let mut pieces = vec![];
        if frag && self.rng.as_mut().unwrap().chance(1, 3) {
            count("net_fragments");
            let cut = self.rng.as_mut().unwrap().range(1, bytes.len() as u64 - 1) as usize;
            pieces.push((0, bytes[..cut].to_vec())); pieces.push((self.rng.as_mut().unwrap().below(2_000_000), bytes[cut..].to_vec()));
        } else { pieces.push((0, bytes)) }
        let k = &mut self.conns[c];
        k.last_sent = now;
        for (d, b) in pieces { let t = (now + l + d).max(k.last_out_t); k.last_out_t = t; k.outq.push_back((t, b)); }
    }
    fn send(&mut self, c: usize, ch: u16, cl: u16, m: u16, args: &[u8]) { self.send_raw(c, frame(1, ch, &method(cl, m, args))); self.sent_frame(c) }
    fn sent_frame(&mut self, c: usize) {
        let g = self.conns[c].group;
        let n = { let e = self.sent_by.entry(g).or_insert(0); *e += 1; *e };
        self.conns[c].sent = n;
    }
    fn flush(&mut self, c: usize) {
        let now = rt::now();
        if !self.conns[c].up || self.conns[c].hole { return }
        let g = self.conns[c].group;
        while self.conns[c].outq.front().is_some_and(|f| f.0 <= now) {
            let (t, b) = self.conns[c].outq.pop_front().unwrap();
            let n = unsafe { libc::send(self.conns[c].fd, b.as_ptr() as *const libc::c_void, b.len(), libc::MSG_DONTWAIT) };
            if n < 0 {
                let e = std::io::Error::last_os_error();
                if e.kind() == std::io::ErrorKind::WouldBlock { self.conns[c].outq.push_front((t.max(now + 1_000_000), b)); return }
                self.drop_conn(c); return
            }
            if (n as usize) < b.len() { self.conns[c].outq.push_front((t, b[n as usize..].to_vec())); continue }
            self.conns[c].flushed += 1;
            let k = self.conns[c].flushed;
            self.trigger(g, |w| matches!(w, When::Sent(x) if *x == k));
            if !self.conns[c].up { return }
        }
        if self.conns[c].closing && self.conns[c].outq.is_empty() { self.drop_conn(c) }
    }
    /// The connection is gone: unacknowledged messages return to their queues, exclusive queues disappear.
    fn drop_conn(&mut self, c: usize) {
        if !self.conns[c].up { return }
        self.conns[c].up = false;
        // With nothing getting through, the other side does not learn of it before TCP gives up.
        if self.conns[c].hole { self.ghosts.push((rt::now() + 900_000_000_000, self.conns[c].fd)) }
        else { unsafe { libc::shutdown(self.conns[c].fd, libc::SHUT_RDWR); libc::close(self.conns[c].fd); } }
        slog!("broker: connection {c} of process {} is gone", self.conns[c].group);
        let chans: Vec<u16> = self.conns[c].chans.keys().copied().collect();
        for ch in chans { self.drop_chan(c, ch) }
        let ex: Vec<String> = self.queues.iter().filter(|(_, q)| q.exclusive == Some(c)).map(|(n, _)| n.clone()).collect();
        for q in ex { self.delete_queue(&q) }
    }
    fn drop_chan(&mut self, c: usize, ch: u16) {
        let Some(k) = self.conns[c].chans.remove(&ch) else { return };
        for (_, u) in k.unacked.into_iter().rev() { self.requeue(u) }
        let names: Vec<String> = self.queues.keys().cloned().collect();
        for n in names { self.unsubscribe(&n, |s| s.conn == c && s.chan == ch) }
    }
    fn unsubscribe(&mut self, q: &str, f: impl Fn(&Sub) -> bool) {
        let now = rt::now();
        let Some(k) = self.queues.get_mut(q) else { return };
        let n = k.subs.len(); k.subs.retain(|s| !f(s));
        if k.subs.len() != n { k.last_used = now; if k.subs.is_empty() && k.auto_delete { self.delete_queue(q) } }
    }
    fn requeue(&mut self, u: Unacked) {
        let Some(q) = self.queues.get_mut(&u.queue) else { return };
        let mut m = u.msg; m.redelivered = true; count("redeliveries");
        let p = q.msgs.iter().position(|x| x.seq > m.seq).unwrap_or(q.msgs.len());
        q.msgs.insert(p, m);
    }
    /// Removes bindings, and with its last one an exchange that goes with it.
    fn unbind(&mut self, f: impl Fn(&(String, String)) -> bool) {
        self.exchanges.retain(|_, e| { let k = e.bindings.len(); e.bindings.retain(|b| !f(b)); !(e.auto_delete && e.bindings.is_empty() && k > 0) });
    }
    pub fn delete_queue(&mut self, n: &str) {
        let Some(q) = self.queues.remove(n) else { return };
        self.deleted.push((rt::now(), n.to_string()));
        self.unbind(|b| b.0 == n);
        for s in q.subs { let mut a = vec![]; sstr(&mut a, &s.tag); a.push(1); self.send(s.conn, s.chan, 60, 30, &a); }
        for c in &mut self.conns { for k in c.chans.values_mut() { for u in k.unacked.values_mut() { if u.queue == n { u.queue = format!("(deleted) {n}") } } } }
    }
    fn enqueue(&mut self, q: &str, ex: &str, props: Vec<u8>, body: Vec<u8>, rk: &str) -> bool {
        self.seq += 1; let seq = self.seq;
        match self.queues.get_mut(q) {
            Some(k) => {
                k.msgs.push_back(Msg { seq, redelivered: false, props, body, deliveries: 0, exchange: ex.into(), rk: rk.into(), at: rt::now() });
                // The oldest messages make room.
                if let Some(max) = table_int(&k.args, "x-max-length") { while k.msgs.len() as u64 > max { k.msgs.pop_front(); } }
                true
            }
            None => false,
        }
    }
    pub fn route(&mut self, ex: &str, rk: &str, props: Vec<u8>, body: Vec<u8>) -> bool {
        self.published_total += 1;
        if ex.is_empty() { let r = self.enqueue(rk, ex, props, body, rk); if !r { self.dropped_unroutable += 1 } return r }
        let Some(e) = self.exchanges.get(ex) else { return false };
        let fan = e.kind == "fanout";
        let qs: BTreeSet<String> = e.bindings.iter().filter(|b| fan || b.1 == rk).map(|b| b.0.clone()).collect();
        for q in &qs { self.enqueue(q, ex, props.clone(), body.clone(), rk); }
        !qs.is_empty()
    }
    fn deliver(&mut self) {
        let names: Vec<String> = self.queues.keys().cloned().collect();
        for n in names { loop {
            let Some(q) = self.queues.get(&n) else { break };
            if q.msgs.is_empty() || q.subs.is_empty() { break }
            let k = q.subs.len();
            let Some(pos) = (0..k).map(|d| (q.rr + d) % k).find(|p| { let s = &q.subs[*p]; self.conns[s.conn].up && (s.no_ack || self.conns[s.conn].chans.get(&s.chan).is_some_and(|c| (s.prefetch == 0 || (c.unacked.values().filter(|u| u.tag == s.tag).count() as u16) < s.prefetch) && (c.whole == 0 || (c.unacked.len() as u16) < c.whole))) }) else { break };
            let s = q.subs[pos].clone();
            let q = self.queues.get_mut(&n).unwrap();
            q.rr = (pos + 1) % k; q.last_used = rt::now();
            let mut m = q.msgs.pop_front().unwrap();
            m.deliveries += 1; self.max_delivered = self.max_delivered.max(m.deliveries);
            let Some(ch) = self.conns[s.conn].chans.get_mut(&s.chan) else { continue };
            ch.next += 1; let tag = ch.next;
            let mut a = vec![]; sstr(&mut a, &s.tag); a.extend(tag.to_be_bytes()); a.push(m.redelivered as u8); sstr(&mut a, &m.exchange); sstr(&mut a, &m.rk);
            if !s.no_ack { ch.unacked.insert(tag, Unacked { queue: n.clone(), tag: s.tag.clone(), msg: m.clone() }); self.peak = self.peak.max(ch.unacked.values().filter(|u| u.tag == s.tag).count()); }
            // the three parts of a message are sent as separate frames
            self.send(s.conn, s.chan, 60, 60, &a);
            self.send_content(s.conn, s.chan, &m.props, &m.body);
        } }
    }
    fn send_content(&mut self, c: usize, ch: u16, props: &[u8], body: &[u8]) {
        let mut h = vec![]; h.extend(60u16.to_be_bytes()); h.extend(0u16.to_be_bytes()); h.extend((body.len() as u64).to_be_bytes()); h.extend_from_slice(props);
        self.send_raw(c, frame(2, ch, &h));
        let max = if self.opts.frame_max == 0 { usize::MAX } else { self.opts.frame_max as usize - 8 };
        for part in body.chunks(max) { self.send_raw(c, frame(3, ch, part)); }
    }
    fn chan_error(&mut self, c: usize, ch: u16, code: u16, text: &str, cl: u16, m: u16) {
        slog!("broker: channel error {code} {text} (connection {c} of process {})", self.conns[c].group);
        self.errors.push(format!("{code} {text}"));
        let mut a = vec![]; a.extend(code.to_be_bytes()); sstr(&mut a, text); a.extend(cl.to_be_bytes()); a.extend(m.to_be_bytes());
        self.send(c, ch, 20, 40, &a);
        self.drop_chan(c, ch);
        self.conns[c].chans.insert(ch, Chan { closing: true, ..Default::default() });
    }
    fn conn_error(&mut self, c: usize, code: u16, text: &str, cl: u16, m: u16) {
        slog!("broker: connection error {code} {text} (connection {c} of process {})", self.conns[c].group);
        self.errors.push(format!("{code} {text}"));
        let mut a = vec![]; a.extend(code.to_be_bytes()); sstr(&mut a, text); a.extend(cl.to_be_bytes()); a.extend(m.to_be_bytes());
        self.send(c, 0, 10, 50, &a);
        let chans: Vec<u16> = self.conns[c].chans.keys().copied().collect();
        for ch in chans { self.drop_chan(c, ch) }
    }
    fn on_frame(&mut self, c: usize, ty: u8, ch: u16, p: &[u8]) {
        match ty {
            0 => { // protocol header
                let mut a = vec![0, 9]; lstr(&mut a, &[]); lstr(&mut a, b"PLAIN AMQPLAIN"); lstr(&mut a, b"en_US");
                // capabilities that clients look at
                let mut props = vec![]; let mut caps = vec![];
                for k in ["publisher_confirms", "basic.nack", "consumer_cancel_notify", "exchange_exchange_bindings", "authentication_failure_close"] { sstr(&mut caps, k); caps.push(b't'); caps.push(1); }
                sstr(&mut props, "capabilities"); props.push(b'F'); lstr(&mut props, &caps);
                let mut a2 = vec![0, 9]; lstr(&mut a2, &props); lstr(&mut a2, b"PLAIN AMQPLAIN"); lstr(&mut a2, b"en_US"); a = a2;
                self.send(c, 0, 10, 10, &a)
            }
            8 => {}
            2 => { // content header
                let Some(k) = self.conns[c].chans.get_mut(&ch) else { return };
                let mut r = R { b: p, p: 4 }; k.size = r.n(8); k.props = p[12..].to_vec(); k.body.clear(); k.got = true;
                if k.size == 0 { self.published(c, ch) }
            }
            3 => {
                let Some(k) = self.conns[c].chans.get_mut(&ch) else { return };
                k.body.extend_from_slice(p);
                if k.got && k.body.len() as u64 >= k.size { self.published(c, ch) }
            }
            1 => { let mut r = R { b: p, p: 0 }; let cl = r.n(2) as u16; let m = r.n(2) as u16; self.on_method(c, ch, cl, m, &mut r) }
            _ => self.errors.push(format!("frame type {ty}")),
        }
    }
    fn published(&mut self, c: usize, ch: u16) {
        let k = self.conns[c].chans.get_mut(&ch).unwrap();
        k.got = false;
        let Some((ex, rk, mandatory)) = k.publ.take() else { return };
        let (props, body) = (std::mem::take(&mut k.props), std::mem::take(&mut k.body));
        let tag = k.confirm.as_mut().map(|n| { *n += 1; *n });
        if !ex.is_empty() && !self.exchanges.contains_key(&ex) { self.chan_error(c, ch, 404, &format!("NOT_FOUND - no exchange '{ex}'"), 60, 40); return }
        rt::ev(7, crate::ops::mix(body.len() as u64, rk.len() as u64));
        let back = mandatory.then(|| (props.clone(), body.clone()));
        if let (false, Some((props, body))) = (self.route(&ex, &rk, props, body), back) {
            let mut a = vec![]; a.extend(312u16.to_be_bytes()); sstr(&mut a, "NO_ROUTE"); sstr(&mut a, &ex); sstr(&mut a, &rk);
            self.send(c, ch, 60, 50, &a);
            self.send_content(c, ch, &props, &body);
        }
        if let Some(t) = tag { let mut a = vec![]; a.extend(t.to_be_bytes()); a.push(0); self.send(c, ch, 60, 80, &a) }
    }
    fn on_method(&mut self, c: usize, ch: u16, cl: u16, m: u16, r: &mut R) {
        let now = rt::now();
        if ch != 0 && (cl, m) != (20, 10) {
            match self.conns[c].chans.get(&ch) {
                None => { self.errors.push(format!("method {cl}.{m} on channel {ch} that is not open")); return }
                // after an error only the confirmation of the close is looked at
                Some(k) if k.closing => { if (cl, m) == (20, 41) { self.conns[c].chans.remove(&ch); } return }
                _ => {}
            }
        }
        match (cl, m) {
            (10, 11) => { let mut a = vec![]; a.extend(2047u16.to_be_bytes()); a.extend(self.opts.frame_max.to_be_bytes()); a.extend(self.opts.heartbeat.to_be_bytes()); self.send(c, 0, 10, 30, &a) }
            (10, 31) => {}
            (10, 40) => { self.conns[c].open = true; self.send(c, 0, 10, 41, &[0]) }
            (10, 50) => { self.send(c, 0, 10, 51, &[]); self.conns[c].closing = true }
            (10, 51) => self.conns[c].closing = true,
            (20, 10) => { self.conns[c].chans.insert(ch, Chan { open: true, ..Default::default() }); self.send(c, ch, 20, 11, &[0, 0, 0, 0]) }
            (20, 40) => { self.drop_chan(c, ch); self.send(c, ch, 20, 41, &[]) }
            (20, 41) => { self.drop_chan(c, ch) }
            (40, 10) => { // exchange.declare
                r.n(2); let name = r.sstr(); let kind = r.sstr(); let bits = r.n(1); let (durable, auto_delete) = (bits & 2 != 0, bits & 4 != 0);
                match self.exchanges.get(&name) {
                    Some(e) if bits & 1 == 0 && (e.kind != kind || e.durable != durable || e.auto_delete != auto_delete) => { self.chan_error(c, ch, 406, &format!("PRECONDITION_FAILED - inequivalent arg for exchange '{name}'"), cl, m); return }
                    Some(_) => {}
                    None if bits & 1 != 0 => { self.chan_error(c, ch, 404, &format!("NOT_FOUND - no exchange '{name}'"), cl, m); return }
                    None => { self.exchanges.insert(name, Exchange { kind, durable, auto_delete, bindings: BTreeSet::new() }); }
                }
                if bits & 16 == 0 { self.send(c, ch, 40, 11, &[]) }
            }
            (40, 20) => { r.n(2); let name = r.sstr(); let bits = r.n(1);
                if bits & 1 != 0 && self.exchanges.get(&name).is_some_and(|e| !e.bindings.is_empty()) { self.chan_error(c, ch, 406, &format!("PRECONDITION_FAILED - exchange '{name}' in use"), cl, m); return }
                self.exchanges.remove(&name); if bits & 2 == 0 { self.send(c, ch, 40, 21, &[]) } }
            (50, 10) => { // queue.declare
                r.n(2); let mut name = r.sstr(); let bits = r.n(1); let args = r.table().to_vec();
                let (passive, durable, exclusive, auto_delete, nowait) = (bits & 1 != 0, bits & 2 != 0, bits & 4 != 0, bits & 8 != 0, bits & 16 != 0);
                if name.is_empty() { self.gen += 1; name = format!("amq.gen-{}", self.gen) }
                match self.queues.get_mut(&name) {
                    Some(q) => {
                        if q.exclusive.is_some_and(|o| o != c) { self.chan_error(c, ch, 405, &format!("RESOURCE_LOCKED - cannot obtain exclusive access to locked queue '{name}'"), cl, m); return }
                        if !passive && (q.durable != durable || q.auto_delete != auto_delete || q.exclusive.is_some() != exclusive || ["x-expires", "x-message-ttl", "x-max-length"].iter().any(|k| table_int(&q.args, k) != table_int(&args, k))) { self.chan_error(c, ch, 406, &format!("PRECONDITION_FAILED - inequivalent arg for queue '{name}'"), cl, m); return }
                        q.last_used = now;
                    }
                    None if passive => { self.chan_error(c, ch, 404, &format!("NOT_FOUND - no queue '{name}'"), cl, m); return }
                    None => { self.declared.entry(name.clone()).or_insert(self.conns[c].group); slog!("broker: queue {name} declared by process {}", self.conns[c].group);
                        self.queues.insert(name.clone(), Queue { msgs: Default::default(), subs: vec![], rr: 0, durable, auto_delete, exclusive: exclusive.then_some(c), expires_ms: table_int(&args, "x-expires"), last_used: now, had_subs: false, args }); }
                }
                let q = &self.queues[&name];
                let mut a = vec![]; sstr(&mut a, &name); a.extend((q.msgs.len() as u32).to_be_bytes()); a.extend((q.subs.len() as u32).to_be_bytes());
                if !nowait { self.send(c, ch, 50, 11, &a) }
            }
            (50, 20) => { // queue.bind
                r.n(2); let q = r.sstr(); let e = r.sstr(); let rk = r.sstr(); let bits = r.n(1);
                if !self.queues.contains_key(&q) { self.chan_error(c, ch, 404, &format!("NOT_FOUND - no queue '{q}'"), cl, m); return }
                let Some(x) = self.exchanges.get_mut(&e) else { self.chan_error(c, ch, 404, &format!("NOT_FOUND - no exchange '{e}'"), cl, m); return };
                x.bindings.insert((q, rk));
                if bits & 1 == 0 { self.send(c, ch, 50, 21, &[]) }
            }
            (50, 30) => { r.n(2); let q = r.sstr(); let n = self.queues.get_mut(&q).map_or(0, |q| { let n = q.msgs.len(); q.msgs.clear(); n }); self.send(c, ch, 50, 31, &(n as u32).to_be_bytes()) }
            (50, 40) => { // queue.delete
                r.n(2); let q = r.sstr(); let bits = r.n(1);
                if let Some(k) = self.queues.get(&q) {
                    if k.exclusive.is_some_and(|o| o != c) { self.chan_error(c, ch, 405, &format!("RESOURCE_LOCKED - cannot obtain exclusive access to locked queue '{q}'"), cl, m); return }
                    if bits & 1 != 0 && !k.subs.is_empty() || bits & 2 != 0 && !k.msgs.is_empty() { self.chan_error(c, ch, 406, &format!("PRECONDITION_FAILED - queue '{q}' in use or not empty"), cl, m); return }
                }
                let n = self.queues.get(&q).map_or(0, |q| q.msgs.len() as u32);
                slog!("broker: queue {q} deleted by process {}", self.conns[c].group);
                self.delete_queue(&q);
                if bits & 4 == 0 { self.send(c, ch, 50, 41, &n.to_be_bytes()) }
            }
            (50, 50) => { r.n(2); let q = r.sstr(); let e = r.sstr(); let rk = r.sstr(); let there = self.exchanges.contains_key(&e); if there { let mut x = self.exchanges.remove(&e).unwrap(); let had = x.bindings.remove(&(q, rk)); if !(x.auto_delete && had && x.bindings.is_empty()) { self.exchanges.insert(e, x); } } self.send(c, ch, 50, 51, &[]) }
            (60, 10) => { r.n(4); let n = r.n(2) as u16; let global = r.n(1) & 1 != 0; let k = self.conns[c].chans.get_mut(&ch).unwrap(); if global { k.whole = n } else { k.prefetch = n } self.send(c, ch, 60, 11, &[]) }
            (60, 20) => { // basic.consume
                r.n(2); let q = r.sstr(); let mut tag = r.sstr(); let bits = r.n(1);
                let prefetch = self.conns[c].chans[&ch].prefetch;
                if tag.is_empty() { let k = self.conns[c].chans.get_mut(&ch).unwrap(); k.gen_tag += 1; tag = format!("amq.ctag-{}-{}", ch, k.gen_tag) }
                if self.queues.values().any(|q| q.subs.iter().any(|s| s.conn == c && s.chan == ch && s.tag == tag)) { self.conn_error(c, 530, &format!("NOT_ALLOWED - attempt to reuse consumer tag '{tag}'"), cl, m); return }
                let Some(k) = self.queues.get_mut(&q) else { self.chan_error(c, ch, 404, &format!("NOT_FOUND - no queue '{q}'"), cl, m); return };
                if k.exclusive.is_some_and(|o| o != c) { self.chan_error(c, ch, 405, &format!("RESOURCE_LOCKED - queue '{q}'"), cl, m); return }
                if k.subs.iter().any(|s| s.excl) || bits & 4 != 0 && !k.subs.is_empty() { self.chan_error(c, ch, 403, &format!("ACCESS_REFUSED - queue '{q}' in exclusive use"), cl, m); return }
                k.subs.push(Sub { conn: c, chan: ch, tag: tag.clone(), no_ack: bits & 2 != 0, prefetch, excl: bits & 4 != 0 }); k.had_subs = true; k.last_used = now;
                let mut a = vec![]; sstr(&mut a, &tag);
                if bits & 8 == 0 { self.send(c, ch, 60, 21, &a) }
            }
            (60, 30) => { let tag = r.sstr(); let bits = r.n(1);
                let names: Vec<String> = self.queues.keys().cloned().collect();
                for n in names { self.unsubscribe(&n, |s| s.conn == c && s.chan == ch && s.tag == tag) }
                let mut a = vec![]; sstr(&mut a, &tag); if bits & 1 == 0 { self.send(c, ch, 60, 31, &a) } }
            (60, 31) => {}
            (60, 40) => { r.n(2); let e = r.sstr(); let rk = r.sstr(); let bits = r.n(1); self.conns[c].chans.get_mut(&ch).unwrap().publ = Some((e, rk, bits & 1 != 0)) }
            (60, 80) | (60, 90) | (60, 120) => { // ack, reject, nack
                let tag = r.n(8); let bits = r.n(1);
                let (multiple, requeue) = match m { 80 => (bits & 1 != 0, false), 90 => (false, bits & 1 != 0), _ => (bits & 1 != 0, bits & 2 != 0) };
                let k = self.conns[c].chans.get_mut(&ch).unwrap();
                let tags: Vec<u64> = if multiple { k.unacked.keys().copied().filter(|t| tag == 0 || *t <= tag).collect() } else if k.unacked.contains_key(&tag) { vec![tag] } else { vec![] };
                if tags.is_empty() && !(multiple && tag == 0) { self.chan_error(c, ch, 406, &format!("PRECONDITION_FAILED - unknown delivery tag {tag}"), cl, m); return }
                let us: Vec<Unacked> = tags.iter().map(|t| k.unacked.remove(t).unwrap()).collect();
                if requeue { for u in us.into_iter().rev() { self.requeue(u) } }
            }
            (60, 110) => { let us: Vec<Unacked> = std::mem::take(&mut self.conns[c].chans.get_mut(&ch).unwrap().unacked).into_values().collect(); for u in us.into_iter().rev() { self.requeue(u) } self.send(c, ch, 60, 111, &[]) }
            (85, 10) => { self.conns[c].chans.get_mut(&ch).unwrap().confirm = Some(0); let bits = r.n(1); if bits & 1 == 0 { self.send(c, ch, 85, 11, &[]) } }
            _ => self.errors.push(format!("unsupported method {cl}.{m}")),
        }
    }
}
