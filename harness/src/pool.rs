//! Replays stimuli of Pool.tla on the real pool, one future poll at a time, and records the
//! trace that PoolTrace.tla judges.
use crate::server::*;
use crate::util::*;
use clickhouse_rs::{errors::Result, ClientHandle, Pool};
use futures_util::{FutureExt, StreamExt};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct PB {
    pub auto: AtomicBool,
    /// next answer to a gated handshake: true = ok
    pub gates: Mutex<BTreeMap<usize, (Arc<tokio::sync::Notify>, Arc<AtomicBool>)>>,
    pub open: Mutex<BTreeSet<usize>>,
    /// handshakes answered positively
    pub answered: Mutex<BTreeSet<usize>>,
    pub fresh: Mutex<BTreeSet<usize>>,
    pub rest: Mutex<BTreeMap<usize, ()>>,
    pub last_query: Mutex<BTreeMap<String, usize>>,
    pub changes: AtomicUsize,
    pub hosts: Mutex<Vec<(usize, usize)>>,
}
impl PB {
    fn ch(&self) { self.changes.fetch_add(1, Ordering::SeqCst); }
    pub fn answer(&self, conn: usize, ok: bool) {
        if let Some((n, a)) = self.gates.lock().unwrap().remove(&conn) { a.store(ok, Ordering::SeqCst); if ok { self.answered.lock().unwrap().insert(conn); } n.notify_one(); }
    }
    pub fn answer_all(&self) {
        let ids: Vec<usize> = self.gates.lock().unwrap().keys().cloned().collect();
        for i in ids { self.answer(i, true); }
    }
}
impl Behave for PB {
    fn accept(&self, conn: usize, host: usize) -> Vec<Act> {
        self.ch();
        let conn = conn + 1;
        self.open.lock().unwrap().insert(conn);
        self.fresh.lock().unwrap().insert(conn);
        self.hosts.lock().unwrap().push((conn, host));
        vec![]
    }
    fn eof(&self, conn: usize) { self.ch(); let c = conn + 1; self.open.lock().unwrap().remove(&c); self.fresh.lock().unwrap().remove(&c); self.gates.lock().unwrap().remove(&c); }
    fn req(&self, conn: usize, req: &Req) -> Vec<Act> {
        self.ch();
        let conn = conn + 1;
        let hdr = || Act::Send(data(&u64_block("n", &[]), false));
        let blk = |x: u64| Act::Send(data(&u64_block("n", &[x]), false));
        match req {
            Req::Hello { .. } => {
                if self.auto.load(Ordering::SeqCst) { self.answered.lock().unwrap().insert(conn); return vec![Act::Send(hello(54429, "UTC"))]; }
                let n = Arc::new(tokio::sync::Notify::new());
                let a = Arc::new(AtomicBool::new(true));
                self.gates.lock().unwrap().insert(conn, (n.clone(), a.clone()));
                vec![Act::Gate(n, Arc::new(move || if a.load(Ordering::SeqCst) { vec![Act::Send(hello(54429, "UTC"))] } else { vec![Act::Close] }))]
            }
            Req::Ping => vec![Act::Send(pong())],
            Req::Cancel => if self.rest.lock().unwrap().remove(&conn).is_some() { vec![blk(2), Act::Send(eos())] } else { vec![] },
            Req::Query(q) => {
                self.last_query.lock().unwrap().insert(q.sql.clone(), conn);
                self.fresh.lock().unwrap().remove(&conn);
                if q.sql.starts_with("half") { self.rest.lock().unwrap().insert(conn, ()); return vec![hdr(), blk(1)]; }
                if q.sql.starts_with("exc") { return vec![Act::Send(exception(1, "E", "m", ""))]; }
                if q.sql.starts_with("rexc") { return vec![hdr(), blk(1), Act::Send(exception(1, "E", "m", "st"))]; }
                if q.sql.starts_with("close") { return vec![hdr(), blk(1), Act::Close]; }
                if q.sql.starts_with("bad") { return vec![hdr(), blk(1), Act::Send(vec![99])]; }
                if q.sql.starts_with("stall") { return vec![hdr()]; }
                if q.sql.starts_with("unexp") { return vec![hdr(), Act::Send(pong())]; }
                if q.sql.starts_with("INSERT INTO texc") { return vec![Act::Send(exception(1, "E", "m", ""))]; }
                if q.sql.starts_with("INSERT INTO tclose") { return vec![hdr(), Act::Close]; }
                vec![hdr(), blk(7), Act::Send(eos())]
            }
            _ => vec![],
        }
    }
}

#[derive(Default)]
pub struct Wk(pub AtomicBool);
impl Wake for Wk { fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) } }
type Fut = Pin<Box<dyn Future<Output = Result<ClientHandle>> + Send>>;

pub fn debug_field(p: &Pool, name: &str) -> i64 {
    let d = format!("{p:?}");
    d.split(name).nth(1).and_then(|s| s.trim_start_matches(": ").split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse().ok())).unwrap_or(-1)
}

struct Run {
    pool: Pool,
    b: Arc<PB>,
    srv: Server,
    slow: bool,
    futs: BTreeMap<usize, (Fut, Arc<Wk>)>,
    handles: BTreeMap<usize, ClientHandle>,
    conn_of: BTreeMap<usize, usize>,
    nf: usize,
    uses: usize,
    idx: usize,
    events: Vec<J>,
}
impl Run {
    async fn settle(&self) {
        if self.slow { tokio::time::sleep(Duration::from_millis(8)).await; }
        let mut calm = 0;
        let mut last = self.b.changes.load(Ordering::SeqCst);
        while calm < 8 {
            tokio::task::yield_now().await;
            let now = self.b.changes.load(Ordering::SeqCst);
            if now == last { calm += 1 } else { calm = 0; last = now }
        }
    }
    fn rec(&mut self, k: &str, f: usize, res: &str, h: usize, c: usize, n: i64) {
        let open: Vec<usize> = self.b.open.lock().unwrap().iter().cloned().collect();
        let fresh: Vec<usize> = self.b.fresh.lock().unwrap().iter().cloned().collect();
        let answered = self.b.answered.lock().unwrap();
        let ready: Vec<usize> = fresh.iter().filter(|c| answered.contains(c)).cloned().collect();
        drop(answered);
        let pend: Vec<usize> = self.futs.keys().cloned().collect();
        let woken: Vec<usize> = self.futs.iter().filter(|(_, (_, w))| w.0.load(Ordering::SeqCst)).map(|(i, _)| *i).collect();
        let ongoing = debug_field(&self.pool, "ongoing connections count");
        let peak = crate::socks::peak(&self.srv.addr);
        self.events.push(json!([k, f, res, h, c, open, fresh, ready, pend, woken, ongoing, n, peak]));
    }
    /// Which connection does the handle talk over?
    async fn identify(&mut self, h: usize) -> usize {
        self.uses += 1;
        let tag = format!("id{}", self.uses);
        let Some(hd) = self.handles.get_mut(&h) else { return 0 };
        let r = patient(5, AssertUnwindSafe(hd.execute(tag.as_str())).catch_unwind()).await;
        match r { Ok(Ok(Ok(()))) => self.b.last_query.lock().unwrap().get(&tag).cloned().unwrap_or(0), _ => 0 }
    }
    async fn poll(&mut self, f: usize, k: &str) { self.poll_(f, k, 0).await }
    async fn poll_(&mut self, f: usize, k: &str, rep: usize) {
        let Some((fut, w)) = self.futs.get_mut(&f) else { return };
        w.0.store(false, Ordering::SeqCst);
        let waker: Waker = w.clone().into();
        let r = std::panic::catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut Context::from_waker(&waker))));
        match r {
            Err(_) => { self.futs.remove(&f); self.settle().await; self.rec(k, f, "panic", 0, 0, 1) }
            Ok(Poll::Pending) => {
                self.settle().await;
                // a connection attempt takes several polls until the client's hello is out;
                // most histories treat them as one step
                let again = self.idx / 16 % 4 != 3 && rep < 4 && self.woken().contains(&f) && {
                    let (fr, ga, an) = (self.b.fresh.lock().unwrap(), self.b.gates.lock().unwrap(), self.b.answered.lock().unwrap());
                    fr.iter().any(|c| !ga.contains_key(c) && !an.contains(c))
                };
                if again { return Box::pin(self.poll_(f, k, rep + 1)).await; }
                self.rec(k, f, "pending", 0, 0, 1)
            }
            Ok(Poll::Ready(Err(_))) => { self.futs.remove(&f); self.settle().await; self.rec(k, f, "err", 0, 0, 1) }
            Ok(Poll::Ready(Ok(h))) => {
                self.futs.remove(&f);
                self.handles.insert(f, h);
                let c = self.identify(f).await;
                self.conn_of.insert(f, c);
                self.settle().await;
                self.rec(k, f, "got", f, c, 1);
            }
        }
    }
    fn woken(&self) -> Vec<usize> { self.futs.iter().filter(|(_, (_, w))| w.0.load(Ordering::SeqCst)).map(|(i, _)| *i).collect() }
    async fn get(&mut self) -> usize {
        self.nf += 1;
        let f = self.nf;
        let p = self.pool.clone();
        self.futs.insert(f, (Box::pin(p.get_handle()), Arc::new(Wk::default())));
        self.poll(f, "get").await;
        f
    }
    async fn drop_handle(&mut self, h: usize) {
        if let Some(x) = self.handles.remove(&h) { drop(x); }
        let c = self.conn_of.remove(&h).unwrap_or(0);
        self.settle().await;
        self.rec("drop", 0, "none", h, c, 1);
    }
    /// polls whatever is woken until nothing is
    async fn quiesce(&mut self) {
        for _ in 0..60 {
            let w = self.woken();
            let Some(f) = w.first().cloned() else { return };
            self.poll(f, "poll").await;
        }
    }
}

fn pick(v: &[usize], d: &str) -> Option<usize> { if d == "L" { v.last().cloned() } else { v.first().cloned() } }

pub async fn run(h: &J, idx: usize, slow: bool) -> J {
    let (min, max) = (h["min"].as_u64().unwrap(), h["max"].as_u64().unwrap());
    let b = Arc::new(PB::default());
    let srv = Server::start(b.clone());
    let ping = idx % 2 == 1;
    let pool = Pool::new(format!("tcp://{}?pool_min={min}&pool_max={max}&ping_before_query={ping}&connection_timeout=60s&ping_timeout=20s&retry_timeout=5ms&send_retries=3&execute_timeout=60s&query_timeout=60s&insert_timeout=60s", srv.addr));
    crate::socks::peak(&srv.addr);
    let mut r = Run { pool, b, srv, slow, futs: Default::default(), handles: Default::default(), conn_of: Default::default(), nf: 0, uses: 0, idx, events: vec![] };
    for (si, st) in h["stim"].as_array().unwrap().iter().enumerate() {
        let op = st[0].as_str().unwrap();
        let d = st.get(1).and_then(|x| x.as_str()).unwrap_or("F");
        let live: Vec<usize> = r.conn_of.iter().filter(|(_, c)| **c != 0).map(|(h, _)| *h).collect();
        match op {
            "get" => { r.get().await; }
            "poll" => if let Some(f) = pick(&r.woken(), d) { r.poll(f, "poll").await; },
            "cancel" => if let Some(f) = pick(&r.futs.keys().cloned().collect::<Vec<_>>(), d) {
                let x = r.futs.remove(&f);
                drop(x);
                r.settle().await;
                r.rec("cancel", f, "none", 0, 0, 1);
            },
            "ok" | "refuse" => {
                let c = r.b.gates.lock().unwrap().keys().next().cloned();
                if let Some(c) = c {
                    r.b.answer(c, op == "ok");
                    r.settle().await;
                    r.rec(op, 0, "none", 0, 0, 1);
                }
            }
            "drop" => if let Some(h) = pick(&r.handles.keys().cloned().collect::<Vec<_>>(), d) { r.drop_handle(h).await; },
            "break" => if let Some(h) = pick(&live, d) {
                let kind = (idx / 2 + si) % 8;
                let hd = r.handles.get_mut(&h).unwrap();
                let blk = clickhouse_rs::Block::new().column("n", vec![1u64]);
                let ok = {
                    let f = async { match kind {
                        0 => hd.execute("exc").await.is_ok(),
                        1 => hd.query("rexc").fetch_all().await.is_ok(),
                        2 => hd.query("close").fetch_all().await.is_ok(),
                        3 => hd.execute("bad").await.is_ok(),
                        4 => { let mut s = hd.query("rexc").stream(); let mut ok = true; while let Some(x) = s.next().await { if x.is_err() { ok = false; break; } } ok }
                        5 => hd.insert("texc", &blk).await.is_ok(),
                        6 => hd.insert("tclose", &blk).await.is_ok(),
                        _ => hd.query("unexp").fetch_all().await.is_ok(),
                    } };
                    matches!(patient(5, AssertUnwindSafe(f).catch_unwind()).await, Ok(Ok(true)))
                };
                let c = if ok { r.conn_of[&h] } else { 0 };
                r.conn_of.insert(h, c);
                r.settle().await;
                r.rec("break", 0, "none", h, c, 1);
            },
            "half" => if let Some(h) = pick(&live, d) {
                let c = r.conn_of[&h];
                let hd = r.handles.get_mut(&h).unwrap();
                let f = async { let mut s = hd.query("half").stream_blocks(); let _ = s.next().await; };
                let _ = patient(5, AssertUnwindSafe(f).catch_unwind()).await;
                r.settle().await;
                r.rec("half", 0, "none", h, c, 1);
            },
            "recon" => if ping && r.b.gates.lock().unwrap().is_empty() { if let Some(h) = pick(&live, d) {
                let c = r.conn_of[&h];
                r.srv.kill_one(c - 1).await;
                r.b.eof(c - 1);
                r.b.auto.store(true, Ordering::SeqCst);
                let c2 = r.identify(h).await;
                r.b.auto.store(false, Ordering::SeqCst);
                r.conn_of.insert(h, c2);
                r.settle().await;
                r.rec("recon", 0, "none", h, c2, 1);
            } },
            o => panic!("stimulus {o}"),
        }
    }
    finish(&mut r, max).await;
    json!({"min": min, "max": max, "id": idx, "ev": r.events})
}

async fn finish(r: &mut Run, max: u64) {
    // whatever has happened, everybody is served in the end
    r.b.auto.store(true, Ordering::SeqCst);
    for _ in 0..40 {
        let some = !r.b.gates.lock().unwrap().is_empty();
        r.b.answer_all();
        r.settle().await;
        // whoever waits for the attempt that has just come to its end hears of it
        if some { r.rec("ok", 0, "none", 0, 0, 1); }
        r.quiesce().await;
        r.settle().await;
        if !r.woken().is_empty() { continue; }
        let Some(h) = r.handles.keys().next().cloned() else { break };
        r.drop_handle(h).await;
    }
    r.settle().await;
    r.rec("end", 0, "none", 0, 0, 0);
    // and the whole capacity is available
    let pending: Vec<usize> = r.futs.keys().cloned().collect();
    for f in pending { r.futs.remove(&f); }
    let pool = r.pool.clone();
    let mut hs = vec![];
    // (the first request may be told about an earlier attempt that failed)
    for _ in 0..max + 2 {
        if hs.len() as u64 == max { break; }
        match patient(5, AssertUnwindSafe(pool.get_handle()).catch_unwind()).await { Ok(Ok(Ok(h))) => hs.push(h), Ok(Ok(Err(_))) => {} _ => break }
    }
    {
        let mut f = Box::pin(AssertUnwindSafe(pool.get_handle()).catch_unwind());
        for _ in 0..3 { if let Poll::Ready(Ok(Ok(h))) = futures_util::poll!(&mut f) { hs.push(h); break; } r.settle().await; }
    }
    let n = hs.len() as i64;
    // the handles of the probe are not part of the trace
    for h in hs.iter_mut() { let _ = patient(5, h.ping()).await; }
    let open_now = r.b.open.lock().unwrap().len();
    drop(hs);
    r.settle().await;
    r.b.fresh.lock().unwrap().clear();
    r.rec("probe", 0, "none", 0, open_now, n);
    r.rec("end", 0, "none", 0, 0, 0);
}

pub fn prt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().enable_all().event_interval(1).build().unwrap() }

/// pool <stimuli> <out>: out.traces is written beside `out`
pub fn main(input: &str, output: &str, only: Option<&str>) {
    let hs = read_ndjson(input);
    let n = hs.len();
    let t0 = Instant::now();
    let only: Option<Vec<usize>> = only.map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect());
    let out = if let Some(ids) = only {
        // slow confirmation of suspicious ones
        let rt = prt();
        ids.iter().map(|i| rt.block_on(run(&hs[*i], *i, true))).collect::<Vec<_>>()
    } else {
        let hs = Arc::new(hs);
        par_on(n, 1, prt, move |i| { let hs = hs.clone(); async move { Some(run(&hs[i], i, false).await) } })
    };
    let mut out = out;
    out.sort_by_key(|x| x["id"].as_u64());
    let evs: usize = out.iter().map(|x| x["ev"].as_array().unwrap().len()).sum();
    write_ndjson(&format!("{output}.traces"), &out);
    write_json(output, &json!({"histories": out.len(), "events": evs, "secs": t0.elapsed().as_secs_f64()}));
}

// ------------------------------------------------------------------ several threads at once
/// Lets one of several threads run at a time: segs says who may pass how many scheduling points.
pub struct Sched { m: Mutex<SchedState>, cv: std::sync::Condvar }
struct SchedState { segs: Vec<(usize, usize)>, cur: usize, left: usize, done: Vec<bool>, passed: Vec<usize>, free: bool }
impl SchedState {
    fn who(&self) -> Option<usize> { self.segs.get(self.cur).map(|s| s.0) }
    fn advance(&mut self) {
        loop {
            self.cur += 1;
            match self.segs.get(self.cur) {
                None => return,
                Some((t, n)) => { if self.done[*t] || *n == 0 { continue; } self.left = *n; return; }
            }
        }
    }
}
thread_local! { static SLOT: std::cell::RefCell<Option<(Arc<Sched>, usize)>> = const { std::cell::RefCell::new(None) }; }
impl Sched {
    fn new(n: usize, segs: Vec<(usize, usize)>) -> Arc<Sched> {
        let mut st = SchedState { segs, cur: 0, left: 0, done: vec![false; n], passed: vec![0; n], free: false };
        st.left = st.segs[0].1;
        if st.left == 0 { st.advance(); }
        Arc::new(Sched { m: Mutex::new(st), cv: std::sync::Condvar::new() })
    }
    fn wait(&self, id: usize) {
        let mut g = self.m.lock().unwrap();
        // a thread that blocks somewhere else (on a lock held by a paused one) ends the control
        while !g.free && g.who() != Some(id) {
            let (g2, t) = self.cv.wait_timeout(g, Duration::from_millis(300)).unwrap();
            g = g2;
            if t.timed_out() && g.who() != Some(id) { g.free = true; self.cv.notify_all(); }
        }
    }
    fn point(&self, id: usize) {
        {
            let mut g = self.m.lock().unwrap();
            g.passed[id] += 1;
            if g.free { return; }
            if g.left > 0 { g.left -= 1; return; }
            g.advance();
            self.cv.notify_all();
        }
        self.wait(id);
        let mut g = self.m.lock().unwrap();
        if g.left > 0 { g.left -= 1; }
    }
    fn finish(&self, id: usize) {
        let mut g = self.m.lock().unwrap();
        g.done[id] = true;
        if g.who() == Some(id) { g.advance(); }
        self.cv.notify_all();
    }
}
fn hook() {
    let s = SLOT.with(|s| s.try_borrow().ok().and_then(|s| s.clone()));
    if let Some((s, id)) = s { s.point(id) }
}

enum Job { Poll(Fut, Waker), DropHandle(ClientHandle), DropFut(Fut) }
enum Out { Pending(Fut), Ready(Result<ClientHandle>), Panic, Gone }

fn perm(n: usize, mut k: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !v.is_empty() { let i = k % v.len(); k /= v.len(); out.push(v.remove(i)); }
    out
}
const INF: usize = 1 << 30;
pub fn sched_id(sit: usize, p: usize, k: usize, m: usize) -> usize { sit * 1_000_000 + p * 100_000 + k * 300 + m }

/// Runs the situation `h` with its actions on threads of their own; returns the trace and how many points each thread passed
async fn race(h: &J, sit: usize, p: usize, k: usize, m: usize, slow: bool) -> (J, Vec<usize>) {
    let id = sched_id(sit, p, k, m);
    let g = |s: &str| h[s].as_u64().unwrap() as usize;
    let (min, max) = (g("min"), g("max"));
    let b = Arc::new(PB::default());
    let srv = Server::start(b.clone());
    let pool = Pool::new(format!("tcp://{}?pool_min={min}&pool_max={max}&ping_before_query=false&connection_timeout=60s&ping_timeout=20s&retry_timeout=5ms&send_retries=3&execute_timeout=60s&query_timeout=60s&insert_timeout=60s", srv.addr));
    crate::socks::peak(&srv.addr);
    let mut r = Run { pool, b, srv, slow, futs: Default::default(), handles: Default::default(), conn_of: Default::default(), nf: 0, uses: 0, idx: 0, events: vec![] };
    // the situation
    r.b.auto.store(true, Ordering::SeqCst);
    for _ in 0..g("l") + g("i") { r.get().await; for _ in 0..20 { if r.futs.is_empty() { break; } r.quiesce().await; r.settle().await; } }
    r.b.auto.store(false, Ordering::SeqCst);
    let mut lent: Vec<usize> = r.handles.keys().cloned().collect();
    let mut waiting = vec![];
    let st = h["st"].as_str().unwrap();
    if st != "none" {
        waiting.push(r.get().await);
        for _ in 0..20 { if !r.b.gates.lock().unwrap().is_empty() { break; } r.quiesce().await; r.settle().await; }
        if g("w") == 0 { let f = waiting.pop().unwrap(); let x = r.futs.remove(&f); drop(x); r.settle().await; r.rec("cancel", f, "none", 0, 0, 1); }
    }
    while waiting.len() < g("w") { waiting.push(r.get().await); }
    r.quiesce().await;
    for _ in 0..g("i") { let h = lent.pop().unwrap(); r.drop_handle(h).await; }
    if st == "ok" || st == "bad" {
        let c = r.b.gates.lock().unwrap().keys().next().cloned();
        if let Some(c) = c { r.b.answer(c, st == "ok"); r.settle().await; r.rec(if st == "ok" { "ok" } else { "refuse" }, 0, "none", 0, 0, 1); }
    }
    // the actions
    let mut jobs = vec![];
    let mut jix = vec![];
    let mut wakers: Vec<Arc<Wk>> = vec![];
    let mut names: Vec<(String, usize)> = vec![];
    for a in h["act"].as_array().unwrap() {
        let (op, x) = (a[0].as_str().unwrap(), a[1].as_u64().unwrap() as usize);
        let (job, wk, n) = match op {
            "get" => { r.nf += 1; let w = Arc::new(Wk::default()); let f: Fut = Box::pin(r.pool.clone().get_handle()); (Some(Job::Poll(f, w.clone().into())), w, r.nf) }
            "poll" => { let f = waiting.get(x - 11).cloned().unwrap_or(0); match r.futs.remove(&f) { Some((fu, w)) => { w.0.store(false, Ordering::SeqCst); (Some(Job::Poll(fu, w.clone().into())), w, f) } None => (None, Default::default(), f) } }
            "cancel" => { let f = waiting.get(x - 11).cloned().unwrap_or(0); match r.futs.remove(&f) { Some((fu, w)) => (Some(Job::DropFut(fu)), w, f), None => (None, Default::default(), f) } }
            _ => { let hd = lent.get(x - 1).cloned().unwrap_or(0); (r.handles.remove(&hd).map(Job::DropHandle), Default::default(), hd) }
        };
        jix.push(jobs.len());
        if job.is_none() { continue; }
        jobs.push(job.unwrap()); wakers.push(wk); names.push((op.to_string(), n));
    }
    let nt = jobs.len();
    if nt < 2 { finish(&mut r, max as u64).await; return (json!({"min": min, "max": max, "id": id, "ev": r.events}), vec![0; nt]); }
    let mut segs = vec![];
    if let Some(sched) = h["sched"].as_array() {
        // a schedule of PoolWeak.tla; afterwards everybody comes to an end
        for x in sched { let t = x[0].as_u64().unwrap() as usize - 1; segs.push((jix[t].min(nt - 1), x[1].as_u64().unwrap() as usize)); }
        for t in 0..nt { segs.push((t, INF)); }
    } else {
        let pm = perm(nt, p);
        segs.extend([(pm[0], k), (pm[1], if m == 0 { INF } else { m })]);
        for t in pm.iter().skip(2) { segs.push((*t, INF)); }
        segs.push((pm[0], INF)); segs.push((pm[1], INF));
    }
    let sc = Sched::new(nt, segs);
    let hd = tokio::runtime::Handle::current();
    let outs: Vec<Out> = std::thread::scope(|s| {
        let ths: Vec<_> = jobs.into_iter().enumerate().map(|(t, job)| {
            let (sc, hd) = (sc.clone(), hd.clone());
            s.spawn(move || {
                let _e = hd.enter();
                SLOT.with(|x| *x.borrow_mut() = Some((sc.clone(), t)));
                sc.wait(t);
                let r = std::panic::catch_unwind(AssertUnwindSafe(|| match job {
                    Job::Poll(mut f, w) => match f.as_mut().poll(&mut Context::from_waker(&w)) { Poll::Pending => Out::Pending(f), Poll::Ready(x) => Out::Ready(x) },
                    Job::DropHandle(x) => { drop(x); Out::Gone }
                    Job::DropFut(x) => { drop(x); Out::Gone }
                }));
                SLOT.with(|x| *x.borrow_mut() = None);
                sc.finish(t);
                r.unwrap_or(Out::Panic)
            })
        }).collect();
        ths.into_iter().map(|t| t.join().unwrap_or(Out::Panic)).collect()
    });
    let passed = sc.m.lock().unwrap().passed.clone();
    r.settle().await;
    let mut parts = vec![];
    for ((o, w), (op, n)) in outs.into_iter().zip(wakers).zip(names) {
        match o {
            Out::Pending(f) => { r.futs.insert(n, (f, w)); parts.push(("part", n, "pending", 0, 0)); }
            Out::Ready(Ok(h)) => { r.handles.insert(n, h); let c = r.identify(n).await; r.conn_of.insert(n, c); parts.push(("part", n, "got", n, c)); }
            Out::Ready(Err(_)) => parts.push(("part", n, "err", 0, 0)),
            Out::Panic => parts.push(("part", n, "panic", 0, 0)),
            Out::Gone => if op == "cancel" { parts.push(("part", n, "none", 0, 0)) } else { let c = r.conn_of.remove(&n).unwrap_or(0); parts.push(("pdrop", 0, "none", n, c)) },
        }
    }
    r.settle().await;
    // a handle that was dropped is gone before another one can have got its connection
    parts.sort_by_key(|x| x.0 == "part");
    for (k, f, res, h, c) in parts { r.rec(k, f, res, h, c, 1); }
    r.rec("race", 0, "none", 0, 0, 1);
    r.quiesce().await;
    r.settle().await;
    r.rec("settled", 0, "none", 0, 0, 1);
    finish(&mut r, max as u64).await;
    (json!({"min": min, "max": max, "id": id, "ev": r.events}), passed)
}

/// race <situations> <out> <percentage of the schedules with two preemptions> [ids]
pub fn races(input: &str, output: &str, pct: usize, only: Option<&str>) {
    crossbeam::verif_set_hook(hook);
    let hs = read_ndjson(input);
    let n = hs.len();
    let t0 = Instant::now();
    let seed: usize = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut out: Vec<J> = if let Some(ids) = only {
        let rt = prt();
        ids.split(',').filter_map(|x| x.parse::<usize>().ok()).map(|i| rt.block_on(race(&hs[i / 1_000_000], i / 1_000_000, i / 100_000 % 10, i % 100_000 / 300, i % 300, true)).0).collect()
    } else {
        let hs = Arc::new(hs);
        par_on(n, 1, prt, move |i| { let hs = hs.clone(); async move {
            let nt = hs[i]["act"].as_array().unwrap().len();
            let np: usize = (1..=nt).product();
            let mut out = vec![];
            if !hs[i]["sched"].is_null() { out.push(race(&hs[i], i, 0, 0, 0, false).await.0); return Some(out); }
            for p in 0..np {
                let pm = perm(nt, p);
                for k in 0..200 {
                    if enough() { break; }
                    let (t, passed) = race(&hs[i], i, p, k, 0, false).await;
                    out.push(t);
                    if k == 0 { continue; }
                    if passed[pm[0]] < k { break; }
                    for m in 1..200 {
                        let x = (sched_id(i, p, k, m) ^ seed.wrapping_mul(0x9E3779B97F4A7C15)).wrapping_mul(0xD6E8FEB86659FD93) >> 40;
                        if m > passed[pm[1]] || enough() { break; }
                        if x % 100 >= pct { continue; }
                        out.push(race(&hs[i], i, p, k, m, false).await.0);
                    }
                }
            }
            Some(out)
        } }).into_iter().flatten().collect()
    };
    out.sort_by_key(|x| x["id"].as_u64());
    let evs: usize = out.iter().map(|x| x["ev"].as_array().unwrap().len()).sum();
    write_ndjson(&format!("{output}.traces"), &out);
    write_json(output, &json!({"histories": out.len(), "events": evs, "secs": t0.elapsed().as_secs_f64()}));
}
