//! Replays behaviours of Retry.tla: what a handle goes through to find a working connection.
use crate::server::*;
use crate::session::{blk_rows, step, Out, Source};
use crate::util::*;
use clickhouse_rs::{ClientHandle, Pool};
use futures_util::FutureExt;
use serde_json::{json, Value as J};
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct B { fates: Vec<String>, on: AtomicBool, insert: bool, more: Mutex<Vec<String>> }
impl B { fn fate(&self, c: usize) -> &str { if self.on.load(SeqCst) { self.fates.get(c).map(|s| s.as_str()).unwrap_or("up") } else { "up" } } }
impl Behave for B {
    fn accept(&self, c: usize, _: usize) -> Vec<Act> { if self.fate(c) == "refuse" { vec![Act::Close] } else { vec![] } }
    fn req(&self, c: usize, r: &Req) -> Vec<Act> {
        let exc = || Act::Send(exception(7, "DB::Exception", "not now", ""));
        match (r, self.fate(c)) {
            (Req::Hello { .. }, "helloexc") => vec![exc(), Act::Close],
            (Req::Hello { .. }, "hellobad") => vec![Act::Send(vec![99, 1]), Act::Close],
            (Req::Hello { .. }, _) => vec![Act::Send(hello(54429, "UTC"))],
            (Req::Ping, "exc") => vec![exc()],
            (Req::Ping, "bad") => vec![Act::Send(vec![99, 1])],
            (Req::Ping, "drop") => vec![Act::Close],
            (Req::Ping, "mute") => vec![Act::Stall],
            (Req::Ping, _) => vec![Act::Send(pong())],
            (Req::Query(_), _) if self.insert => vec![Act::Send(data(&u64_block("n", &[]), false))],
            (Req::Query(_), _) => vec![Act::Send(data(&u64_block("n", &[]), false)), Act::Send(data(&u64_block("n", &blk_rows(1, 1)), false)), Act::Send(eos())],
            (Req::Data { block, .. }, _) => if block.cols.is_empty() { vec![Act::Send(eos())] } else { vec![] },
            (Req::Bad(m), _) => { self.more.lock().unwrap().push(m.clone()); vec![] }
            _ => vec![],
        }
    }
}
fn strs(v: &J) -> Vec<String> { v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect() }

pub async fn run(h: &J, i: usize, scale: u64) -> Option<String> {
    let (idle, news) = (strs(&h["idle"]), strs(&h["news"]));
    let (cur, op, end) = (h["cur"].as_str().unwrap().to_string(), h["op"].as_str().unwrap(), h["end"].as_str().unwrap());
    let (r, k) = (h["r"].as_u64().unwrap(), idle.len());
    let mut fates = vec![cur];
    fates.extend(idle); fates.extend(news.iter().cloned());
    let slow = fates.iter().any(|f| f == "mute");
    let b = Arc::new(B { fates: fates.clone(), on: AtomicBool::new(false), insert: op == "insert", more: Default::default() });
    let srv = Server::start(b.clone());
    let url = format!("tcp://{}?ping_before_query=true&send_retries={r}&retry_timeout=1ms&ping_timeout={}ms&connection_timeout=20s&query_timeout=20s&execute_timeout=20s&insert_timeout=20s&pool_min={}&pool_max={}",
        srv.addr, if slow { 150 * scale } else { 20000 }, k.max(1), k + 1 + i % 2);
    let src = if h["src"] == "pool" { Source::Pool(Pool::new(url.as_str())) } else { Source::Single(url.parse().unwrap()) };
    // the handle, and idle connections beside it
    let mut handle: Option<ClientHandle> = match src.get().await { Ok(c) => Some(c), Err(e) => return Some(format!("no handle at all: {e}")) };
    let mut others = vec![];
    for _ in 0..k { match src.get().await { Ok(c) => others.push(c), Err(e) => return Some(format!("no second handle: {e}")) } }
    for c in others { drop(c); settle().await; }
    if srv.accepts() != k + 1 { return Some(format!("{} connections for {} handles", srv.accepts(), k + 1)); }
    b.on.store(true, SeqCst);
    for (c, f) in fates[..=k].iter().enumerate() { if f == "closed" { srv.kill_one(c).await; } }
    settle().await;
    let out = match patient(20, AssertUnwindSafe(step(&src, &mut handle, op, "ok2", 1, i)).catch_unwind()).await {
        Ok(Ok(o)) => o,
        Ok(Err(p)) => return Some(format!("panic: {}", panic_msg(p))),
        Err(_) => return Some("hangs".into()),
    };
    settle().await;
    let ok = match &out { Out::Rows(v) => { if *v != blk_rows(1, 1) { return Some(format!("answered {v:?}")); } true } Out::Ok => true, Out::Dropped(_) => true, Out::Err(_) | Out::Exc(..) => false, o => return Some(format!("{o:?}")) };
    // what the server saw
    let qs: Vec<usize> = srv.queries().iter().map(|q| q.0).collect();
    if let Some(c) = qs.iter().find(|c| b.fate(**c) != "up") { return Some(format!("statement sent on connection {c}, which is {} ({})", b.fate(*c), if ok { "succeeded" } else { "failed" })); }
    if qs.len() > 1 { return Some(format!("statement sent {} times", qs.len())); }
    let made = srv.accepts() - k - 1;
    if made as u64 > r + 1 { return Some(format!("{made} connection attempts with send_retries={r}")); }
    if ok != (end == "ok") { return Some(format!("{} instead of {end}: {out:?} (connections made: {made})", if ok { "succeeded" } else { "failed" })); }
    if ok != (qs.len() == 1) { return Some(format!("{} and the statement was sent {} times", if ok { "succeeded" } else { "failed" }, qs.len())); }
    // it was asked whether it works, immediately before
    for c in &qs {
        let mut last = None;
        for e in srv.events() { if let Ev::Req { conn, req } = e { if conn == *c { match req { Req::Query(_) => break, r => last = Some(r) } } } }
        if !matches!(last, Some(Req::Ping)) { return Some("statement sent on a connection that was not asked whether it works".into()); }
    }
    if made > news.len() { return Some(format!("{made} connections made instead of {}", news.len())); }
    if let Some(m) = b.more.lock().unwrap().first() { return Some(format!("protocol: {m}")); }
    None
}
pub fn main(input: &str, output: &str) {
    let hs = Arc::new(read_ndjson(input));
    let n = hs.len();
    let t0 = Instant::now();
    let h2 = hs.clone();
    let bad: Vec<usize> = par(n, 24, move |i| { let h = h2.clone(); async move { run(&h[i], i, 1).await.map(|_| i) } });
    let rt = rt();
    let mut out = vec![];
    for i in bad.into_iter().take(30) { if let Some(m) = rt.block_on(async { tokio::time::timeout(Duration::from_secs(60), run(&hs[i], i, 8)).await.unwrap_or(Some("hangs".into())) }) { out.push(json!({"history": i, "what": m, "case": hs[i]})); } }
    write_json(output, &json!({"histories": n, "fails": out, "secs": t0.elapsed().as_secs_f64()}));
}
