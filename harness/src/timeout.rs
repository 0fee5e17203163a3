//! Operations against servers that take their time, or never answer (P12).
use crate::server::*;
use crate::util::*;
use crate::wire::PErr;
use clickhouse_rs::errors::{DriverError, Error};
use clickhouse_rs::{Block, ClientHandle, Pool};
use futures_util::FutureExt;
use serde_json::{json, Value as J};
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpSocket, TcpStream};

const NEVER: u64 = 99;
struct Case { r: J, t: u64, armed: AtomicBool, conns: AtomicUsize }
impl Case {
    fn d(&self, i: usize) -> u64 { self.r["d"][i].as_u64().unwrap() }
    fn mode(&self) -> &str { self.r["mode"].as_str().unwrap() }
}
async fn gone(s: &mut TcpStream) { let mut t = [0u8; 4096]; loop { match s.read(&mut t).await { Ok(0) | Err(_) => return, _ => () } } }
/// Sends `out` after the delay; a server that never does returns false.
async fn later(s: &mut TcpStream, c: &Case, d: u64, out: Vec<u8>, drip: bool) -> bool {
    let until = Instant::now() + Duration::from_millis(if d == NEVER { 1 << 20 } else { d * c.t });
    let mut out = out;
    if d > 0 {
        if c.mode() == "half" && out.len() > 1 {
            let k = out.len() / 2;
            if s.write_all(&out[..k]).await.is_err() { return false; }
            out.drain(..k);
        }
        if c.mode() == "drip" && drip {
            while Instant::now() + Duration::from_millis(c.t) < until {
                if s.write_all(&progress(54429, 1)).await.is_err() { return false; }
                tokio::time::sleep(Duration::from_millis(c.t / 3)).await;
            }
        }
        if d == NEVER { gone(s).await; return false; }
        tokio::time::sleep_until(until.into()).await;
    }
    s.write_all(&out).await.is_ok()
}
async fn conn(mut s: TcpStream, c: Arc<Case>) {
    let me = c.conns.fetch_add(1, Ordering::SeqCst);
    let _ = s.set_nodelay(true);
    let mut buf = vec![];
    let mut tmp = vec![0u8; 1 << 14];
    let mut part = 0;
    loop {
        match parse_req(&buf, 54429, false) {
            Err(PErr::More) => match s.read(&mut tmp).await { Ok(n) if n > 0 => { buf.extend_from_slice(&tmp[..n]); continue; } _ => return },
            Err(_) => return,
            Ok((q, n)) => {
                buf.drain(..n);
                let armed = c.armed.load(Ordering::SeqCst);
                let d = |i: usize| if armed { c.d(i) } else { 0 };
                let ok = match q {
                    Req::Hello { .. } => later(&mut s, &c, d(0), hello(54429, "UTC"), false).await,
                    Req::Ping => later(&mut s, &c, if me == 0 { d(1) } else { 0 }, pong(), false).await,
                    Req::Query(q) if q.sql.starts_with("INSERT") => { part = 1; later(&mut s, &c, d(2), data(&u64_block("a", &[]), false), true).await }
                    Req::Query(q) if q.sql.starts_with("SELECT") => {
                        let v = q.sql[7..].trim().parse().unwrap();
                        later(&mut s, &c, d(2), data(&u64_block("a", &[v]), false), true).await && later(&mut s, &c, d(3), eos(), true).await
                    }
                    Req::Query(_) => later(&mut s, &c, d(2), progress(54429, 1), true).await && later(&mut s, &c, d(3), eos(), true).await,
                    Req::Data { block, .. } => if block.cols.is_empty() && part == 1 { part = 0; later(&mut s, &c, d(3), eos(), true).await } else { true },
                    _ => false,
                };
                if !ok { return; }
            }
        }
    }
}
async fn fetch(h: &mut ClientHandle, v: u64) -> Result<(), Error> {
    let b = h.query(format!("SELECT {v}")).fetch_all().await?;
    match b.get::<u64, _>(0, "a") { Ok(x) if x == v && b.row_count() == 1 => Ok(()), x => Err(Error::Other(format!("FOREIGN: asked for {v}, got {} row(s), {x:?}", b.row_count()).into())) }
}
async fn one(r: &J, id: usize, t: u64) -> Option<String> {
    let (op, chk) = (r["op"].as_str().unwrap(), r["chk"].as_str().unwrap());
    let c = Arc::new(Case { r: r.clone(), t, armed: AtomicBool::new(op == "connect"), conns: AtomicUsize::new(0) });
    let cfg = |k: &str| r["cfg"][k].as_u64().unwrap() * t;
    let opt = |k: &str| if cfg(k) == 0 { String::new() } else { format!("&{k}_timeout={}ms", cfg(k)).replace("exec_", "execute_").replace("ins_", "insert_") };
    let l = listen(); l.set_nonblocking(true).unwrap();
    let addr = l.local_addr().unwrap();
    let mut full = vec![];
    let srv = if r["mode"] == "syn" {
        drop(l);
        let k = TcpSocket::new_v4().unwrap();
        k.set_reuseaddr(true).unwrap();
        if k.bind(addr).is_err() { return None; }
        let Ok(l) = k.listen(1) else { return None };
        // its backlog is full, so that another connection isn't established
        loop {
            let k = TcpSocket::new_v4().unwrap();
            match tokio::time::timeout(Duration::from_millis(300), k.connect(addr)).await { Ok(Ok(s)) => full.push(s), Ok(Err(_)) => return None, Err(_) => break }
            if full.len() > 20 { return None; }
        }
        tokio::spawn(async move { let _l = l; std::future::pending::<()>().await })
    } else {
        let l = TcpListener::from_std(l).unwrap();
        let c = c.clone();
        tokio::spawn(async move {
            let mut ts = tokio::task::JoinSet::new();
            while let Ok((s, _)) = l.accept().await { ts.spawn(conn(s, c.clone())); }
        })
    };
    let retries = if chk == "replace" { 1 } else { 0 };
    let pool = Pool::new(format!("tcp://{addr}?connection_timeout={}ms&ping_timeout={}ms&query_timeout={}ms{}{}&ping_before_query={}&send_retries={retries}&retry_timeout=1ms&pool_min=1&pool_max=2",
        cfg("conn"), cfg("ping"), cfg("query"), opt("exec"), opt("ins"), chk != "no"));
    let run = async {
        let mut h = None;
        if op != "connect" {
            h = Some(match pool.get_handle().await { Ok(h) => h, Err(_) => return None });
            c.armed.store(true, Ordering::SeqCst);
        }
        let t0 = Instant::now();
        let fut = async {
            match op {
                "connect" => pool.get_handle().await.map(|x| h = Some(x)),
                "ping" => h.as_mut().unwrap().ping().await,
                "fetch" => fetch(h.as_mut().unwrap(), 7).await,
                "execute" => h.as_mut().unwrap().execute("OPTIMIZE TABLE t").await,
                _ => h.as_mut().unwrap().insert("t", Block::new().column("a", vec![1u64])).await,
            }
        };
        let res = tokio::time::timeout(Duration::from_millis(16 * t), fut).await;
        let el = t0.elapsed().as_secs_f64() * 1000.0;
        let (got, how) = match res {
            Err(_) => ("pending", String::new()),
            Ok(Ok(())) => ("ok", String::new()),
            Ok(Err(Error::Driver(DriverError::Timeout))) => ("timeout", String::new()),
            Ok(Err(e)) => ("err", e.to_string()),
        };
        let (want, at) = (r["res"].as_str().unwrap(), r["at"].as_u64().unwrap());
        if got != want { return Some(format!("ends in {got} {how} after {el:.0} ms instead of {want} after {} ms", at * t)); }
        if el < (at * t) as f64 - 1.5 { return Some(format!("{got} after {el:.1} ms, before its time ({} ms)", at * t)); }
        if el > at as f64 * t as f64 + 0.9 * t as f64 { return Some(format!("{got} after {el:.0} ms instead of {} ms", at * t)); }
        c.armed.store(false, Ordering::SeqCst);
        if r["mode"] == "syn" { return Some(String::new()); }
        // late answers may now come: before the next operation, or during it
        if id % 2 == 1 {
            let all: u64 = (0..4).map(|i| c.d(i)).filter(|d| *d != NEVER).sum();
            tokio::time::sleep_until((t0 + Duration::from_millis(all.min(24) * t + t / 2)).into()).await;
        }
        if let Some(h) = h.as_mut() {
            match fetch(h, 8).await {
                Ok(()) => (),
                Err(e) if e.to_string().contains("FOREIGN") => return Some(format!("next query on the handle: {e}")),
                Err(e) if want == "ok" => return Some(format!("next query on the handle fails: {e}")),
                Err(_) => (),
            }
        }
        let held = h;
        let next = async { let mut g = pool.get_handle().await?; fetch(&mut g, 9).await };
        if let Err(e) = next.await { return Some(format!("next query on another handle: {e}")); }
        drop(held);
        for v in [10, 11] {
            let next = async { let mut g = pool.get_handle().await?; fetch(&mut g, v).await };
            if let Err(e) = next.await { return Some(format!("query on a handle returned to the pool: {e}")); }
        }
        Some(String::new())
    };
    let out = match tokio::time::timeout(Duration::from_secs(60), AssertUnwindSafe(run).catch_unwind()).await {
        Err(_) => Some("an operation after it hangs".into()),
        Ok(Err(p)) => Some(format!("panic: {}", panic_msg(p))),
        Ok(Ok(x)) => x,
    };
    srv.abort();
    out
}
pub fn run(inp: &str, out: &str) {
    let rs = Arc::new(read_ndjson(inp));
    let n = rs.len();
    let mut todo: Vec<usize> = (0..n).collect();
    let mut fails = vec![];
    // a case that doesn't go as it should is run again, slower and with less company
    for (t, width) in [(40, 24), (100, 8), (200, 4), (400, 2)] {
        if todo.is_empty() { break; }
        let (rs, ids) = (rs.clone(), Arc::new(std::mem::take(&mut todo)));
        let rs2 = rs.clone();
        let mut v: Vec<(usize, Option<String>)> = par(ids.len(), width, move |i| { let (rs, ids) = (rs2.clone(), ids.clone()); async move { let i = ids[i]; let x = one(&rs[i], i, t).await; if x.as_deref() == Some("") { None } else { Some((i, x)) } } });
        v.sort();
        if t == 40 { eprintln!("{} of {n} cases run again", v.len()); }
        if t == 400 || v.len() > 300 && t == 100 { for (i, x) in v { fails.push(json!({"case": rs[i], "what": x.unwrap_or_else(|| "no connection".into())})); } break; }
        todo = v.into_iter().map(|x| x.0).collect();
    }
    write_json(out, &json!({"cases": n, "fails": fails}));
}
