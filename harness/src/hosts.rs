//! Replays histories of Hosts.tla.
use crate::server::*;
use crate::util::*;
use clickhouse_rs::Pool;
use futures_util::FutureExt;
use serde_json::{json, Value as J};
use std::panic::AssertUnwindSafe;
use std::sync::Arc;
use std::time::{Duration, Instant};

struct H(Vec<String>, std::sync::Mutex<std::collections::HashMap<usize, usize>>);
impl Behave for H {
    fn accept(&self, c: usize, host: usize) -> Vec<Act> {
        self.1.lock().unwrap().insert(c, host);
        match self.0[host].as_str() { "refuse" => vec![Act::Close], "mute" => vec![Act::Stall], _ => vec![] }
    }
    fn req(&self, _: usize, r: &Req) -> Vec<Act> {
        match r {
            Req::Hello { .. } => vec![Act::Send(hello(54429, "UTC"))],
            Req::Ping => vec![Act::Send(pong())],
            Req::Query(_) => vec![Act::Send(eos())],
            _ => vec![],
        }
    }
}
/// None: as specified; Some(text): what went differently
pub async fn run(h: &J, scale: u64) -> Option<String> {
    let kinds: Vec<String> = h["kinds"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect();
    let b = Arc::new(H(kinds.clone(), Default::default()));
    let sh = Shared::default();
    let mut addrs = vec![];
    let mut srvs = vec![];
    // very many attempts before the history: nobody listens yet, which leaves no connections behind
    let warm = h["warm"].as_u64().unwrap() as usize;
    let late = warm > 12;
    for (i, k) in kinds.iter().enumerate() {
        if k == "dead" || late {
            // a bound socket that does not listen: connecting to it is refused, and nobody else gets the port
            let s = tokio::net::TcpSocket::new_v4().unwrap();
            s.bind("127.0.0.1:0".parse().unwrap()).unwrap();
            addrs.push(s.local_addr().unwrap());
            srvs.push((None, Some(s)));
        } else {
            let s = Server::start_host(b.clone(), i, sh.clone());
            addrs.push(s.addr);
            srvs.push((Some(s), None));
        }
    }
    let alt = addrs[1..].iter().map(|a| a.to_string()).collect::<Vec<_>>().join(",");
    let mut url = format!("tcp://{}?pool_min={}&pool_max={}&ping_before_query=true&send_retries=1&retry_timeout=1ms&ping_timeout=20s&connection_timeout={}ms", addrs[0], h["min"], h["max"], if kinds.iter().any(|k| k == "mute") { 60 * scale } else { 20000 });
    if !alt.is_empty() { url += &format!("&alt_hosts={alt}"); }
    let pool = Pool::new(url);
    let mut kept: std::collections::VecDeque<(usize, clickhouse_rs::ClientHandle)> = Default::default();
    let mut tag = 0;
    let mut accepted = 0;
    // attempts made before
    for _ in 0..warm {
        match patient(10, AssertUnwindSafe(pool.get_handle()).catch_unwind()).await { Ok(Ok(r)) => drop(r), Ok(Err(p)) => return Some(format!("before: panic {}", panic_msg(p))), Err(_) => return Some("before: hangs".into()) };
    }
    if late {
        for i in (0..kinds.len()).filter(|i| kinds[*i] != "dead") {
            let s = srvs[i].1.take().unwrap();
            srvs[i].0 = Some(Server::on(s.listen(64).unwrap().into_std().unwrap(), b.clone(), i, sh.clone()));
        }
    }
    let mut should: Vec<usize> = (0..if late { 0 } else { warm }).map(|k| k % kinds.len()).filter(|k| kinds[*k] != "dead").collect();
    for (i, st) in h["steps"].as_array().unwrap().iter().enumerate() {
        let want = st["host"].as_u64().unwrap() as usize - 1;
        let ok = st["ok"].as_bool().unwrap();
        let mut got: Option<clickhouse_rs::ClientHandle> = None;
        match st["op"].as_str().unwrap() {
            "drop" => drop(kept.pop_front()),
            "get" => {
                let r = match patient(10, AssertUnwindSafe(pool.get_handle()).catch_unwind()).await { Ok(Ok(r)) => r, Ok(Err(p)) => return Some(format!("step {i}: panic {}", panic_msg(p))), Err(_) => return Some(format!("step {i}: hangs")) };
                if r.is_ok() != ok { return Some(format!("step {i}: {} expected {} (kinds {kinds:?})", if r.is_ok() { "succeeded" } else { "failed" }, if ok { "success" } else { "failure" })); }
                got = r.ok();
            }
            _ => {
                let (conn, hd) = kept.pop_front().unwrap();
                let host = b.1.lock().unwrap()[&conn];
                srvs[host].0.as_ref().unwrap().kill_one(conn).await;
                got = Some(hd);
            }
        }
        // what is asked for shows where the handle leads to
        let mut conn = None;
        if let Some(hd) = got.as_mut() {
            tag += 1;
            let q = format!("t{tag}");
            match patient(10, hd.execute(q.as_str())).await {
                Ok(Ok(())) if !ok => return Some(format!("step {i}: statement succeeded (kinds {kinds:?})")),
                Ok(Err(e)) if ok => return Some(format!("step {i}: statement failed: {e}")),
                Err(_) => return Some(format!("step {i}: statement hangs")),
                _ => {}
            }
            conn = sh.log.lock().unwrap().iter().find_map(|e| match e { Ev::Req { conn, req: Req::Query(x) } if x.sql == q => Some(*conn), _ => None });
            let host = conn.and_then(|c| b.1.lock().unwrap().get(&c).cloned());
            if ok && host != Some(want) { return Some(format!("step {i}: handle leads to host {host:?}, expected {want}")); }
        }
        settle().await; settle().await;
        // where did the attempts go, as far as a listening host can tell
        let acc: Vec<usize> = sh.log.lock().unwrap().iter().filter_map(|e| match e { Ev::Accept { host, .. } => Some(*host), _ => None }).collect();
        let fresh: Vec<usize> = acc[accepted..].to_vec();
        accepted = acc.len();
        should.extend(st["tried"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).filter(|k| kinds[*k] != "dead"));
        if fresh != should { return Some(format!("step {i}: hosts contacted {fresh:?}, expected {should:?} (kinds {kinds:?})")); }
        should.clear();
        if let Some(hd) = got {
            if ok && (st["keep"].as_bool().unwrap() || st["op"] == "recon") { if st["op"] == "recon" { kept.push_front((conn.unwrap(), hd)) } else { kept.push_back((conn.unwrap(), hd)) } }
        }
    }
    None
}
pub fn main(input: &str, output: &str) {
    let hs = Arc::new(read_ndjson(input));
    let n = hs.len();
    let t0 = Instant::now();
    let h2 = hs.clone();
    let bad: Vec<usize> = par(n, 16, move |i| { let h = h2.clone(); async move { run(&h[i], 1).await.map(|_| i) } });
    let rt = rt();
    let mut out = vec![];
    for i in bad.into_iter().take(30) { if let Some(m) = rt.block_on(run(&hs[i], 10)) { out.push(json!({"history": i, "what": m, "steps": hs[i]})); } }
    write_json(output, &json!({"histories": n, "fails": out, "secs": t0.elapsed().as_secs_f64()}));
}
