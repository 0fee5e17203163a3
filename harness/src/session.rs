//! Replays histories of Session.tla against the real client.
use crate::server::*;
use crate::util::*;
use clickhouse_rs::{errors::Error, types::Query, Block, Client, ClientHandle, Options, Pool};
use futures_util::{FutureExt, StreamExt};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::panic::AssertUnwindSafe;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Env { Up, Refuse, NoPing, Hello(usize) }
#[derive(Default, Clone)]
struct ConnSt { tag: usize, rest: Vec<Act>, muted: bool, noping: bool, hello: usize, png: usize, data: Vec<Vec<u8>> }
struct Beh {
    rot: usize,
    comp: bool,
    behs: Vec<String>,
    pings: Vec<bool>,
    connects: Vec<bool>,
    st: Mutex<HashMap<usize, ConnSt>>,
    env: Mutex<Env>,
    bad: Mutex<Vec<String>>,
    ins: Mutex<HashMap<usize, Vec<Vec<u8>>>>,
}
pub fn blk_rows(tag: usize, n: usize) -> Vec<u64> { vec![(tag * 100 + n * 10) as u64, (tag * 100 + n * 10 + 1) as u64] }
/// Exception texts of different shapes; which one a statement gets rotates over histories.
pub fn exc_of(tag: usize, rot: usize) -> (i32, String, String, String) {
    let (n, m, st) = (format!("DB::Exception{tag}"), format!("DB::Exception: went wrong in {tag} \u{2603}"), format!("0. frame {tag}\n1. main"));
    match (rot + tag) % 6 {
        0 => (1000 + tag as i32, n, m, st),
        1 => (1000 + tag as i32, n, m, String::new()),
        2 => (tag as i32, String::new(), format!("{tag}"), String::new()),
        3 => (-(tag as i32), n, "m\u{0}'\\\n".repeat(50) + &format!("{tag}"), st.repeat(40)),
        4 => (i32::MAX - tag as i32, n.repeat(20), String::new(), st),
        _ => (159, "TIMEOUT_EXCEEDED".into(), format!("  Timeout exceeded: elapsed {tag} s.\t"), format!(" \n{tag}\n\n")),
    }
}
impl Beh {
    fn hdr(&self) -> Act { Act::Send(data(&u64_block("n", &[]), self.comp)) }
    fn blk(&self, t: usize, n: usize) -> Act { Act::Send(data(&u64_block("n", &blk_rows(t, n)), self.comp)) }
    fn exc(&self, t: usize) -> Act { let (c, n, m, s) = exc_of(t, self.rot); Act::Send(exception(c, &n, &m, &s)) }
    fn script(&self, t: usize) -> Vec<Act> {
        let eos_ = Act::Send(eos());
        let prog = Act::Send(progress(54429, t as u64));
        match self.behs[t].as_str() {
            "ok0" => vec![self.hdr(), eos_],
            "ok2" => vec![self.hdr(), self.blk(t, 1), prog, self.blk(t, 2), Act::Send(profile()), eos_],
            "none" | "insnohdr" => vec![eos_],
            "exc0" | "insexc0" => vec![self.exc(t)],
            "exc1" => vec![self.hdr(), self.blk(t, 1), self.exc(t)],
            "excclose" => vec![self.hdr(), self.exc(t), Act::Close],
            "close0" | "insclose0" => vec![Act::Close],
            "close1" => vec![self.hdr(), self.blk(t, 1), Act::Close],
            "reset1" => vec![self.hdr(), self.blk(t, 1), Act::Reset],
            "bad1" => vec![self.hdr(), self.blk(t, 1), Act::Send(vec![99, 1, 2, 3])],
            "unexp1" => vec![self.hdr(), self.blk(t, 1), Act::Send(pong())],
            "full" => vec![self.hdr(), self.blk(t, 1), self.blk(t, 2), eos_],
            "parteos" | "partblk" | "partexc" | "partsilent" | "stall" => vec![self.hdr(), self.blk(t, 1)],
            "ins" => vec![Act::Send(table_columns()), self.hdr()],
            "insexc" | "insclose" | "insstall" => vec![self.hdr()],
            o => panic!("behaviour {o}"),
        }
    }
    /// The answer to a greeting or a ping, and what it should have been.
    fn other(&self, t: usize, beh: &str, good: Vec<u8>) -> Vec<Act> {
        match beh {
            "ok0" => vec![Act::Send(good)],
            "exc0" => vec![self.exc(t)],
            "excclose" => vec![self.exc(t), Act::Close],
            "close0" => vec![Act::Close],
            "cut" => vec![Act::Send(good[..(self.rot + t) % good.len()].to_vec()), Act::Close],
            "bad1" => vec![Act::Send(vec![99, 1, 2, 3])],
            "unexp1" => vec![if self.rot % 2 == 0 { Act::Send(progress(54429, t as u64)) } else { Act::Send(eos()) }],
            o => panic!("behaviour {o}"),
        }
    }
    fn rest(&self, t: usize) -> Vec<Act> {
        match self.behs[t].as_str() {
            "parteos" => vec![Act::Send(eos())],
            "partblk" => vec![self.blk(t, 2), Act::Send(progress(54429, 1)), Act::Send(eos())],
            "partexc" => vec![self.exc(t)],
            _ => vec![],
        }
    }
    fn script2(&self, t: usize) -> Vec<Act> {
        match self.behs[t].as_str() {
            "ins" => vec![Act::Send(eos())],
            "insexc" => vec![self.exc(t)],
            "insclose" => vec![Act::Close],
            _ => vec![],
        }
    }
}
fn tag_of(sql: &str) -> Option<usize> {
    let s: String = sql.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    s.parse().ok()
}
impl Behave for Beh {
    fn accept(&self, conn: usize, _: usize) -> Vec<Act> {
        let env = *self.env.lock().unwrap();
        self.st.lock().unwrap().insert(conn, ConnSt { noping: env == Env::NoPing, hello: if let Env::Hello(t) = env { t } else { 0 }, ..Default::default() });
        if env == Env::Refuse { vec![Act::Close] } else { vec![] }
    }
    fn req(&self, conn: usize, req: &Req) -> Vec<Act> {
        let mut st = self.st.lock().unwrap();
        let c = st.entry(conn).or_default();
        if c.muted { return vec![Act::Stall]; }
        match req {
            Req::Hello { .. } if c.hello > 0 => self.other(c.hello, if self.connects[c.hello] { &self.behs[c.hello] } else { "exc0" }, hello(54429, "UTC")),
            Req::Hello { .. } => vec![Act::Send(hello(54429, "UTC"))],
            Req::Ping if c.png > 0 => self.other(c.png, if self.pings[c.png] { &self.behs[c.png] } else { "exc0" }, pong()),
            Req::Ping => if c.noping { vec![] } else { vec![Act::Send(pong())] },
            Req::Cancel => std::mem::take(&mut c.rest),
            Req::Query(q) => {
                let Some(t) = tag_of(&q.sql).filter(|t| *t < self.behs.len()) else {
                    self.bad.lock().unwrap().push(format!("unexpected statement {:?}", q.sql));
                    return vec![Act::Close];
                };
                c.tag = t;
                c.rest = self.rest(t);
                self.script(t)
            }
            Req::Data { block, .. } => {
                let t = c.tag;
                if block.cols.is_empty() {
                    self.ins.lock().unwrap().entry(t).or_default().append(&mut c.data);
                    self.script2(t)
                } else {
                    for col in &block.cols { c.data.push(col.2.clone()); }
                    vec![]
                }
            }
            Req::Bad(m) => { self.bad.lock().unwrap().push(m.clone()); vec![] }
        }
    }
}

#[derive(Debug, Clone)]
pub enum Out { Rows(Vec<u64>), Ok, Exc(u32, String, String, String), Err(String), Panic(String), Hang, Dropped(Vec<u64>), Cancelled }
fn err(e: Error) -> Out {
    match e { Error::Server(s) => Out::Exc(s.code, s.name, s.message, s.stack_trace), e => Out::Err(e.to_string()) }
}

const STALLS: [&str; 5] = ["stall", "partsilent", "insstall", "mute", "killnoping"];

pub struct Fail { pub kind: String, pub step: usize, pub op: String, pub beh: String, pub pre: String, pub prior: Vec<String>, pub detail: String }
impl Fail {
    pub fn json(&self) -> J { json!({"kind": self.kind, "step": self.step, "op": self.op, "beh": self.beh, "pre": self.pre, "prior": self.prior, "detail": self.detail}) }
}

/// Where handles come from.
pub enum Source { Pool(Pool), Single(Options) }
impl Source {
    #[allow(deprecated)]
    pub async fn get(&self) -> Result<ClientHandle, Error> {
        match self { Source::Pool(p) => p.get_handle().await, Source::Single(o) => Client::connect(o.clone()).await }
    }
}

pub async fn run(h: &J, idx: usize, scale: u64) -> Vec<Fail> {
    let ping = h["cfg"]["ping"].as_bool().unwrap();
    let comp = h["cfg"]["comp"].as_bool().unwrap();
    let retries = h["retries"].as_u64().unwrap();
    let steps = h["steps"].as_array().unwrap();
    let g = |i: usize, k: &str| steps[i - 1][k].as_str().unwrap().to_string();
    let n = steps.len();
    let slow = (1..=n).any(|i| STALLS.contains(&g(i, "beh").as_str()) || STALLS.contains(&g(i, "pre").as_str()));
    let mut behs = vec!["ok0".to_string()];
    for i in 1..=n { behs.push(g(i, "beh")); }
    let b = Arc::new(Beh { rot: idx, comp, behs, pings: (0..=n).map(|i| i > 0 && g(i, "op") == "ping").collect(), connects: (0..=n).map(|i| i > 0 && g(i, "op") == "connect").collect(), st: Default::default(), env: Mutex::new(Env::Up), bad: Default::default(), ins: Default::default() });
    let srv = Server::start(b.clone());
    let (t, p) = if slow { (400 * scale, 200 * scale) } else { (30000, 30000) };
    let url = format!(
        "tcp://{}?compression={}&ping_before_query={ping}&query_timeout={t}ms&execute_timeout={t}ms&insert_timeout={t}ms&ping_timeout={p}ms&connection_timeout={}ms&retry_timeout=5ms&send_retries={retries}&pool_min=1&pool_max=1",
        srv.addr, if comp { "lz4" } else { "none" }, 30000);
    let pool = if h["cfg"]["pool"] == true { Source::Pool(Pool::new(url.as_str())) } else { Source::Single(url.parse().unwrap()) };
    let mut fails: Vec<Fail> = vec![];
    let mut handle: Option<ClientHandle> = match AssertUnwindSafe(pool.get()).catch_unwind().await {
        Ok(Ok(h)) => Some(h),
        x => { fails.push(Fail { kind: "setup".into(), step: 0, op: "connect".into(), beh: String::new(), pre: String::new(), prior: vec![], detail: format!("{:?}", x.map(|r| r.map(|_| ()).map_err(|e| e.to_string())).is_ok()) }); return fails; }
    };
    let mut prior: Vec<String> = vec![];
    for i in 1..=n {
        let (op, beh, pre) = (g(i, "op"), g(i, "beh"), g(i, "pre"));
        let before = srv.accepts();
        match pre.as_str() {
            "kill" => srv.kill_conns().await,
            "killrefuse" => { srv.kill_conns().await; *b.env.lock().unwrap() = Env::Refuse; }
            "killnoping" => { srv.kill_conns().await; *b.env.lock().unwrap() = Env::NoPing; }
            "killexc" => { srv.kill_conns().await; *b.env.lock().unwrap() = Env::Hello(i); }
            "pingexc" => { for c in b.st.lock().unwrap().values_mut() { c.png = i; } }
            "mute" => { for c in b.st.lock().unwrap().values_mut() { c.muted = true; } }
            _ => {}
        }
        if op == "ping" && beh != "ok0" { for c in b.st.lock().unwrap().values_mut() { c.png = i; } }
        let guard = Duration::from_millis(if op == "stream" || op.starts_with("drop") { t.min(30000) * if ping { 8 } else { 1 } } else { t * 10 + p * 10 });
        let out = {
            let fut = AssertUnwindSafe(async { if op == "connect" { connect(&b, &pool, &url, i).await } else { step(&pool, &mut handle, &op, &beh, i, idx).await } }).catch_unwind();
            match (if slow { tokio::time::timeout(guard, fut).await } else { patient(25, fut).await }) {
                Ok(Ok(o)) => o,
                Ok(Err(p)) => Out::Panic(panic_msg(p)),
                Err(_) if (op == "stream" || op.starts_with("drop")) && !ping && slow => Out::Err("no answer".into()),
                Err(_) => Out::Hang,
            }
        };
        *b.env.lock().unwrap() = Env::Up;
        for c in b.st.lock().unwrap().values_mut() { c.png = 0; }
        settle().await;
        // ------------------------------------------------ judge
        let st = &steps[i - 1];
        let ans = st["ans"]["res"].as_str().unwrap();
        let blocks: Vec<usize> = st["ans"]["blocks"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let rows: Vec<u64> = blocks.iter().flat_map(|n| blk_rows(i, *n)).collect();
        let must = st["must"].as_bool().unwrap();
        let mustfail = st["fail"].as_bool().unwrap();
        let mut bad: Option<(&str, String)> = None;
        let e = exc_of(i, idx);
        let is_answer = match (&out, ans) {
            (Out::Rows(r), "rows") => *r == rows,
            (Out::Dropped(r), "dropped") => *r == rows,
            (Out::Ok, "ok") => true,
            (Out::Cancelled, "cancelled") => true,
            (Out::Exc(c, n, m, s), "exc") => (*c as i32, n, m, s) == (e.0, &e.1, &e.2, &e.3),
            (Out::Err(_), "err") => true,
            _ => false,
        };
        match &out {
            Out::Panic(m) => bad = Some(("panic", m.clone())),
            Out::Hang => bad = Some(("hang", "operation did not end".into())),
            Out::Exc(c, n, m, s) if mustfail && pre == "killexc" && (*c as i32, n, m, s) == (e.0, &e.1, &e.2, &e.3) => {}
            _ if mustfail => if !matches!(out, Out::Err(_)) { bad = Some(("success", format!("{out:?}"))) },
            _ if is_answer => {}
            Out::Err(m) => if must { bad = Some((if ans == "exc" { "lost_exception" } else { "err" }, m.clone())) },
            Out::Exc(..) if ans != "exc" => bad = Some(("foreign", format!("{out:?}"))),
            Out::Exc(..) => bad = Some(("exception", format!("{out:?} instead of {e:?}"))),
            Out::Rows(r) | Out::Dropped(r) if r.iter().any(|x| (*x / 100) as usize != i) => bad = Some(("foreign", format!("{out:?}"))),
            _ if ans == "err" => bad = Some(("success", format!("{out:?}"))),
            _ if ans == "exc" => bad = Some(("lost_exception", format!("{out:?}"))),
            _ => bad = Some(("wrong", format!("{out:?} instead of {ans} {rows:?}"))),
        }
        let qs = srv.queries().iter().filter(|q| tag_of(&q.1) == Some(i)).count();
        if bad.is_none() && qs > 1 { bad = Some(("sent_twice", format!("statement reached the server {qs} times"))); }
        if bad.is_none() && mustfail && qs > 0 { bad = Some(("sent_when_failed", String::new())); }
        if bad.is_none() && matches!(out, Out::Rows(_) | Out::Ok) && ["fetch", "stream", "exec", "insert"].contains(&op.as_str()) && qs == 0 { bad = Some(("not_sent", String::new())); }
        let made = srv.accepts() - before;
        if bad.is_none() && made as u64 > retries + 1 { bad = Some(("attempts", format!("{made} connection attempts with send_retries={retries}"))); }
        if bad.is_none() && op == "insert" && matches!(out, Out::Ok) {
            let want: Vec<u8> = blk_rows(i, 0).iter().flat_map(|x| x.to_le_bytes()).collect();
            let got = b.ins.lock().unwrap().get(&i).cloned().unwrap_or_default();
            if got != vec![want] { bad = Some(("insert_data", format!("{got:?}"))); }
        }
        if bad.is_none() {
            if let Some(m) = b.bad.lock().unwrap().first() { bad = Some(("protocol", m.clone())); }
        }
        if let Some((k, d)) = bad {
            fails.push(Fail { kind: k.into(), step: i, op, beh, pre, prior: prior.clone(), detail: d });
            std::mem::forget(handle.take());
            return fails;
        }
        prior.push(op.clone());
        prior.push(beh.clone());
        if pre != "none" { prior.push(pre.clone()); }
    }
    fails
}

fn ins_block(i: usize) -> Block { Block::new().column("n", blk_rows(i, 0)) }

/// A connection of its own, made while greetings are answered as step `i` says; another one works afterwards.
async fn connect(b: &Beh, pool: &Source, url: &str, i: usize) -> Out {
    let other = match pool { Source::Pool(_) => Source::Pool(Pool::new(url)), Source::Single(o) => Source::Single(o.clone()) };
    *b.env.lock().unwrap() = Env::Hello(i);
    let r = other.get().await;
    *b.env.lock().unwrap() = Env::Up;
    let out = match r { Ok(mut h) => match h.ping().await { Ok(()) => Out::Ok, Err(e) => return Out::Panic(format!("a new connection does not work: {e}")) }, Err(e) => err(e) };
    match other.get().await { Ok(mut h) => match h.ping().await { Ok(()) => out, Err(e) => Out::Panic(format!("the next connection does not work: {e}")) }, Err(e) => Out::Panic(format!("no connection afterwards: {e}")) }
}

pub async fn step(pool: &Source, handle: &mut Option<ClientHandle>, op: &str, beh: &str, i: usize, idx: usize) -> Out {
    let sql = Query::new(format!("q{i}"));
    match op {
        "renew" => {
            drop(handle.take());
            match pool.get().await { Ok(h) => { *handle = Some(h); Out::Ok } Err(e) => err(e) }
        }
        "ping" => match handle.as_mut().unwrap().ping().await { Ok(()) => Out::Ok, Err(e) => err(e) },
        "fetch" => match handle.as_mut().unwrap().query(sql).fetch_all().await {
            Ok(b) => {
                let mut v = vec![];
                for r in b.rows() { match r.get::<u64, _>(0) { Ok(x) => v.push(x), Err(e) => return err(e) } }
                Out::Rows(v)
            }
            Err(e) => err(e),
        },
        "stream" => {
            let mut s = handle.as_mut().unwrap().query(sql).stream();
            let mut v = vec![];
            while let Some(r) = s.next().await {
                match r { Ok(r) => v.push(r.get::<u64, _>("n").unwrap_or(u64::MAX)), Err(e) => return err(e) }
            }
            Out::Rows(v)
        }
        "exec" => match handle.as_mut().unwrap().execute(sql).await { Ok(()) => Out::Ok, Err(e) => err(e) },
        "insert" => match handle.as_mut().unwrap().insert(format!("t{i}"), ins_block(i)).await { Ok(()) => Out::Ok, Err(e) => err(e) },
        "drop0" | "drop1" => {
            let mut s = handle.as_mut().unwrap().query(sql).stream_blocks();
            let mut v = vec![];
            if op == "drop0" {
                // sent, nothing taken: poll until the statement has gone out
                for _ in 0..6 { if let std::task::Poll::Ready(x) = futures_util::poll!(s.next()) {
                    match x { Some(Ok(_)) | None => {} , Some(Err(e)) => return err(e) }
                    break;
                } settle().await; }
                return Out::Dropped(vec![]);
            }
            match s.next().await {
                Some(Ok(b)) => { for r in b.rows() { v.push(r.get::<u64, _>(0).unwrap_or(u64::MAX)); } Out::Dropped(v) }
                Some(Err(e)) => err(e),
                None => Out::Dropped(v),
            }
        }
        "cancel" => {
            let k = (idx / 3) % 8;
            let h = handle.as_mut().unwrap();
            macro_rules! part { ($f:expr) => {{
                let f = $f;
                futures_util::pin_mut!(f);
                for _ in 0..k { if futures_util::poll!(&mut f).is_ready() { break; } settle().await; }
            }} }
            if beh.starts_with("ins") { part!(h.insert(format!("t{i}"), ins_block(i))) }
            else if idx % 3 < 2 { part!(h.query(sql).fetch_all()) }
            else { part!(h.execute(sql)) }
            Out::Cancelled
        }
        o => panic!("op {o}"),
    }
}

pub fn main(input: &str, output: &str) {
    let hs = read_ndjson(input);
    let n = hs.len();
    let hs = Arc::new(hs);
    let hs2 = hs.clone();
    let t0 = Instant::now();
    let bad: Vec<usize> = par(n, 24, move |i| { let hs = hs2.clone(); async move { if run(&hs[i], i, 1).await.is_empty() { None } else { Some(i) } } });
    // anything that looked wrong is replayed alone and slowly before it is believed
    let mut out = vec![];
    let rt = rt();
    for i in bad.into_iter().take(40) {
        let f = rt.block_on(run(&hs[i], i, 4));
        if !f.is_empty() { for x in f { out.push(json!({"history": i, "fail": x.json(), "steps": hs[i]})); } }
        if out.len() >= 25 { break; }
    }
    write_json(output, &json!({"histories": n, "ops": hs.iter().map(|h| h["steps"].as_array().unwrap().len()).sum::<usize>(), "fails": out, "secs": t0.elapsed().as_secs_f64()}));
}
