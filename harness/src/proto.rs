//! What the client says to servers of every revision (P14).
use crate::resp::Ans;
use crate::server::*;
use crate::ty::{bytes, jb};
use crate::util::*;
use crate::wire::*;
use chrono::DateTime;
use chrono_tz::Tz;
use clickhouse_rs::types::Query;
use clickhouse_rs::{Block, ClientHandle, Options, Pool};
use futures_util::{FutureExt, StreamExt};
use serde_json::{json, Value as J};
use std::panic::AssertUnwindSafe;
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};

fn runs(j: &J) -> String {
    let b: Vec<u8> = j.as_array().unwrap().iter().flat_map(|r| std::iter::repeat(r[1].as_u64().unwrap() as u8).take(r[0].as_u64().unwrap() as usize)).collect();
    String::from_utf8(b).unwrap()
}
fn packets(j: &J, compress: bool) -> Vec<u8> {
    Ans { l: 0, ps: String::new(), pk: j.as_array().unwrap().iter().map(|p| (bytes(&p["o"]), bytes(&p["b"]))).collect() }.wire(compress).0
}
#[derive(Default, Clone)]
struct Seen { hello: Vec<u8>, query: Vec<u8>, queries: usize, rest: Vec<u8> }
/// One server: answers as the record says and keeps the bytes of the hello and of the query.
async fn serve(l: tokio::net::TcpListener, r: J, rev: u64, hello: Vec<u8>, seen: Arc<Mutex<Seen>>) {
    let compress = r["c"]["comp"].as_bool().unwrap();
    let insert = r["c"]["op"] == "insert";
    let (ans, head, last) = (packets(&r["ans"], compress), packets(&r["head"], compress), packets(&r["last"], compress));
    loop {
        let Ok((mut s, _)) = l.accept().await else { return };
        let _ = s.set_nodelay(true);
        let (mut buf, mut tmp, mut data) = (vec![], vec![0u8; 1 << 16], 0);
        'conn: loop {
            loop {
                match parse_req(&buf, rev, compress) {
                    Ok((q, n)) => {
                        let raw: Vec<u8> = buf.drain(..n).collect();
                        let a = match q {
                            Req::Hello { .. } => { seen.lock().unwrap().hello = raw; hello.clone() }
                            Req::Ping => pong(),
                            Req::Query(_) => { let mut s = seen.lock().unwrap(); s.query = raw; s.queries += 1; if insert { head.clone() } else { ans.clone() } }
                            Req::Data { .. } => { data += 1; if data == 2 { last.clone() } else { vec![] } }
                            Req::Cancel | Req::Bad(_) => vec![],
                        };
                        if s.write_all(&a).await.is_err() { break 'conn; }
                    }
                    Err(PErr::More) => break,
                    Err(PErr::Bad(_)) => { seen.lock().unwrap().rest = buf.clone(); break 'conn; }
                }
            }
            match s.read(&mut tmp).await { Ok(n) if n > 0 => buf.extend_from_slice(&tmp[..n]), _ => break }
            seen.lock().unwrap().rest = if parse_req(&buf, rev, compress).is_ok() { vec![] } else { buf.clone() };
        }
    }
}
async fn op(h: &mut ClientHandle, r: &J, q: Query) -> Result<String, clickhouse_rs::errors::Error> {
    let zone = |v: DateTime<Tz>| v.timezone().name().to_string();
    Ok(match r["c"]["op"].as_str().unwrap() {
        "fetch" => { let b = h.query(q).fetch_all().await?; if b.row_count() != 1 || b.get::<u8, _>(0, "n")? != 7 { return Err(clickhouse_rs::errors::Error::Other("another row".into())); } zone(b.get(0, "t")?) }
        "stream" => {
            let mut z = String::from("no row");
            let mut s = h.query(q).stream();
            while let Some(x) = s.next().await { let x = x?; if x.get::<u8, _>("n")? != 7 { return Err(clickhouse_rs::errors::Error::Other("another row".into())); } z = zone(x.get("t")?); }
            z
        }
        "execute" => { h.execute(q).await?; String::new() }
        _ => { h.insert(q, Block::new().column("n", vec![7u8])).await?; String::new() }
    })
}
async fn one(r: &J) -> J {
    let c = &r["c"];
    let seen: Arc<Mutex<Seen>> = Default::default();
    let mut tasks = vec![];
    let mut start = |rev: u64, hello: Vec<u8>, seen: Arc<Mutex<Seen>>| {
        let l = listen(); l.set_nonblocking(true).unwrap();
        let l = tokio::net::TcpListener::from_std(l).unwrap();
        let a = l.local_addr().unwrap();
        tasks.push(tokio::spawn(serve(l, r.clone(), rev, hello, seen)));
        a
    };
    let addr = start(c["rev"].as_u64().unwrap(), bytes(&r["hello"]), seen.clone());
    let former = if c["from"] == 0 { None } else { Some(start(c["from"].as_u64().unwrap(), bytes(&r["former"]), Default::default())) };
    let mut o = Options::from_str(&format!("tcp://{}?query_timeout=90s&execute_timeout=90s&insert_timeout=90s&connection_timeout=90s&ping_timeout=90s&retry_timeout=1ms", former.unwrap_or(addr))).unwrap()
        .database(&runs(&c["db"])).username(&runs(&c["user"])).password(&runs(&c["pass"])).pool_min(1).pool_max(1);
    if former.is_some() { o = o.alt_hosts(vec![format!("tcp://{addr}").parse().unwrap()]); }
    if c["comp"].as_bool().unwrap() { o = o.with_compression(); }
    for s in c["set"].as_array().unwrap() {
        let (n, i) = (String::from_utf8(bytes(&s["name"])).unwrap(), s["important"].as_bool().unwrap());
        let le = |v: &J| u64::from_le_bytes(bytes(v).try_into().unwrap());
        o = match s["kind"].as_str().unwrap() {
            "text" => o.with_setting(&n, runs(&s["value"]).as_str(), i),
            "u64" => o.with_setting(&n, le(&s["value"]), i),
            "i64" => o.with_setting(&n, le(&s["value"]) as i64, i),
            "i32" => o.with_setting(&n, le(&s["value"]) as i64 as i32, i),
            "bool" => o.with_setting(&n, s["value"].as_bool().unwrap(), i),
            _ => o.with_setting(&n, String::from_utf8(bytes(&s["value"])).unwrap().parse::<f64>().unwrap(), i),
        };
    }
    let q = Query::new(runs(&c["sql"])).id(runs(&c["id"]));
    let gone = former.is_some();
    let first = tasks.pop().filter(|_| gone);
    let fut = AssertUnwindSafe(async {
        let pool = Pool::new(o);
        let mut h = pool.get_handle().await?;
        if let Some(t) = first { t.abort(); settle().await; settle().await; }
        op(&mut h, r, q).await
    }).catch_unwind();
    let (out, tz) = match patient(20, fut).await {
        Err(_) => ("hang".to_string(), String::new()),
        Ok(Err(p)) => (format!("panic: {}", panic_msg(p)), String::new()),
        Ok(Ok(Err(e))) => (format!("error: {e}"), String::new()),
        Ok(Ok(Ok(z))) => ("ok".into(), z),
    };
    settle().await;
    for t in tasks { t.abort(); }
    let s = seen.lock().unwrap().clone();
    let query = if s.query.is_empty() { s.rest.clone() } else { s.query };
    let hello = if s.hello.is_empty() { s.rest } else { s.hello };
    let out: String = out.chars().filter(|c| c.is_ascii() && !c.is_ascii_control() && *c != '"' && *c != '\\').take(150).collect();
    json!({"c": c, "zone": r["zone"], "hello": jb(&hello), "query": jb(&query), "more": s.queries.saturating_sub(1), "out": out, "tz": jb(tz.as_bytes())})
}
pub fn run(inp: &str, out: &str) {
    let rs = Arc::new(read_ndjson(inp));
    let n = rs.len();
    let mut v: Vec<J> = par(n, 4, move |i| { let rs = rs.clone(); async move {
        let mut x = one(&rs[i]).await;
        if x["out"] == "hang" { x = one(&rs[i]).await; }
        x["id"] = json!(i);
        Some(x)
    } });
    v.sort_by_key(|x| x["id"].as_u64());
    write_ndjson(&format!("{out}.trace"), &v);
    write_json(out, &json!({"runs": n}));
}
