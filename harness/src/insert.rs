//! Inserts of all sizes against servers that fail at every point (P13).
use crate::server::*;
use crate::ty::jb;
use crate::util::*;
use crate::wire::*;
use clickhouse_rs::errors::Error;
use clickhouse_rs::{Block, Pool};
use futures_util::FutureExt;
use serde_json::{json, Value as J};
use std::panic::AssertUnwindSafe;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

const NAMES: [(&str, &str); 16] = [("n", "m"), ("a b", "n"), ("日本", "é"), ("a\\", "n"), ("a\\nb", "n"), ("n", "a\nb"), ("\"q\"", "'q'"), ("12", "n"), ("x,y", "n"), (")", "("), ("a`b", "n"), ("1a", "A.b"), ("\\", "\\\\"), ("½", "٣"), ("²", "0x1"), ("*", "select")];
/// types of the layout's columns; the first one of them all numbers the rows
fn types(lay: u64) -> Vec<&'static str> {
    match lay { 1 => vec!["UInt32"], 2 => vec!["String", "UInt32"], 3 => vec!["UInt32", "Array(UInt8)"], _ => vec!["Nullable(UInt16)", "UInt32", "Float64"] }
}
fn names(lay: u64, i: usize) -> Vec<String> {
    let (a, b) = NAMES[i];
    [a, b, "z"].iter().take(types(lay).len()).map(|s| s.to_string()).collect()
}
fn block(lay: u64, names: &[String], n: usize) -> Block {
    types(lay).iter().zip(names).fold(Block::new(), |b, (t, m)| match *t {
        "UInt32" => b.column(m, (0..n as u32).collect::<Vec<_>>()),
        "String" => b.column(m, (0..n).map(|i| format!("s{}", i % 1003)).collect::<Vec<_>>()),
        "Array(UInt8)" => b.column(m, (0..n).map(|i| vec![(i % 251) as u8; i % 3]).collect::<Vec<_>>()),
        "Float64" => b.column(m, (0..n).map(|i| i as f64 * 0.5).collect::<Vec<_>>()),
        _ => b.column(m, (0..n).map(|i| if i % 5 == 0 { None } else { Some((i % 60007) as u16) }).collect::<Vec<_>>()),
    })
}
/// how the server's format has rows a..a+n of a column
fn plain(t: &str, a: usize, n: usize) -> Vec<u8> {
    let r = a..a + n;
    match t {
        "UInt32" => r.flat_map(|i| (i as u32).to_le_bytes()).collect(),
        "String" => { let mut o = vec![]; for i in r { let s = format!("s{}", i % 1003); o.push(s.len() as u8); o.extend(s.bytes()); } o }
        "Array(UInt8)" => { let (mut o, mut d, mut k) = (vec![], vec![], 0u64); for i in r { k += (i % 3) as u64; o.extend(k.to_le_bytes()); d.extend(std::iter::repeat((i % 251) as u8).take(i % 3)); } o.extend(d); o }
        "Float64" => r.flat_map(|i| (i as f64 * 0.5).to_le_bytes()).collect(),
        _ => { let (mut o, mut d) = (vec![], vec![]); for i in r { o.push((i % 5 == 0) as u8); d.extend((if i % 5 == 0 { 0 } else { (i % 60007) as u16 }).to_le_bytes()); } o.extend(d); o }
    }
}
#[derive(Default)]
struct Log { evs: Vec<J>, done: bool, heads: usize, answers: usize }
type Shared = Arc<Mutex<Log>>;
const EXC: (i32, &str) = (395, "no room left: rejected");

/// The bytes that wait to be read, up to a complete request.
async fn request(s: &mut TcpStream, buf: &mut Vec<u8>, comp: bool) -> Result<Option<Req>, String> {
    let mut tried = 0;
    let mut tmp = vec![0u8; 1 << 20];
    loop {
        if !buf.is_empty() && tried != buf.len() {
            match parse_req(buf, 54429, comp) {
                Ok((q, n)) => { buf.drain(..n); return Ok(Some(q)); }
                Err(PErr::More) => tried = buf.len(),
                Err(PErr::Bad(m)) => return Err(m),
            }
        }
        let from = buf.len();
        loop {
            match tokio::time::timeout(Duration::from_millis(if buf.len() == from { 30_000 } else { 5 }), s.read(&mut tmp)).await {
                Ok(Ok(n)) if n > 0 => { buf.extend_from_slice(&tmp[..n]); if buf.len() < (1 << 16) || (buf.len() > 2 * tried + (1 << 20)) { break; } }
                Err(_) if buf.len() > from => break,
                _ => return Ok(None),
            }
        }
    }
}
async fn end(s: TcpStream, reset: bool) { if reset { #[allow(deprecated)] let _ = s.set_linger(Some(Duration::ZERO)); } drop(s); }
async fn conn(mut s: TcpStream, r: J, cols: Vec<String>, log: Shared) {
    let comp = r["comp"].as_bool().unwrap();
    let lay = r["lay"].as_u64().unwrap();
    let mut buf = vec![];
    let mut tys: Vec<String> = vec![];
    let mut script = false; // an insert is in progress
    let mut fin = 0;
    let noise = |yes: &J| if yes.as_bool().unwrap() { [table_columns(), progress(54429, 3), profile()].concat() } else { vec![] };
    loop {
        let q = match request(&mut s, &mut buf, comp).await {
            Ok(Some(q)) => q, Ok(None) => return,
            Err(m) => { log.lock().unwrap().evs.push(json!({"k": "bad", "s": m.chars().filter(|c| c.is_ascii_alphanumeric() || *c == ' ').collect::<String>()})); return; }
        };
        let mut out = vec![];
        match q {
            Req::Hello { .. } => out = hello(54429, "UTC"),
            Req::Ping => out = pong(),
            Req::Cancel => (),
            Req::Bad(_) => return,
            Req::Query(q) if log.lock().unwrap().done => { let _ = q; out = eos(); }
            Req::Query(q) => {
                let (s2, nz, ans) = {
                    let mut g = log.lock().unwrap();
                    g.evs.push(json!({"k": "query", "s": "", "sql": jb(q.sql.as_bytes())}));
                    let i = g.heads; g.heads += 1;
                    let h = r["heads"].get(i).cloned().unwrap_or(json!(["ok", false]));
                    // what happens before the rows have arrived
                    let a = r["ans"].get(g.answers).cloned().unwrap_or(json!(["eos", false]));
                    g.evs.push(json!({"k": "head", "s": h[0]}));
                    (h[0].as_str().unwrap().to_string(), noise(&h[1]), if a[2] == "ready" { a[0].as_str().unwrap().to_string() } else { String::new() })
                };
                tys = types(lay).iter().map(|t| t.to_string()).collect();
                let mut ns = cols.clone();
                match s2.as_str() {
                    "exc" => { out = exception(EXC.0, "DB::Exception", EXC.1, "st"); script = false; }
                    "close" | "reset" => { end(s, s2 == "reset").await; return; }
                    "eos" => { out = eos(); }
                    x => {
                        if x == "fewer" { tys.pop(); ns.pop(); }
                        if x == "more" { tys.push("UInt8".into()); ns.push("extra".into()); }
                        if x == "retyped" { for t in tys.iter_mut() { if t == "UInt32" { *t = "Int64".into() } } }
                        let b: Vec<_> = ns.iter().zip(&tys).map(|(n, t)| (n.clone(), t.clone(), vec![])).collect();
                        out = [nz, data(&block_bytes(&b, 0), comp)].concat();
                        script = true;
                        fin = 0;
                        if ans == "early" {
                            let mut g = log.lock().unwrap(); g.answers += 1;
                            g.evs.push(json!({"k": "ans", "s": "early"}));
                            out.extend(exception(EXC.0, "DB::Exception", EXC.1, "st"));
                            fin = 1;
                        }
                        if matches!(ans.as_str(), "cut" | "close" | "reset") {
                            { let mut g = log.lock().unwrap(); g.answers += 1; g.evs.push(json!({"k": "ans", "s": ans})); }
                            let _ = s.write_all(&out).await;
                            if ans == "cut" { let mut t = vec![0u8; 20]; let _ = s.read(&mut t).await; }
                            end(s, ans == "reset").await;
                            return;
                        }
                    }
                }
            }
            Req::Data { block, .. } => {
                if !script { log.lock().unwrap().evs.push(json!({"k": "bad", "s": "rows out of turn"})); return; }
                if block.rows == 0 && block.cols.is_empty() {
                    log.lock().unwrap().evs.push(json!({"k": "end", "s": ""}));
                    script = false;
                    if fin == 0 {
                        let a = { let mut g = log.lock().unwrap(); let i = g.answers; g.answers += 1; let a = r["ans"].get(i).cloned().unwrap_or(json!(["eos", false])); g.evs.push(json!({"k": "ans", "s": a[0]})); a };
                        match a[0].as_str().unwrap() {
                            "exc" => out = exception(EXC.0, "DB::Exception", EXC.1, "st"),
                            "eos" => out = [if a[1] == true { [progress(54429, 3), profile()].concat() } else { vec![] }, eos()].concat(),
                            x => { end(s, x == "reset").await; return; }
                        }
                    }
                } else {
                    let t: Vec<String> = block.cols.iter().map(|c| c.1.clone()).collect();
                    let n = block.rows as usize;
                    let k = types(lay).iter().position(|t| *t == "UInt32").unwrap();
                    let mut a = -1i64;
                    if t == tys && block.cols.len() == types(lay).len() && block.cols[k].2.len() >= 4 && t[k] == "UInt32" {
                        let first = u32::from_le_bytes(block.cols[k].2[..4].try_into().unwrap()) as usize;
                        if types(lay).iter().zip(&block.cols).all(|(t, c)| plain(t, first, n) == c.2) { a = first as i64 }
                    }
                    if t == tys && t[k] == "Int64" {
                        let first = i64::from_le_bytes(block.cols[k].2[..8].try_into().unwrap());
                        if (0..n).all(|i| block.cols[k].2[8 * i..8 * i + 8] == (first + i as i64).to_le_bytes()) { a = first }
                    }
                    log.lock().unwrap().evs.push(json!({"k": "data", "s": "", "a": a, "b": n, "t": t == tys}));
                }
            }
        }
        if !out.is_empty() && s.write_all(&out).await.is_err() { return; }
    }
}
async fn one(r: &J) -> J {
    let log: Shared = Default::default();
    let (lay, n) = (r["lay"].as_u64().unwrap(), r["n"].as_u64().unwrap() as usize);
    let cols = names(lay, r["names"].as_u64().unwrap() as usize);
    let l = listen(); l.set_nonblocking(true).unwrap();
    let l = TcpListener::from_std(l).unwrap();
    let addr = l.local_addr().unwrap();
    let (r2, c2, g2) = (r.clone(), cols.clone(), log.clone());
    let srv = tokio::spawn(async move {
        let mut ts = tokio::task::JoinSet::new();
        while let Ok((s, _)) = l.accept().await { let _ = s.set_nodelay(true); ts.spawn(conn(s, r2.clone(), c2.clone(), g2.clone())); }
    });
    let pool = Pool::new(format!("tcp://{addr}?compression={}&insert_timeout=600s&execute_timeout=600s&connection_timeout=600s&ping_timeout=600s&pool_min=1&pool_max=1&retry_timeout=1ms", if r["comp"] == true { "lz4" } else { "none" }));
    let b = block(lay, &cols, n);
    let mut after = String::new();
    let fut = AssertUnwindSafe(async {
        let mut h = pool.get_handle().await?;
        let res = h.insert("t", &b).await;
        Ok::<_, Error>((res, h))
    }).catch_unwind();
    let res = patient(60, fut).await;
    log.lock().unwrap().done = true;
    let mut same = None;
    let (s, what) = match res {
        Err(_) => ("hang", String::new()),
        Ok(Err(p)) => ("panic", panic_msg(p)),
        Ok(Ok(Err(e))) => ("err", e.to_string()),
        Ok(Ok(Ok((Ok(()), h)))) => { same = Some(h); ("ok", String::new()) }
        Ok(Ok(Ok((Err(Error::Server(e)), h)))) => { drop(h); (if e.code == EXC.0 as u32 && e.message == EXC.1 { "exc" } else { "err" }, e.to_string()) }
        Ok(Ok(Ok((Err(e), h)))) => { drop(h); ("err", e.to_string()) }
    };
    if s != "hang" && s != "panic" {
        let fut = AssertUnwindSafe(async { let mut h = match same { Some(h) => h, None => pool.get_handle().await? }; h.execute("SELECT 1").await }).catch_unwind();
        match patient(30, fut).await {
            Err(_) => after = "hang".into(),
            Ok(Err(p)) => after = panic_msg(p),
            Ok(Ok(Err(e))) => after = e.to_string(),
            Ok(Ok(Ok(()))) => (),
        }
    }
    srv.abort();
    let mut g = log.lock().unwrap();
    let may = cols.iter().any(|c| c.contains('`')) && g.evs.is_empty() || g.evs.iter().rev().find(|e| e["k"] == "head").map_or(false, |h| h["s"] == "retyped");
    let evs = std::mem::take(&mut g.evs);
    let mut evs = evs;
    evs.push(json!({"k": "result", "s": s, "must": true, "may": may}));
    let clean = |s: &str| s.chars().filter(|c| c.is_ascii() && !c.is_ascii_control() && *c != '"' && *c != '\\').take(150).collect::<String>();
    json!({"n": n, "lay": lay, "comp": r["comp"], "cols": cols.iter().map(|c| jb(c.as_bytes())).collect::<Vec<_>>(), "heads": r["heads"], "ans": r["ans"], "want": r["want"], "evs": evs, "what": clean(&what), "after": clean(&after)})
}
pub fn run(inp: &str, out: &str) {
    let rs = Arc::new(read_ndjson(inp));
    let n = rs.len();
    let mut v: Vec<J> = par(n, 2, move |i| { let rs = rs.clone(); async move {
        let mut x = one(&rs[i]).await;
        if x["evs"].as_array().unwrap().last().unwrap()["s"] == "hang" || x["after"] == "hang" { x = one(&rs[i]).await; }
        x["id"] = json!(i);
        Some(x)
    } });
    v.sort_by_key(|x| x["id"].as_u64());
    write_ndjson(&format!("{out}.trace"), &v);
    write_json(out, &json!({"inserts": n}));
}
