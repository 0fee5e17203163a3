//! Replays the answers of Answers.tla: whole, split into reads, cut off and altered.  What the
//! client makes of each is recorded for RespTrace.tla.
use crate::cols::S;
use crate::server::*;
use crate::ty::{bytes, cell, jb};
use crate::util::*;
use crate::wire::*;
use clickhouse_rs::errors::Error;
use clickhouse_rs::types::{Block, FromSql, FromSqlResult, ValueRef};
use clickhouse_rs::{ClientHandle, Pool};
use futures_util::{FutureExt, StreamExt};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::panic::AssertUnwindSafe;
use std::sync::{Arc, Mutex};
use std::time::Duration;

struct C(J);
impl<'a> FromSql<'a> for C { fn from_sql(v: ValueRef<'a>) -> FromSqlResult<Self> { Ok(C(cell(&v))) } }

pub struct Ans { pub l: u64, pub ps: String, pub pk: Vec<(Vec<u8>, Vec<u8>)> }
impl Ans {
    pub fn raw(&self) -> Vec<u8> { self.pk.iter().flat_map(|(o, b)| o.iter().chain(b.iter()).copied()).collect() }
    /// what goes over the wire, and the length of the raw form up to the end of each packet
    pub fn wire(&self, compress: bool) -> (Vec<u8>, Vec<(usize, usize)>) {
        let (mut w, mut n, mut ends) = (vec![], 0, vec![]);
        for (i, (o, b)) in self.pk.iter().enumerate() {
            w.extend_from_slice(o);
            if !b.is_empty() {
                if !compress { w.extend_from_slice(b) }
                else if i % 2 == 0 || b.len() < 3 { w.extend(frame(b)) }
                else { let m = b.len() / 2; w.extend(frame(&b[..m])); w.extend(frame_with(&lz4_literals(&b[m..]), (b.len() - m) as u32)) }
            }
            n += o.len() + b.len();
            ends.push((w.len(), n));
        }
        (w, ends)
    }
}
fn load(path: &str) -> Vec<Ans> {
    read_ndjson(path).iter().map(|r| Ans {
        l: r["l"].as_u64().unwrap(),
        ps: r["ps"].as_array().unwrap().iter().map(|p| p.as_str().unwrap()).collect::<Vec<_>>().join(" "),
        pk: r["pk"].as_array().unwrap().iter().map(|p| (bytes(&p["o"]), bytes(&p["b"]))).collect(),
    }).collect()
}

#[derive(Default, Clone)]
pub struct Out { pub out: &'static str, pub rows: Vec<J>, pub exc: J, pub what: String }
fn rows<K: clickhouse_rs::types::ColumnType>(b: &Block<K>, to: &mut Vec<J>) {
    for r in b.rows() { to.push((0..r.len()).map(|i| r.get::<C, _>(i).map(|c| c.0).unwrap_or_else(|e| json!(["?", e.to_string()]))).collect()) }
}
fn clean(s: &str) -> String { s.chars().filter(|c| c.is_ascii() && !c.is_ascii_control() && *c != '"' && *c != '\\').take(200).collect() }
fn done(r: std::thread::Result<Result<(), Error>>, rows: Vec<J>) -> Out {
    match r {
        Err(p) => Out { out: "panic", rows, exc: json!([]), what: clean(&panic_msg(p)) },
        Ok(Ok(())) => Out { out: "ok", rows, exc: json!([]), what: "".into() },
        Ok(Err(Error::Server(e))) => Out { out: "exc", rows, exc: json!([jb(&e.code.to_le_bytes()), jb(e.name.as_bytes()), jb(e.message.as_bytes()), jb(e.stack_trace.as_bytes())]), what: clean(&e.message) },
        Ok(Err(e)) => Out { out: "err", rows, exc: json!([]), what: clean(&e.to_string()) },
    }
}
pub const OPS: [&str; 4] = ["fetch", "blocks", "rows", "exec"];
pub async fn run_op(h: &mut ClientHandle, op: &str, sql: &str) -> Out {
    let got = Mutex::new(vec![]);
    let fut = AssertUnwindSafe(async {
        match op {
            "fetch" => { let b = h.query(sql).fetch_all().await?; rows(&b, &mut got.lock().unwrap()); }
            "blocks" => { let mut s = h.query(sql).stream_blocks(); while let Some(b) = s.next().await { rows(&b?, &mut got.lock().unwrap()); } }
            "rows" => { let mut s = h.query(sql).stream(); while let Some(r) = s.next().await { let r = r?; let v: J = (0..r.len()).map(|i| r.get::<C, _>(i).map(|c| c.0).unwrap_or_else(|e| json!(["?", e.to_string()]))).collect(); got.lock().unwrap().push(v); } }
            "exec" => h.execute(sql).await?,
            "ping" => h.ping().await?,
            "insert" => h.insert(sql, Block::new().column("n", vec![7u32, 8])).await?,
            _ => panic!("op {op}"),
        }
        Ok(())
    }).catch_unwind();
    match patient(20, fut).await {
        Err(_) => Out { out: "hang", rows: vec![], exc: json!([]), what: "no outcome within 20 s".into() },
        Ok(r) => { let v = std::mem::take(&mut *got.lock().unwrap_or_else(|e| e.into_inner())); done(r, v) }
    }
}
fn pool(addr: std::net::SocketAddr, compress: bool, ping: bool, extra: &str) -> Pool {
    Pool::new(format!("tcp://{addr}?compression={}&ping_before_query={ping}&query_timeout=600s&execute_timeout=600s&insert_timeout=600s&connection_timeout=600s&ping_timeout=600s&pool_min=1&pool_max=1{extra}", if compress { "lz4" } else { "none" }))
}
struct Rec { key: String, j: J }
fn rec(op: &str, raw: &[u8], o: &Out, altered: bool, rst: bool, full: bool, after: &str, how: String) -> Rec {
    let mut j = json!({"op": op, "raw": jb(raw), "out": o.out, "rows": o.rows, "exc": o.exc, "what": o.what, "altered": altered, "rst": rst, "full": full, "after": after});
    let cls = if matches!(op, "fetch" | "blocks" | "rows") { "q" } else { op };
    let (mut w, mut p) = (o.what.clone(), "");
    if o.out == "ok" || o.out == "exc" { w.clear() } else { w.truncate(10); p = op }
    let key = format!("{cls}|{}|{}|{}|{}|{w}|{p}|{altered}|{rst}|{full}|{after}", j["raw"], o.out, j["rows"], j["exc"]);
    j["how"] = json!(how);
    Rec { key, j }
}
fn emit(recs: Vec<Rec>, out: &str, extra: J) {
    let n = recs.len();
    let mut m: HashMap<String, J> = HashMap::new();
    for r in recs { let e = m.entry(r.key).or_insert(r.j.clone()); if r.j["how"].as_str() < e["how"].as_str() { *e = r.j } }
    let mut v: Vec<J> = m.into_values().collect();
    v.sort_by_key(|j| (j["raw"].as_array().unwrap().len(), j["how"].as_str().unwrap().to_string()));
    for (i, j) in v.iter_mut().enumerate() { j["id"] = json!(i); }
    write_ndjson(&format!("{out}.trace"), &v);
    let mut e = extra;
    e["runs"] = json!(n); e["distinct"] = json!(v.len());
    write_json(out, &e);
}

/// How the bytes of an answer reach the client: all at once, cut at one place, byte by byte.
#[derive(Clone, Copy, PartialEq)]
enum Seg { Whole, At(usize), Bytes }
fn segs(w: &[u8], s: Seg) -> Act {
    match s {
        Seg::Whole => Act::Send(w.to_vec()),
        Seg::At(k) => Act::Segs(vec![w[..k].to_vec(), w[k..].to_vec()]),
        Seg::Bytes => Act::Segs(w.iter().map(|b| vec![*b]).collect()),
    }
}
/// P08: whole and split answers.
pub fn whole(inp: &str, out: &str) {
    let ans = Arc::new(load(inp));
    let full = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    // (answer, op, compression, segments)
    let mut jobs: Vec<(usize, usize, bool, Seg)> = vec![];
    for (i, a) in ans.iter().enumerate() {
        let n = a.pk.len();
        for c in [false, true] {
            for op in 0..4 { if op < 3 || n <= 3 { jobs.push((i, op, c, Seg::Whole)); } }
            let w = a.wire(c).0;
            if n <= 3 || full { for op in 0..4 { jobs.push((i, op, c, Seg::Bytes)); } } else { jobs.push((i, i % 3, c, Seg::Bytes)); }
            if n <= 2 || (n == 3 && (full || a.l == 1 || i % 5 == 0)) || (full && i % 7 == 0) { for k in 1..w.len() { jobs.push((i, (i + k) % 4, c, Seg::At(k))); } }
        }
    }
    const CH: usize = 400;
    let jobs = Arc::new(jobs);
    let n = (jobs.len() + CH - 1) / CH;
    let (a2, j2) = (ans.clone(), jobs.clone());
    let recs: Vec<Rec> = par(n, 2, move |k| {
        let (ans, jobs) = (a2.clone(), j2.clone());
        async move {
            let (a3, j3) = (ans.clone(), jobs.clone());
            let srv = Server::start(Arc::new(S(move |_c, r: &Req| match r {
                Req::Hello { .. } => vec![Act::Send(hello(54429, "UTC"))],
                Req::Ping => vec![Act::Send(pong())],
                Req::Query(q) => { let (a, _, c, s) = j3[q.sql.parse::<usize>().unwrap()]; assert_eq!(c, q.compression); vec![segs(&a3[a].wire(c).0, s)] }
                _ => vec![],
            })));
            let ps = [pool(srv.addr, false, false, ""), pool(srv.addr, true, false, "")];
            let mut recs = vec![];
            for j in k * CH..((k + 1) * CH).min(jobs.len()) {
                let (a, op, c, s) = jobs[j];
                let o = match ps[c as usize].get_handle().await { Ok(mut h) => run_op(&mut h, OPS[op], &j.to_string()).await, Err(e) => Out { out: "err", exc: json!([]), what: clean(&e.to_string()), ..Default::default() } };
                let how = format!("layout {} [{}] {} compression={c} {}", ans[a].l, ans[a].ps, OPS[op], match s { Seg::Whole => "whole".into(), Seg::At(k) => format!("split at byte {k}"), Seg::Bytes => "byte by byte".into() });
                recs.push(rec(OPS[op], &ans[a].raw(), &o, false, false, true, "", how));
            }
            Some(recs)
        }
    }).into_iter().flatten().collect();
    // large blocks: rows are numbered, so that what is lost or out of place shows
    let sizes: Vec<Vec<usize>> = vec![vec![65535, 65536, 65537], vec![1, 100_000, 1, 70_000], vec![300_000], vec![1; 300], vec![0, 8192, 0, 0, 8191]];
    let big: Vec<J> = par(sizes.len() * 6, 1, move |k| {
        let sz = sizes[k / 6].clone();
        let (op, c) = (k % 6 % 3, k % 6 / 3 == 1);
        async move {
            let total: usize = sz.iter().sum();
            let sz2 = sz.clone();
            let srv = Server::start(Arc::new(S(move |_c, r: &Req| match r {
                Req::Hello { .. } => vec![Act::Send(hello(54429, "UTC"))],
                Req::Query(q) => {
                    let mut o = vec![];
                    let blk = |lo: usize, n: usize| {
                        let (mut a, mut b) = (vec![], vec![]);
                        for i in lo..lo + n { a.extend((i as u64).to_le_bytes()); let s = format!("row {i}"); b.push(s.len() as u8); b.extend(s.bytes()); }
                        block_bytes(&[("n".into(), "UInt64".into(), a), ("s".into(), "String".into(), b)], n as u64)
                    };
                    let mut lo = 0;
                    for n in std::iter::once(0).chain(sz2.iter().copied()) {
                        let b = blk(lo, n); lo += n;
                        if q.compression { o.extend(data(&[], false)); for ch in b.chunks(1 << 16) { o.extend(frame(ch)) } } else { o.extend(data(&b, false)) }
                        o.extend(progress(54429, n as u64));
                    }
                    o.extend(eos());
                    vec![Act::Send(o)]
                }
                _ => vec![],
            })));
            let p = pool(srv.addr, c, false, "");
            let run = async {
                let mut h = p.get_handle().await.map_err(|e| e.to_string())?;
                let mut next = 0usize;
                let mut see = |n: u64, s: String| { let ok = n as usize == next && s == format!("row {next}"); next += 1; if ok { Ok(()) } else { Err(format!("row {} reads {n} / {s}", next - 1)) } };
                match op {
                    0 => { let b = h.query("q").fetch_all().await.map_err(|e| e.to_string())?; for r in b.rows() { see(r.get("n").map_err(|e| e.to_string())?, r.get("s").map_err(|e| e.to_string())?)?; } }
                    1 => { let mut st = h.query("q").stream_blocks(); while let Some(b) = st.next().await { let b = b.map_err(|e| e.to_string())?; for r in b.rows() { see(r.get("n").map_err(|e| e.to_string())?, r.get("s").map_err(|e| e.to_string())?)?; } } }
                    _ => { let mut st = h.query("q").stream(); while let Some(r) = st.next().await { let r = r.map_err(|e| e.to_string())?; see(r.get("n").map_err(|e| e.to_string())?, r.get("s").map_err(|e| e.to_string())?)?; } }
                }
                if next != total { return Err(format!("{next} rows, sent {total}")); }
                Ok::<(), String>(())
            };
            let w = match patient(120, AssertUnwindSafe(run).catch_unwind()).await { Err(_) => "hang".into(), Ok(Err(p)) => panic_msg(p), Ok(Ok(Err(e))) => e, Ok(Ok(Ok(()))) => return None };
            Some(json!({"sizes": sz, "op": OPS[op], "compression": c, "what": w}))
        }
    });
    emit(recs, out, json!({"answers": ans.len(), "big": big}));
}

/// Where an answer is damaged and how.
#[derive(Clone)]
struct Hurt { op: &'static str, wire: Vec<u8>, raw: Vec<u8>, altered: bool, rst: bool, full: bool, compress: bool, how: String }
/// P09: answers cut off at every byte and with every byte altered.
pub fn damage(inp: &str, out: &str) {
    let ans = load(inp);
    let full = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let mut hs: Vec<Hurt> = vec![];
    let alts = |b: u8| -> Vec<u8> { let mut v: Vec<u8> = if full { (0..=255).collect() } else { vec![0, 1, 5, 127, 128, 255, b.wrapping_add(1), b.wrapping_sub(1), b ^ 0x80, b ^ 0x20] }; v.sort(); v.dedup(); v.retain(|x| *x != b); v };
    let mut add = |op: &'static str, what: &str, w: &[u8], ends: &[(usize, usize)], raw: &[u8], compress: bool, alter: bool| {
        for k in 0..=w.len() {
            let r = ends.iter().filter(|e| e.0 <= k).map(|e| e.1).max().unwrap_or(0);
            // uncompressed, the bytes of an unfinished packet are part of what was said
            let w0 = ends.iter().filter(|e| e.0 <= k).map(|e| e.0).max().unwrap_or(0);
            let plain = ends.iter().find(|e| e.0 > k).map_or(false, |e| e.0 - w0 == e.1 - r);
            let said = if compress && !plain { raw[..r].to_vec() } else if compress { raw[..r + k - w0].to_vec() } else { raw[..k].to_vec() };
            for rst in [false, true] {
                if rst && k % 3 != 0 && !full { continue; }
                hs.push(Hurt { op, wire: w[..k].to_vec(), raw: said.clone(), altered: false, rst, full: k == w.len(), compress, how: format!("{what}: {} of {} bytes, then {}{}", k, w.len(), if rst { "reset" } else { "closed" }, if compress { ", compressed" } else { "" }) });
            }
        }
        if alter && !compress {
            for k in 0..w.len() { for x in alts(w[k]) {
                let mut v = w.to_vec(); v[k] = x;
                hs.push(Hurt { op, raw: v.clone(), wire: v, altered: true, rst: false, full: true, compress, how: format!("{what}: byte {k} is {x} instead of {}", w[k]) });
            } }
        }
    };
    let pick = ["Z D2 .", "Z D1 P D1 .", "Z D1 E F .", "Z D1 X", "Z X", "D2 .", "E .", "Z P D2 .", "D1 Z D1 ."];
    for (i, a) in ans.iter().enumerate() {
        if !(pick.contains(&a.ps.as_str()) || (full && a.pk.len() <= 4 && i % 17 == 0)) { continue; }
        for c in [false, true] {
            let (w, ends) = a.wire(c);
            for op in OPS {
                if op == "exec" && a.l != 1 && !full { continue; }
                if (op == "blocks" || op == "rows") && a.l == 4 && !full { continue; }
                add(op, &format!("{op}, layout {} [{}]", a.l, a.ps), &w, &ends, &a.raw(), c, (op == "fetch" || op == "rows" || full) && (a.l < 4 || full || op == "rows") && (a.ps != "D1 Z D1 ." || full));
            }
        }
    }
    let whole = |w: &[u8]| vec![(w.len(), w.len())];
    let hl = hello(54429, "Europe/Moscow");
    add("hello", "handshake", &hl, &whole(&hl), &hl, false, true);
    let old = hello(54032, "");
    add("hello", "handshake (old)", &old, &whole(&old), &old, false, true);
    add("ping", "ping", &pong(), &whole(&[4]), &pong(), false, true);
    let ex = exception(7, "DB", "no", "");
    add("ping", "ping", &ex, &whole(&ex), &ex, false, true);
    let mut head = table_columns(); head.extend(data(&u32_block("n", &[]), false));
    add("head", "insert (header)", &head, &whole(&head), &head, false, true);
    let head2 = data(&u32_block("n", &[]), false);
    add("head", "insert (header only)", &head2, &whole(&head2), &head2, false, true);
    let hc = data(&u32_block("n", &[]), true);
    add("head", "insert (header)", &hc, &[(hc.len(), head2.len())], &head2, true, false);
    add("tail", "insert (end)", &eos(), &whole(&[5]), &eos(), false, true);
    add("tail", "insert (end)", &ex, &whole(&ex), &ex, false, true);
    let n = hs.len();
    let hs = Arc::new(hs);
    let recs: Vec<Rec> = par(n, 6, move |i| { let hs = hs.clone(); async move {
        let mut r = hurt(&hs[i]).await;
        // a suspicious silence is looked at once more
        if r.j["out"] == "hang" || r.j["after"].as_str().unwrap().contains("hang") { tokio::time::sleep(Duration::from_millis(200)).await; r = hurt(&hs[i]).await; }
        Some(r)
    } });
    emit(recs, out, json!({"damaged": n}));
}
pub fn u32_block(name: &str, vs: &[u32]) -> Vec<u8> { block_bytes(&[(name.into(), "UInt32".into(), vs.iter().flat_map(|v| v.to_le_bytes()).collect())], vs.len() as u64) }

async fn hurt(h: &Hurt) -> Rec {
    let h2 = h.clone();
    let fire = std::sync::atomic::AtomicUsize::new(0);
    let srv = Server::start(Arc::new(S(move |c: usize, r: &Req| {
        let bad = || { let mut v = vec![Act::Send(h2.wire.clone())]; if h2.rst { v.push(Act::Sleep(1)); v.push(Act::Reset) } else { v.push(Act::Close) } v };
        let first = |k: usize| c == 0 && fire.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == k;
        match r {
            Req::Hello { .. } => if h2.op == "hello" && c == 0 { bad() } else { vec![Act::Send(hello(54429, "UTC"))] },
            Req::Ping => if h2.op == "ping" && first(0) { bad() } else { vec![Act::Send(pong())] },
            Req::Query(q) if q.sql == "after" => { let mut o = data(&u32_block("n", &[]), q.compression); o.extend(data(&u32_block("n", &[41, 42]), q.compression)); o.extend(eos()); vec![Act::Send(o)] }
            Req::Query(q) => match h2.op {
                "tail" => vec![Act::Send(data(&u32_block("n", &[]), q.compression))],
                _ => if first(0) { bad() } else { let mut o = data(&u32_block("n", &[]), q.compression); if h2.op != "head" { o.extend(eos()); } vec![Act::Send(o)] },
            },
            Req::Data { block, .. } => if block.rows > 0 { vec![] } else if h2.op == "tail" && first(0) { bad() } else { vec![Act::Send(eos())] },
            _ => vec![],
        }
    })));
    let p = pool(srv.addr, h.compress, true, "&send_retries=1&retry_timeout=1ms");
    let o = match patient(20, AssertUnwindSafe(p.get_handle()).catch_unwind()).await {
        Err(_) => Out { out: "hang", exc: json!([]), what: "no handle within 20 s".into(), ..Default::default() },
        Ok(Err(e)) => Out { out: "panic", exc: json!([]), what: clean(&panic_msg(e)), ..Default::default() },
        Ok(Ok(Err(e))) => done(Ok(Err(e)), vec![]),
        Ok(Ok(Ok(mut c))) => if h.op == "hello" { Out { out: "ok", exc: json!([]), ..Default::default() } } else { run_op(&mut c, match h.op { "head" | "tail" => "insert", o => o }, "t").await },
    };
    // the pool has to serve the next caller as if nothing had happened
    let after = match patient(20, p.get_handle()).await {
        Err(_) => "hang: no handle".to_string(),
        Ok(Err(e)) => format!("no handle: {}", clean(&e.to_string())),
        Ok(Ok(mut c)) => {
            let a = run_op(&mut c, "fetch", "after").await;
            if a.out != "ok" { format!("{}: {}", a.out, a.what) } else if J::Array(a.rows.clone()) != json!([[["UInt32", [41, 0, 0, 0]]], [["UInt32", [42, 0, 0, 0]]]]) { format!("rows {}", J::Array(a.rows).to_string().replace('"', "")) } else { "".into() }
        }
    };
    rec(h.op, &h.raw, &o, h.altered, h.rst, h.full, &after, h.how.clone())
}

// ---------------------------------------------------------------- frames (P18)
/// Received frames: the splits of Frames.tla, spoilt frames, and every byte of a frame altered.
pub fn frames(inp: &str, out: &str) {
    let full = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let mut hs: Vec<Hurt> = vec![];
    for (i, r) in read_ndjson(inp).iter().enumerate() {
        let fs: Vec<Vec<u8>> = r["f"].as_array().unwrap().iter().map(|f| seal(bytes(f))).collect();
        let raw = bytes(&r["raw"]);
        let wire: Vec<u8> = [1u8, 0].into_iter().chain(fs.concat()).chain([5]).collect();
        let how = format!("block {} in frames of {} bytes{}", r["c"], r["ps"], if r["bad"] == "" { "".into() } else { format!(", the last one spoilt: {}", r["bad"].as_str().unwrap()) });
        for op in OPS {
            if !full && op != OPS[i % 4] && fs.len() > 2 { continue; }
            hs.push(Hurt { op, wire: wire.clone(), raw: raw.clone(), altered: false, rst: false, full: true, compress: true, how: format!("{op}: {how}") });
        }
        // any alteration makes the answer unreadable from there on
        let small = r["c"] == 2 && fs.len() == 1 || r["c"] == 1 && fs.len() == 1 || r["c"] == 2 && fs.len() == 2 && (full || i % 5 == 0);
        if r["bad"] == "" && (small || (full && i % 31 == 0)) {
            for k in 2..wire.len() - 1 { for x in (0..8).map(|b| wire[k] ^ (1 << b)).chain([0, 255, wire[k].wrapping_add(1)]) {
                if x == wire[k] { continue; }
                let mut w = wire.clone(); w[k] = x;
                let op = if full { OPS[(k + x as usize) % 4] } else { OPS[k % 4] };
                hs.push(Hurt { op, wire: w, raw: vec![], altered: false, rst: false, full: true, compress: true, how: format!("{op}: {how}: byte {} is {x} instead of {}", k - 2, wire[k]) });
            } }
        }
    }
    // the header of a table, which an insert reads
    let head = data(&u32_block("n", &[]), true);
    for k in 2..head.len() { for b in 0..8 {
        let mut w = head.clone(); w[k] ^= 1 << b;
        hs.push(Hurt { op: "head", wire: w, raw: vec![], altered: false, rst: false, full: true, compress: true, how: format!("insert: header's byte {} has bit {b} altered", k - 2) });
    } }
    let n = hs.len();
    let hs = Arc::new(hs);
    let recs: Vec<Rec> = par(n, 6, move |i| { let hs = hs.clone(); async move {
        let mut r = hurt(&hs[i]).await;
        if r.j["out"] == "hang" || r.j["after"].as_str().unwrap().contains("hang") { tokio::time::sleep(Duration::from_millis(200)).await; r = hurt(&hs[i]).await; }
        Some(r)
    } });
    emit(recs, out, json!({"frames": n}));
}

fn rnd(i: usize) -> u64 { let mut x = (i as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15); x ^= x >> 31; x = x.wrapping_mul(0xbf58476d1ce4e5b9); x ^ (x >> 29) }
const KINDS: [&str; 6] = ["UInt64", "String", "String", "Float64", "Array(UInt8)", "Nullable(String)"];
fn kind_block(kind: usize, n: usize) -> Block {
    let text = |i: usize| if kind == 1 { "abcabcabc".repeat(i % 5) } else { format!("{:x}", rnd(i)) };
    let b = Block::new();
    match kind {
        0 => b.column("c", (0..n as u64).collect::<Vec<_>>()),
        1 | 2 => b.column("c", (0..n).map(text).collect::<Vec<String>>()),
        3 => b.column("c", (0..n).map(|i| f64::from_bits(rnd(i))).collect::<Vec<_>>()),
        4 => b.column("c", (0..n).map(|i| vec![i as u8; i % 9]).collect::<Vec<Vec<u8>>>()),
        _ => b.column("c", (0..n).map(|i| if i % 3 == 0 { None } else { Some(text(i)) }).collect::<Vec<Option<String>>>()),
    }
}
/// Inserts the block with and without compression; the bytes of the data packets (without the packet's own head).
async fn both(b: &Block, ty: &'static str) -> Result<(Vec<Vec<u8>>, Vec<Vec<u8>>), String> {
    let mut got = vec![];
    for c in [false, true] {
        let srv = Server::start(Arc::new(S(move |_c, r: &Req| match r {
            Req::Hello { .. } => vec![Act::Send(hello(54429, "UTC"))],
            Req::Query(q) => vec![Act::Send(data(&block_bytes(&[("c".into(), ty.into(), vec![])], 0), q.compression))],
            Req::Data { block, .. } if block.rows == 0 => vec![Act::Send(eos())],
            _ => vec![],
        })));
        let p = pool(srv.addr, c, false, "");
        let mut h = p.get_handle().await.map_err(|e| e.to_string())?;
        let r = patient(120, h.insert("t", b)).await.map_err(|_| "hang".to_string())?;
        let mut pk = vec![];
        let bad = { let l = srv.log.lock().unwrap(); let mut bad = None; for e in l.iter() { match e { Ev::Req { req: Req::Data { raw, .. }, .. } => pk.push(raw[2..].to_vec()), Ev::Req { req: Req::Bad(m), .. } => bad = Some(m.clone()), _ => {} } } bad };
        if let Some(m) = bad { return Err(format!("the server cannot read what was sent: {m}")); }
        r.map_err(|e| format!("insert failed: {}", clean(&e.to_string())))?;
        got.push(pk);
    }
    let c = got.pop().unwrap();
    Ok((got.pop().unwrap(), c))
}
/// The frames in `b`: their bodies, and whether all checksums are right.
fn bodies(b: &[u8]) -> (Vec<Vec<u8>>, bool) {
    let (mut r, mut out, mut ok) = (R::new(b), vec![], true);
    while r.p < b.len() {
        let mut one = || -> PRes<()> {
            let (lo, hi) = (r.u64()?, r.u64()?);
            let p = r.p;
            r.u8()?; let n = r.u32()? as usize; r.u32()?;
            r.take(n.saturating_sub(9))?;
            ok &= city128(&r.b[p..r.p]) == (lo, hi);
            out.push(r.b[p..r.p].to_vec());
            Ok(())
        };
        if one().is_err() { return (out, false); }
    }
    (out, ok)
}
/// P18: what is sent with compression holds what is sent without.
pub fn framesent(_inp: &str, out: &str) {
    let full = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let mut ns: Vec<usize> = (0..if full { 130 } else { 40 }).collect();
    ns.extend([100, 150, 200, 300]);
    let n = ns.len() * KINDS.len();
    let mut recs: Vec<J> = par(n, 2, move |i| { let ns = ns.clone(); async move {
        let (k, n) = (i % KINDS.len(), ns[i / KINDS.len()]);
        let r = AssertUnwindSafe(both(&kind_block(k, n), KINDS[k])).catch_unwind().await.unwrap_or_else(|p| Err(format!("panic: {}", clean(&panic_msg(p)))));
        let how = format!("{n} rows of {} (form {k})", KINDS[k]);
        Some(match r {
            Err(e) => vec![json!({"how": how, "what": e, "f": [], "plain": [], "sums": true})],
            Ok((p, c)) => if p.len() != c.len() { vec![json!({"how": how, "what": format!("{} data packets with compression, {} without", c.len(), p.len()), "f": [], "plain": [], "sums": true})] }
                else { p.iter().zip(&c).map(|(p, c)| { let (f, ok) = bodies(c); json!({"how": how, "what": "", "f": f.iter().map(|b| jb(b)).collect::<Vec<_>>(), "plain": jb(p), "sums": ok}) }).collect() },
        })
    } }).into_iter().flatten().collect();
    recs.sort_by_key(|r| r["how"].as_str().unwrap().to_string());
    for (i, r) in recs.iter_mut().enumerate() { r["id"] = json!(i); }
    // large blocks, compared here: more rows than fit a frame, and more bytes than a server takes in one
    let mut big: Vec<(usize, usize)> = vec![(0, 100_000), (2, 100_000), (3, 200_000), (1, 300_000)];
    if full { big.push((0, 1_100_000)); }
    let mut fails: Vec<J> = par(big.len(), 1, move |i| { let (k, n) = big[i]; async move {
        let e = match both(&kind_block(k, n), KINDS[k]).await { Err(e) => e, Ok((p, c)) => {
            let un: Result<Vec<Vec<u8>>, String> = c.iter().map(|c| { let (mut r, mut o) = (R::new(c), vec![]); while r.p < c.len() { o.extend(read_frame(&mut r).map_err(|e| format!("{e:?}"))?) } Ok(o) }).collect();
            match un { Err(e) => e, Ok(u) => if u == p { return None } else { "the frames hold something else than the block".into() } }
        } };
        Some(json!({"how": format!("{n} rows of {}", KINDS[k]), "what": e}))
    } });
    fails.extend(rt().block_on(giant()));
    write_ndjson(&format!("{out}.trace"), &recs);
    write_json(out, &json!({"packets": recs.len(), "fails": fails}));
}
/// A block of more than 2 GB in a single cell column: the server takes frames up to 1 GB.
async fn giant() -> Option<J> {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    const CELL: usize = 8 << 20;
    const ROWS: usize = 272;
    let l = tokio::net::TcpListener::from_std({ let l = listen(); l.set_nonblocking(true).unwrap(); l }).unwrap();
    let addr = l.local_addr().unwrap();
    let srv = tokio::spawn(async move {
        let (mut s, _) = l.accept().await.map_err(|e| e.to_string())?;
        let (mut buf, mut tmp, mut st, mut seen) = (vec![], vec![0u8; 4 << 20], 0, 0u64);
        let mut pend: Vec<u8> = vec![];
        // hello, query (with an empty block), then frames
        loop {
            let n = s.read(&mut tmp).await.map_err(|e| e.to_string())?;
            if n == 0 { return Err("closed".to_string()); }
            buf.extend_from_slice(&tmp[..n]);
            loop {
                if st < 2 {
                    match parse_req(&buf, 54429, true) {
                        Ok((Req::Hello { .. }, n)) => { buf.drain(..n); st = 1; s.write_all(&hello(54429, "UTC")).await.map_err(|e| e.to_string())?; }
                        Ok((Req::Query(_), n)) => { buf.drain(..n); st = 2; s.write_all(&data(&block_bytes(&[("c".into(), "String".into(), vec![])], 0), true)).await.map_err(|e| e.to_string())?; }
                        Ok(_) => return Err("unexpected request".to_string()),
                        Err(PErr::More) => break,
                        Err(PErr::Bad(m)) => return Err(m),
                    }
                    continue;
                }
                if st == 2 { if buf.len() < 2 { break; } if buf[..2] != [2, 0] { return Err("no data packet".into()); } buf.drain(..2); st = 3; }
                if buf.len() < 25 { break; }
                let cs = u32::from_le_bytes(buf[17..21].try_into().unwrap()) as usize;
                let us = u32::from_le_bytes(buf[21..25].try_into().unwrap()) as usize;
                if buf[16] != 0x82 || cs < 9 || cs > 0x4000_0000 || us > 0x4000_0000 { return Err(format!("a frame of {cs} bytes holding {us}: servers refuse more than 1 GB")); }
                if buf.len() < 16 + cs { break; }
                let (a, b) = (u64::from_le_bytes(buf[..8].try_into().unwrap()), u64::from_le_bytes(buf[8..16].try_into().unwrap()));
                if city128(&buf[16..16 + cs]) != (a, b) { return Err("checksum".into()); }
                let d = lz4::block::decompress(&buf[25..16 + cs], Some(us as i32)).map_err(|e| e.to_string())?;
                if d.len() != us { return Err("size".into()); }
                buf.drain(..16 + cs);
                // a little of the front, then only cells of known content
                let mut d = &d[..];
                if seen == 0 { let k = 64.min(d.len()); pend.extend_from_slice(&d[..k]); d = &d[k..]; seen += k as u64; }
                if let Some(i) = d.iter().position(|x| *x != b'x' && *x != 0x80 && *x != 4) { let _ = i; return Err("another content".into()); }
                seen += d.len() as u64;
                let head = block_bytes(&[("c".into(), "String".into(), vec![])], ROWS as u64);
                let want = head.len() as u64 + (ROWS * (CELL + 4)) as u64;
                if seen > want { return Err(format!("{seen} bytes in the frames, the block has {want}")); }
                if seen == want {
                    if !pend.starts_with(&head) { return Err("another block".into()); }
                    // the end marker
                    loop {
                        match parse_req(&buf, 54429, true) { Ok((Req::Data { block, .. }, _)) if block.rows == 0 => break, Err(PErr::More) => {} o => return Err(format!("no end marker: {:?}", o.map(|x| x.1))) }
                        let n = s.read(&mut tmp).await.map_err(|e| e.to_string())?;
                        if n == 0 { return Err("closed".to_string()); }
                        buf.extend_from_slice(&tmp[..n]);
                    }
                    s.write_all(&eos()).await.map_err(|e| e.to_string())?;
                    let _ = s.read(&mut tmp).await;
                    return Ok(());
                }
            }
        }
    });
    let p = pool(addr, true, false, "&insert_timeout=300s");
    let r: Result<(), String> = AssertUnwindSafe(async {
        let mut h = p.get_handle().await.map_err(|e| e.to_string())?;
        let cell = "x".repeat(CELL);
        let b = Block::new().column("c", vec![cell.as_str(); ROWS]);
        h.insert("t", &b).await.map_err(|e| clean(&e.to_string()))
    }).catch_unwind().await.unwrap_or_else(|p| Err(clean(&panic_msg(p))));
    drop(p);
    let s = srv.await.unwrap_or_else(|e| Err(e.to_string()));
    match (r, s) { (Ok(()), Ok(())) => None, (r, s) => Some(json!({"how": format!("{ROWS} rows of {CELL} bytes"), "what": format!("client: {r:?}, server: {s:?}")})) }
}
