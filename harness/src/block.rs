//! Replays Blocks.tla: histories of making, extending, cloning and sharing tables.
use crate::cols::{by_rows, caught, S, TZS};
use crate::server::*;
use crate::ty::*;
use crate::util::*;
use crate::wire::*;
use chrono_tz::Tz;
use clickhouse_rs::types::{Block, ColumnType, Complex, RNil, Simple, Value};
use clickhouse_rs::{ClientHandle, Pool};
use futures_util::{FutureExt, StreamExt};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::panic::AssertUnwindSafe;
use std::sync::{Arc, Mutex};

fn es<E: std::fmt::Display>(e: E) -> String { e.to_string() }
fn nums(j: &J) -> Vec<usize> { j.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() }
fn strs(j: &J) -> Vec<String> { j.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() }

struct Pal { t: T, name: String, vals: Vec<J>, enc: HashMap<Vec<usize>, Vec<u8>>, served: Vec<J>, local: Vec<J> }
impl Pal {
    fn val(&self, n: usize) -> &J { &self.vals[n % self.vals.len()] }
    fn value(&self, n: usize) -> Value { value(&self.t, self.val(n)) }
    fn wrong(&self, n: usize, served: bool) -> (Value, String) {
        let list = if served { &self.served } else { &self.local };
        let w = &list[n % list.len()];
        let t = ty(&w["t"]);
        let v = value(&t, &w["v"]);
        let then = w["then"].as_array().unwrap();
        if then.is_empty() { return (v, w.to_string()); }
        (Value::Array(sql(&t).into(), Arc::new(vec![v, value(&ty(&then[0]), &then[1])])), w.to_string())
    }
}
enum H { S(Block<Simple>), C(Block<Complex>) }
macro_rules! on { ($h:expr, $b:ident => $e:expr) => { match $h { H::S($b) => $e, H::C($b) => $e } } }
#[derive(Clone, Default)]
struct Want { names: Vec<String>, rows: Vec<Vec<usize>>, served: Vec<bool> }

struct Run<'a> { pals: [&'a Pal; 2], zone: Tz, salt: usize }
impl<'a> Run<'a> {
    fn pal(&self, name: &str) -> &'a Pal { self.pals[if name == "b" { 1 } else { 0 }] }
    fn row(&self, cells: &[J], w: &Want) -> (Vec<(String, Value)>, String) {
        let mut note = String::new();
        let v = cells.iter().map(|c| {
            let (name, n) = (c["name"].as_str().unwrap(), c["n"].as_u64().unwrap() as usize);
            let p = self.pal(name);
            let served = w.names.iter().position(|x| x == name).map_or(false, |i| w.served[i]);
            let v = if c["wrong"] == true {
                let (v, what) = p.wrong(self.salt + n, served);
                note = format!("{} column given {what}", p.name);
                v
            } else if served && (self.salt + n) % 2 == 0 { value(&p.t, &short(&p.t, p.val(n))) } else { p.value(n) };
            (name.to_string(), v)
        }).collect();
        (v, note)
    }
    fn check<K: ColumnType>(&self, b: &Block<K>, w: &Want, zoned: bool) -> Result<(), String> {
        let show = |x: J| if zoned { x } else { unzoned(&x) };
        if b.column_count() != w.names.len() { return Err(format!("{} columns, should be {:?}", b.column_count(), w.names)); }
        let names: Vec<&str> = b.columns().iter().map(|c| c.name()).collect();
        if names != w.names { return Err(format!("columns {names:?}, should be {:?}", w.names)); }
        if b.row_count() != w.rows.len() { return Err(format!("{} rows, should be {}", b.row_count(), w.rows.len())); }
        if b.is_empty() != w.names.is_empty() { return Err("is_empty".into()); }
        for (i, r) in w.rows.iter().enumerate() {
            for (j, n) in r.iter().enumerate() {
                let p = self.pal(&w.names[j]);
                let want = show(want(&p.t, p.val(*n), self.zone));
                let got = b.get::<Cell, _>(i, j).map(|c| show(c.0)).map_err(es)?;
                if got != want { return Err(format!("row {i} column {j} ({}) is {got}, should be {want}", p.name)); }
                if w.names.iter().position(|x| *x == w.names[j]) == Some(j) {
                    let got = b.get::<Cell, _>(i, w.names[j].as_str()).map(|c| show(c.0)).map_err(es)?;
                    if got != want { return Err(format!("row {i} column {:?} ({}) is {got}, should be {want}", w.names[j], p.name)); }
                }
            }
        }
        let mut k = 0;
        for (i, row) in b.rows().enumerate() {
            k += 1;
            if row.len() != w.names.len() { return Err(format!("row {i} has {} cells", row.len())); }
            for j in 0..row.len() {
                let p = self.pal(&w.names[j]);
                let got = row.get::<Cell, _>(j).map(|c| show(c.0)).map_err(es)?;
                let want = show(want(&p.t, p.val(w.rows[i][j]), self.zone));
                if got != want { return Err(format!("iterated row {i} column {j} ({}) is {got}, should be {want}", p.name)); }
            }
        }
        if k != w.rows.len() { return Err(format!("iteration gives {k} rows of {}", w.rows.len())); }
        // however many rows, printing them works
        if zoned { let _ = format!("{b:?}").len(); }
        for j in 0..w.names.len() {
            let c = b.get_column(j).map_err(es)?;
            if c.name() != w.names[j] { return Err(format!("get_column({j}) is {:?}", c.name())); }
        }
        Ok(())
    }
}
fn unzoned(x: &J) -> J {
    match x[0].as_str() {
        Some("DateTime") => json!(["DateTime", x[1]]),
        Some("DateTime64") => json!(["DateTime64", x[1], x[2]]),
        _ => match x { J::Array(v) => J::Array(v.iter().map(unzoned).collect()), x => x.clone() },
    }
}
fn push<K: ColumnType>(b: &mut Block<K>, row: Vec<(String, Value)>, via: &str) -> Result<(), String> {
    if via == "vec" { return b.push(row).map_err(es); }
    let mut it = row.into_iter().rev().map(|(k, v)| (std::borrow::Cow::Owned(k), v));
    let mut next = || it.next().unwrap();
    // a row of n cells is the last one first
    let n = { let r = next(); (r, it.len()) };
    let ((k, v), more) = n;
    let one = RNil.put(k, v);
    if more == 0 { return b.push(one).map_err(es); }
    let (k, v) = it.next().unwrap();
    let two = one.put(k, v);
    if more == 1 { return b.push(two).map_err(es); }
    let (k, v) = it.next().unwrap();
    let three = two.put(k, v);
    if more == 2 { return b.push(three).map_err(es); }
    let (k, v) = it.next().unwrap();
    b.push(three.put(k, v)).map_err(es)
}
/// A value of a FixedString may be given without the zero bytes at its end.
fn short(t: &T, v: &J) -> J {
    let each = |t: &T, v: &J| J::Array(v.as_array().unwrap().iter().map(|x| short(t, x)).collect());
    match t {
        T::FixedString(_) => { let mut b = bytes(v); while b.last() == Some(&0) { b.pop(); } jb(&b) }
        T::Nullable(i) | T::Array(i) => each(i, v),
        T::LC(i) | T::SAF(_, i) => short(i, v),
        T::Map(a, b) => J::Array(v.as_array().unwrap().iter().map(|kv| json!([short(a, &kv[0]), short(b, &kv[1])])).collect()),
        _ => v.clone(),
    }
}
fn floaty(t: &T) -> bool { match t { T::Float32 | T::Float64 => true, T::Nullable(i) | T::Array(i) | T::LC(i) | T::SAF(_, i) => floaty(i), T::Map(a, b) => floaty(a) || floaty(b), _ => false } }

#[derive(Default)]
struct Stage { serve: Vec<Vec<(String, String, Vec<u8>)>>, lens: Vec<u64>, header: Vec<(String, String)>, got: Option<(Vec<(String, String, Vec<u8>)>, u64)>, bad: Option<String> }

pub fn run(inp: &str, out: &str, pals: &str) {
    let pals: Arc<Vec<Pal>> = Arc::new(read_ndjson(pals).iter().map(|r| Pal {
        t: ty(&r["t"]), name: r["name"].as_str().unwrap().into(), vals: r["vals"].as_array().unwrap().clone(),
        enc: r["enc"].as_array().unwrap().iter().map(|e| (nums(&e["q"]), bytes(&e["b"]))).collect(),
        served: r["served"].as_array().unwrap().clone(), local: r["local"].as_array().unwrap().clone(),
    }).collect());
    let hs = Arc::new(read_ndjson(inp));
    let times: usize = std::env::var("BLOCK_TIMES").ok().and_then(|x| x.parse().ok()).unwrap_or(4);
    let total = hs.len() * times;
    const CH: usize = 400;
    let jobs = (total + CH - 1) / CH;
    let n = hs.len();
    let res: Vec<(Vec<J>, usize, usize)> = par(jobs, 1, move |job| {
        let (hs, pals) = (hs.clone(), pals.clone());
        async move {
            let stz = TZS[job % 3];
            let zone: Tz = stz.parse().unwrap();
            let stage: Arc<Mutex<Stage>> = Arc::new(Mutex::new(Stage::default()));
            let s2 = stage.clone();
            let srv = Server::start(Arc::new(S(move |_c, r: &Req| { let mut st = s2.lock().unwrap(); match r {
                Req::Hello { .. } => vec![Act::Send(hello(54429, stz))],
                Req::Ping => vec![Act::Send(pong())],
                Req::Query(q) => {
                    let c = q.compression;
                    let mut o = vec![];
                    if q.sql.starts_with("INSERT") { o.extend(data(&block_bytes(&st.header.iter().map(|(n, t)| (n.clone(), t.clone(), vec![])).collect::<Vec<_>>(), 0), c)); }
                    else if q.sql.starts_with("back") { if let Some((cols, rows)) = &st.got { o.extend(data(&block_bytes(cols, *rows), c)); } o.extend(eos()); }
                    else { for (cols, rows) in st.serve.iter().zip(&st.lens) { o.extend(data(&block_bytes(cols, *rows), c)); } o.extend(eos()); }
                    vec![Act::Send(o)]
                }
                Req::Data { block, .. } => if block.cols.is_empty() { vec![Act::Send(eos())] } else {
                    st.got = Some((block.cols.iter().map(|c| (c.0.clone(), c.1.clone(), c.2.clone())).collect(), block.rows));
                    vec![]
                },
                Req::Bad(m) => { st.bad = Some(m.clone()); vec![] }
                _ => vec![],
            } })));
            let pool = Pool::new(format!("tcp://{}?compression={}&ping_before_query=false&query_timeout=90s&insert_timeout=90s&pool_min=1&pool_max=2", srv.addr, if job % 2 == 0 { "none" } else { "lz4" }));
            let (mut fails, mut ops, mut sent) = (vec![], 0, 0);
            let mut h: Option<ClientHandle> = None;
            for x in job * CH..((job + 1) * CH).min(total) {
                if enough() { break; }
                let (i, rep) = (x / times, x % times);
                set_stz(zone);
                let seed: usize = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
                let mix = (i * 31 + rep * 7919 + seed * 104729) % (pals.len() * pals.len());
                let (pa, pb) = (&pals[mix % pals.len()], &pals[(mix / pals.len() + i) % pals.len()]);
                let run = Run { pals: [pa, pb], zone, salt: x * 5 + 1 };
                let steps = hs[i]["steps"].as_array().unwrap();
                let mut bad: Option<(usize, String, String)> = None;
                let mut bs: Vec<H> = vec![];
                let mut ws: Vec<Want> = vec![];
                'steps: for (k, s) in steps.iter().enumerate() {
                    ops += 1;
                    let op = s["op"].as_str().unwrap();
                    let hn = s["h"].as_u64().unwrap() as usize - 1;
                    let ok = s["ok"] == true;
                    let mut note = String::new();
                    // what the specification says is there afterwards
                    let mut w = if hn < ws.len() { ws[hn].clone() } else { Want::default() };
                    let old_cols = w.names.len();
                    w.names = strs(&s["names"]);
                    w.rows = s["rows"].as_array().unwrap().iter().map(nums).collect();
                    let outcome: Result<(), String> = match op {
                        "new" => { bs.push(H::S(Block::new())); Ok(()) }
                        "serve" => {
                            let pieces = nums(&s["pieces"]);
                            { let mut st = stage.lock().unwrap(); st.serve.clear(); st.lens.clear();
                              let mut at = 0;
                              // an empty block with the structure comes first, as from a real server
                              for p in std::iter::once(0).chain(pieces.iter().copied()) {
                                  let cols = w.names.iter().enumerate().map(|(j, nm)| { let pl = run.pal(nm); let q: Vec<usize> = w.rows[at..at + p].iter().map(|r| r[j]).collect();
                                      (nm.clone(), pl.name.clone(), if q.is_empty() { vec![] } else { pl.enc.get(&q).unwrap_or_else(|| panic!("{q:?}")).clone() }) }).collect();
                                  st.serve.push(cols); st.lens.push(p as u64); at += p;
                              } }
                            w.served = vec![true; w.names.len()];
                            let simple = s["kind"] == "simple";
                            let got = within(20, async {
                                if h.is_none() { h = Some(pool.get_handle().await.map_err(es)?); }
                                let c = h.as_mut().unwrap();
                                if simple { let mut st = c.query("serve").stream_blocks(); let mut k = None; while let Some(b) = st.next().await { let b = b.map_err(es)?; if b.row_count() > 0 { k = Some(b) } } Ok(H::S(k.ok_or("no block".to_string())?)) }
                                else { Ok(H::C(c.query("serve").fetch_all().await.map_err(es)?)) }
                            }).await;
                            match got { Ok(Ok(b)) => { bs.push(b); Ok(()) } Ok(Err(e)) => { h = None; Err(e) } Err(p) => { h = None; Err(format!("panic: {}", panic_msg(p))) } }
                        }
                        "push" => {
                            let (row, nt) = run.row(s["cells"].as_array().unwrap(), &ws[hn]);
                            note = nt;
                            if ok && old_cols == 0 { w.served = vec![false; w.names.len()]; }
                            let via = s["via"].as_str().unwrap();
                            match caught(|| on!(&mut bs[hn], b => push(b, row, via))) { Ok(r) => r, Err(p) => Err(format!("panic: {p}")) }
                        }
                        "add" => {
                            let (name, n, first) = (s["name"].as_str().unwrap(), s["n"].as_u64().unwrap() as usize, s["first"].as_u64().unwrap() as usize);
                            let p = run.pal(name);
                            let vs: Vec<J> = (0..n).map(|q| p.val(first + q).clone()).collect();
                            if ok { w.served.push(false); }
                            match caught(|| { set_stz(zone); by_rows(&p.t, &vs) }) {
                                Ok(Ok(cb)) => {
                                    let col = cb.columns()[0].clone();
                                    drop(cb);
                                    // the block is consumed; when it should be refused a clone is offered instead
                                    let r = if ok {
                                        let old = std::mem::replace(&mut bs[hn], H::S(Block::new()));
                                        caught(move || match old { H::S(b) => H::S(b.column(name, col)), H::C(b) => H::C(b.column(name, col)) })
                                    } else {
                                        let c = match &bs[hn] { H::S(b) => H::S(b.clone()), H::C(b) => H::C(b.clone()) };
                                        caught(move || match c { H::S(b) => H::S(b.column(name, col)), H::C(b) => H::C(b.column(name, col)) })
                                    };
                                    match r { Ok(b) => { if ok { bs[hn] = b; } Ok(()) } Err(p) => Err(if ok { format!("panic: {p}") } else { p }) }
                                }
                                o => Err(format!("making the column: {:?}", o.map(|_| ()))),
                            }
                        }
                        "clone" => {
                            let from = s["from"].as_u64().unwrap() as usize - 1;
                            w.served = ws[from].served.clone();
                            let c = match &bs[from] { H::S(b) => H::S(b.clone()), H::C(b) => H::C(b.clone()) };
                            let plain = !w.names.iter().any(|n| floaty(&run.pal(n).t));
                            let same = caught(|| on!(&c, a => on!(&bs[from], b => a == b && b == a)));
                            bs.push(c);
                            match same { Ok(true) => Ok(()), Ok(false) if !plain => Ok(()), Ok(false) => Err("a clone is not equal to the original".into()), Err(p) => Err(format!("panic: comparing: {p}")) }
                        }
                        "share" => {
                            let (from, col) = (s["from"].as_u64().unwrap() as usize - 1, s["col"].as_u64().unwrap() as usize - 1);
                            w.served = vec![ws[from].served[col]];
                            let name = w.names[0].clone();
                            match caught(|| on!(&bs[from], b => Block::new().column(&name, b.get_column(col).unwrap().clone()))) { Ok(b) => { bs.push(H::S(b)); Ok(()) } Err(p) => Err(format!("panic: {p}")) }
                        }
                        o => panic!("{o}"),
                    };
                    match (&outcome, ok) {
                        (Err(e), true) => { bad = Some((k, format!("{op} refused"), e.clone())); break 'steps; }
                        (Ok(()), false) => { bad = Some((k, format!("{op} accepted"), format!("should be refused {note}"))); break 'steps; }
                        (Err(e), false) if e.starts_with("panic") => { bad = Some((k, format!("{op} panic"), format!("{e} {note}"))); break 'steps; }
                        _ => {}
                    }
                    if hn < ws.len() { ws[hn] = w } else { ws.push(w) }
                    for (q, (b, w)) in bs.iter().zip(&ws).enumerate() {
                        let r = match caught(|| on!(b, b => run.check(b, w, true))) { Ok(r) => r, Err(p) => Err(format!("panic: reading: {p}")) };
                        if let Err(e) = r { bad = Some((k, format!("{op} {}", if q == hn { "spoils" } else { "spoils another" }), format!("block {}: {e} {note}", q + 1))); break 'steps; }
                    }
                    // blocks with different numbers of rows are different
                    for q in 0..bs.len() { if q != hn && ws[q].rows.len() != ws[hn].rows.len() && !ws[q].names.is_empty() && !ws[hn].names.is_empty() && on!(&bs[q], a => on!(&bs[hn], b => a == b)) { bad = Some((k, "equal".into(), format!("blocks {} and {} are equal", q + 1, hn + 1))); break 'steps; } }
                }
                // what is sent of them comes back
                if bad.is_none() && x % 4 == 0 {
                    for (q, (b, w)) in bs.iter().zip(&ws).enumerate() {
                        let H::S(b) = b else { continue };
                        let mut d = w.names.clone(); d.sort(); d.dedup();
                        if w.rows.is_empty() || d.len() != w.names.len() { continue; }
                        { let mut st = stage.lock().unwrap(); st.header = b.columns().iter().map(|c| (c.name().to_string(), c.sql_type().to_string().to_string())).collect(); st.got = None; st.bad = None; }
                        sent += 1;
                        let got = within(20, async {
                            if h.is_none() { h = Some(pool.get_handle().await.map_err(es)?); }
                            let c = h.as_mut().unwrap();
                            c.insert("t", b).await.map_err(|e| format!("insert: {e}"))?;
                            if let Some(m) = stage.lock().unwrap().bad.clone() { return Err(format!("the server cannot read it: {m}")); }
                            c.query("back").fetch_all().await.map_err(|e| format!("back: {e}"))
                        }).await;
                        let r = match got { Err(p) => { h = None; Err(format!("panic: {}", panic_msg(p))) } Ok(Err(e)) => { h = None; Err(e) } Ok(Ok(r)) => match caught(|| run.check(&r, w, false)) { Ok(r) => r, Err(p) => Err(format!("panic: {p}")) } };
                        // a map with date-times made here can't be inserted: it's refused
                        if matches!(&r, Err(e) if e.starts_with("insert: ") && e.contains("cannot be cast") && e.contains("Map(") && e.contains("DateTime")) { continue; }
                        if let Err(e) = r { bad = Some((steps.len(), "sent".into(), format!("block {}: {e}", q + 1))); break; }
                    }
                }
                if let Some((k, key, what)) = bad { fails.push(json!({"i": i, "step": k, "key": key, "what": what, "a": pa.name, "b": pb.name, "steps": &steps[..(k + 1).min(steps.len())], "tz": stz})); }
            }
            Some((fails, ops, sent))
        }
    });
    let mut fails: Vec<J> = vec![];
    let (mut ops, mut sent) = (0, 0);
    for (f, k, s) in res { fails.extend(f); ops += k; sent += s; }
    let count = fails.len();
    fails.truncate(3000);
    write_json(out, &json!({"histories": n, "replays": total, "operations": ops, "inserts": sent, "failures": count, "fails": fails}));
}
