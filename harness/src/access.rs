//! Replays Access.tla: every column read as every Rust type, by cell and by typed iterator, and asked for
//! at places that aren't there.
use crate::cols::{caught, recs, typed, by_rows, Rec, S, TZS};
use crate::server::*;
use crate::ty::*;
use crate::util::*;
use crate::wire::*;
use chrono::{DateTime, NaiveDate, NaiveDateTime};
use chrono_tz::Tz;
use clickhouse_rs::types::column::iter::Iterable;
use clickhouse_rs::types::{Block, Column, ColumnType, Complex, Decimal, Enum16, Enum8, FromSql, Row, Simple};
use clickhouse_rs::Pool;
use futures_util::{FutureExt, StreamExt};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::net::{Ipv4Addr, Ipv6Addr};
use std::panic::AssertUnwindSafe;
use std::sync::Arc;
use uuid::Uuid;

macro_rules! cell_types { ($m:ident, $($a:tt)*) => { $m! { ($($a)*) u8; u16; u32; u64; u128; i8; i16; i32; i64; i128; f32; f64; bool; Decimal; Enum8; Enum16; Ipv4Addr; Ipv6Addr; Uuid; NaiveDate; String; &str; &[u8]; DateTime<Tz>; Vec<u8>; Vec<u16>; Vec<u32>; Vec<u64>; Vec<u128>; Vec<i8>; Vec<i16>; Vec<i32>; Vec<i64>; Vec<i128>; Vec<f32>; Vec<f64>; Vec<bool>; Vec<Enum8>; Vec<Enum16>; Vec<NaiveDate>; Vec<String>; Vec<&str>; Vec<&[u8]>; Vec<DateTime<Tz>>; Vec<Vec<u8>>; Option<u8>; Option<u16>; Option<u32>; Option<u64>; Option<u128>; Option<i8>; Option<i16>; Option<i32>; Option<i64>; Option<i128>; Option<f32>; Option<f64>; Option<bool>; Option<Decimal>; Option<Enum8>; Option<Enum16>; Option<Ipv4Addr>; Option<Ipv6Addr>; Option<Uuid>; Option<NaiveDate>; Option<String>; Option<&str>; Option<&[u8]>; Option<DateTime<Tz>>; Option<Vec<u8>>; Option<Vec<String>>; Option<Option<u8>>; HashMap<u8, u8>; HashMap<u8, i64>; HashMap<u8, Decimal>; HashMap<u8, Uuid>; HashMap<u8, NaiveDate>; HashMap<u8, String>; HashMap<u8, Vec<u8>>; HashMap<u8, Vec<String>>; HashMap<u8, Option<u8>>; HashMap<u8, Option<String>>; HashMap<String, u8>; HashMap<u8, HashMap<String, u8>>; HashMap<u64, u8>; HashMap<u64, i64>; HashMap<u64, Decimal>; HashMap<u64, Uuid>; HashMap<u64, NaiveDate>; HashMap<u64, String>; HashMap<u64, Vec<u8>>; HashMap<u64, Vec<String>>; HashMap<u64, Option<u8>>; HashMap<u64, Option<String>>; HashMap<bool, u8>; HashMap<Ipv4Addr, u8>; HashMap<Uuid, u8>; HashMap<NaiveDate, u8>; HashMap<String, i64>; HashMap<String, Decimal>; HashMap<String, Uuid>; HashMap<String, NaiveDate>; HashMap<String, String>; HashMap<String, Vec<u8>>; HashMap<String, Vec<String>>; HashMap<String, Option<u8>>; HashMap<String, Option<String>>; HashMap<&[u8], u8> } } }
macro_rules! iter_types { ($m:ident, $($a:tt)*) => { $m! { ($($a)*) u8; u16; u32; u64; u128; i8; i16; i32; i64; i128; f32; f64; bool; Decimal; Ipv4Addr; Ipv6Addr; Uuid; NaiveDate; &[u8]; DateTime<Tz>; NaiveDateTime; Vec<u8>; Vec<u16>; Vec<u32>; Vec<u64>; Vec<u128>; Vec<i8>; Vec<i16>; Vec<i32>; Vec<i64>; Vec<i128>; Vec<f32>; Vec<f64>; Vec<bool>; Vec<NaiveDate>; Vec<&[u8]>; Vec<DateTime<Tz>>; Vec<Vec<u8>>; Option<u8>; Option<u16>; Option<u32>; Option<u64>; Option<u128>; Option<i8>; Option<i16>; Option<i32>; Option<i64>; Option<i128>; Option<f32>; Option<f64>; Option<bool>; Option<Decimal>; Option<Ipv4Addr>; Option<Ipv6Addr>; Option<Uuid>; Option<NaiveDate>; Option<&[u8]>; Option<DateTime<Tz>>; Option<Vec<u8>>; Option<Option<u8>>; HashMap<u8, u8>; HashMap<u8, i64>; HashMap<u8, Decimal>; HashMap<u8, Uuid>; HashMap<u8, NaiveDate>; HashMap<u8, Vec<u8>>; HashMap<u8, Option<u8>>; HashMap<u64, u8>; HashMap<u64, i64>; HashMap<u64, Decimal>; HashMap<u64, Uuid>; HashMap<u64, NaiveDate>; HashMap<u64, Vec<u8>>; HashMap<u64, Option<u8>>; HashMap<&[u8], u8>; Vec<Decimal>; Vec<Ipv4Addr>; Vec<Ipv6Addr>; Vec<Uuid>; Vec<NaiveDateTime>; Vec<Vec<u64>>; Vec<Vec<i64>>; Vec<Vec<Decimal>>; Vec<Vec<Uuid>>; Vec<Vec<NaiveDate>>; Vec<Vec<&[u8]>>; Vec<Vec<DateTime<Tz>>>; Vec<Option<i64>>; Vec<Vec<Option<i64>>>; Vec<Option<u8>>; Vec<Option<u64>>; Vec<Option<Decimal>>; Vec<Option<Uuid>>; Vec<Option<NaiveDate>>; Vec<Option<&[u8]>>; Vec<Option<DateTime<Tz>>>; Option<NaiveDateTime>; HashMap<u8, &[u8]>; HashMap<u8, HashMap<&[u8], u8>>; HashMap<u64, &[u8]>; HashMap<&[u8], i64>; HashMap<&[u8], Decimal>; HashMap<&[u8], Uuid>; HashMap<&[u8], NaiveDate>; HashMap<&[u8], &[u8]>; HashMap<&[u8], Vec<u8>>; HashMap<&[u8], Option<u8>> } } }

type Out = Result<Result<J, String>, String>; // outer: a panic
fn es<E: std::fmt::Display>(e: E) -> String { e.to_string() }
fn plain(s: &str) -> String { s.replace(' ', "") }

type CellFn<K> = fn(&'static Block<K>, &'static [Row<'static, K>], usize, usize) -> Result<J, String>;
type IterFn<K> = fn(&'static Column<K>) -> Result<Vec<J>, String>;
const HOW: [&str; 4] = ["Block::get by name", "Block::get by index", "Row::get by name", "Row::get by index"];
fn fin<R: ToX>(r: clickhouse_rs::errors::Result<R>) -> Result<J, String> { match r { Ok(x) => Ok(x.x()), Err(e) => Err(es(e)) } }
fn cell<R, K>(b: &'static Block<K>, rows: &'static [Row<'static, K>], i: usize, how: usize) -> Result<J, String>
where K: ColumnType, R: FromSql<'static> + ToX {
    fin::<R>(match how { 0 => b.get(i, "c"), 1 => b.get(i, 0usize), 2 => rows[i].get("c"), _ => rows[i].get(0usize) })
}
fn iter<R, K>(c: &'static Column<K>) -> Result<Vec<J>, String>
where K: ColumnType, R: Iterable<'static, K>, <R::Iter as Iterator>::Item: ToX {
    let mut o = vec![];
    match c.iter::<R>() { Ok(it) => for x in it { o.push(x.x()); }, Err(e) => return Err(es(e)) }
    Ok(o)
}
type Told = Vec<(String, String)>;
/// One column of a block whose rows hold `want`.
struct Want<'a> { cells: &'a HashMap<String, Vec<String>>, iters: &'a HashMap<String, String>, x: &'a [J] }
fn judge_cell(w: &Want, r: &str, i: usize, how: &str, got: Out, bad: &mut Told) {
    let v = w.cells.get(&plain(r)).map_or("never", |v| v[i].as_str());
    let key = format!("{r} by {how}");
    match (v, got) {
        (_, Err(p)) => bad.push((key, format!("row {i}: panic: {p}"))),
        ("never", Ok(Ok(x))) => bad.push((key, format!("row {i} reads {x}, should be refused"))),
        ("must", Ok(Err(e))) => bad.push((key, format!("row {i}: {e}, should read {}", w.x[i]))),
        (_, Ok(Ok(x))) => if !same(&x, &w.x[i]) { bad.push((key, format!("row {i} reads {x}, should be {}", w.x[i]))) },
        _ => {}
    }
}
/// bytes read as Vec<u8> come as numbers in text form
fn same(x: &J, w: &J) -> bool {
    x == w || match (x.as_array(), w.as_array()) { (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(p, q)| same(p, q)), (None, None) => p_num(x) == p_num(w) && p_num(x).is_some(), _ => false }
}
fn p_num(x: &J) -> Option<u64> { x.as_u64().or_else(|| x.as_str().and_then(|s| s.parse().ok())) }
fn judge_iter(w: &Want, r: &str, got: Result<Result<Vec<J>, String>, String>, bad: &mut Told) {
    let v = w.iters.get(&plain(r)).map_or("never", |v| v.as_str());
    let key = format!("{r} by iter");
    match (v, got) {
        (_, Err(p)) => bad.push((key, format!("panic: {p}"))),
        ("never", Ok(Ok(x))) => bad.push((key, format!("reads {}, should be refused", J::from(x)))),
        ("must", Ok(Err(e))) => bad.push((key, format!("{e}, should read {}", J::from(w.x.to_vec())))),
        (_, Ok(Ok(x))) => if x.len() != w.x.len() || !x.iter().zip(w.x).all(|(a, b)| same(a, b)) { bad.push((key, format!("reads {}, should be {}", J::from(x), J::from(w.x.to_vec())))) },
        _ => {}
    }
}
macro_rules! cell_go { (($K:ident) $($r:ty);*) => { vec![$( (stringify!($r), cell::<$r, $K> as CellFn<$K>) ),*] } }
fn all_cells<K: ColumnType>(b: &'static Block<K>, w: &Want, bad: &mut Told) -> usize {
    let rows: &'static Vec<Row<'static, K>> = Box::leak(Box::new(b.rows().collect()));
    let mut n = 0;
    if rows.len() != w.x.len() || b.row_count() != w.x.len() { bad.push(("rows".into(), format!("{} rows, should be {}", rows.len(), w.x.len()))); return 0; }
    let fs = cell_types!(cell_go, K);
    for i in 0..w.x.len() { for (r, f) in &fs { for (h, how) in HOW.iter().enumerate() { n += 1; judge_cell(w, r, i, how, caught(|| f(b, rows, i, h)), bad); } } }
    n
}
macro_rules! iter_go { (($K:ident) $($r:ty);*) => { vec![$( (stringify!($r), iter::<$r, $K> as IterFn<$K>) ),*] } }
fn iters<K: ColumnType>(c: &'static Column<K>, fs: Vec<(&str, IterFn<K>)>, w: &Want, bad: &mut Told) -> usize { for (r, f) in &fs { judge_iter(w, r, caught(|| f(c)), bad); } fs.len() }
fn iters_simple(c: &'static Column<Simple>, w: &Want, bad: &mut Told) -> usize { iters(c, iter_types!(iter_go, Simple), w, bad) }
fn iters_complex(c: &'static Column<Complex>, w: &Want, bad: &mut Told) -> usize { iters(c, iter_types!(iter_go, Complex), w, bad) }

/// Places that aren't there: every access is an error, without a panic.
fn places<K: ColumnType>(b: &'static Block<K>, bad: &mut Told) -> usize {
    let mut n = 0;
    let (rc, cc) = (b.row_count(), b.column_count());
    let mut see = |what: String, o: Result<Result<J, String>, String>| { n += 1; match o { Ok(Err(_)) => {} Ok(Ok(x)) => bad.push((what.split(" row").next().unwrap().into(), format!("{what} gives {x}"))), Err(p) => bad.push((what.split(" row").next().unwrap().into(), format!("{what}: panic: {p}"))) } };
    let far = [rc, rc + 1, rc + 7, u32::MAX as usize, u32::MAX as usize + 1, isize::MAX as usize, usize::MAX - 1, usize::MAX];
    for r in far {
        see(format!("Block::get by name row {r} of {rc}"), caught(|| b.get::<Cell, _>(r, "c").map(|c| c.0).map_err(es)));
        see(format!("Block::get by index row {r} of {rc}"), caught(|| b.get::<Cell, _>(r, 0usize).map(|c| c.0).map_err(es)));
    }
    let names = ["nosuch", "", "C", "c ", " c", "cc", "`c`", "c\0"];
    let cols = [cc, cc + 1, u32::MAX as usize, usize::MAX - 1, usize::MAX];
    for r in (0..rc).chain(far) {
        for k in names { see(format!("Block::get by unknown name row {r} {k:?}"), caught(|| b.get::<Cell, _>(r, k).map(|c| c.0).map_err(es))); }
        for k in cols { see(format!("Block::get by far index row {r} column {k} of {cc}"), caught(|| b.get::<Cell, _>(r, k).map(|c| c.0).map_err(es))); }
    }
    for k in names { see(format!("Block::get_column by unknown name row - {k:?}"), caught(|| b.get_column(k).map(|c| json!(c.name())).map_err(es))); }
    for k in cols { see(format!("Block::get_column by far index row - {k} of {cc}"), caught(|| b.get_column(k).map(|c| json!(c.name())).map_err(es))); }
    let rows: &'static Vec<Row<'static, K>> = Box::leak(Box::new(b.rows().collect()));
    for row in rows {
        for k in names { see(format!("Row::get by unknown name row - {k:?}"), caught(|| row.get::<Cell, _>(k).map(|c| c.0).map_err(es))); see(format!("Row::sql_type by unknown name row - {k:?}"), caught(|| row.sql_type(k).map(|c| json!(c.to_string())).map_err(es))); see(format!("Row::name by unknown name row - {k:?}"), caught(|| row.name(k).map(|c| json!(c)).map_err(es))); }
        for k in cols { see(format!("Row::get by far index row - {k}"), caught(|| row.get::<Cell, _>(k).map(|c| c.0).map_err(es))); see(format!("Row::sql_type by far index row - {k}"), caught(|| row.sql_type(k).map(|c| json!(c.to_string())).map_err(es))); see(format!("Row::name by far index row - {k}"), caught(|| row.name(k).map(|c| json!(c)).map_err(es))); }
    }
    n
}

fn col_block(r: &Rec) -> Vec<u8> { block_bytes(&[("c".into(), r.name.clone(), r.b.clone())], r.n as u64) }
fn empty_block(r: &Rec) -> Vec<u8> { block_bytes(&[("c".into(), r.name.clone(), vec![])], 0) }

pub fn run(inp: &str, out: &str) {
    let raw = read_ndjson(inp);
    let map = |j: &J| -> HashMap<String, J> { j.as_object().map(|m| m.iter().map(|(k, v)| (plain(k), v.clone())).collect()).unwrap_or_default() };
    // the list of types is the specification's
    let mut names: [Vec<String>; 2] = [vec![], vec![]];
    macro_rules! nm { (($v:expr) $($r:ty);*) => { $( $v.push(plain(stringify!($r))); )* } }
    cell_types!(nm, names[0]);
    iter_types!(nm, names[1]);
    for r in &raw {
        for (k, f) in ["cells", "iters"].iter().enumerate() {
            let mut asked: Vec<String> = r["requests"][f].as_array().unwrap().iter().map(|x| plain(x.as_str().unwrap())).collect();
            if asked.is_empty() { continue; }
            asked.sort();
            names[k].sort();
            if asked != names[k] { panic!("types differ from the specification's: {:?}", asked.iter().filter(|x| !names[k].contains(x)).chain(names[k].iter().filter(|x| !asked.contains(x))).collect::<Vec<_>>()); }
        }
    }
    let rs = Arc::new(recs(inp));
    let verd: Arc<Vec<(HashMap<String, Vec<String>>, HashMap<String, String>)>> = Arc::new(raw.iter().map(|r| (
        map(&r["cells"]).into_iter().map(|(k, v)| (k, v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect())).collect(),
        map(&r["iters"]).into_iter().map(|(k, v)| (k, v.as_str().unwrap().to_string())).collect())).collect());
    const CH: usize = 8;
    let jobs = (rs.len() + CH - 1) / CH;
    let (n, rs2) = (rs.len(), rs.clone());
    let res: Vec<(Vec<J>, usize)> = par(jobs, 1, move |job| {
        let (rs, verd) = (rs2.clone(), verd.clone());
        async move {
            let stz = TZS[job % 3];
            let zone: Tz = stz.parse().unwrap();
            let r2 = rs.clone();
            let srv = Server::start(Arc::new(S(move |_c, r: &Req| match r {
                Req::Hello { .. } => vec![Act::Send(hello(54429, stz))],
                Req::Ping => vec![Act::Send(pong())],
                Req::Query(q) => {
                    let mut w = q.sql.split(' ');
                    let (k, i) = (w.next().unwrap(), w.next().unwrap().parse::<usize>().unwrap());
                    let (a, c) = (&r2[i], q.compression);
                    let mut o = data(&empty_block(a), c);
                    o.extend(data(&col_block(a), c));
                    if k == "two" { o.extend(data(&empty_block(a), c)); o.extend(data(&col_block(a), c)); }
                    o.extend(eos());
                    vec![Act::Send(o)]
                }
                _ => vec![],
            })));
            let pool = Pool::new(format!("tcp://{}?compression={}&ping_before_query=false&query_timeout=90s&pool_min=1&pool_max=2", srv.addr, if job % 2 == 0 { "none" } else { "lz4" }));
            let (mut fails, mut total) = (vec![], 0);
            for i in job * CH..((job + 1) * CH).min(rs.len()) {
                if enough() { break; }
                let r = &rs[i];
                let (cells, iters) = &verd[i];
                let mut note = |source: &str, bad: Told| {
                    for (key, what) in bad { fails.push(json!({"i": i, "type": r.name, "source": source, "key": key, "what": what, "v": r.v, "tz": stz})); }
                };
                let got = within(20, async {
                    let mut h = pool.get_handle().await.map_err(es)?;
                    let one = { let mut s = h.query(format!("one {i}")).stream_blocks(); let mut k = None; while let Some(b) = s.next().await { let b = b.map_err(es)?; if b.row_count() > 0 { k = Some(b) } } k.ok_or("no block".to_string())? };
                    let two = h.query(format!("two {i}")).fetch_all().await.map_err(es)?;
                    Ok::<_, String>((one, two))
                }).await;
                let (one, two) = match got { Ok(Ok(x)) => x, Ok(Err(e)) => { note("served", vec![("read".into(), e)]); continue } Err(p) => { note("served", vec![("read".into(), panic_msg(p))]); continue } };
                let (one, two): (&'static Block<Simple>, &'static Block<Complex>) = (Box::leak(Box::new(one)), Box::leak(Box::new(two)));
                let w = Want { cells, iters, x: &r.x };
                let mut bad = vec![];
                total += all_cells(one, &w, &mut bad) + iters_simple(&one.columns()[0], &w, &mut bad) + places(one, &mut bad);
                note("one block", bad);
                let twice = |v: &[J]| v.iter().chain(v).cloned().collect::<Vec<J>>();
                let cells2: HashMap<String, Vec<String>> = cells.iter().map(|(k, v)| (k.clone(), v.iter().chain(v).cloned().collect())).collect();
                let x2 = twice(&r.x);
                let w2 = Want { cells: &cells2, iters, x: &x2 };
                let mut bad = vec![];
                total += all_cells(two, &w2, &mut bad) + iters_complex(&two.columns()[0], &w2, &mut bad) + places(two, &mut bad);
                note("two blocks", bad);
                // built here, when the column has the same type
                let text = r.v.iter().all(|v| utf8(&r.t, v));
                let mut local: Vec<(&str, Block)> = vec![];
                if let Ok(Some(v)) = caught(|| { set_stz(zone); typed(&r.t, &r.v, text) }) { for b in v { local.push(("built of a vector", b)); } }
                if let Ok(Ok(b)) = caught(|| { set_stz(zone); by_rows(&r.t, &r.v) }) { local.push(("built of rows", b)); }
                for (source, b) in local {
                    let b: &'static Block = Box::leak(Box::new(b));
                    if b.columns()[0].sql_type().to_string() != one.columns()[0].sql_type().to_string() { continue; }
                    // columns built of date-times here have no typed iterator
                    let some: HashMap<String, String>;
                    let iters = if r.name.contains("DateTime") { some = iters.iter().map(|(k, _)| (k.clone(), "free".to_string())).collect(); &some } else { iters };
                    let w = Want { cells, iters, x: &r.x };
                    let mut bad = vec![];
                    total += all_cells(b, &w, &mut bad) + iters_simple(&b.columns()[0], &w, &mut bad) + places(b, &mut bad);
                    note(source, bad);
                }
            }
            Some((fails, total))
        }
    });
    let mut fails: Vec<J> = vec![];
    let mut reads = 0;
    for (f, k) in res { fails.extend(f); reads += k; }
    let mut bad = vec![];
    let none: &'static Block = Box::leak(Box::new(Block::new()));
    reads += places(none, &mut bad);
    for (key, what) in bad { fails.push(json!({"i": 0, "type": "", "source": "no columns", "key": key, "what": what, "v": [], "tz": ""})); }
    write_json(out, &json!({"columns": n, "reads": reads, "fails": fails}));
}
