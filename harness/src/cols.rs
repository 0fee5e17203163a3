//! Replays Wire.tla columns: decoding (a served column read every way) and encoding (values put in a
//! block every way, bytes captured by the server).
use crate::server::*;
use crate::ty::*;
use crate::util::*;
use crate::wire::*;
use chrono::{DateTime, NaiveDate, NaiveDateTime};
use chrono_tz::Tz;
use clickhouse_rs::types::column::iter::Iterable;
use clickhouse_rs::types::{Block, Column, ColumnType, Complex, Decimal, Enum16, Enum8, FromSql, Simple, Value};
use clickhouse_rs::{ClientHandle, Pool};
use futures_util::{FutureExt, StreamExt};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::net::{Ipv4Addr, Ipv6Addr};
use std::panic::AssertUnwindSafe;
use std::sync::{Arc, Mutex};

type It = Option<Result<Vec<J>, String>>;
fn es<E: std::fmt::Display>(e: E) -> String { e.to_string() }

/// Iterates a column typed; also checks that the promised sizes and `nth` agree with plain iteration.
fn go<'a, R, K>(c: &'a Column<K>) -> It
where K: ColumnType, R: Iterable<'a, K>, <R::Iter as Iterator>::Item: ToX {
    let it = match c.iter::<R>() { Ok(i) => i, Err(e) => return Some(Err(es(e))) };
    let (lo, hi) = it.size_hint();
    let all: Vec<J> = it.map(|x| x.x()).collect();
    if lo > all.len() || hi.map_or(false, |h| h < all.len()) { return Some(Err(format!("size_hint ({lo}, {hi:?}) but {} items", all.len()))); }
    let n = all.len();
    for (skip, then) in [(0usize, 1usize), (1, 0), (1, 1), (2, 0), (n, 0)] {
        let Ok(mut it) = c.iter::<R>() else { return Some(Err("second iter failed".into())) };
        let a = it.nth(skip).map(|x| x.x());
        if a.as_ref() != all.get(skip) { return Some(Err(format!("nth({skip}) gives {a:?}, iteration gives {:?}", all.get(skip)))); }
        let b = it.nth(then).map(|x| x.x());
        if b.as_ref() != all.get(skip + 1 + then) { return Some(Err(format!("nth({skip}) then nth({then}) gives {b:?}, iteration gives {:?}", all.get(skip + 1 + then)))); }
        let rest = it.count();
        let want = n.saturating_sub(skip + then + 2);
        if rest != want { return Some(Err(format!("count after nth({skip}), nth({then}) gives {rest}, should be {want}"))); }
    }
    Some(Ok(all))
}
fn opt_all<'a, I>(a: It, b: I) -> It where I: FnOnce() -> It { match a { Some(Ok(x)) => { match b() { Some(Ok(y)) if y == x => Some(Ok(x)), o => o } } o => o } }

// scalar types with a typed iterator
macro_rules! leaf_iter { ($t:expr, $R:ident => $e:expr, else $o:expr) => { match $t {
    T::UInt8 => { type $R = u8; $e } T::UInt16 => { type $R = u16; $e } T::UInt32 => { type $R = u32; $e } T::UInt64 => { type $R = u64; $e } T::UInt128 => { type $R = u128; $e }
    T::Int8 => { type $R = i8; $e } T::Int16 => { type $R = i16; $e } T::Int32 => { type $R = i32; $e } T::Int64 => { type $R = i64; $e } T::Int128 => { type $R = i128; $e }
    T::Bool => { type $R = bool; $e } T::Float32 => { type $R = f32; $e } T::Float64 => { type $R = f64; $e }
    T::String | T::FixedString(_) => { type $R = &'static [u8]; $e }
    T::Date => { type $R = NaiveDate; $e } T::DateTime(_) | T::DateTime64(..) => { type $R = DateTime<Tz>; $e }
    T::Decimal(..) => { type $R = Decimal; $e } T::IPv4 => { type $R = Ipv4Addr; $e } T::IPv6 => { type $R = Ipv6Addr; $e } T::UUID => { type $R = uuid::Uuid; $e }
    _ => $o } } }
macro_rules! few_iter { ($t:expr, $R:ident => $e:expr, else $o:expr) => { match $t {
    T::UInt8 => { type $R = u8; $e } T::Int64 => { type $R = i64; $e } T::String | T::FixedString(_) => { type $R = &'static [u8]; $e }
    T::Date => { type $R = NaiveDate; $e } T::UUID => { type $R = uuid::Uuid; $e } T::Decimal(..) => { type $R = Decimal; $e } T::DateTime(_) => { type $R = DateTime<Tz>; $e }
    _ => $o } } }
macro_rules! key_iter { ($t:expr, $R:ident => $e:expr, else $o:expr) => { match $t {
    T::String => { type $R = &'static [u8]; $e } T::UInt8 => { type $R = u8; $e } T::Int32 => { type $R = i32; $e } T::UInt64 => { type $R = u64; $e } T::Int128 => { type $R = i128; $e }
    _ => $o } } }
macro_rules! iter_fn { ($name:ident, $K:ty) => {
    /// None: the client offers no typed iterator for this type.
    pub fn $name(t: &T, c: &Column<$K>) -> It {
        match t {
            T::SAF(_, i) => return $name(i, c),
            T::LC(i) => return if matches!(&**i, T::String | T::FixedString(_) | T::Date | T::DateTime(_) | T::DateTime64(..)) { $name(i, c) } else { None },
            T::DateTime(_) | T::DateTime64(..) => return opt_all(go::<DateTime<Tz>, $K>(c), || go::<NaiveDateTime, $K>(c)),
            T::Nullable(i) => match &**i {
                T::DateTime(_) | T::DateTime64(..) => opt_all(go::<Option<DateTime<Tz>>, $K>(c), || go::<Option<NaiveDateTime>, $K>(c)),
                i => leaf_iter!(i, R => go::<Option<R>, $K>(c), else None),
            },
            T::Array(i) => match &**i {
                T::Nullable(i) => leaf_iter!(&**i, R => go::<Vec<Option<R>>, $K>(c), else None),
                T::Array(i) => match &**i {
                    T::Nullable(i) => few_iter!(&**i, R => go::<Vec<Vec<Option<R>>>, $K>(c), else None),
                    T::Array(i) => few_iter!(&**i, R => go::<Vec<Vec<Vec<R>>>, $K>(c), else None),
                    i => leaf_iter!(i, R => go::<Vec<Vec<R>>, $K>(c), else None),
                },
                T::Map(a, b) => match (&**a, &**b) {
                    (T::String, T::UInt8) => go::<Vec<HashMap<&'static [u8], u8>>, $K>(c),
                    (T::String, T::String) => go::<Vec<HashMap<&'static [u8], &'static [u8]>>, $K>(c),
                    _ => None,
                },
                i => leaf_iter!(i, R => go::<Vec<R>, $K>(c), else None),
            },
            T::Map(a, b) => match &**b {
                T::Array(i) => match (&**a, &**i) {
                    (T::String, T::Nullable(i)) => few_iter!(&**i, R => go::<HashMap<&'static [u8], Vec<Option<R>>>, $K>(c), else None),
                    (T::String, i) => few_iter!(i, R => go::<HashMap<&'static [u8], Vec<R>>, $K>(c), else None),
                    (T::UInt8, i) => few_iter!(i, R => go::<HashMap<u8, Vec<R>>, $K>(c), else None),
                    _ => None,
                },
                T::Nullable(i) => match &**a {
                    T::String => few_iter!(&**i, R => go::<HashMap<&'static [u8], Option<R>>, $K>(c), else None),
                    T::UInt8 => few_iter!(&**i, R => go::<HashMap<u8, Option<R>>, $K>(c), else None),
                    _ => None,
                },
                T::Map(a2, i) => match (&**a, &**a2) {
                    (T::UInt8, T::String) => few_iter!(&**i, R => go::<HashMap<u8, HashMap<&'static [u8], R>>, $K>(c), else None),
                    _ => None,
                },
                i => key_iter!(&**a, KT => few_iter!(i, R => go::<HashMap<KT, R>, $K>(c), else None), else None),
            },
            t => leaf_iter!(t, R => go::<R, $K>(c), else None),
        }
    }
} }
iter_fn!(iter_simple, Simple);
iter_fn!(iter_complex, Complex);

// ---------------------------------------------------------------- typed cells
fn gets<'a, R, K>(b: &'a Block<K>, col: &'static str, f: fn(&R) -> J) -> It where K: ColumnType, R: FromSql<'a> {
    let mut out = vec![];
    // rows borrow themselves when read, so they have to live as long as the block
    let rows: &'a Vec<_> = Box::leak(Box::new(b.rows().collect::<Vec<_>>()));
    for (i, row) in rows.iter().enumerate() {
        let x: R = match b.get(i, col) { Ok(v) => v, Err(e) => return Some(Err(es(e))) };
        let y: R = match row.get(col) { Ok(v) => v, Err(e) => return Some(Err(es(e))) };
        let z: R = match row.get(0usize) { Ok(v) => v, Err(e) => return Some(Err(es(e))) };
        let (x, y, z) = (f(&x), f(&y), f(&z));
        if x != y || x != z { return Some(Err(format!("Block::get gives {x}, Row::get gives {y} / {z}"))); }
        out.push(x);
    }
    Some(Ok(out))
}
fn xg<'a, R, K>(b: &'a Block<K>) -> It where K: ColumnType, R: FromSql<'a> + ToX { gets::<R, K>(b, "c", |r| r.x()) }
macro_rules! leaf_get { ($t:expr, $R:ident => $e:expr, else $o:expr) => { match $t {
    T::UInt8 => { type $R = u8; $e } T::UInt16 => { type $R = u16; $e } T::UInt32 => { type $R = u32; $e } T::UInt64 => { type $R = u64; $e } T::UInt128 => { type $R = u128; $e }
    T::Int8 => { type $R = i8; $e } T::Int16 => { type $R = i16; $e } T::Int32 => { type $R = i32; $e } T::Int64 => { type $R = i64; $e } T::Int128 => { type $R = i128; $e }
    T::Bool => { type $R = bool; $e } T::Float32 => { type $R = f32; $e } T::Float64 => { type $R = f64; $e }
    T::String | T::FixedString(_) => { type $R = String; $e }
    T::Date => { type $R = NaiveDate; $e } T::DateTime(_) | T::DateTime64(..) => { type $R = DateTime<Tz>; $e }
    T::Decimal(..) => { type $R = Decimal; $e } T::IPv4 => { type $R = Ipv4Addr; $e } T::IPv6 => { type $R = Ipv6Addr; $e } T::UUID => { type $R = uuid::Uuid; $e }
    T::Enum8(_) => { type $R = Enum8; $e } T::Enum16(_) => { type $R = Enum16; $e }
    _ => $o } } }
macro_rules! key_get { ($t:expr, $R:ident => $e:expr, else $o:expr) => { match $t {
    T::String => { type $R = String; $e } T::UInt8 => { type $R = u8; $e } T::Int32 => { type $R = i32; $e } T::UInt64 => { type $R = u64; $e } T::Int128 => { type $R = i128; $e }
    _ => $o } } }
macro_rules! few_get { ($t:expr, $R:ident => $e:expr, else $o:expr) => { match $t {
    T::UInt8 => { type $R = u8; $e } T::Int64 => { type $R = i64; $e } T::String | T::FixedString(_) => { type $R = String; $e }
    T::Date => { type $R = NaiveDate; $e } T::UUID => { type $R = uuid::Uuid; $e } T::Decimal(..) => { type $R = Decimal; $e } T::DateTime(_) => { type $R = DateTime<Tz>; $e }
    _ => $o } } }
/// types for which FromSql has a Vec form
macro_rules! vec_get { ($t:expr, $R:ident => $e:expr, else $o:expr) => { match $t {
    T::UInt8 => { type $R = u8; $e } T::UInt16 => { type $R = u16; $e } T::UInt32 => { type $R = u32; $e } T::UInt64 => { type $R = u64; $e } T::UInt128 => { type $R = u128; $e }
    T::Int8 => { type $R = i8; $e } T::Int16 => { type $R = i16; $e } T::Int32 => { type $R = i32; $e } T::Int64 => { type $R = i64; $e } T::Int128 => { type $R = i128; $e }
    T::Bool => { type $R = bool; $e } T::Float32 => { type $R = f32; $e } T::Float64 => { type $R = f64; $e }
    T::String => { type $R = String; $e }
    T::Date => { type $R = NaiveDate; $e } T::DateTime(_) => { type $R = DateTime<Tz>; $e }
    T::Enum8(_) => { type $R = Enum8; $e } T::Enum16(_) => { type $R = Enum16; $e }
    _ => $o } } }
/// Typed reading of cells; strings must be UTF-8 where `text`.
pub fn get_typed<K: ColumnType>(t: &T, b: &Block<K>, text: bool) -> It {
    let has_str = |t: &T| matches!(t, T::String | T::FixedString(_));
    match t {
        T::SAF(_, i) | T::LC(i) => get_typed(i, b, text),
        t if has_str(t) => {
            let a = xg::<&[u8], K>(b);
            let a = opt_all(a, || gets::<Vec<u8>, K>(b, "c", |r| jb(r)));
            if text { opt_all(opt_all(a, || xg::<String, K>(b)), || xg::<&str, K>(b)) } else { a }
        }
        T::Nullable(i) if has_str(i) => {
            let a = xg::<Option<&[u8]>, K>(b);
            if text { opt_all(a, || xg::<Option<String>, K>(b)) } else { a }
        }
        T::Nullable(i) => leaf_get!(&**i, R => xg::<Option<R>, K>(b), else None),
        T::Array(i) => match &**i {
            T::String => { let a = xg::<Vec<&[u8]>, K>(b); if text { opt_all(opt_all(a, || xg::<Vec<String>, K>(b)), || xg::<Vec<&str>, K>(b)) } else { a } }
            i => vec_get!(i, R => xg::<Vec<R>, K>(b), else None),
        },
        T::Map(a, v) => if !text { None } else { match &**v {
            T::Array(i) => match (&**a, &**i) {
                (T::String, T::UInt8) => xg::<HashMap<String, Vec<u8>>, K>(b), (T::String, T::Int64) => xg::<HashMap<String, Vec<i64>>, K>(b), (T::String, T::String) => xg::<HashMap<String, Vec<String>>, K>(b),
                (T::UInt8, T::String) => xg::<HashMap<u8, Vec<String>>, K>(b), (T::String, T::Date) => xg::<HashMap<String, Vec<NaiveDate>>, K>(b), _ => None,
            },
            T::Nullable(i) => match &**a { T::String => few_get!(&**i, R => xg::<HashMap<String, Option<R>>, K>(b), else None), T::UInt8 => few_get!(&**i, R => xg::<HashMap<u8, Option<R>>, K>(b), else None), _ => None },
            T::Map(a2, i) => match (&**a, &**a2) { (T::UInt8, T::String) => few_get!(&**i, R => xg::<HashMap<u8, HashMap<String, R>>, K>(b), else None), _ => None },
            i => key_get!(&**a, KT => few_get!(i, R => xg::<HashMap<KT, R>, K>(b), else None), else None),
        } },
        t => leaf_get!(t, R => xg::<R, K>(b), else None),
    }
}

// ---------------------------------------------------------------- decoding
pub struct Rec { pub t: T, pub name: String, pub n: usize, pub v: Vec<J>, pub b: Vec<u8>, pub x: Vec<J> }
pub fn recs(path: &str) -> Vec<Rec> {
    read_ndjson(path).iter().map(|r| {
        let t = ty(&r["t"]);
        let x = if r["x"].as_array().unwrap().is_empty() { &r["v"] } else { &r["x"] };
        let x = x.as_array().unwrap().iter().map(|y| norm(&t, y)).collect();
        Rec { name: r["name"].as_str().unwrap().into(), n: r["n"].as_u64().unwrap() as usize, v: r["v"].as_array().unwrap().clone(), b: bytes(&r["b"]), x, t }
    }).collect()
}
pub const TZS: [&str; 3] = ["UTC", "America/New_York", "Asia/Tokyo"];

pub struct S<F>(pub F);
impl<F: Fn(usize, &Req) -> Vec<Act> + Send + Sync> Behave for S<F> { fn req(&self, c: usize, r: &Req) -> Vec<Act> { (self.0)(c, r) } }

fn guard(lo: usize, n: usize) -> Vec<u8> { (lo..lo + n).flat_map(|i| (i as u32).to_le_bytes()).collect() }
fn col_block(r: &Rec, lo: usize) -> Vec<u8> { block_bytes(&[("c".into(), r.name.clone(), r.b.clone()), ("g".into(), "UInt32".into(), guard(lo, r.n))], r.n as u64) }
fn empty_block(r: &Rec) -> Vec<u8> { block_bytes(&[("c".into(), r.name.clone(), vec![]), ("g".into(), "UInt32".into(), vec![])], 0) }

fn check_block<K: ColumnType>(b: &Block<K>, rs: &[&Rec], stz: Tz, it: impl Fn(&T, &Column<K>) -> It) -> Result<(), (String, String)> {
    let t = &rs[0].t;
    let n: usize = rs.iter().map(|r| r.n).sum();
    if b.row_count() != n { return Err(("rows".into(), format!("{} rows, sent {n}", b.row_count()))); }
    if b.column_count() != 2 { return Err(("rows".into(), format!("{} columns", b.column_count()))); }
    let want_c: Vec<J> = rs.iter().flat_map(|r| r.v.iter().map(|v| want(t, v, stz))).collect();
    let want_x: Vec<J> = rs.iter().flat_map(|r| r.x.iter().cloned()).collect();
    let text = rs.iter().all(|r| r.v.iter().all(|v| utf8(t, v)));
    match gets::<Cell, K>(b, "c", |c| c.0.clone()) {
        Some(Ok(c)) => if let Some(i) = (0..n).find(|i| c[*i] != want_c[*i]) { return Err(("cell".into(), format!("cell {i} reads {}, sent {}", c[i], want_c[i]))); },
        o => return Err(("cell".into(), format!("{o:?}"))),
    }
    let cmp = |route: &str, got: It| match got {
        None => Ok(()),
        Some(Err(e)) => Err((route.to_string(), e)),
        Some(Ok(c)) => {
            if c.len() != n { return Err((route.to_string(), format!("{} values, sent {n}", c.len()))); }
            match (0..n).find(|i| c[*i] != want_x[*i]) { Some(i) => Err((route.to_string(), format!("value {i} reads {}, sent {}", c[i], want_x[i]))), None => Ok(()) }
        }
    };
    cmp("get", get_typed(t, b, text))?;
    cmp("iter", it(t, &b.columns()[0]))?;
    for i in 0..n { match b.get::<u32, _>(i, "g") { Ok(g) if g as usize == i => {} o => return Err(("guard".into(), format!("next column row {i} reads {:?}", o.map_err(es)))) } }
    Ok(())
}

pub fn caught<X>(f: impl FnOnce() -> X) -> Result<X, String> { std::panic::catch_unwind(AssertUnwindSafe(f)).map_err(panic_msg) }

pub fn decode(inp: &str, out: &str) {
    let rs = Arc::new(recs(inp));
    // partner of the same type, for results of several blocks
    let mut by: HashMap<String, Vec<usize>> = HashMap::new();
    for (i, r) in rs.iter().enumerate() { by.entry(r.name.clone()).or_default().push(i); }
    let mut partner = vec![0; rs.len()];
    for g in by.values() { for (k, i) in g.iter().enumerate() { partner[*i] = g[(k + 1 + k * 7 % 5) % g.len()]; } }
    let partner = Arc::new(partner);
    const CH: usize = 64;
    let jobs = (rs.len() + CH - 1) / CH;
    let (n, rs2) = (rs.len(), rs.clone());
    let fails: Vec<Vec<J>> = par(jobs, 2, move |job| {
        let (rs, partner) = (rs2.clone(), partner.clone());
        async move {
            let stz = TZS[job % 3];
            let (r2, p2) = (rs.clone(), partner.clone());
            let srv = Server::start(Arc::new(S(move |_c, r: &Req| match r {
                Req::Hello { .. } => vec![Act::Send(hello(54429, stz))],
                Req::Ping => vec![Act::Send(pong())],
                Req::Query(q) => {
                    let mut w = q.sql.split(' ');
                    let (k, i) = (w.next().unwrap(), w.next().unwrap().parse::<usize>().unwrap());
                    let (a, b) = (&r2[i], &r2[p2[i]]);
                    let c = q.compression;
                    let mut o = data(&empty_block(a), c);
                    o.extend(data(&col_block(a, 0), c));
                    if k == "two" { o.extend(data(&empty_block(a), c)); o.extend(data(&col_block(b, a.n), c)); }
                    o.extend(eos());
                    vec![Act::Send(o)]
                }
                _ => vec![],
            })));
            let pool = Pool::new(format!("tcp://{}?compression={}&ping_before_query=false&query_timeout=90s&pool_min=1&pool_max=2", srv.addr, if job % 2 == 0 { "none" } else { "lz4" }));
            let tzv: Tz = stz.parse().unwrap();
            let mut fails = vec![];
            for i in job * CH..((job + 1) * CH).min(rs.len()) {
                if enough() { break; }
                let r = &rs[i];
                let bad = |route: &str, e: String| json!({"i": i, "type": r.name, "n": r.n, "route": route, "what": e, "v": r.v, "b": jb(&r.b), "tz": stz});
                // block by block
                let got = within(20, async {
                    let mut h = pool.get_handle().await.map_err(es)?;
                    let mut s = h.query(format!("one {i}")).stream_blocks();
                    let mut bs = vec![];
                    while let Some(b) = s.next().await { bs.push(b.map_err(es)?); }
                    Ok::<_, String>(bs)
                }).await;
                match got {
                    Err(p) => fails.push(bad("read", format!("panic: {}", panic_msg(p)))),
                    Ok(Err(e)) => fails.push(bad("read", e)),
                    Ok(Ok(bs)) => {
                        let bs: Vec<_> = bs.into_iter().filter(|b| b.row_count() > 0).collect();
                        if r.n == 0 { if !bs.is_empty() { fails.push(bad("rows", "rows from nowhere".into())); } }
                        else if bs.len() != 1 { fails.push(bad("rows", format!("{} non-empty blocks, sent 1", bs.len()))); }
                        else { match caught(|| check_block(&bs[0], &[r], tzv, iter_simple)) { Err(p) => fails.push(bad("use", format!("panic: {p}"))), Ok(Err((k, e))) => fails.push(bad(&k, e)), Ok(Ok(())) => {} } }
                    }
                }
                // several blocks collected
                let got = within(20, async { let mut h = pool.get_handle().await.map_err(es)?; h.query(format!("two {i}")).fetch_all().await.map_err(es) }).await;
                match got {
                    Err(p) => fails.push(bad("fetch", format!("panic: {}", panic_msg(p)))),
                    Ok(Err(e)) => fails.push(bad("fetch", e)),
                    Ok(Ok(b)) => match caught(|| check_block(&b, &[r, &rs[partner[i]]], tzv, iter_complex)) { Err(p) => fails.push(bad("use+", format!("panic: {p}"))), Ok(Err((k, e))) => fails.push(bad(&format!("{k}+"), e)), Ok(Ok(())) => {} },
                }
            }
            Some(fails)
        }
    });
    let fails: Vec<J> = fails.into_iter().flatten().collect();
    write_json(out, &json!({"columns": n, "fails": fails}));
}

// ---------------------------------------------------------------- encoding
fn of<R: FromV>(t: &T, vs: &[J]) -> Vec<R> { vs.iter().map(|v| R::v(t, v)).collect() }
struct Raw(Vec<u8>);
impl FromV for Raw { fn v(_: &T, j: &J) -> Self { Raw(bytes(j)) } }
/// A block whose column "c" is made of a vector of native values; None: no such vector type.
pub fn typed(t: &T, vs: &[J], text: bool) -> Option<Vec<Block>> {
    macro_rules! c { ($v:expr) => { Some(vec![Block::new().column("c", $v)]) } }
    macro_rules! num { ($t:expr, $R:ident => $e:expr, else $o:expr) => { match $t {
        T::UInt8 => { type $R = u8; $e } T::UInt16 => { type $R = u16; $e } T::UInt32 => { type $R = u32; $e } T::UInt64 => { type $R = u64; $e } T::UInt128 => { type $R = u128; $e }
        T::Int8 => { type $R = i8; $e } T::Int16 => { type $R = i16; $e } T::Int32 => { type $R = i32; $e } T::Int64 => { type $R = i64; $e } T::Int128 => { type $R = i128; $e }
        T::Bool => { type $R = bool; $e } T::Float32 => { type $R = f32; $e } T::Float64 => { type $R = f64; $e } _ => $o } } }
    macro_rules! leaf { ($t:expr, $R:ident => $e:expr, else $o:expr) => { match $t {
        T::Date => { type $R = NaiveDate; $e } T::DateTime(_) | T::DateTime64(..) => { type $R = DateTime<Tz>; $e } T::Decimal(..) => { type $R = Decimal; $e }
        T::IPv4 => { type $R = Ipv4Addr; $e } T::IPv6 => { type $R = Ipv6Addr; $e } T::UUID => { type $R = uuid::Uuid; $e } T::Enum8(_) => { type $R = Enum8; $e } T::Enum16(_) => { type $R = Enum16; $e }
        t => num!(t, $R => $e, else $o) } } }
    match t {
        T::SAF(_, i) | T::LC(i) => typed(i, vs, text),
        T::String | T::FixedString(_) => {
            let raw: Vec<Raw> = of(t, vs);
            let mut o = vec![Block::new().column("c", raw.iter().map(|r| &r.0[..]).collect::<Vec<&[u8]>>())];
            if text {
                let v: Vec<String> = of(t, vs);
                o.push(Block::new().column("c", v.iter().map(|s| s.as_str()).collect::<Vec<&str>>()));
                o.push(Block::new().column("c", v));
            }
            Some(o)
        }
        T::Nullable(i) if matches!(&**i, T::String | T::FixedString(_)) => {
            let v: Vec<Option<Raw>> = of(t, vs);
            let mut o = vec![Block::new().column("c", v.into_iter().map(|r| r.map(|x| x.0)).collect::<Vec<Option<Vec<u8>>>>())];
            if text {
                let v: Vec<Option<String>> = of(t, vs);
                o.push(Block::new().column("c", v.iter().map(|s| s.as_deref()).collect::<Vec<Option<&str>>>()));
                o.push(Block::new().column("c", v));
            }
            Some(o)
        }
        T::Nullable(i) => leaf!(&**i, R => c!(of::<Option<R>>(t, vs)), else None),
        T::Array(i) => match &**i {
            T::String => if text { let v: Vec<Vec<String>> = of(t, vs); Some(vec![Block::new().column("c", v.iter().map(|a| a.iter().map(|s| s.as_str()).collect::<Vec<&str>>()).collect::<Vec<_>>()), Block::new().column("c", v)]) } else { None },
            T::Date => c!(of::<Vec<NaiveDate>>(t, vs)), T::DateTime(_) => c!(of::<Vec<DateTime<Tz>>>(t, vs)),
            T::Enum8(_) => c!(of::<Vec<Enum8>>(t, vs)), T::Enum16(_) => c!(of::<Vec<Enum16>>(t, vs)),
            i => num!(i, R => c!(of::<Vec<R>>(t, vs)), else None),
        },
        T::Map(a, b) => match &**a {
            T::String => if text { num!(&**b, R => c!(of::<HashMap<String, R>>(t, vs)), else None) } else { None },
            T::UInt8 => num!(&**b, R => c!(of::<HashMap<u8, R>>(t, vs)), else None), T::Int32 => num!(&**b, R => c!(of::<HashMap<i32, R>>(t, vs)), else None),
            T::UInt64 => num!(&**b, R => c!(of::<HashMap<u64, R>>(t, vs)), else None), T::Int128 => num!(&**b, R => c!(of::<HashMap<i128, R>>(t, vs)), else None),
            _ => None,
        },
        t => leaf!(t, R => c!(of::<R>(t, vs)), else None),
    }
}
pub fn by_rows(t: &T, vs: &[J]) -> Result<Block, String> {
    let mut b = Block::new();
    for v in vs { b.push(vec![("c".to_string(), value(t, v))]).map_err(es)?; }
    Ok(b)
}

#[derive(Clone)]
enum Seen { None, Bad(String), Col(String, u64, Vec<u8>) }
/// Inserts every record by every route; what reached the server is written for WireTrace.tla.
/// The first value that a locally built block does not give back, read by cell.
fn read_back(b: &Block, t: &T, v: &[J], stz: Tz, route: &str) -> Option<String> {
    if b.row_count() != v.len() { return Some(format!("{} rows", b.row_count())); }
    let shown = |x: J| if route.starts_with("typed") { loose(&x) } else { x };
    for (i, x) in v.iter().enumerate() {
        let got = match b.get::<Cell, _>(i, "c") { Ok(c) => shown(c.0), Err(e) => return Some(format!("row {i}: {e}")) };
        let want = shown(want(t, x, stz));
        if got != want && !want.to_string().contains("[\"far\"]") { return Some(format!("row {i} is {got}, given {want}")); }
    }
    None
}
/// A cell as far as a column built from plain values can tell: enums by number, date-times to the second.
fn loose(x: &J) -> J {
    match x[0].as_str() {
        Some("Enum8" | "Enum16") => json!([x[0], x[1]]),
        Some("DateTime64") => { let n = i64::from_le_bytes(bytes(&x[1]).try_into().unwrap()); let s = n.div_euclid(10i64.pow(x[2].as_u64().unwrap() as u32)); if s == s as u32 as i64 { json!(["DateTime", jb(&(s as u32).to_le_bytes())]) } else { json!(["far"]) } }
        Some("DateTime") => json!(["DateTime", x[1]]),
        Some("Some") => json!(["Some", loose(&x[1])]),
        Some("Array") => json!(["Array", x[1].as_array().unwrap().iter().map(loose).collect::<Vec<_>>()]),
        _ => x.clone(),
    }
}
pub fn encode(inp: &str, out: &str) {
    let all = read_ndjson(inp);
    let mut seen = std::collections::HashSet::new();
    struct C { t: T, d: T, tj: J, dj: J, name: String, sname: String, v: Vec<J>, n: usize, b: Vec<u8> }
    let mut cs = vec![];
    for r in &all {
        let d = if r["d"].is_null() { &r["t"] } else { &r["d"] };
        let key = format!("{}|{}|{}", r["t"], d, r["v"]);
        if !seen.insert(key) { continue; }
        let name = if r["dname"].is_null() { &r["name"] } else { &r["dname"] };
        cs.push(C { t: ty(&r["t"]), d: ty(d), tj: r["t"].clone(), dj: d.clone(), name: name.as_str().unwrap().into(), sname: r["name"].as_str().unwrap().into(),
            v: r["v"].as_array().unwrap().clone(), n: r["n"].as_u64().unwrap() as usize, b: bytes(&r["b"]) });
    }
    let cs = Arc::new(cs);
    const CH: usize = 64;
    let jobs = (cs.len() + CH - 1) / CH;
    let c2 = cs.clone();
    let obs: Vec<Vec<J>> = par(jobs, 2, move |job| {
        let cs = c2.clone();
        async move {
            let stz = TZS[job % 3];
            let zone: Tz = stz.parse().unwrap();
            let (c3, got) = (cs.clone(), Arc::new(Mutex::new(Seen::None)));
            let g2 = got.clone();
            let cur = Arc::new(Mutex::new(0usize));
            let cur2 = cur.clone();
            let srv = Server::start(Arc::new(S(move |_c, r: &Req| match r {
                Req::Hello { .. } => vec![Act::Send(hello(54429, stz))],
                Req::Ping => vec![Act::Send(pong())],
                Req::Query(q) => {
                    let c = &c3[*cur2.lock().unwrap()];
                    let mut o = vec![];
                    if q.sql.starts_with("INSERT") { o.extend(data(&block_bytes(&[("c".into(), c.name.clone(), vec![])], 0), q.compression)); }
                    else {
                        let b = block_bytes(&[("c".into(), c.sname.clone(), c.b.clone())], c.n as u64);
                        o.extend(data(&block_bytes(&[("c".into(), c.sname.clone(), vec![])], 0), q.compression));
                        o.extend(data(&b, q.compression));
                        if q.sql.starts_with("two") { o.extend(data(&b, q.compression)); }
                        o.extend(eos());
                    }
                    vec![Act::Send(o)]
                }
                Req::Data { block, .. } => if block.cols.is_empty() { vec![Act::Send(eos())] } else {
                    *g2.lock().unwrap() = if block.cols.len() == 1 && block.cols[0].0 == "c" { Seen::Col(block.cols[0].1.clone(), block.rows, block.cols[0].2.clone()) } else { Seen::Bad("columns".into()) };
                    vec![]
                },
                Req::Bad(m) => { *g2.lock().unwrap() = Seen::Bad(m.clone()); vec![] }
                _ => vec![],
            })));
            let pool = Pool::new(format!("tcp://{}?compression={}&ping_before_query=false&query_timeout=90s&insert_timeout=90s&pool_min=1&pool_max=2", srv.addr, if job % 2 == 0 { "lz4" } else { "none" }));
            let mut obs = vec![];
            for i in job * CH..((job + 1) * CH).min(cs.len()) {
                if enough() { break; }
                let c = &cs[i];
                *cur.lock().unwrap() = i;
                let mut bs: Vec<(String, Result<Block, String>, usize)> = vec![];
                let text = c.v.iter().all(|v| utf8(&c.t, v));
                match caught(|| { set_stz(zone); typed(&c.t, &c.v, text) }) {
                    Ok(None) => {}
                    Ok(Some(v)) => for (k, b) in v.into_iter().enumerate() { bs.push((format!("typed{k}"), Ok(b), 1)); },
                    Err(p) => bs.push(("typed0".into(), Err(format!("panic: {p}")), 1)),
                }
                if c.n > 0 { match caught(|| { set_stz(zone); by_rows(&c.t, &c.v) }) { Ok(r) => bs.push(("row".into(), r, 1)), Err(p) => bs.push(("row".into(), Err(format!("panic: {p}")), 1)) } }
                if c.n > 0 && !c.b.is_empty() {
                    let r = within(20, async {
                        let mut h = pool.get_handle().await.map_err(es)?;
                        let one = { let mut s = h.query("one").stream_blocks(); let mut k = None; while let Some(b) = s.next().await { let b = b.map_err(es)?; if b.row_count() > 0 { k = Some(b) } } k.ok_or("no block".to_string())? };
                        let two = h.query("two").fetch_all().await.map_err(es)?;
                        Ok::<_, String>((one, two))
                    }).await;
                    match r {
                        Ok(Ok((one, two))) => {
                            bs.push(("again".into(), Ok(one.clone()), 1));
                            let col = two.columns()[0].clone();
                            match caught(move || Block::new().column("c", col)) { Ok(b) => bs.push(("again+".into(), Ok(b), 2)), Err(p) => bs.push(("again+".into(), Err(format!("panic: {p}")), 2)) }
                        }
                        Ok(Err(e)) => bs.push(("again".into(), Err(e), 1)),
                        Err(p) => bs.push(("again".into(), Err(format!("panic: {}", panic_msg(p))), 1)),
                    }
                }
                for (route, b, times) in bs {
                    let mut v: Vec<J> = vec![];
                    for _ in 0..times { v.extend(c.v.iter().cloned()); }
                    let rec = |out: &str, b: &[u8], nt: J, what: String| json!({"t": c.tj, "d": c.dj, "v": v, "n": v.len(), "route": route, "out": out, "b": jb(b), "nt": nt, "what": what, "sname": c.sname, "dname": c.name, "tz": stz, "named": !route.starts_with("typed"), "again": route.starts_with("again")});
                    let b = match b { Ok(b) => b, Err(e) => { obs.push(rec(if e.starts_with("panic") { "panic" } else { "err" }, &[], json!([]), e)); continue } };
                    if c.t == c.d { match caught(|| read_back(&b, &c.t, &v, zone, &route)) {
                        Ok(None) => {}
                        Ok(Some(w)) => obs.push(rec("bad", &[], json!([]), format!("reading the block back: {w}"))),
                        Err(p) => obs.push(rec("panic", &[], json!([]), format!("reading the block back: panic: {p}"))),
                    } }
                    *got.lock().unwrap() = Seen::None;
                    let r = within(20, async { let mut h = pool.get_handle().await.map_err(es)?; h.insert("t", &b).await.map_err(es) }).await;
                    let s = got.lock().unwrap().clone();
                    obs.push(match (r, s) {
                        (Err(p), _) => rec("panic", &[], json!([]), format!("panic: {}", panic_msg(p))),
                        (_, Seen::Bad(m)) => rec("bad", &[], json!([]), format!("the server cannot read the block: {m}")),
                        (Ok(Err(e)), Seen::None) => rec("err", &[], json!([]), e),
                        (Ok(Err(e)), Seen::Col(..)) => rec("bad", &[], json!([]), format!("sent, then {e}")),
                        (Ok(Ok(())), Seen::None) => if c.n == 0 { rec("ok", &[], json!([]), String::new()) } else { rec("bad", &[], json!([]), "nothing was sent".into()) },
                        (Ok(Ok(())), Seen::Col(nm, rows, by)) => if rows as usize != v.len() { rec("bad", &by, json!([]), format!("{rows} rows sent")) } else { match parse_name(&nm) { Ok(nt) => rec("ok", &by, nt, nm), Err(e) => rec("bad", &by, json!([]), e) } },
                    });
                }
            }
            Some(obs)
        }
    });
    let obs: Vec<J> = obs.into_iter().flatten().collect();
    // one record per distinct observation
    let mut first: HashMap<String, usize> = HashMap::new();
    let mut recs: Vec<J> = vec![];
    for o in &obs {
        if o["out"] == "err" && o["t"] != o["d"] { continue; } // refused, as it may be
        let key = format!("{}|{}|{}|{}|{}|{}|{}|{}", o["t"], o["d"], o["v"], o["out"], o["b"], o["nt"], o["named"], o["again"]);
        match first.get(&key) {
            Some(i) => { let r = format!("{} {}", recs[*i]["route"].as_str().unwrap(), o["route"].as_str().unwrap()); recs[*i]["route"] = J::from(r); }
            None => { first.insert(key, recs.len()); recs.push(o.clone()); }
        }
    }
    for (i, r) in recs.iter_mut().enumerate() { r["id"] = J::from(i); }
    write_ndjson(&format!("{out}.trace"), &recs);
    let count = |k: &str| obs.iter().filter(|o| o["out"] == k).count();
    write_json(out, &json!({"cases": cs.len(), "inserts": obs.len(), "ok": count("ok"), "err": count("err"), "panic": count("panic"), "bad": count("bad"), "distinct": recs.len()}));
}
