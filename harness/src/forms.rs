//! Values of ValueForms.tla in all their forms: the cell of a block (ValueRef), owned (Value), the owned one viewed
//! again, built by the program, converted from and into Rust types; compared pairwise as the specification says (P23).
use crate::cols::*;
use crate::server::*;
use crate::ty::*;
use crate::util::*;
use crate::wire::*;
use chrono::{DateTime, NaiveDate};
use chrono_tz::Tz;
use clickhouse_rs::types::{Block, ColumnType, DateTimeType, Decimal, Enum16, Enum8, FromSql, FromSqlResult, SqlType, Value, ValueRef};
use clickhouse_rs::Pool;

use serde_json::{json, Value as J};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

use std::sync::Arc;

struct Held<'a>(ValueRef<'a>);
impl<'a> FromSql<'a> for Held<'a> { fn from_sql(v: ValueRef<'a>) -> FromSqlResult<Self> { Ok(Held(v)) } }
fn h<X: Hash>(x: &X) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }
/// the type as far as a value knows it
fn erase(t: &SqlType) -> SqlType {
    use SqlType as S;
    match t {
        S::FixedString(_) => S::String,
        S::LowCardinality(i) | S::SimpleAggregateFunction(_, i) => erase(i),
        S::Nullable(i) => S::Nullable(erase(i).into()),
        S::Array(i) => S::Array(erase(i).into()),
        S::Map(a, b) => S::Map(erase(a).into(), erase(b).into()),
        S::DateTime(DateTimeType::DateTime32) | S::DateTime(DateTimeType::Chrono) => S::DateTime(DateTimeType::DateTime32),
        x => x.clone(),
    }
}
fn unzoned(t: &SqlType) -> String { let s = erase(t).to_string(); s.split(", '").next().unwrap_or("").into() }
type Bad = Vec<(String, String)>;

/// conversions from and into a Rust type
struct Cx<'a> { t: &'a T, v: &'a J, x: &'a J, own: &'a Value, vr: &'a ValueRef<'static>, own_t: bool, bad: &'a mut Bad, n: usize }
impl Cx<'_> {
    fn see(&mut self, what: &str, r: Result<Option<String>, String>) {
        self.n += 1;
        match r { Ok(None) => {} Ok(Some(m)) => self.bad.push((what.into(), m)), Err(p) => self.bad.push((what.into(), format!("panic: {p}"))) }
    }
    fn means<R: ToX>(&mut self, what: &str, f: impl FnOnce() -> R) { let x = self.x.clone(); let r = caught(|| { let y = f().x(); if y == x { None } else { Some(format!("{y} instead of {x}")) } }); self.see(what, r) }
    fn into_rust<R: ToX + From<Value>>(&mut self, r: &str) { let o = self.own.clone(); self.means(&format!("Value into {r}"), move || R::from(o)) }
    fn ref_into_rust<R: ToX + From<ValueRef<'static>>>(&mut self, r: &str) { let o = self.vr.clone(); self.means(&format!("ValueRef into {r}"), move || R::from(o)) }
    /// a value made of the Rust value equals the cell's (unless it does not equal itself)
    fn from_rust<R: FromV>(&mut self, r: &str) where Value: From<R> {
        let (o, own_t) = (self.own.clone(), self.own_t);
        let (t, v) = (self.t, self.v);
        let got = caught(|| { let y = Value::from(R::v(t, v)); if (y == o) == own_t && SqlType::from(y.clone()) == SqlType::from(o.clone()) { None } else { Some(format!("{y:?}, the cell is {o:?}")) } });
        self.see(&format!("Value from {r}"), got)
    }
    fn all<R: ToX + FromV + From<Value> + From<ValueRef<'static>>>(&mut self, r: &str) where Value: From<R> { self.into_rust::<R>(r); self.ref_into_rust::<R>(r); self.from_rust::<R>(r) }
    fn conv(&mut self) {
        macro_rules! all { ($r:ty) => { self.all::<$r>(stringify!($r)) } }
        macro_rules! from { ($r:ty) => { self.from_rust::<$r>(stringify!($r)) } }
        match self.t {
            T::Bool => all!(bool), T::UInt8 => all!(u8), T::UInt16 => all!(u16), T::UInt32 => all!(u32), T::UInt64 => all!(u64), T::UInt128 => all!(u128),
            T::Int8 => all!(i8), T::Int16 => all!(i16), T::Int32 => all!(i32), T::Int64 => all!(i64), T::Int128 => all!(i128),
            T::Float32 => all!(f32), T::Float64 => all!(f64),
            T::Date => all!(NaiveDate),
            T::DateTime(_) | T::DateTime64(..) => {
                self.into_rust::<DateTime<Tz>>("DateTime<Tz>");
                self.ref_into_rust::<DateTime<Tz>>("DateTime<Tz>");
                let (t, v) = (self.t, self.v);
                self.means("DateTime<Tz> from Value from DateTime<Tz>", || DateTime::<Tz>::from(Value::from(DateTime::<Tz>::v(t, v))));
                if let T::DateTime(_) = self.t {
                    let o = self.own.clone();
                    let r = caught(|| { let y = Value::from(DateTime::<Tz>::v(t, v).with_timezone(&chrono::Utc)); if y == o { None } else { Some(format!("{y:?}, the cell is {o:?}")) } });
                    self.see("Value from DateTime<Utc>", r);
                }
            }
            T::Decimal(..) => {
                let (t, v, o) = (self.t, self.v, self.own.clone());
                let r = caught(|| { let y = Value::from(Decimal::v(t, v)); if y == o && h(&y) == h(&o) { None } else { Some(format!("{y:?}, the cell is {o:?}")) } });
                self.see("Value from Decimal", r);
            }
            T::Enum8(_) => self.ref_into_rust::<Enum8>("Enum8"),
            T::Enum16(_) => self.ref_into_rust::<Enum16>("Enum16"),
            T::String | T::FixedString(_) => {
                let o = self.own.clone();
                self.means("Value into Vec<u8>", || Bytes(Vec::<u8>::from(o)));
                let vr = self.vr.clone();
                self.means("as_bytes", || Bytes(vr.as_bytes().unwrap().to_vec()));
                from!(Raw8);
                let b = bytes(self.v);
                let o = self.own.clone();
                let r = caught(|| if Value::from(&b[..]) == o { None } else { Some("differs".into()) });
                self.see("Value from &[u8]", r);
                let r = caught(|| if Value::from(ValueRef::from(&b[..])) == o { None } else { Some("differs".into()) });
                self.see("ValueRef from &[u8]", r);
                let vr = self.vr.clone();
                if let Ok(s) = std::str::from_utf8(&b) {
                    self.into_rust::<String>("String");
                    from!(String);
                    let o = self.own.clone();
                    let r = caught(|| if Value::from(s) == o && ValueRef::from(s) == vr { None } else { Some("differs".into()) });
                    self.see("Value or ValueRef from &str", r);
                    let vr = self.vr.clone();
                    self.means("as_str", || vr.as_str().unwrap().to_string());
                    let vr = self.vr.clone();
                    self.means("as_string", || vr.as_string().unwrap());
                } else {
                    let r = caught(|| if vr.as_str().is_err() && vr.as_string().is_err() { None } else { Some("text of what is no text".into()) });
                    self.see("as_str of bytes", r);
                }
            }
            T::UUID => from!(uuid::Uuid),
            T::IPv4 => {
                let (o, x) = (self.own.clone(), bytes(self.v));
                let r = caught(|| { let b = <[u8; 4]>::from(o.clone()); if b[..] == x[..] && Value::from(b) == o { None } else { Some(format!("{b:?}")) } });
                self.see("Value into [u8; 4] and back", r);
            }
            T::IPv6 => {
                let (o, x): (_, [u8; 16]) = (self.own.clone(), bytes(self.v).try_into().unwrap());
                let r = caught(|| if Value::from(x) == o { None } else { Some(format!("{o:?}")) });
                self.see("Value from [u8; 16]", r);
            }
            T::Nullable(i) => match **i {
                T::Bool => from!(Option<bool>), T::UInt8 => from!(Option<u8>), T::UInt16 => from!(Option<u16>), T::UInt32 => from!(Option<u32>), T::UInt64 => from!(Option<u64>), T::UInt128 => from!(Option<u128>),
                T::Int8 => from!(Option<i8>), T::Int16 => from!(Option<i16>), T::Int32 => from!(Option<i32>), T::Int64 => from!(Option<i64>), T::Int128 => from!(Option<i128>),
                T::Float32 => from!(Option<f32>), T::Float64 => from!(Option<f64>), T::Date => from!(Option<NaiveDate>),
                T::String if utf8(self.t, self.v) => from!(Option<String>),
                _ => {}
            },
            T::Array(i) => match **i {
                T::UInt16 => from!(Vec<u16>), T::UInt32 => from!(Vec<u32>), T::UInt64 => from!(Vec<u64>), T::UInt128 => from!(Vec<u128>),
                T::Int8 => from!(Vec<i8>), T::Int16 => from!(Vec<i16>), T::Int32 => from!(Vec<i32>), T::Int64 => from!(Vec<i64>), T::Int128 => from!(Vec<i128>),
                T::Float32 => from!(Vec<f32>), T::Float64 => from!(Vec<f64>),
                T::String if utf8(self.t, self.v) => from!(Vec<String>),
                _ => {}
            },
            T::Map(a, b) if utf8(self.t, self.v) => match (&**a, &**b) {
                (T::String, T::UInt8) => from!(HashMap<String, u8>), (T::String, T::Int64) => from!(HashMap<String, i64>), (T::String, T::String) => from!(HashMap<String, String>),
                (T::UInt8, T::UInt8) => from!(HashMap<u8, u8>), (T::UInt8, T::String) => from!(HashMap<u8, String>), (T::Int32, T::Int64) => from!(HashMap<i32, i64>),
                (T::UInt64, T::String) => from!(HashMap<u64, String>), (T::UInt64, T::Date) => from!(HashMap<u64, NaiveDate>),
                _ => {}
            },
            _ => {}
        }
    }
}
struct Bytes(Vec<u8>);
impl ToX for Bytes { fn x(&self) -> J { jb(&self.0) } }
/// bytes made into a Value the way Vec<u8> is
struct Raw8(Vec<u8>);
impl FromV for Raw8 { fn v(_: &T, j: &J) -> Self { Raw8(bytes(j)) } }
impl From<Raw8> for Value { fn from(r: Raw8) -> Value { Value::from(r.0) } }

fn check<K: ColumnType>(b: &'static Block<K>, r: &Rec, same: &[Vec<bool>], stz: Tz, others: &[(String, Value)], bad: &mut Bad) -> usize {
    let t = &r.t;
    let n = r.n;
    let mut seen = 0;
    let mut vrs: Vec<ValueRef<'static>> = vec![];
    for i in 0..n { match b.get::<Held<'static>, _>(i, 0) { Ok(x) => vrs.push(x.0), Err(e) => { bad.push(("cell".into(), e.to_string())); return 0; } } }
    let owns: &'static Vec<Value> = Box::leak(Box::new(vrs.iter().map(|v| Value::from(v.clone())).collect()));
    let backs: Vec<ValueRef<'static>> = owns.iter().map(ValueRef::from).collect();
    let agains: Vec<Value> = backs.iter().map(|v| Value::from(v.clone())).collect();
    let builts: Vec<Value> = r.v.iter().map(|v| value(t, v)).collect();
    let want_t = erase(&sql(t));
    for i in 0..n {
        let w = want(t, &r.v[i], stz);
        let mut k = |form: &str, c: J, st: SqlType| {
            seen += 1;
            if c != w { bad.push((format!("{form} content"), format!("{c} instead of {w}"))); }
            if erase(&st) != want_t { bad.push((format!("{form} type"), format!("{st} instead of {want_t}"))); }
        };
        k("cell", cell(&vrs[i]), SqlType::from(vrs[i].clone()));
        k("owned", cell(&backs[i]), SqlType::from(owns[i].clone()));
        k("owned again", cell(&ValueRef::from(&agains[i])), SqlType::from(agains[i].clone()));
        k("clone", cell(&ValueRef::from(&owns[i].clone())), SqlType::from(backs[i].clone()));
        let s = same[i][i];
        let mut cx = Cx { t, v: &r.v[i], x: &r.x[i], own: &owns[i], vr: &vrs[i], own_t: s, bad, n: 0 };
        cx.conv();
        seen += cx.n;
        for (f, s2) in [("Display", format!("{}", owns[i])), ("Display of ref", format!("{}", vrs[i])), ("Debug", format!("{:?}", owns[i]))] { seen += 1; if f == "Debug" && s2.is_empty() { bad.push((f.into(), "nothing".into())); } }
    }
    for i in 0..n {
        for j in 0..n {
            let s = same[i][j];
            let mut k = |form: &str, eq: bool, ha: u64, hb: u64| {
                seen += 1;
                if eq != s { bad.push((format!("{form} equality"), format!("{:?} and {:?} compare {}", owns[i], owns[j], if eq { "equal" } else { "different" }))); }
                else if s && ha != hb { bad.push((format!("{form} hash"), format!("{:?} and {:?} are equal and hash differently", owns[i], owns[j]))); }
            };
            k("ValueRef", vrs[i] == vrs[j], h(&vrs[i]), h(&vrs[j]));
            k("Value", owns[i] == owns[j], h(&owns[i]), h(&owns[j]));
            k("ValueRef of Value", backs[i] == vrs[j], h(&backs[i]), h(&vrs[j]));
            k("built Value", builts[i] == owns[j], h(&builts[i]), h(&owns[j]));
        }
    }
    // values of other types
    let me = unzoned(&sql(t));
    for (ot, ov) in others {
        if *ot == me || ["Decimal", "DateTime64"].iter().any(|p| ot.starts_with(p) && me.starts_with(p)) { continue; }
        seen += 1;
        if n > 0 && (owns[0] == *ov || *ov == owns[0] || vrs[0] == ValueRef::from(ov)) { bad.push(("equality across types".into(), format!("{:?} ({me}) equals {ov:?} ({ot})", owns[0]))); }
    }
    seen
}

fn col(r: &Rec) -> Vec<u8> { block_bytes(&[("c".into(), r.name.clone(), r.b.clone())], r.n as u64) }
fn none(r: &Rec) -> Vec<u8> { block_bytes(&[("c".into(), r.name.clone(), vec![])], 0) }
pub fn run(inp: &str, out: &str) {
    let raw = read_ndjson(inp);
    let sames: Arc<Vec<Vec<Vec<bool>>>> = Arc::new(raw.iter().map(|r| r["same"].as_array().unwrap().iter().map(|x| x.as_array().unwrap().iter().map(|y| y.as_bool().unwrap()).collect()).collect()).collect());
    let rs = Arc::new(recs(inp));
    const CH: usize = 16;
    let jobs = (rs.len() + CH - 1) / CH;
    let (n, rs2) = (rs.len(), rs.clone());
    let res: Vec<(Vec<J>, usize)> = par(jobs, 1, move |job| {
        let (rs, sames) = (rs2.clone(), sames.clone());
        async move {
            let stz = TZS[job % 3];
            let zone: Tz = stz.parse().unwrap();
            set_stz(zone);
            let others: Vec<(String, Value)> = rs.iter().filter(|r| r.n > 0).flat_map(|r| [0, r.n / 2].map(|k| (unzoned(&sql(&r.t)), value(&r.t, &r.v[k])))).collect();
            let r2 = rs.clone();
            let srv = Server::start(Arc::new(S(move |_c, q: &Req| match q {
                Req::Hello { .. } => vec![Act::Send(hello(54429, stz))],
                Req::Ping => vec![Act::Send(pong())],
                Req::Query(q) => {
                    let a = &r2[q.sql.parse::<usize>().unwrap()];
                    let mut o = data(&none(a), q.compression);
                    o.extend(data(&col(a), q.compression));
                    o.extend(eos());
                    vec![Act::Send(o)]
                }
                _ => vec![],
            })));
            let pool = Pool::new(format!("tcp://{}?compression=none&ping_before_query=false&query_timeout=90s&pool_min=1&pool_max=2", srv.addr));
            let (mut fails, mut total) = (vec![], 0);
            for i in job * CH..((job + 1) * CH).min(rs.len()) {
                if enough() { break; }
                let r = &rs[i];
                let mut bad: Bad = vec![];
                use futures_util::StreamExt;
                let got = within(20, async {
                    let mut hd = pool.get_handle().await.map_err(|e| e.to_string())?;
                    let full = hd.query(i.to_string()).fetch_all().await.map_err(|e| e.to_string())?;
                    let mut s = hd.query(i.to_string()).stream_blocks();
                    let mut one = None;
                    while let Some(b) = s.next().await { let b = b.map_err(|e| e.to_string())?; if b.row_count() > 0 { one = Some(b) } }
                    Ok::<_, String>((full, one.ok_or("no block")?))
                }).await;
                set_stz(zone);
                match got {
                    Err(p) => bad.push(("read".into(), format!("panic: {}", panic_msg(p)))),
                    Ok(Err(e)) => bad.push(("read".into(), e)),
                    Ok(Ok((full, one))) => {
                        let (full, one): (&'static Block<_>, &'static Block<_>) = (Box::leak(Box::new(full)), Box::leak(Box::new(one)));
                        let mut told: Bad = vec![];
                        match caught(|| { let mut b: Bad = vec![]; let k = check(full, r, &sames[i], zone, &others, &mut b) + check(one, r, &sames[i], zone, &others, &mut b); (b, k) }) {
                            Err(p) => told.push(("forms".into(), format!("panic: {p}"))),
                            Ok((b, k)) => { told = b; total += k; }
                        }
                        bad.extend(told);
                    }
                }
                let mut keys: Vec<String> = vec![];
                for (k, what) in bad { if !keys.contains(&k) { keys.push(k.clone()); fails.push(json!({"i": i, "type": r.name, "key": k, "what": what, "v": r.v, "tz": stz})); } }
            }
            Some((fails, total))
        }
    });
    let total: usize = res.iter().map(|x| x.1).sum();
    let fails: Vec<J> = res.into_iter().flat_map(|x| x.0).collect();
    write_json(out, &json!({"columns": n, "checks": total, "fails": fails}));
}
