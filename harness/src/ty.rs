//! Types and values as Wire.tla has them, and their translation to and from the client's API.
use chrono::{DateTime, NaiveDate, NaiveDateTime, TimeZone};
use chrono_tz::Tz;
use clickhouse_rs::types::{Decimal, Enum16, Enum8, FromSql, FromSqlResult, SqlType, Value, ValueRef};
use either::Either;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::net::{Ipv4Addr, Ipv6Addr};

#[derive(Debug, Clone, PartialEq)]
pub enum T {
    UInt8, UInt16, UInt32, UInt64, UInt128, Int8, Int16, Int32, Int64, Int128,
    Bool, Float32, Float64, String, Date, IPv4, IPv6, UUID,
    FixedString(usize), DateTime(String), DateTime64(u32, String), Decimal(u8, u8),
    Enum8(Vec<(String, i8)>), Enum16(Vec<(String, i16)>),
    Nullable(Box<T>), Array(Box<T>), Map(Box<T>, Box<T>), LC(Box<T>), SAF(String, Box<T>),
}
pub fn ty(j: &J) -> T {
    let s = |i: usize| j[i].as_str().unwrap().to_string();
    let n = |i: usize| j[i].as_u64().unwrap();
    let b = |i: usize| Box::new(ty(&j[i]));
    match j[0].as_str().unwrap() {
        "UInt8" => T::UInt8, "UInt16" => T::UInt16, "UInt32" => T::UInt32, "UInt64" => T::UInt64, "UInt128" => T::UInt128,
        "Int8" => T::Int8, "Int16" => T::Int16, "Int32" => T::Int32, "Int64" => T::Int64, "Int128" => T::Int128,
        "Bool" => T::Bool, "Float32" => T::Float32, "Float64" => T::Float64, "String" => T::String, "Date" => T::Date,
        "IPv4" => T::IPv4, "IPv6" => T::IPv6, "UUID" => T::UUID,
        "FixedString" => T::FixedString(n(1) as usize),
        "DateTime" => T::DateTime(s(1)),
        "DateTime64" => T::DateTime64(n(1) as u32, s(2)),
        "Decimal" => T::Decimal(n(1) as u8, n(2) as u8),
        "Enum8" => T::Enum8(j[1].as_array().unwrap().iter().map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_i64().unwrap() as i8)).collect()),
        "Enum16" => T::Enum16(j[1].as_array().unwrap().iter().map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_i64().unwrap() as i16)).collect()),
        "Nullable" => T::Nullable(b(1)), "Array" => T::Array(b(1)), "Map" => T::Map(b(1), b(2)), "LC" => T::LC(b(1)), "SAF" => T::SAF(s(1), b(2)),
        k => panic!("type {k}"),
    }
}
pub fn bytes(j: &J) -> Vec<u8> { j.as_array().unwrap_or_else(|| panic!("bytes {j}")).iter().map(|x| x.as_u64().unwrap() as u8).collect() }
pub fn jb(b: &[u8]) -> J { J::Array(b.iter().map(|x| J::from(*x)).collect()) }
fn sorted(mut v: Vec<J>) -> Vec<J> { v.sort_by_key(|x| x.to_string()); v }
pub fn tz(s: &str, server: Tz) -> Tz { if s.is_empty() { server } else { s.parse().unwrap() } }

// ---------------------------------------------------------------- cells (ValueRef)
/// A cell as the client hands it out, with its kind.
#[derive(Debug, Clone, PartialEq)]
pub struct Cell(pub J);
impl<'a> FromSql<'a> for Cell { fn from_sql(v: ValueRef<'a>) -> FromSqlResult<Self> { Ok(Cell(cell(&v))) } }
fn k(k: &str, b: &[u8]) -> J { json!([k, jb(b)]) }
pub fn cell(v: &ValueRef) -> J {
    match v {
        ValueRef::Bool(x) => k("Bool", &[*x as u8]),
        ValueRef::UInt8(x) => k("UInt8", &x.to_le_bytes()), ValueRef::UInt16(x) => k("UInt16", &x.to_le_bytes()), ValueRef::UInt32(x) => k("UInt32", &x.to_le_bytes()),
        ValueRef::UInt64(x) => k("UInt64", &x.to_le_bytes()), ValueRef::UInt128(x) => k("UInt128", &x.to_le_bytes()),
        ValueRef::Int8(x) => k("Int8", &x.to_le_bytes()), ValueRef::Int16(x) => k("Int16", &x.to_le_bytes()), ValueRef::Int32(x) => k("Int32", &x.to_le_bytes()),
        ValueRef::Int64(x) => k("Int64", &x.to_le_bytes()), ValueRef::Int128(x) => k("Int128", &x.to_le_bytes()),
        ValueRef::String(s) => k("String", s),
        ValueRef::Float32(x) => k("Float32", &x.to_bits().to_le_bytes()), ValueRef::Float64(x) => k("Float64", &x.to_bits().to_le_bytes()),
        ValueRef::Date(x) => k("Date", &x.to_le_bytes()),
        ValueRef::DateTime(x, tz) => json!(["DateTime", jb(&x.to_le_bytes()), tz.name()]),
        ValueRef::DateTime64(x, (p, tz)) => json!(["DateTime64", jb(&x.to_le_bytes()), p, tz.name()]),
        ValueRef::Decimal(d) => json!(["Decimal", jb(&d.internal::<i64>().to_le_bytes()), d.scale()]),
        ValueRef::Ipv4(b) => k("IPv4", b), ValueRef::Ipv6(b) => k("IPv6", b), ValueRef::Uuid(b) => k("UUID", b),
        ValueRef::Enum8(t, e) => json!(["Enum8", jb(&e.internal().to_le_bytes()), t]),
        ValueRef::Enum16(t, e) => json!(["Enum16", jb(&e.internal().to_le_bytes()), t]),
        ValueRef::Nullable(Either::Left(_)) => json!(["Null"]),
        ValueRef::Nullable(Either::Right(b)) => json!(["Some", cell(b)]),
        ValueRef::Array(_, vs) => json!(["Array", vs.iter().map(cell).collect::<Vec<_>>()]),
        ValueRef::Map(_, _, m) => json!(["Map", sorted(m.iter().map(|(a, b)| json!([cell(a), cell(b)])).collect())]),
    }
}
fn ext(mut b: Vec<u8>, n: usize) -> Vec<u8> { let s = if b.last().copied().unwrap_or(0) >= 128 { 255 } else { 0 }; while b.len() < n { b.push(s) } b }
/// What `cell` must give for value `v` of type `t` (server's time zone `stz`).
pub fn want(t: &T, v: &J, stz: Tz) -> J {
    match t {
        T::String | T::FixedString(_) => k("String", &bytes(v)),
        T::DateTime(z) => json!(["DateTime", v, tz(z, stz).name()]),
        T::DateTime64(p, z) => json!(["DateTime64", v, p, tz(z, stz).name()]),
        T::Decimal(_, s) => json!(["Decimal", jb(&ext(bytes(v), 8)), s]),
        T::Enum8(e) => json!(["Enum8", v, e]),
        T::Enum16(e) => json!(["Enum16", v, e]),
        T::Nullable(i) => if v.as_array().unwrap().is_empty() { json!(["Null"]) } else { json!(["Some", want(i, &v[0], stz)]) },
        T::Array(i) => json!(["Array", v.as_array().unwrap().iter().map(|x| want(i, x, stz)).collect::<Vec<_>>()]),
        T::Map(a, b) => json!(["Map", sorted(v.as_array().unwrap().iter().map(|x| json!([want(a, &x[0], stz), want(b, &x[1], stz)])).collect())]),
        T::LC(i) | T::SAF(_, i) => want(i, v, stz),
        t => k(&format!("{t:?}"), &bytes(v)),
    }
}

// ---------------------------------------------------------------- meaning as text
/// A typed value as text, in the form of Wire.tla's Txt (times with nine digits).
pub trait ToX { fn x(&self) -> J; }
macro_rules! tox { ($($t:ty => $f:expr),* $(,)?) => { $(impl ToX for $t { fn x(&self) -> J { let f: fn(&$t) -> J = $f; f(self) } })* } }
tox! {
    u8 => |v| json!(v.to_string()), u16 => |v| json!(v.to_string()), u32 => |v| json!(v.to_string()), u64 => |v| json!(v.to_string()), u128 => |v| json!(v.to_string()),
    i8 => |v| json!(v.to_string()), i16 => |v| json!(v.to_string()), i32 => |v| json!(v.to_string()), i64 => |v| json!(v.to_string()), i128 => |v| json!(v.to_string()),
    bool => |v| json!(if unsafe { *(v as *const bool as *const u8) } == 1 { "true" } else { "false" }),
    f32 => |v| jb(&v.to_bits().to_le_bytes()), f64 => |v| jb(&v.to_bits().to_le_bytes()),
    String => |v| jb(v.as_bytes()), str => |v| jb(v.as_bytes()), [u8] => |v| jb(v),
    NaiveDate => |v| json!(v.format("%Y-%m-%d").to_string()),
    NaiveDateTime => |v| json!(v.format("%Y-%m-%d %H:%M:%S%.9f").to_string()),
    DateTime<Tz> => |v| json!(v.naive_utc().format("%Y-%m-%d %H:%M:%S%.9f").to_string()),
    Decimal => |v| json!(v.to_string()),
    Enum8 => |v| json!(v.internal().to_string()), Enum16 => |v| json!(v.internal().to_string()),
    Ipv4Addr => |v| json!(v.to_string()),
    Ipv6Addr => |v| json!(v.octets().iter().map(|b| format!("{b:02x}")).collect::<String>()),
    uuid::Uuid => |v| json!(v.to_string()),
}
impl<X: ToX + ?Sized> ToX for &X { fn x(&self) -> J { (**self).x() } }
impl<X: ToX> ToX for Option<X> { fn x(&self) -> J { match self { None => json!([]), Some(v) => json!([v.x()]) } } }
impl<X: ToX> ToX for Vec<X> { fn x(&self) -> J { J::Array(self.iter().map(|v| v.x()).collect()) } }
impl<A: ToX, B: ToX> ToX for HashMap<A, B> { fn x(&self) -> J { J::Array(sorted(self.iter().map(|(a, b)| json!([a.x(), b.x()])).collect())) } }
/// Txt of the specification in the form `ToX` produces.
pub fn norm(t: &T, x: &J) -> J {
    match t {
        T::DateTime(_) => json!(format!("{}.000000000", x.as_str().unwrap())),
        T::DateTime64(p, _) => { let s = x.as_str().unwrap(); json!(if *p == 0 { format!("{s}.000000000") } else { format!("{s}{}", "0".repeat(9 - *p as usize)) }) }
        T::Decimal(_, 0) => json!(x.as_str().unwrap().trim_end_matches('.')),
        T::Nullable(i) => if x.as_array().unwrap().is_empty() { json!([]) } else { json!([norm(i, &x[0])]) },
        T::Array(i) => J::Array(x.as_array().unwrap().iter().map(|y| norm(i, y)).collect()),
        T::Map(a, b) => J::Array(sorted(x.as_array().unwrap().iter().map(|y| json!([norm(a, &y[0]), norm(b, &y[1])])).collect())),
        T::LC(i) | T::SAF(_, i) => norm(i, x),
        _ => x.clone(),
    }
}

// ---------------------------------------------------------------- values to push
pub trait FromV: Sized { fn v(t: &T, j: &J) -> Self; }
macro_rules! fromle { ($($t:ty),*) => { $(impl FromV for $t { fn v(_: &T, j: &J) -> Self { <$t>::from_le_bytes(bytes(j).try_into().unwrap()) } })* } }
fromle!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);
impl FromV for bool { fn v(_: &T, j: &J) -> Self { bytes(j)[0] == 1 } }
impl FromV for String { fn v(_: &T, j: &J) -> Self { String::from_utf8(bytes(j)).unwrap() } }
thread_local! { static STZ: std::cell::Cell<Tz> = const { std::cell::Cell::new(Tz::UTC) }; }
/// The server's time zone, in which values of a type that names none are built.
pub fn set_stz(z: Tz) { STZ.with(|c| c.set(z)) }
fn stz() -> Tz { STZ.with(|c| c.get()) }
pub fn epoch() -> NaiveDate { NaiveDate::from_ymd_opt(1970, 1, 1).unwrap() }
impl FromV for NaiveDate { fn v(t: &T, j: &J) -> Self { epoch() + chrono::Duration::days(u16::v(t, j) as i64) } }
impl FromV for DateTime<Tz> {
    fn v(t: &T, j: &J) -> Self {
        match t {
            T::DateTime(z) => tz(z, stz()).timestamp_opt(u32::v(t, j) as i64, 0).unwrap(),
            T::DateTime64(p, z) => { let n = i64::v(t, j); let d = 10i64.pow(*p); tz(z, stz()).timestamp_opt(n.div_euclid(d), (n.rem_euclid(d) * 10i64.pow(9 - p)) as u32).unwrap() }
            _ => panic!(),
        }
    }
}
impl FromV for Decimal { fn v(t: &T, j: &J) -> Self { let T::Decimal(_, s) = t else { panic!() }; Decimal::new(i64::from_le_bytes(ext(bytes(j), 8).try_into().unwrap()), *s) } }
impl FromV for Enum8 { fn v(t: &T, j: &J) -> Self { Enum8::of(i8::v(t, j)) } }
impl FromV for Enum16 { fn v(t: &T, j: &J) -> Self { Enum16::of(i16::v(t, j)) } }
impl FromV for Ipv4Addr { fn v(_: &T, j: &J) -> Self { let b = bytes(j); Ipv4Addr::new(b[3], b[2], b[1], b[0]) } }
impl FromV for Ipv6Addr { fn v(_: &T, j: &J) -> Self { let b: [u8; 16] = bytes(j).try_into().unwrap(); Ipv6Addr::from(b) } }
impl FromV for uuid::Uuid { fn v(_: &T, j: &J) -> Self { let mut b: [u8; 16] = bytes(j).try_into().unwrap(); b[..8].reverse(); b[8..].reverse(); uuid::Uuid::from_bytes(b) } }
impl<X: FromV> FromV for Option<X> { fn v(t: &T, j: &J) -> Self { let T::Nullable(i) = t else { panic!() }; j.as_array().unwrap().first().map(|y| X::v(i, y)) } }
impl<X: FromV> FromV for Vec<X> { fn v(t: &T, j: &J) -> Self { let T::Array(i) = t else { panic!() }; j.as_array().unwrap().iter().map(|y| X::v(i, y)).collect() } }
impl<A: FromV + Eq + std::hash::Hash, B: FromV> FromV for HashMap<A, B> {
    fn v(t: &T, j: &J) -> Self { let T::Map(a, b) = t else { panic!() }; j.as_array().unwrap().iter().map(|y| (A::v(a, &y[0]), B::v(b, &y[1]))).collect() }
}

pub fn sql(t: &T) -> SqlType {
    use clickhouse_rs::types::SqlType as S;
    match t {
        T::UInt8 => S::UInt8, T::UInt16 => S::UInt16, T::UInt32 => S::UInt32, T::UInt64 => S::UInt64, T::UInt128 => S::UInt128,
        T::Int8 => S::Int8, T::Int16 => S::Int16, T::Int32 => S::Int32, T::Int64 => S::Int64, T::Int128 => S::Int128,
        T::Bool => S::Bool, T::Float32 => S::Float32, T::Float64 => S::Float64, T::String => S::String, T::Date => S::Date,
        T::IPv4 => S::Ipv4, T::IPv6 => S::Ipv6, T::UUID => S::Uuid, T::FixedString(n) => S::FixedString(*n),
        T::DateTime(_) => S::DateTime(clickhouse_rs::types::DateTimeType::DateTime32),
        T::DateTime64(p, z) => S::DateTime(clickhouse_rs::types::DateTimeType::DateTime64(*p, tz(z, stz()))),
        T::Decimal(p, s) => S::Decimal(*p, *s),
        T::Enum8(e) => S::Enum8(e.clone()), T::Enum16(e) => S::Enum16(e.clone()),
        T::Nullable(i) => S::Nullable(sql(i).into()), T::Array(i) => S::Array(sql(i).into()), T::Map(a, b) => S::Map(sql(a).into(), sql(b).into()),
        T::LC(i) => S::LowCardinality(sql(i).into()),
        T::SAF(f, i) => S::SimpleAggregateFunction(f.parse().unwrap(), sql(i).into()),
    }
}
/// The value to push in a row.
pub fn value(t: &T, j: &J) -> Value {
    macro_rules! le { ($k:ident, $t:ty) => { Value::$k(<$t>::v(t, j)) } }
    match t {
        T::UInt8 => le!(UInt8, u8), T::UInt16 => le!(UInt16, u16), T::UInt32 => le!(UInt32, u32), T::UInt64 => le!(UInt64, u64), T::UInt128 => le!(UInt128, u128),
        T::Int8 => le!(Int8, i8), T::Int16 => le!(Int16, i16), T::Int32 => le!(Int32, i32), T::Int64 => le!(Int64, i64), T::Int128 => le!(Int128, i128),
        T::Float32 => le!(Float32, f32), T::Float64 => le!(Float64, f64), T::Bool => le!(Bool, bool),
        T::String | T::FixedString(_) => Value::from(bytes(j)),
        T::Date => Value::Date(u16::v(t, j)),
        T::DateTime(z) => Value::DateTime(u32::v(t, j), tz(z, stz())),
        T::DateTime64(p, z) => Value::DateTime64(i64::v(t, j), (*p, tz(z, stz()))),
        T::Decimal(..) => Value::Decimal(Decimal::v(t, j)),
        T::IPv4 => Value::Ipv4(bytes(j).try_into().unwrap()), T::IPv6 => Value::Ipv6(bytes(j).try_into().unwrap()), T::UUID => Value::Uuid(bytes(j).try_into().unwrap()),
        T::Enum8(e) => Value::Enum8(e.clone(), Enum8::v(t, j)), T::Enum16(e) => Value::Enum16(e.clone(), Enum16::v(t, j)),
        T::Nullable(i) => Value::Nullable(match j.as_array().unwrap().first() { None => Either::Left(sql(i).into()), Some(x) => Either::Right(Box::new(value(i, x))) }),
        T::Array(i) => Value::Array(sql(i).into(), std::sync::Arc::new(j.as_array().unwrap().iter().map(|x| value(i, x)).collect())),
        T::Map(a, b) => Value::Map(sql(a).into(), sql(b).into(), std::sync::Arc::new(j.as_array().unwrap().iter().map(|x| (value(a, &x[0]), value(b, &x[1]))).collect())),
        T::LC(i) | T::SAF(_, i) => value(i, j),
    }
}
pub fn has_lc(t: &T) -> bool { match t { T::LC(_) => true, T::Nullable(i) | T::Array(i) | T::SAF(_, i) => has_lc(i), T::Map(a, b) => has_lc(a) || has_lc(b), _ => false } }
pub fn utf8(t: &T, v: &J) -> bool {
    match t {
        T::String | T::FixedString(_) => std::str::from_utf8(&bytes(v)).is_ok(),
        T::Nullable(i) | T::Array(i) => v.as_array().unwrap().iter().all(|x| utf8(i, x)),
        T::Map(a, b) => v.as_array().unwrap().iter().all(|x| utf8(a, &x[0]) && utf8(b, &x[1])),
        T::LC(i) | T::SAF(_, i) => utf8(i, v),
        _ => true,
    }
}

/// A type name read back (what the server would make of it); time zones are left out.
pub fn parse_name(s: &str) -> Result<J, String> {
    let s = s.trim();
    let bad = || format!("type name {s}");
    let (name, args) = match s.find('(') {
        None => (s, vec![]),
        Some(i) => { if !s.ends_with(')') { return Err(bad()); } (s[..i].trim(), crate::wire::split_args(&s[i + 1..s.len() - 1])) }
    };
    let num = |i: usize| args.get(i).and_then(|x| x.parse::<i64>().ok()).ok_or_else(bad);
    let sub = |i: usize| args.get(i).ok_or_else(bad).and_then(|x| parse_name(x));
    let want = |n: usize| if args.len() == n { Ok(()) } else { Err(bad()) };
    Ok(match name {
        "UInt8" | "UInt16" | "UInt32" | "UInt64" | "UInt128" | "Int8" | "Int16" | "Int32" | "Int64" | "Int128" | "Bool" | "Float32" | "Float64" | "String" | "Date" | "IPv4" | "IPv6" | "UUID" => { want(0)?; json!([name]) }
        "FixedString" => { want(1)?; json!([name, num(0)?]) }
        "DateTime" => { if args.len() > 1 { return Err(bad()); } json!([name]) }
        "DateTime64" => { if args.is_empty() || args.len() > 2 { return Err(bad()); } json!([name, num(0)?]) }
        "Decimal" => { want(2)?; json!([name, num(0)?, num(1)?]) }
        "Enum8" | "Enum16" => {
            let mut es = vec![];
            for a in &args {
                let (mut txt, mut it, mut closed) = (String::new(), a.char_indices(), false);
                if !matches!(it.next(), Some((_, '\''))) { return Err(bad()); }
                let mut rest = "";
                while let Some((i, c)) = it.next() {
                    match c { '\\' => if let Some((_, d)) = it.next() { txt.push(d) }, '\'' => { closed = true; rest = &a[i + 1..]; break } c => txt.push(c) }
                }
                if !closed { return Err(bad()); }
                let n: i64 = rest.trim().strip_prefix('=').and_then(|x| x.trim().parse().ok()).ok_or_else(bad)?;
                es.push(json!([txt, n]));
            }
            json!([name, es])
        }
        "Nullable" | "Array" => { want(1)?; json!([name, sub(0)?]) }
        "LowCardinality" => { want(1)?; json!(["LC", sub(0)?]) }
        "Map" => { want(2)?; json!([name, sub(0)?, sub(1)?]) }
        "SimpleAggregateFunction" => { want(2)?; json!(["SAF", args[0], sub(1)?]) }
        _ => return Err(bad()),
    })
}
