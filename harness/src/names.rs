//! Type names of TypeNames.tla shown to the client as the type of a column; what it makes of
//! them is recorded for TypeTrace.tla.
use crate::cols::S;
use crate::server::*;
use crate::ty::jb;
use crate::util::*;
use crate::wire::W;
use clickhouse_rs::{types::{DateTimeType, SqlType}, Pool};
use futures_util::{FutureExt, StreamExt};
use serde_json::{json, Value as J};
use std::{panic::AssertUnwindSafe, sync::Arc};

pub fn shape(t: &SqlType) -> J {
    match t {
        SqlType::Bool => json!(["Bool"]),
        SqlType::UInt8 => json!(["UInt8"]), SqlType::UInt16 => json!(["UInt16"]), SqlType::UInt32 => json!(["UInt32"]), SqlType::UInt64 => json!(["UInt64"]), SqlType::UInt128 => json!(["UInt128"]),
        SqlType::Int8 => json!(["Int8"]), SqlType::Int16 => json!(["Int16"]), SqlType::Int32 => json!(["Int32"]), SqlType::Int64 => json!(["Int64"]), SqlType::Int128 => json!(["Int128"]),
        SqlType::Float32 => json!(["Float32"]), SqlType::Float64 => json!(["Float64"]), SqlType::String => json!(["String"]), SqlType::FixedString(n) => json!(["FixedString", n]),
        SqlType::Date => json!(["Date"]),
        SqlType::DateTime(DateTimeType::DateTime64(p, tz)) => json!(["DateTime64", p, jb(tz.name().as_bytes())]),
        SqlType::DateTime(_) => json!(["DateTime", []]),
        SqlType::Ipv4 => json!(["IPv4"]), SqlType::Ipv6 => json!(["IPv6"]), SqlType::Uuid => json!(["UUID"]),
        SqlType::Nullable(i) => json!(["Nullable", shape(i)]), SqlType::Array(i) => json!(["Array", shape(i)]), SqlType::LowCardinality(i) => json!(["LC", shape(i)]),
        SqlType::Map(k, v) => json!(["Map", shape(k), shape(v)]),
        SqlType::SimpleAggregateFunction(f, i) => { let f: &str = (*f).into(); json!(["SAF", f, shape(i)]) }
        SqlType::Decimal(p, s) => json!(["Decimal", p, s]),
        SqlType::Enum8(v) => json!(["Enum8", v.iter().map(|(n, x)| json!([jb(n.as_bytes()), x])).collect::<Vec<_>>()]),
        SqlType::Enum16(v) => json!(["Enum16", v.iter().map(|(n, x)| json!([jb(n.as_bytes()), x])).collect::<Vec<_>>()]),
    }
}
fn name(r: &J) -> (Vec<u8>, bool) {
    match r["k"].as_u64() {
        None => (crate::ty::bytes(&r["s"]), false),
        Some(k) => {
            let (h, c) = (r["h"].as_str().unwrap(), r["c"].as_str().unwrap());
            let open = h.matches('(').count();
            let s = format!("{}{}{}", h.repeat(k as usize), c, ")".repeat(open * k as usize)).into_bytes();
            let deep = s.len() > 1200;
            (s, deep)
        }
    }
}
pub fn run(inp: &str, out: &str) {
    let names: Arc<Vec<(Vec<u8>, bool)>> = Arc::new(read_ndjson(inp).iter().map(name).collect());
    const CH: usize = 64;
    const TZS: [&str; 3] = ["UTC", "Europe/Moscow", "America/New_York"];
    let n = names.len();
    let jobs = (n + CH - 1) / CH;
    let n2 = names.clone();
    let mut recs: Vec<J> = par(jobs, 2, move |job| {
        let names = n2.clone();
        async move {
            let tz = TZS[job % 3];
            let ns = names.clone();
            let srv = Server::start(Arc::new(S(move |_c, r: &Req| match r {
                Req::Hello { .. } => vec![Act::Send(hello(54429, tz))],
                Req::Ping => vec![Act::Send(pong())],
                Req::Query(q) => {
                    let i: usize = q.sql.parse().unwrap();
                    let b = W::new().uv(1).u8(0).uv(2).i32(-1).uv(0).uv(2).uv(0).s("c").b(&ns[i].0).s("g").s("UInt8").0;
                    let mut o = data(&b, q.compression); o.extend(data(&b, q.compression));
                    o.extend(eos());
                    vec![Act::Send(o)]
                }
                _ => vec![],
            })));
            let pool = Pool::new(format!("tcp://{}?ping_before_query=false&query_timeout=90s&pool_min=1&pool_max=2", srv.addr));
            let mut recs = vec![];
            for i in job * CH..((job + 1) * CH).min(names.len()) {
                if enough() { break; }
                let got = within(20, async {
                    let mut h = pool.get_handle().await.map_err(|e| e.to_string())?;
                    let mut s = h.query(i.to_string()).stream_blocks();
                    let mut r = None;
                    while let Some(b) = s.next().await {
                        let b = b.map_err(|e| e.to_string())?;
                        if b.column_count() != 2 || b.columns()[1].sql_type() != SqlType::UInt8 { return Err(format!("a block of other columns: {:?}", b.columns().iter().map(|c| c.sql_type().to_string().into_owned()).collect::<Vec<_>>())); }
                        let t = b.columns()[0].sql_type();
                        r = Some((shape(&t), t.to_string().into_owned()));
                    }
                    r.ok_or("no block".to_string())
                }).await;
                let (s, deep) = &names[i];
                let cut = |w: &str| w.chars().filter(|c| c.is_ascii() && !c.is_ascii_control() && *c != '"' && *c != '\\').take(300).collect::<String>();
                let (o, t, p, w) = match got {
                    Err(p) => ("panic", json!(["none"]), vec![], format!("panic: {}", cut(&panic_msg(p)))),
                    Ok(Err(e)) => ("err", json!(["none"]), vec![], cut(&e)),
                    Ok(Ok((t, p))) => ("ok", t, p.clone().into_bytes(), cut(&p)),
                };
                let (s, t, p) = if *deep { (vec![], json!(["none"]), vec![]) } else { (s.clone(), t, p) };
                recs.push(json!({"id": i, "s": jb(&s), "deep": deep, "out": o, "t": t, "p": jb(&p), "z": jb(tz.as_bytes()), "what": w}));
            }
            Some(recs)
        }
    }).into_iter().flatten().collect();
    recs.sort_by_key(|r| r["id"].as_u64());
    let ok = recs.iter().filter(|r| r["out"] == "ok").count();
    write_ndjson(&format!("{out}.trace"), &recs);
    write_json(out, &json!({"names": n, "accepted": ok}));
}
