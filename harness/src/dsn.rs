//! Connection strings of Dsn.tla, parsed by the client and compared with options set one by one.
use crate::cols::caught;
use crate::ty::bytes;
use crate::util::*;
use clickhouse_rs::{Options, Pool};
use serde_json::{json, Value as J};
use std::{collections::HashMap, str::FromStr, time::Duration};
use url::Url;

fn text(j: &J) -> String { match j { J::String(s) => s.clone(), _ => String::from_utf8(bytes(j)).unwrap() } }
fn joined(r: &J) -> String {
    let b = &r["b"];
    let opt = |k: &str| b[k].as_array().unwrap().first().map(text);
    let mut s = String::from("tcp://");
    if let Some(u) = opt("user") { s += &u; if let Some(p) = opt("pw") { s += ":"; s += &p; } s += "@"; }
    s += b["host"].as_str().unwrap();
    if b["port"] != 0 { s += &format!(":{}", b["port"]); }
    if let Some(d) = opt("db") { s += "/"; s += &d; }
    for (i, p) in r["ps"].as_array().unwrap().iter().enumerate() { s += if i == 0 { "?" } else { "&" }; s += &format!("{}={}", text(&p[0]), text(&p[1])); }
    s
}
fn dur(j: &J) -> Duration { Duration::from_millis(j.as_u64().unwrap()) }
fn opt_dur(j: &J) -> Option<Duration> { if j == -1 { None } else { Some(dur(j)) } }
fn built(r: &J, addr: &str) -> Options {
    let o = &r["o"];
    let n = |k: &str| o[k].as_u64().unwrap() as usize;
    let b = |k: &str| o[k].as_bool().unwrap();
    let mut x = Options::new(Url::parse(addr).unwrap())
        .database(&text(&r["db"])).username(&text(&r["user"])).password(&text(&r["pw"]))
        .pool_min(n("pool_min")).pool_max(n("pool_max")).send_retries(n("send_retries")).nodelay(b("nodelay")).ping_before_query(b("ping_before_query"))
        .keepalive(opt_dur(&o["keepalive"])).retry_timeout(dur(&o["retry_timeout"])).ping_timeout(dur(&o["ping_timeout"])).connection_timeout(dur(&o["connection_timeout"]))
        .query_timeout(dur(&o["query_timeout"])).insert_timeout(opt_dur(&o["insert_timeout"])).execute_timeout(opt_dur(&o["execute_timeout"]))
        .settings(HashMap::new())
        .alt_hosts(o["alt_hosts"].as_array().unwrap().iter().map(|h| Url::parse(&format!("tcp://{}:{}", h[0].as_str().unwrap(), h[1])).unwrap()).collect());
    if b("compression") { x = x.with_compression(); }
    for s in r["set"].as_array().unwrap() { x = x.with_setting(&text(&s[0]), text(&s[1]).as_str(), true); }
    x
}
/// Which single component differs, for the message.
fn blame(r: &J, got: &Options) -> Vec<String> {
    let g = format!("{got:?}");
    let mut v = vec![];
    for (k, x) in r["o"].as_object().unwrap() {
        let want = match x { J::Bool(b) => b.to_string(), J::Number(n) if !k.contains("timeout") && k != "keepalive" => n.to_string(), _ => continue };
        if let Some(i) = g.find(&format!(" {k}: ")) { let t: String = g[i + k.len() + 3..].chars().take_while(|c| !",} ".contains(*c)).collect(); if t != want { v.push(format!("{k} is {t}, stated {want}")); } }
    }
    v
}
pub fn run(inp: &str, out: &str) {
    let all = read_ndjson(inp);
    let mut fails = vec![];
    let (mut good, mut bad) = (0, 0);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    for r in &all {
        if let Some(s) = r["bad"].as_str() {
            bad += 1;
            match caught(|| Options::from_str(s)) {
                Ok(Err(_)) => {}
                Ok(Ok(o)) => fails.push(json!({"url": s, "kind": "accepted", "key": r["why"], "what": format!("a malformed string is accepted as {o:?}")})),
                Err(p) => fails.push(json!({"url": s, "kind": "panic", "key": r["why"], "what": format!("panic: {p}")})),
            }
            match caught(|| rt.block_on(async { tokio::time::timeout(Duration::from_secs(5), Pool::new(s).get_handle()).await.map(|r| r.map(|_| ())) })) {
                Ok(Ok(Err(_))) => {}
                Ok(Ok(Ok(()))) => fails.push(json!({"url": s, "kind": "accepted", "key": r["why"], "what": "a pool made from a malformed string connects"})),
                Ok(Err(_)) => fails.push(json!({"url": s, "kind": "hang", "key": r["why"], "what": "a pool made from a malformed string gives no answer"})),
                Err(p) => fails.push(json!({"url": s, "kind": "panic", "key": r["why"], "what": format!("a pool made from it panics: {p}")})),
            }
            continue;
        }
        good += 1;
        let s = joined(r);
        match caught(|| Options::from_str(&s)) {
            Err(p) => fails.push(json!({"url": s, "kind": "panic", "key": [], "what": format!("panic: {p}")})),
            Ok(Err(e)) => fails.push(json!({"url": s, "kind": "refused", "key": [], "what": format!("refused: {e}")})),
            Ok(Ok(o)) => {
                // the address may or may not keep the credentials; what matters is host and port
                let hp = format!("{}:{}", r["host"].as_str().unwrap(), r["port"]);
                let cred = s["tcp://".len()..].split('@').next().filter(|_| s.contains('@')).map(|c| format!("{c}@")).unwrap_or_default();
                let addrs = [format!("tcp://{cred}{hp}"), format!("tcp://{hp}"), format!("tcp://default@{hp}"), format!("tcp://{hp}/"), format!("tcp://{cred}{hp}/")];
                if !addrs.iter().any(|a| built(r, a) == o) {
                    let b = blame(r, &o);
                    fails.push(json!({"url": s, "kind": "differs", "key": b, "what": format!("the options differ from what the string states: {}; got {o:?}, built {:?}", b.join("; "), built(r, &addrs[0]))}));
                }
            }
        }
    }
    write_json(out, &json!({"strings": all.len(), "good": good, "bad": bad, "fails": fails}));
}
