use crate::server::*;
use clickhouse_rs::{Pool, Block};
use futures_util::{FutureExt, StreamExt};
use std::sync::Arc;
use std::panic::AssertUnwindSafe;

pub struct B(pub Box<dyn Fn(usize, &Req) -> Vec<Act> + Send + Sync>);
impl Behave for B { fn req(&self, c: usize, r: &Req) -> Vec<Act> { (self.0)(c, r) } }

fn std_reply(r: &Req) -> Vec<Act> {
    match r {
        Req::Hello { .. } => vec![Act::Send(hello(54429, "UTC"))],
        Req::Ping => vec![Act::Send(pong())],
        Req::Query(q) => {
            let s = q.sql.as_str();
            let c = q.compression;
            let hdr = data(&u64_block("n", &[]), c);
            let blk = data(&u64_block("n", &[1, 2]), c);
            if s.starts_with("INSERT") { return vec![Act::Send(hdr)]; }
            match s {
                "exc" => vec![Act::Send(exception(60, "DB", "m", "s"))],
                "excclose" => vec![Act::Send(exception(60, "DB", "m", "s")), Act::Close],
                "midexc" => vec![Act::Send(hdr), Act::Send(blk), Act::Send(exception(60, "DB", "m", "s"))],
                "close" => vec![Act::Close],
                "reset" => vec![Act::Reset],
                "midclose" => vec![Act::Send(hdr), Act::Send(blk), Act::Close],
                "empty" => vec![Act::Send(eos())],
                "hdronly" => vec![Act::Send(hdr), Act::Send(eos())],
                "garbage" => vec![Act::Send(vec![99, 99])],
                "unexp" => vec![Act::Send(pong())],
                "nothing" => vec![Act::Send(data(&crate::wire::block_bytes(&[],0), c)), Act::Send(eos())],
                _ => vec![Act::Send(hdr), Act::Send(blk), Act::Send(eos())],
            }
        }
        Req::Data { block, .. } => if block.cols.is_empty() { vec![Act::Send(eos())] } else { vec![] },
        Req::Cancel => vec![],
        Req::Bad(m) => { println!("   BAD {m}"); vec![] }
    }
}
pub fn main(_w: &str) {
    std::panic::set_hook(Box::new(|i| println!("   PANIC {i}")));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        for ping in [true, false] { for comp in ["none", "lz4"] {
        for q in ["ok", "exc", "excclose", "midexc", "close", "reset", "midclose", "empty", "hdronly", "nothing", "garbage", "unexp"] {
            for op in ["fetch", "exec", "drop1"] {
            let srv = Server::start(Arc::new(B(Box::new(|_, r| std_reply(r)))));
            let pool = Pool::new(format!("tcp://{}?compression={}&ping_before_query={}&query_timeout=1s&retry_timeout=10ms&execute_timeout=1s&pool_min=1&pool_max=2", srv.addr, comp, ping));
            let r = AssertUnwindSafe(async {
                let mut h = pool.get_handle().await.unwrap();
                let mut out = vec![];
                match op {
                    "fetch" => out.push(format!("{:?}", AssertUnwindSafe(h.query(q).fetch_all()).catch_unwind().await.map(|x| x.map(|b| b.row_count()).map_err(|e| e.to_string())).map_err(|_| "PANIC"))),
                    "exec" => out.push(format!("{:?}", AssertUnwindSafe(h.execute(q)).catch_unwind().await.map(|x| x.map_err(|e| e.to_string())).map_err(|_| "PANIC"))),
                    _ => { let mut s = h.query(q).stream_blocks(); let x = AssertUnwindSafe(s.next()).catch_unwind().await; out.push(format!("{:?}", x.map(|x| x.map(|y| y.map(|b| b.row_count()).map_err(|e| e.to_string()))).map_err(|_| "PANIC"))); }
                }
                let x = AssertUnwindSafe(h.query("ok").fetch_all()).catch_unwind().await.map(|x| x.map(|b| b.row_count()).map_err(|e| e.to_string())).map_err(|_| "PANIC");
                out.push(format!("next: {:?}", x));
                let b = Block::new().column("n", vec![1u64, 2]);
                let x = AssertUnwindSafe(h.insert("t", b)).catch_unwind().await.map(|x| x.map_err(|e| e.to_string())).map_err(|_| "PANIC");
                out.push(format!("ins: {:?}", x));
                out
            }).catch_unwind().await;
            println!("ping={ping} {comp} {op} {q}: {:?} pool={:?}", r.map_err(|_| "PANIC"), format!("{:?}", pool).replace("connections count", ""));
            }
        }}}
    });
}
