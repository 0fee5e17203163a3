//! Scripted fake ClickHouse server (loopback TCP).
use crate::wire::*;
use std::sync::{Arc, Mutex};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

#[derive(Debug, Clone, Default)]
pub struct QueryReq {
    pub sql: String,
    pub id: String,
    pub initial_id: String,
    pub settings: Vec<(String, u64, Vec<u8>)>,
    pub stage: u64,
    pub compression: bool,
    pub raw: Vec<u8>,
}
#[derive(Debug, Clone)]
pub enum Req {
    Hello { db: String, user: String, pass: String, rev: u64, raw: Vec<u8> },
    Ping,
    Cancel,
    Query(QueryReq),
    Data { block: RawBlock, frames: usize, raw: Vec<u8> },
    Bad(String),
}
#[derive(Clone)]
pub enum Act {
    Send(Vec<u8>),
    Segs(Vec<Vec<u8>>),
    Close,
    Reset,
    Stall,
    Sleep(u64),
    /// waits for the notification (or the client's end of file), then does what the function says
    Gate(Arc<tokio::sync::Notify>, Arc<dyn Fn() -> Vec<Act> + Send + Sync>),
}
#[derive(Debug, Clone)]
pub enum Ev {
    Accept { conn: usize, host: usize },
    Req { conn: usize, req: Req },
    Eof { conn: usize },
}
pub trait Behave: Send + Sync {
    fn accept(&self, _conn: usize, _host: usize) -> Vec<Act> { vec![] }
    fn req(&self, conn: usize, req: &Req) -> Vec<Act>;
    /// server revision to announce / assume
    fn revision(&self) -> u64 { 54429 }
    /// a closed listener (connection refused) is modelled by dropping the Server
    fn eof(&self, _conn: usize) {}
}

pub struct Server {
    pub addr: std::net::SocketAddr,
    pub log: Arc<Mutex<Vec<Ev>>>,
    listener: tokio::task::JoinHandle<()>,
    conns: Arc<Mutex<Vec<(usize, tokio::task::JoinHandle<()>)>>>,
}
impl Drop for Server {
    fn drop(&mut self) {
        self.listener.abort();
        for (_, t) in self.conns.lock().unwrap().drain(..) { t.abort(); }
    }
}

#[derive(Clone, Default)]
pub struct Shared {
    pub log: Arc<Mutex<Vec<Ev>>>,
    next: Arc<std::sync::atomic::AtomicUsize>,
}

impl Server {
    /// Must be called inside a tokio runtime.
    pub fn start(b: Arc<dyn Behave>) -> Server { Server::start_host(b, 0, Shared::default()) }
    pub fn start_host(b: Arc<dyn Behave>, host: usize, sh: Shared) -> Server {
        let l = listen();
        Server::on(l, b, host, sh)
    }
    pub fn on(l: std::net::TcpListener, b: Arc<dyn Behave>, host: usize, sh: Shared) -> Server {
        l.set_nonblocking(true).unwrap();
        let addr = l.local_addr().unwrap();
        let l = TcpListener::from_std(l).unwrap();
        let conns: Arc<Mutex<Vec<_>>> = Default::default();
        let t2 = conns.clone();
        let log = sh.log.clone();
        let listener = tokio::spawn(async move {
            loop {
                let Ok((s, _)) = l.accept().await else { return };
                let _ = s.set_nodelay(true);
                let conn = sh.next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                sh.log.lock().unwrap().push(Ev::Accept { conn, host });
                let b = b.clone();
                let log = sh.log.clone();
                let h = tokio::spawn(async move { conn_loop(s, conn, host, b, log).await });
                t2.lock().unwrap().push((conn, h));
            }
        });
        Server { addr, log, listener, conns }
    }
    /// Closes every connection made so far.
    pub async fn kill_conns(&self) {
        for (_, t) in self.conns.lock().unwrap().drain(..) { t.abort(); }
        settle().await;
        settle().await;
    }
    pub async fn kill_one(&self, conn: usize) {
        for (c, t) in self.conns.lock().unwrap().iter() { if *c == conn { t.abort(); } }
        settle().await;
        settle().await;
    }
    pub fn events(&self) -> Vec<Ev> { self.log.lock().unwrap().clone() }
    pub fn accepts(&self) -> usize { self.events().iter().filter(|e| matches!(e, Ev::Accept { .. })).count() }
    pub fn queries(&self) -> Vec<(usize, String)> {
        self.events().iter().filter_map(|e| match e { Ev::Req { conn, req: Req::Query(q) } => Some((*conn, q.sql.clone())), _ => None }).collect()
    }
}

/// Parses one request. `compress` is the compression flag of the query in progress.
pub fn parse_req(buf: &[u8], rev: u64, compress: bool) -> PRes<(Req, usize)> {
    let mut r = R::new(buf);
    let code = r.uv()?;
    let req = match code {
        0 => {
            r.s()?; r.uv()?; r.uv()?;
            let crev = r.uv()?;
            let db = r.s()?;
            let user = r.s()?;
            let pass = r.s()?;
            Req::Hello { db, user, pass, rev: crev, raw: buf[..r.p].to_vec() }
        }
        1 => {
            let mut q = QueryReq::default();
            q.id = r.s()?;
            let kind = r.u8()?;
            if kind != 1 { return Err(PErr::Bad(format!("query kind {kind}"))); }
            r.s()?;
            q.initial_id = r.s()?;
            r.s()?;
            let iface = r.u8()?;
            if iface != 1 { return Err(PErr::Bad(format!("interface {iface}"))); }
            r.s()?; r.s()?; r.s()?;
            r.uv()?; r.uv()?;
            let crev = r.uv()?;
            let rev = rev.min(crev);
            if rev >= 54060 { r.s()?; }
            if rev >= 54401 { r.uv()?; }
            loop {
                let name = r.s()?;
                if name.is_empty() { break; }
                if rev >= 54429 {
                    let f = r.uv()?;
                    let v = r.bytes()?;
                    q.settings.push((name, f, v));
                } else if name.starts_with("u_") || name.starts_with("b_") {
                    let v = r.uv()?;
                    q.settings.push((name, 0, v.to_string().into_bytes()));
                } else {
                    let v = r.bytes()?;
                    q.settings.push((name, 0, v));
                }
            }
            q.stage = r.uv()?;
            let c = r.uv()?;
            if c > 1 { return Err(PErr::Bad(format!("compression flag {c}"))); }
            q.compression = c == 1;
            q.sql = r.s()?;
            q.raw = buf[..r.p].to_vec();
            // trailing empty data block (no external tables)
            let code = r.uv()?;
            if code != 2 { return Err(PErr::Bad(format!("packet {code} after query"))); }
            let (b, _) = data_body(&mut r, q.compression)?;
            if b.rows != 0 || !b.cols.is_empty() { return Err(PErr::Bad("non-empty external table".into())); }
            Req::Query(q)
        }
        2 => {
            let (block, frames) = data_body(&mut r, compress)?;
            Req::Data { block, frames, raw: buf[..r.p].to_vec() }
        }
        3 => Req::Cancel,
        4 => Req::Ping,
        c => return Err(PErr::Bad(format!("client packet {c}"))),
    };
    Ok((req, r.p))
}
fn data_body(r: &mut R, compress: bool) -> PRes<(RawBlock, usize)> {
    r.s()?;
    if !compress { return Ok((read_block(r)?, 0)); }
    let mut acc = vec![];
    let mut n = 0;
    loop {
        acc.extend(read_frame(r)?);
        n += 1;
        let mut rr = R::new(&acc);
        match read_block(&mut rr) {
            Ok(b) if rr.p == acc.len() => return Ok((b, n)),
            Ok(_) => return Err(PErr::Bad("trailing bytes in frame".into())),
            Err(PErr::More) => {}
            Err(e) => return Err(e),
        }
    }
}

/// A listener on a loopback address of its own, so that ports in TIME_WAIT never run out.
pub fn listen() -> std::net::TcpListener {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    for _ in 0..200 {
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let ip = std::net::Ipv4Addr::new(127, (n / 62500 % 100 + 1) as u8, (n / 250 % 250 + 1) as u8, (n % 250 + 1) as u8);
        if let Ok(l) = std::net::TcpListener::bind((ip, 0)).or_else(|_| std::net::TcpListener::bind("127.0.0.1:0")) { return l; }
        std::thread::sleep(std::time::Duration::from_millis(100));
    }
    panic!("no port to listen on")
}
pub async fn settle() { for _ in 0..4 { tokio::task::yield_now().await; } }

async fn conn_loop(mut s: TcpStream, conn: usize, host: usize, b: Arc<dyn Behave>, log: Arc<Mutex<Vec<Ev>>>) {
    let mut buf: Vec<u8> = vec![];
    let mut compress = false;
    if !exec(&mut s, b.accept(conn, host)).await { b.eof(conn); return; }
    let mut tmp = vec![0u8; 1 << 16];
    loop {
        let mut stop = false;
        loop {
            if buf.is_empty() { break; }
            match parse_req(&buf, b.revision(), compress) {
                Ok((req, n)) => {
                    buf.drain(..n);
                    if let Req::Query(q) = &req { compress = q.compression; }
                    log.lock().unwrap().push(Ev::Req { conn, req: req.clone() });
                    if !exec(&mut s, b.req(conn, &req)).await { stop = true; break; }
                }
                Err(PErr::More) => break,
                Err(PErr::Bad(m)) => {
                    let req = Req::Bad(m);
                    log.lock().unwrap().push(Ev::Req { conn, req: req.clone() });
                    b.req(conn, &req);
                    stop = true;
                    break;
                }
            }
        }
        if stop { b.eof(conn); return; }
        match s.read(&mut tmp).await {
            Ok(0) | Err(_) => { log.lock().unwrap().push(Ev::Eof { conn }); b.eof(conn); return; }
            Ok(n) => buf.extend_from_slice(&tmp[..n]),
        }
    }
}
async fn exec(s: &mut TcpStream, acts: Vec<Act>) -> bool {
    for a in acts {
        match a {
            Act::Send(v) => if s.write_all(&v).await.is_err() { return false; },
            Act::Segs(vs) => for v in vs {
                if s.write_all(&v).await.is_err() { return false; }
                settle().await;
            },
            Act::Close => { let _ = s.shutdown().await; return false; }
            Act::Reset => { let _ = s.set_linger(Some(std::time::Duration::ZERO)); return false; }
            Act::Stall => {
                let mut t = [0u8; 4096];
                loop { match s.read(&mut t).await { Ok(0) | Err(_) => return false, _ => {} } }
            }
            Act::Sleep(ms) => tokio::time::sleep(std::time::Duration::from_millis(ms)).await,
            Act::Gate(n, f) => {
                let mut t = [0u8; 64];
                tokio::select! {
                    biased;
                    _ = n.notified() => {}
                    r = s.read(&mut t) => { let _ = r; return false; }
                }
                if !Box::pin(exec(s, f())).await { return false; }
            }
        }
    }
    true
}

// ---------------------------------------------------------------- server packets
pub fn hello(rev: u64, tz: &str) -> Vec<u8> {
    let mut w = W::new().uv(0).s("ClickHouse").uv(20).uv(3).uv(rev);
    if rev >= 54058 { w = w.s(tz); }
    if rev >= 54372 { w = w.s("fake"); }
    if rev >= 54401 { w = w.uv(7); }
    w.0
}
pub fn pong() -> Vec<u8> { vec![4] }
pub fn eos() -> Vec<u8> { vec![5] }
pub fn exception(code: i32, name: &str, msg: &str, stack: &str) -> Vec<u8> {
    W::new().uv(2).i32(code).s(name).s(msg).s(stack).u8(0).0
}
pub fn progress(rev: u64, r: u64) -> Vec<u8> {
    let mut w = W::new().uv(3).uv(r).uv(r * 8);
    if rev >= 51554 { w = w.uv(1000); }
    if rev >= 54420 { w = w.uv(1).uv(2); }
    w.0
}
pub fn profile() -> Vec<u8> { W::new().uv(6).uv(300).uv(2).uv(1 << 20).u8(0).uv(10).u8(1).0 }
pub fn table_columns() -> Vec<u8> { W::new().uv(11).s("").s("columns format version: 1\n").0 }
/// Data packet around an already encoded block.
pub fn data(block: &[u8], compress: bool) -> Vec<u8> {
    let w = W::new().uv(1).s("");
    if compress { w.raw(&frame(block)).0 } else { w.raw(block).0 }
}
pub fn u64_block(name: &str, vs: &[u64]) -> Vec<u8> {
    let mut d = vec![];
    for v in vs { d.extend_from_slice(&v.to_le_bytes()); }
    block_bytes(&[(name.into(), "UInt64".into(), d)], vs.len() as u64)
}
