use serde_json::Value as J;
use std::future::Future;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

pub fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() }
pub fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}
/// TLC writes each record as a quoted TLA+ string holding JSON.
pub fn read_ndjson(path: &str) -> Vec<J> {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    s.lines().filter(|l| !l.trim().is_empty()).map(|l| {
        let v: J = serde_json::from_str(l).unwrap_or_else(|e| panic!("{path}: {e}: {l}"));
        match v { J::String(s) => serde_json::from_str(&s).unwrap_or_else(|e| panic!("{path}: {e}: {s}")), v => v }
    }).collect()
}
pub fn write_json(path: &str, v: &J) { std::fs::write(path, serde_json::to_string(v).unwrap()).unwrap(); }
pub fn write_ndjson(path: &str, vs: &[J]) {
    let mut s = String::new();
    for v in vs { s.push_str(&serde_json::to_string(v).unwrap()); s.push('\n'); }
    std::fs::write(path, s).unwrap();
}
pub fn nthreads() -> usize { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) }
static HANGS: AtomicUsize = AtomicUsize::new(0);
/// A limit for something that should have an outcome at once.  When many things have hung already,
/// the verdict is clear: less time is spent on further ones, and soon no more cases are started.
pub async fn patient<F: Future>(secs: u64, f: F) -> Result<F::Output, tokio::time::error::Elapsed> {
    let secs = if HANGS.load(Ordering::SeqCst) >= 8 { secs.min(2) } else { secs };
    let r = tokio::time::timeout(std::time::Duration::from_secs(secs), f).await;
    if r.is_err() { HANGS.fetch_add(1, Ordering::SeqCst); }
    r
}
/// Like `catch_unwind`, but what does not come back in time is an error "hang".
pub async fn within<T, F: Future<Output = Result<T, String>>>(secs: u64, f: F) -> std::thread::Result<Result<T, String>> {
    use futures_util::FutureExt;
    match patient(secs, std::panic::AssertUnwindSafe(f).catch_unwind()).await { Ok(r) => r, Err(_) => Ok(Err("hang".into())) }
}
/// So many hangs that the rest is not worth waiting for.
pub fn enough() -> bool { HANGS.load(Ordering::SeqCst) >= 120 }
/// Runs job(0..n) on several single-threaded runtimes, `width` jobs at a time on each.
pub fn par<T, F, Fut>(n: usize, width: usize, job: F) -> Vec<T>
where T: Send + 'static, F: Fn(usize) -> Fut + Send + Sync + 'static, Fut: Future<Output = Option<T>> { par_on(n, width, rt, job) }
pub fn par_on<T, F, Fut>(n: usize, width: usize, rt: fn() -> tokio::runtime::Runtime, job: F) -> Vec<T>
where T: Send + 'static, F: Fn(usize) -> Fut + Send + Sync + 'static, Fut: Future<Output = Option<T>> {
    use futures_util::StreamExt;
    let next = Arc::new(AtomicUsize::new(0));
    let job = Arc::new(job);
    let mut ths = vec![];
    for _ in 0..nthreads() {
        let (next, job) = (next.clone(), job.clone());
        ths.push(std::thread::spawn(move || {
            rt().block_on(async move {
                let it = std::iter::from_fn(move || { let i = next.fetch_add(1, Ordering::SeqCst); if i < n && !enough() { Some(i) } else { None } });
                futures_util::stream::iter(it).map(|i| { let j = job.clone(); async move { j(i).await } }).buffer_unordered(width).filter_map(|x| async move { x }).collect::<Vec<T>>().await
            })
        }));
    }
    ths.into_iter().flat_map(|t| t.join().unwrap()).collect()
}
