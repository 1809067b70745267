//! Drives routers through their entry points.
use crate::ctx::FromCase;
use crate::obs::*;
use crate::script::*;
use futures::{Future, IntoFuture};
use hyperdrive::{service::AsyncService, service::SyncService, BoxedError, FromRequest};
use hyper::service::Service;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub type RunFn = fn(&Arc<Case>, &str) -> Value;

/// A function that knows nothing of the router but its traits.
fn generic<T>(case: &Case, req: http::Request<hyper::Body>, ctx: T::Context) -> Result<T, BoxedError>
where
    T: FromRequest + Send + 'static,
    T::Context: Send + 'static,
    T::Future: Send,
{
    finish(case, move || T::from_request(req, ctx))
}

/// Waits for a future, on a runtime if the case waits for what only a runtime can do.
fn finish<F>(case: &Case, f: impl FnOnce() -> F + Send + 'static) -> Result<F::Item, F::Error>
where
    F: IntoFuture + 'static,
    F::Future: Send + 'static,
    F::Item: Send + 'static,
    F::Error: Send + 'static,
{
    match case.spec.wait.as_str() {
        "timer" | "spawn" => RUNTIME.with(|rt| rt.borrow_mut().block_on(futures::future::lazy(f))),
        _ => f().into_future().wait(),
    }
}

fn decode<R>(case: &Arc<Case>, mode: &str, req: http::Request<hyper::Body>) -> Value
where
    R: FromRequest + Obs + Send + 'static,
    R::Context: FromCase,
    R::Future: Send + 'static,
{
    let ctx = R::Context::from_case(&case.spec);
    match mode {
        "async" => obs_result(&finish(case, move || R::from_request(req, ctx))),
        "sync" => obs_result(&R::from_request_sync(req, ctx)),
        "body" => {
            let (parts, body) = req.into_parts();
            let req = Arc::new(http::Request::from_parts(parts, ()));
            obs_result(&finish(case, move || {
                let fut = R::from_request_and_body(&req, body, ctx).into_future();
                drop(req);
                fut
            }))
        }
        "generic" => obs_result(&generic::<R>(case, req, ctx)),
        "service" | "blocking service" => {
            let seen = Arc::new(Mutex::new(None));
            let seen2 = seen.clone();
            let case2 = case.clone();
            let note = move |r: R, req: Arc<http::Request<()>>| {
                let mut v = obs_result(&Ok(r));
                if let Err(e) = case2.check_request(&req) {
                    v = res("handler saw another request", &e, 0, vec![], "");
                }
                if seen2.lock().unwrap().replace(v).is_some() {
                    panic!("handler called twice");
                }
                hyper::Response::builder().status(299).body(hyper::Body::from("answer")).unwrap()
            };
            let answer = if mode == "service" {
                let mut svc = AsyncService::with_context(
                    move |r: R, req: Arc<http::Request<()>>| futures::future::ok::<_, BoxedError>(note(r, req)),
                    ctx,
                );
                finish(case, move || svc.call(req))
            } else {
                let mut svc = SyncService::with_context(note, ctx);
                futures::sync::oneshot::spawn(futures::future::lazy(move || svc.call(req)), &BlockingPool(case.spec.wait != "")).wait()
            };
            let seen = seen.lock().unwrap().take();
            match (answer, seen) {
                (Ok(r), Some(v)) => {
                    if r.status().as_u16() != 299 {
                        res("answer is not the handler's", &r.status().to_string(), 0, vec![], "")
                    } else {
                        v
                    }
                }
                // Only the status and allowed methods of a library error are left in a response
                (Ok(r), None) => res("lib", "", r.status().as_u16(), allow_header(&r).unwrap_or_default(), "*"),
                (Err(e), None) => obs_error(&e),
                (Err(e), Some(_)) => res("error after the handler", &e.to_string(), 0, vec![], ""),
            }
        }
        m => panic!("unknown mode {}", m),
    }
}

/// Spawns onto a shared tokio thread pool.
struct BlockingPool(bool);
impl<F: Future<Item = (), Error = ()> + Send + 'static> futures::future::Executor<F> for BlockingPool {
    fn execute(&self, f: F) -> Result<(), futures::future::ExecuteError<F>> {
        if self.0 {
            RUNTIME.with(|rt| {
                rt.borrow_mut().spawn(f);
            });
        } else {
            POOL.with(|p| p.spawn(f));
        }
        Ok(())
    }
}
thread_local! {
    // (never dropped)
    static RUNTIME: &'static std::cell::RefCell<tokio::runtime::Runtime> = Box::leak(Box::new(
        std::cell::RefCell::new(tokio::runtime::Builder::new().core_threads(1).blocking_threads(4).build().unwrap())));
    static POOL: tokio_threadpool::ThreadPool =
        tokio_threadpool::Builder::new().pool_size(1).max_blocking(4).build();
}

pub fn run<R>(case: &Arc<Case>, mode: &str) -> Value
where
    R: FromRequest + Obs + Send + 'static,
    R::Context: FromCase,
    R::Future: Send + 'static,
{
    let req = match case.request() {
        Some(r) => r,
        None => return res("no such request", "", 0, vec![], ""),
    };
    match catch_unwind(AssertUnwindSafe(|| decode::<R>(case, mode, req))) {
        Ok(v) => v,
        Err(p) => res("panic", &payload(&*p), 0, vec![], ""),
    }
}

static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);
static STARTED: AtomicU64 = AtomicU64::new(0);

/// Ends the process with a report if one case takes too long.
pub fn watchdog(limit_s: u64) {
    std::thread::spawn(move || {
        let mut last = 0;
        let mut since = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let s = STARTED.load(Ordering::SeqCst);
            if s != last {
                last = s;
                since = std::time::Instant::now();
            } else if s != 0 && since.elapsed().as_secs() >= limit_s {
                let id = CURRENT.load(Ordering::SeqCst);
                println!("{}", json!({"case": id, "hang": true}));
                std::io::stdout().flush().ok();
                std::process::exit(3);
            }
        }
    });
}

pub fn note_start(id: u64) {
    CURRENT.store(id, Ordering::SeqCst);
    STARTED.fetch_add(1, Ordering::SeqCst);
}

/// Whether the body of a request is still around after the request. A thread pool may be about to drop what it ran.
fn body_kept(case: &Case) -> bool {
    static KEPT: AtomicU64 = AtomicU64::new(0);
    let patience = if KEPT.load(Ordering::SeqCst) < 2 { 5000 } else { 20 };
    let since = std::time::Instant::now();
    while !case.body_gone.load(Ordering::SeqCst) {
        if since.elapsed().as_millis() >= patience {
            KEPT.fetch_add(1, Ordering::SeqCst);
            return true;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    false
}

/// Reads cases (one JSON object with `modes` and a case per line), prints what happened.
pub fn main_loop(routers: &[(&str, RunFn)]) {
    std::panic::set_hook(Box::new(|_| {}));
    watchdog(30);
    let path = std::env::args().nth(1).expect("usage: shard CASES");
    let file = std::io::BufReader::new(std::fs::File::open(path).unwrap());
    let out = std::io::stdout();
    for line in file.lines() {
        let line = line.unwrap();
        let v: Value = serde_json::from_str(&line).unwrap();
        let spec: CaseSpec = serde_json::from_value(v["case"].clone()).unwrap();
        let f = match routers.iter().find(|(n, _)| *n == spec.router) {
            Some((_, f)) => f,
            None => continue,
        };
        for mode in v["modes"].as_array().unwrap() {
            let mode = mode.as_str().unwrap();
            let case = Case::new(spec.clone());
            note_start(spec.id);
            let r = f(&case, mode);
            let kept = r["k"] != "no such request" && body_kept(&case);
            let mut o = out.lock();
            writeln!(o, "{}", json!({"case": spec.id, "mode": mode, "res": r, "log": case.take_log(), "kept": kept})).unwrap();
        }
    }
}
