//! Contexts made of parts, what looks at them, and a runner that serves requests in turns (C12).
use futures::executor::{spawn, Notify, NotifyHandle, Spawn};
use futures::{Async, Future, Poll};
use hyper::service::{MakeService, Service};
use hyper::{Body, Request, Response};
use hyperdrive::service::{AsyncService, SyncService};
use hyperdrive::{BoxedError, DefaultFuture, FromBody, FromRequest, Guard, NoContext, RequestContext};
use serde::Deserialize;
use serde_json::{json, Value};
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

/// What can be made of a text, and shows it.
pub trait Part: Clone + Send + Sync + 'static {
    fn make(tok: &str) -> Self;
    fn tok(&self) -> String;
}
impl Part for NoContext {
    fn make(_: &str) -> Self {
        NoContext
    }
    fn tok(&self) -> String {
        "-".into()
    }
}
impl Part for String {
    fn make(tok: &str) -> Self {
        tok.into()
    }
    fn tok(&self) -> String {
        self.clone()
    }
}
impl Part for u8 {
    fn make(_: &str) -> Self {
        0
    }
    fn tok(&self) -> String {
        "u8".into()
    }
}
impl<T: Send + Sync + 'static> Part for PhantomData<T> {
    fn make(_: &str) -> Self {
        PhantomData
    }
    fn tok(&self) -> String {
        "".into()
    }
}

#[derive(Debug, Clone, RequestContext)]
pub struct Q0(pub String);
#[derive(Debug, Clone, RequestContext)]
pub struct P0 {
    pub tok: String,
}
#[derive(Debug, Clone, RequestContext)]
pub struct P1(pub String, pub u8);
#[derive(Debug, Clone, RequestContext)]
pub enum P2 {
    A(String),
    B { tok: String },
}
/// Has a part of its own, which nobody gets to see who has only the context around it.
#[derive(Debug, Clone, RequestContext)]
pub struct P3 {
    #[as_ref]
    pub q: Q0,
    pub tok: String,
}
#[derive(Debug, Clone, RequestContext)]
pub struct W<T> {
    pub tok: String,
    pub t: T,
}
impl Part for Q0 {
    fn make(tok: &str) -> Self {
        Q0(tok.into())
    }
    fn tok(&self) -> String {
        self.0.clone()
    }
}
impl Part for P0 {
    fn make(tok: &str) -> Self {
        P0 { tok: tok.into() }
    }
    fn tok(&self) -> String {
        self.tok.clone()
    }
}
impl Part for P1 {
    fn make(tok: &str) -> Self {
        P1(tok.into(), 1)
    }
    fn tok(&self) -> String {
        self.0.clone()
    }
}
impl Part for P2 {
    fn make(tok: &str) -> Self {
        if tok.len() % 2 == 0 {
            P2::A(tok.into())
        } else {
            P2::B { tok: tok.into() }
        }
    }
    fn tok(&self) -> String {
        match self {
            P2::A(t) | P2::B { tok: t } => t.clone(),
        }
    }
}
impl Part for P3 {
    fn make(tok: &str) -> Self {
        P3 { q: Q0(format!("{}.q", tok)), tok: tok.into() }
    }
    fn tok(&self) -> String {
        self.tok.clone()
    }
}
impl<T: Part> Part for W<T> {
    fn make(tok: &str) -> Self {
        W { tok: tok.into(), t: T::make(&format!("{}.t", tok)) }
    }
    fn tok(&self) -> String {
        self.tok.clone()
    }
}

// ------------------------------------------------------------- what looks at contexts

struct Notes(Mutex<Vec<String>>);

fn note<C: Part>(r: &Arc<Request<()>>, c: &C) {
    let n = r.extensions().get::<Arc<Notes>>().expect("another request");
    n.0.lock().unwrap().push(c.tok());
}

/// Resolves when it is polled again.
pub struct Linger<T>(Option<T>, bool);
impl<T> Future for Linger<T> {
    type Item = T;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<T, BoxedError> {
        if self.1 {
            self.1 = false;
            futures::task::current().notify();
            return Ok(Async::NotReady);
        }
        Ok(Async::Ready(self.0.take().expect("polled after completion")))
    }
}

pub struct Gd<C>(PhantomData<C>);
pub struct Gq<C>(PhantomData<C>);
pub struct Bd<C>(PhantomData<C>);
pub struct Bq<C>(PhantomData<C>);
impl<C: Part + RequestContext> Guard for Gd<C> {
    type Context = C;
    type Result = Linger<Self>;
    fn from_request(r: &Arc<Request<()>>, c: &C) -> Linger<Self> {
        note(r, c);
        Linger(Some(Gd(PhantomData)), true)
    }
}
impl<C: Part + RequestContext> Guard for Gq<C> {
    type Context = C;
    type Result = Result<Self, BoxedError>;
    fn from_request(r: &Arc<Request<()>>, c: &C) -> Self::Result {
        note(r, c);
        Ok(Gq(PhantomData))
    }
}
impl<C: Part + RequestContext> FromBody for Bd<C> {
    type Context = C;
    type Result = Linger<Self>;
    fn from_body(r: &Arc<Request<()>>, _: Body, c: &C) -> Linger<Self> {
        note(r, c);
        Linger(Some(Bd(PhantomData)), true)
    }
}
impl<C: Part + RequestContext> FromBody for Bq<C> {
    type Context = C;
    type Result = Result<Self, BoxedError>;
    fn from_body(r: &Arc<Request<()>>, _: Body, c: &C) -> Self::Result {
        note(r, c);
        Ok(Bq(PhantomData))
    }
}
/// A router written by hand, which looks at all of its context.
pub struct Hand<C>(PhantomData<C>);
impl<C: Part + RequestContext> FromRequest for Hand<C> {
    type Context = C;
    type Future = DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(r: &Arc<Request<()>>, _: Body, c: C) -> Self::Future {
        note(r, &c);
        Box::new(Linger(Some(Hand(PhantomData)), true))
    }
}

// ------------------------------------------------------------- serving requests in turns

#[derive(Deserialize, Clone, Debug)]
pub struct TurnReq {
    route: usize,
    ctx: usize,
    via: String,
}
#[derive(Deserialize, Clone, Debug)]
pub struct TurnRun {
    pub id: u64,
    pub prog: u64,
    reqs: Vec<TurnReq>,
    steps: Vec<usize>,
}
struct Nobody;
impl Notify for Nobody {
    fn notify(&self, _: usize) {}
}
type Fut = Box<dyn Future<Item = (), Error = BoxedError> + Send>;

type Serve = Box<dyn FnMut(Request<Body>) -> Fut + Send>;

fn answered(r: Response<Body>) -> Result<(), BoxedError> {
    if r.status() == 200 {
        Ok(())
    } else {
        Err(format!("status {}", r.status()).into())
    }
}
fn svc<S>(mut s: S) -> Serve
where
    S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError> + MakeService<u8, Service = S, MakeError = BoxedError, ReqBody = Body, ResBody = Body, Error = BoxedError> + Clone + Send + 'static,
    <S as Service>::Future: Send + 'static,
    <S as MakeService<u8>>::Future: Send + 'static,
{
    let mut n = 0;
    Box::new(move |r| {
        n += 1;
        let mut t = match n % 3 {
            0 => s.make_service(3).wait().map_err(|_| ()).expect("no service was made"),
            1 => return Box::new(s.call(r).and_then(answered)),
            _ => s.clone(),
        };
        Box::new(t.call(r).and_then(answered))
    })
}

fn ctx_tok(n: usize) -> String {
    format!("c{}", n)
}

pub fn run_turns<R, C>(run: &TurnRun) -> Value
where
    R: FromRequest<Context = C> + Send + 'static,
    R::Future: 'static,
    C: Part + RequestContext,
{
    let notes: Vec<Arc<Notes>> = run.reqs.iter().map(|_| Arc::new(Notes(Mutex::default()))).collect();
    let mut svcs: std::collections::HashMap<(String, usize), Serve> = std::collections::HashMap::new();
    let mut futs: Vec<Option<Spawn<Fut>>> = run.reqs.iter().map(|_| None).collect();
    let mut begun: Vec<bool> = run.reqs.iter().map(|_| false).collect();
    let mut out = Vec::new();
    let handle = NotifyHandle::from(Arc::new(Nobody));
    for &r in &run.steps {
        let q = &run.reqs[r - 1];
        let before = notes[r - 1].0.lock().unwrap().len();
        let end = catch_unwind(AssertUnwindSafe(|| -> Option<String> {
            if !begun[r - 1] {
                begun[r - 1] = true;
                let mut req = Request::post(format!("http://host/v{}", q.route)).body(Body::empty()).unwrap();
                req.extensions_mut().insert(notes[r - 1].clone());
                let ctx = || C::make(&ctx_tok(q.ctx));
                let fut: Fut = match q.via.as_str() {
                    "now" => {
                        // (on a thread without an executor)
                        let c = ctx();
                        let end = std::thread::spawn(move || match R::from_request_sync(req, c) {
                            Ok(_) => "ok".into(),
                            Err(e) => format!("err {}", e),
                        });
                        return Some(end.join().unwrap_or_else(|p| format!("panic {}", crate::payload(&*p))));
                    }
                    "request" => Box::new(R::from_request(req, ctx()).map(|_| ())),
                    "parts" => {
                        let (p, b) = req.into_parts();
                        Box::new(R::from_request_and_body(&Arc::new(Request::from_parts(p, ())), b, ctx()).map(|_| ()))
                    }
                    v => {
                        let s = svcs.entry((v.into(), q.ctx)).or_insert_with(|| {
                            match v {
                                "async" => svc(AsyncService::with_context(
                                    |_: R, _| -> DefaultFuture<Response<Body>, BoxedError> { Box::new(futures::future::ok(Response::new(Body::empty()))) },
                                    ctx(),
                                )),
                                "sync" => svc(SyncService::with_context(|_: R, _| Response::new(Body::empty()), ctx())),
                                v => panic!("unknown way {}", v),
                            }
                        });
                        s(req)
                    }
                };
                futs[r - 1] = Some(spawn(fut));
            }
            match futs[r - 1].as_mut().map(|f| f.poll_future_notify(&handle, 0)) {
                None => Some("polled after completion".into()),
                Some(Ok(Async::NotReady)) => None,
                Some(Ok(Async::Ready(()))) => Some("ok".into()),
                Some(Err(e)) => Some(format!("err {}", e)),
            }
        }));
        let end = end.unwrap_or_else(|p| Some(format!("panic {}", crate::payload(&*p))));
        let parts = notes[r - 1].0.lock().unwrap()[before..].to_vec();
        if end.is_some() {
            futs[r - 1] = None;
        }
        out.push(json!({"r": r, "parts": parts, "over": end}));
    }
    json!({"id": run.id, "turns": out})
}

/// What a context shows of a part when it is asked directly.
pub fn look<C: AsRef<T>, T: Part>(c: &C) -> String {
    c.as_ref().tok()
}

pub fn main_turns(pick: fn(u64) -> (fn(&TurnRun) -> Value, fn(&str) -> Vec<String>)) {
    std::panic::set_hook(Box::new(|_| {}));
    crate::watchdog(60);
    let path = std::env::args().nth(1).expect("usage: program RUNS");
    let pool = tokio_threadpool::Builder::new().pool_size(1).max_blocking(4).build();
    let (tx, rx) = std::sync::mpsc::channel();
    pool.spawn(futures::future::lazy(move || {
        use std::io::BufRead;
        for line in std::io::BufReader::new(std::fs::File::open(path).unwrap()).lines() {
            let line = line.unwrap();
            let v: Value = serde_json::from_str(&line).unwrap();
            if v.get("looks").is_some() {
                let id = v["prog"].as_u64().unwrap();
                crate::note_start(id);
                println!("{}", json!({"id": v["id"], "looks": pick(id).1(v["tok"].as_str().unwrap())}));
                continue;
            }
            let r: TurnRun = serde_json::from_str(&line).unwrap();
            crate::note_start(r.id);
            println!("{}", pick(r.prog).0(&r));
        }
        tx.send(()).unwrap();
        Ok(())
    }));
    rx.recv().unwrap();
    std::process::exit(0);
}
