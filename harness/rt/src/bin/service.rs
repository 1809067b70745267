//! Replays schedules of requests on stacks of services.
//!
//! usage: service SCENARIOS; each line: {"id", "mode": "step" | "pool", "base", "layers", "ready", "insts", "reqs", "steps"}
use futures::executor::{spawn, Notify, NotifyHandle, Spawn};
use futures::{Async, Future, Poll, Stream};
use hyper::service::{MakeService, Service};
use hyper::{Body, Request, Response};
use hyperdrive::service::{AsyncService, ServiceExt, SyncService};
use hyperdrive::{BoxedError, DefaultFuture, FromBody, FromRequest, Guard, RequestContext};
use serde::Deserialize;
use serde_json::{json, Value};
use std::any::Any;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use vrt::{allow_header, method, name_error};

// ------------------------------------------------------------------ scenarios

#[derive(Deserialize, Clone, Debug, Default)]
struct Stage {
    #[serde(default)]
    has: bool,
    gate: bool,
    out: String,
    #[serde(default)]
    status: u16,
    #[serde(default)]
    allow: String,
}

#[derive(Deserialize, Clone, Debug)]
struct Plan {
    inst: usize,
    route: String,
    method: String,
    target: String,
    guard: Stage,
    body: Stage,
    hand: Stage,
    ph: Vec<Stage>,
    resp: String,
    payload: String,
    // what the response looks like
    status: u16,
    version: u8,
    headers: Vec<(String, String)>,
    chunks: usize,
    // what else the request carries
    reqv: usize,
    reqh: Vec<(String, String)>,
    // over a connection: whether the client asks to close it, whether the body comes in chunks (see also spec/Server.tla)
    #[serde(default)]
    close: bool,
    #[serde(default)]
    chunked: bool,
    /// whether a body is sent that nobody wants
    #[serde(default)]
    sends: bool,
    /// how much longer the bodies are
    #[serde(default)]
    pad: usize,
    #[serde(default)]
    grow: usize,
}

#[derive(Deserialize, Clone, Debug)]
struct InstSpec {
    how: String,
    from: usize,
}

#[derive(Deserialize, Clone, Debug)]
struct Act {
    a: String,
    i: usize,
    #[serde(default)]
    r: String,
    #[serde(default)]
    n: usize,
    #[serde(default)]
    now: Now,
}

/// How things stand before the clients do something.
#[derive(Deserialize, Clone, Debug, Default)]
struct Now {
    calls: Vec<usize>,
    ans: Vec<String>,
    st: Vec<String>,
}

#[derive(Deserialize, Clone, Debug)]
struct Scenario {
    id: u64,
    mode: String,
    base: String,
    layers: usize,
    ready: Vec<String>,
    #[serde(default)]
    insts: Vec<InstSpec>,
    #[serde(default)]
    conns: usize,
    reqs: Vec<Plan>,
    #[serde(default)]
    steps: Vec<Act>,
}

/// One request under way.
struct Req {
    i: usize,
    plan: Plan,
    scn: usize,
    wire: bool,
    world: Arc<World>,
    state: Mutex<ReqState>,
    changed: Condvar,
}
#[derive(Default)]
struct ReqState {
    log: Vec<String>,
    opened: usize,
    passed: usize,
    task: Option<futures::task::Task>,
    answer: Option<String>,
    called: bool,
    turns: Turns,
    sent: bool,
    ended: Option<String>,
}
/// The steps of user code, when each has to wait for its turn.
#[derive(Default)]
struct Turns {
    on: bool,
    arrived: usize,
    granted: usize,
    taken: usize,
    parked: bool,
    routed: bool,
}

/// What happens in a scenario.
#[derive(Default)]
struct World {
    stray: Mutex<Vec<String>>,
    order: Mutex<Vec<(usize, String)>>,
    reqs: Mutex<Vec<std::sync::Weak<Req>>>,
}

#[derive(Clone)]
struct ReqRef(Arc<Req>);
#[derive(Clone, PartialEq)]
struct Marker(usize);

impl Req {
    fn log(&self, e: &str) {
        self.world.order.lock().unwrap().push((self.i, e.into()));
        self.state.lock().unwrap().log.push(e.into());
        self.changed.notify_all();
    }
    /// User code is about to take a step.
    fn turn(&self) {
        let mut s = self.state.lock().unwrap();
        if !s.turns.on {
            return;
        }
        s.turns.arrived += 1;
        self.changed.notify_all();
        while s.turns.taken >= s.turns.granted {
            s = self.changed.wait(s).unwrap();
        }
        s.turns.taken += 1;
    }
    /// The first conversion stands for all that routing does.
    fn turn_route(&self) {
        let mut s = self.state.lock().unwrap();
        let first = !s.turns.routed;
        s.turns.routed = true;
        drop(s);
        if first {
            self.turn();
        }
    }
    fn body_text(&self) -> String {
        format!("body{}{}", self.i, "x".repeat(self.plan.pad))
    }
    fn resp_text(&self) -> String {
        format!("{}{}", self.plan.resp, "y".repeat(self.plan.grow))
    }
    fn len(&self) -> usize {
        self.state.lock().unwrap().log.len()
    }
    fn request(self: &Arc<Self>) -> Request<Body> {
        let mut b = Request::builder();
        b.method(method(&self.plan.method)).uri(self.plan.target.as_str()).version(VERSIONS[self.plan.reqv]);
        b.extension(ReqRef(self.clone())).extension(Marker(self.i));
        let mut r = b.body(Body::from(self.body_text())).unwrap();
        *r.headers_mut() = self.headers();
        r
    }
    fn headers(&self) -> http::HeaderMap {
        let i = self.i.to_string();
        let fixed = [("x-i", i.as_str()), ("x-twice", "1"), ("x-twice", "2")];
        let other = self.plan.reqh.iter().map(|(k, v)| (k.as_str(), v.as_str()));
        fixed
            .iter()
            .cloned()
            .chain(other)
            .map(|(k, v)| (k.parse::<http::header::HeaderName>().unwrap(), v.parse::<http::header::HeaderValue>().unwrap()))
            .fold(http::HeaderMap::new(), |mut m, (k, v)| {
                m.append(k, v);
                m
            })
    }
    /// Whether this is the request.
    fn is<T>(&self, r: &Request<T>) -> bool {
        r.method() == method(&self.plan.method)
            && r.uri().to_string() == self.plan.target
            && r.version() == VERSIONS[self.plan.reqv]
            && if self.wire { &without(r.headers(), &FRAMING) == &self.headers() } else { *r.headers() == self.headers() }
            && r.extensions().get::<Marker>() == Some(&Marker(self.i))
    }
    fn response(&self, by: &str) -> Response<Body> {
        let p = &self.plan;
        let mut b = Response::builder();
        b.status(p.status).header("x-by", by);
        if !self.wire {
            b.version(VERSIONS[p.version as usize % 3]);
        }
        for (k, v) in &p.headers {
            b.header(k.as_str(), v.as_str());
        }
        b.extension(Marker(self.i));
        let body = if p.chunks == 0 {
            Body::from(self.resp_text())
        } else {
            let text = self.resp_text();
            let bytes = text.as_bytes();
            let parts: Vec<Vec<u8>> = bytes.chunks(std::cmp::max(1, bytes.len() / p.chunks)).map(|c| c.to_vec()).collect();
            Body::wrap_stream(futures::stream::iter_ok::<_, BoxedError>(parts))
        };
        b.body(body).unwrap()
    }
    fn describe(&self, r: Result<Response<Body>, BoxedError>) -> String {
        match r {
            Ok(r) => {
                let by = r.headers().get("x-by").map(|v| v.to_str().unwrap().to_string());
                let (parts, body) = r.into_parts();
                let length = hyper::body::Payload::content_length(&body);
                let text = match body.concat2().wait() {
                    Ok(b) => String::from_utf8_lossy(&b).into_owned(),
                    Err(e) => format!("broken body {}", e),
                };
                match by {
                    Some(by) => {
                        let (want, wanted) = self.response(&by).into_parts();
                        let length_kept = length == hyper::body::Payload::content_length(&wanted);
                        if !(length_kept || self.plan.method == "HEAD") {
                            format!("{}, body now of length {:?}: {}", by, length, text)
                        } else if parts.status == want.status
                            && parts.version == want.version
                            && parts.headers == want.headers
                            && parts.extensions.get::<Marker>() == Some(&Marker(self.i))
                        {
                            format!("{}:{}", by, text)
                        } else {
                            format!("{}, changed to {:?}: {}", by, parts, text)
                        }
                    }
                    None => {
                        let r = Response::from_parts(parts, ());
                        let more: Vec<_> = r.headers().keys().filter(|k| *k != http::header::ALLOW).collect();
                        if !more.is_empty() {
                            return format!("lib {} with {:?}:{}", r.status().as_u16(), more, text);
                        }
                        match allow_header(&r) {
                            Some(mut a) => {
                                a.sort();
                                format!("lib {} allow={}:{}", r.status().as_u16(), a.join(","), text)
                            }
                            None => format!("lib {}:{}", r.status().as_u16(), text),
                        }
                    }
                }
            }
            Err(e) => {
                let own = |t: &Tag, out: &str| {
                    if t.i == self.i {
                        format!("error {} {}", t.at, out)
                    } else {
                        format!("error of request {}", t.i)
                    }
                };
                if let Some(t) = e.downcast_ref::<Tag>() {
                    own(t, "other")
                } else if let Some(w) = e.downcast_ref::<Wrapped>() {
                    own(&w.0, "wrapped")
                } else if let Some(l) = e.downcast_ref::<hyperdrive::Error>() {
                    match l.source().and_then(|s| s.downcast_ref::<Tag>()) {
                        Some(t) => own(t, "lib"),
                        None => format!("error lib {} without cause", l.http_status().as_u16()),
                    }
                } else if e.downcast_ref::<hyper::Error>().is_some() {
                    "error transport".into()
                } else {
                    format!("unknown error {}", name_error(&*e))
                }
            }
        }
    }
    fn finish(&self, answer: String) {
        self.state.lock().unwrap().answer = Some(answer);
        self.changed.notify_all();
    }
    fn open(&self) {
        let mut s = self.state.lock().unwrap();
        s.opened += 1;
        s.turns.parked = false;
        if let Some(t) = s.task.take() {
            t.notify();
        }
        self.changed.notify_all();
    }
}

/// What carries a message over a connection.
const FRAMING: [&str; 4] = ["host", "connection", "content-length", "transfer-encoding"];
fn without(h: &http::HeaderMap, names: &[&str]) -> http::HeaderMap {
    let mut h = h.clone();
    for n in names {
        h.remove(*n);
    }
    h
}

const VERSIONS: [http::Version; 4] = [http::Version::HTTP_11, http::Version::HTTP_10, http::Version::HTTP_2, http::Version::HTTP_09];

fn req_of(r: &Request<()>) -> Arc<Req> {
    let req = r.extensions().get::<ReqRef>().expect("a request without its extensions").0.clone();
    if !req.is(r) {
        req.log(&format!("another request: {:?}", r));
    }
    req
}

thread_local!(static CURRENT: std::cell::RefCell<Option<Arc<Req>>> = Default::default());
/// The request this thread works for (only where requests take turns).
fn current() -> Option<Arc<Req>> {
    CURRENT.with(|c| c.borrow().clone())
}
fn working_for<T>(r: &Arc<Req>, f: impl FnOnce() -> T) -> T {
    if !r.state.lock().unwrap().turns.on {
        return f();
    }
    CURRENT.with(|c| *c.borrow_mut() = Some(r.clone()));
    let v = f();
    CURRENT.with(|c| *c.borrow_mut() = None);
    v
}

// ------------------------------------------------------------------ user code

/// Names the request and the place of an error or panic.
#[derive(Debug, Clone)]
struct Tag {
    i: usize,
    at: String,
}
impl std::fmt::Display for Tag {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}|{}", self.i, self.at)
    }
}
impl std::error::Error for Tag {}
#[derive(Debug)]
struct Wrapped(Tag, hyperdrive::Error);
impl std::fmt::Display for Wrapped {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}: {}", self.0, self.1)
    }
}
impl std::error::Error for Wrapped {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.1)
    }
}

fn boom(i: usize, at: &str, kind: &str) -> ! {
    let t = Tag { i, at: at.into() };
    match kind {
        "str" => panic_any(&*Box::leak(format!(" {}\n", t).into_boxed_str())),
        "string" => panic_any(format!(" {}\n", t)),
        "any" => panic_any(t),
        "number" => {
            let mut n = NUMBERED.lock().unwrap_or_else(|e| e.into_inner());
            n.push(t);
            let k = n.len() as u32 - 1;
            drop(n);
            panic_any(k)
        }
        "boxed" => panic_any(BoxedError::from(t)),
        "error" => panic_any(hyperdrive::Error::with_source(http::StatusCode::IM_A_TEAPOT, t)),
        k => panic!("unknown kind of payload {}", k),
    }
}

/// What the numbers mean that are used as payloads.
static NUMBERED: Mutex<Vec<Tag>> = Mutex::new(Vec::new());

/// What a payload is: its tag and how it was given.
fn payload(p: &(dyn Any + Send)) -> Option<(Tag, &'static str)> {
    let parse = |s: &str| {
        let mut it = s.strip_prefix(' ')?.strip_suffix('\n')?.splitn(2, '|');
        Some(Tag { i: it.next()?.parse().ok()?, at: it.next()?.into() })
    };
    if let Some(s) = p.downcast_ref::<&'static str>() {
        parse(s).map(|t| (t, "str"))
    } else if let Some(s) = p.downcast_ref::<String>() {
        parse(s).map(|t| (t, "string"))
    } else if let Some(t) = p.downcast_ref::<Tag>() {
        Some((t.clone(), "any"))
    } else if let Some(n) = p.downcast_ref::<u32>() {
        NUMBERED.lock().unwrap_or_else(|e| e.into_inner()).get(*n as usize).map(|t| (t.clone(), "number"))
    } else if let Some(e) = p.downcast_ref::<BoxedError>() {
        e.downcast_ref::<Tag>().map(|t| (t.clone(), "boxed"))
    } else if let Some(e) = p.downcast_ref::<hyperdrive::Error>() {
        e.source().and_then(|s| s.downcast_ref::<Tag>()).map(|t| (t.clone(), "error"))
    } else {
        None
    }
}

/// A step of user code: waits for its gate, then comes to what the plan says.
struct Step {
    req: Arc<Req>,
    at: String,
    stage: Stage,
    through: bool,
}
impl Step {
    fn new(req: &Arc<Req>, at: &str, stage: &Stage) -> Self {
        if stage.out == "boom0" {
            boom(req.i, at, &req.plan.payload);
        }
        Step { req: req.clone(), at: at.into(), stage: stage.clone(), through: !stage.gate }
    }
    fn result(&self) -> Result<(), BoxedError> {
        let req = &self.req;
        let tag = Tag { i: req.i, at: self.at.clone() };
        req.turn();
        if self.stage.out == "boom" {
            boom(req.i, &self.at, &req.plan.payload);
        }
        req.log(&format!("{}{}", self.at, if self.stage.out == "ok" { "+" } else { "-" }));
        let lib = |tag: Tag| {
            if self.stage.status == 405 && !self.stage.allow.is_empty() {
                hyperdrive::Error::wrong_method(self.stage.allow.split(',').map(|m| method(m)).collect::<Vec<_>>())
            } else {
                hyperdrive::Error::with_source(http::StatusCode::from_u16(self.stage.status).unwrap(), tag)
            }
        };
        match self.stage.out.as_str() {
            "ok" => Ok(()),
            "lib" => Err(lib(tag).into()),
            "other" => Err(tag.into()),
            "wrapped" => Err(Wrapped(tag.clone(), lib(tag)).into()),
            o => panic!("unknown outcome {}", o),
        }
    }
    /// For synchronous code.
    fn block(mut self) -> Result<(), BoxedError> {
        if !self.through {
            let mut s = self.req.state.lock().unwrap();
            while s.passed >= s.opened {
                s.turns.parked = true;
                self.req.changed.notify_all();
                s = self.req.changed.wait(s).unwrap();
            }
            s.passed += 1;
        }
        self.through = true;
        self.result()
    }
}
impl Future for Step {
    type Item = ();
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<(), BoxedError> {
        if !self.through {
            let mut s = self.req.state.lock().unwrap();
            if s.passed >= s.opened {
                s.task = Some(futures::task::current());
                s.turns.parked = true;
                self.req.changed.notify_all();
                return Ok(Async::NotReady);
            }
            s.passed += 1;
            self.through = true;
        }
        self.result().map(Async::Ready)
    }
}

#[derive(RequestContext)]
struct SCtx {
    id: String,
    count: AtomicUsize,
}
impl Clone for SCtx {
    fn clone(&self) -> Self {
        SCtx { id: self.id.clone(), count: AtomicUsize::new(self.count.load(Ordering::SeqCst)) }
    }
}

#[derive(Debug)]
struct Seg(String);
impl std::str::FromStr for Seg {
    type Err = Tag;
    fn from_str(s: &str) -> Result<Self, Tag> {
        if let Some(r) = current() {
            r.turn_route();
        }
        if s.starts_with("boom") {
            let mut it = s.split('-');
            it.next();
            let i = it.next().unwrap().parse().unwrap();
            boom(i, "route", it.next().unwrap());
        }
        if s.starts_with("ok") {
            Ok(Seg(s.into()))
        } else {
            Err(Tag { i: 0, at: s.into() })
        }
    }
}

#[derive(Debug)]
struct Q;
impl<'de> Deserialize<'de> for Q {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let m = std::collections::BTreeMap::<String, String>::deserialize(d)?;
        if let Some(r) = current() {
            r.turn();
        }
        if let Some(b) = m.get("boom") {
            let mut it = b.split('-');
            boom(it.next().unwrap().parse().unwrap(), "route", it.next().unwrap());
        }
        Ok(Q)
    }
}

#[derive(Debug)]
struct SGuard(usize);
impl Guard for SGuard {
    type Context = SCtx;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_request(r: &Arc<Request<()>>, ctx: &SCtx) -> Self::Result {
        let req = req_of(r);
        req.turn();
        let n = ctx.count.fetch_add(1, Ordering::SeqCst) + 1;
        if ctx.id != format!("ctx{}", req.scn) || n != 1 {
            req.log(&format!("guard with the context {} used {} times", ctx.id, n));
        }
        req.log("guard");
        let i = req.i;
        Box::new(Step::new(&req, "guard", &req.plan.guard).map(move |()| SGuard(i)))
    }
}

#[derive(Debug)]
struct SBody(usize, String);
impl FromBody for SBody {
    type Context = SCtx;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_body(r: &Arc<Request<()>>, body: Body, ctx: &SCtx) -> Self::Result {
        let req = req_of(r);
        req.turn();
        if ctx.id != format!("ctx{}", req.scn) {
            req.log(&format!("body with the context {}", ctx.id));
        }
        req.log("body");
        let i = req.i;
        let step = Step::new(&req, "body", &req.plan.body);
        Box::new(body.concat2().map_err(BoxedError::from).and_then(move |text| {
            let text = String::from_utf8_lossy(&text).into_owned();
            step.map(move |()| SBody(i, text))
        }))
    }
}

#[derive(FromRequest, Debug)]
#[context(SCtx)]
enum Route {
    #[get("/p/{x}")]
    #[post("/p/{x}")]
    #[delete("/p/{x}")]
    #[connect("/p/{x}")]
    #[options("/p/{x}")]
    #[trace("/p/{x}")]
    #[put("/p/{x}")]
    P { x: Seg, g: SGuard },

    #[get("/b/{x}")]
    #[post("/b/{x}")]
    #[patch("/b/{x}")]
    #[connect("/b/{x}")]
    #[put("/b/{x}")]
    B {
        x: Seg,
        #[query_params]
        _q: Q,
        g: SGuard,
        #[body]
        b: SBody,
    },
}

/// A conversion of the user's own around a derived one: takes any method below `/any`.
#[derive(Debug)]
enum Top {
    Any(String, SGuard, Option<SBody>),
    Route(Route),
}
impl FromRequest for Top {
    type Context = SCtx;
    type Future = DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(r: &Arc<Request<()>>, body: Body, ctx: SCtx) -> Self::Future {
        let at = match r.uri().path().strip_prefix("/any/") {
            None => return Box::new(Route::from_request_and_body(r, body, ctx).map(Top::Route)),
            Some(at) => at.to_string(),
        };
        let req = req_of(r);
        req.turn_route();
        if req.plan.body.has {
            req.turn();
        }
        if req.plan.route == "boom" {
            boom(req.i, "route", &req.plan.payload);
        }
        let r = r.clone();
        let guard = SGuard::from_request(&r, &ctx);
        Box::new(guard.and_then(move |g| -> DefaultFuture<Top, BoxedError> {
            if req.plan.body.has {
                Box::new(SBody::from_body(&r, body, &ctx).map(move |b| Top::Any(at, g, Some(b))))
            } else {
                Box::new(futures::future::ok(Top::Any(at, g, None)))
            }
        }))
    }
}

fn check_value(req: &Req, v: &Top) {
    let want = format!("ok{}", req.i);
    let text = req.body_text();
    let good = match v {
        Top::Any(x, g, b) => {
            *x == want && g.0 == req.i && b.is_some() == req.plan.body.has && b.iter().all(|b| b.0 == req.i && b.1 == text)
        }
        Top::Route(Route::P { x, g }) => !req.plan.body.has && x.0 == want && g.0 == req.i,
        Top::Route(Route::B { x, g, b, .. }) => req.plan.body.has && x.0 == want && g.0 == req.i && b.0 == req.i && b.1 == text,
    };
    if !good {
        req.log(&format!("handler with {:?}", v));
    }
}

fn handle(v: Top, r: Arc<Request<()>>) -> DefaultFuture<Response<Body>, BoxedError> {
    let req = req_of(&r);
    req.turn();
    check_value(&req, &v);
    req.log("handler");
    let step = Step::new(&req, "handler", &req.plan.hand);
    Box::new(step.map(move |()| req.response("handler")))
}

fn handle_sync(v: Top, r: Arc<Request<()>>) -> Response<Body> {
    let req = req_of(&r);
    req.turn();
    check_value(&req, &v);
    req.log("handler");
    Step::new(&req, "handler", &req.plan.hand).block().expect("a synchronous handler cannot fail");
    req.response("handler")
}

fn panic_handler(world: &Arc<World>, layer: usize, p: Box<dyn Any + Send>) -> DefaultFuture<Response<Body>, BoxedError> {
    let name = format!("ph{}", layer);
    let known = payload(&*p).and_then(|(t, kind)| {
        let reqs = world.reqs.lock().unwrap();
        let req = reqs.get(t.i - 1)?.upgrade()?;
        Some((req, t, kind))
    });
    match known {
        None => {
            world.stray.lock().unwrap().push(format!("{} got an unknown payload", name));
            Box::new(futures::future::err(Tag { i: 0, at: name }.into()))
        }
        Some((req, t, kind)) => {
            req.turn();
            req.log(&format!("{} {} {}", name, t.at, kind));
            let stage = req.plan.ph[layer - 1].clone();
            let step = Step::new(&req, &name, &stage);
            Box::new(step.map(move |()| req.response(&name)))
        }
    }
}

/// A service of the user's own.
struct Custom {
    script: Vec<String>,
    asked: usize,
    ready: bool,
    calls: usize,
    /// Is not a clone.
    original: bool,
}
impl Clone for Custom {
    fn clone(&self) -> Self {
        Custom { script: self.script.clone(), asked: self.asked, ready: self.ready, calls: self.calls, original: false }
    }
}
impl Service for Custom {
    type ReqBody = Body;
    type ResBody = Body;
    type Error = BoxedError;
    type Future = DefaultFuture<Response<Body>, BoxedError>;
    fn poll_ready(&mut self) -> Poll<(), BoxedError> {
        if self.original {
            return Err("the original is used as one of its clones".into());
        }
        let r = self.script.get(self.asked).map(|s| s.as_str()).unwrap_or("yes");
        self.asked += 1;
        match r {
            "yes" => {
                self.ready = true;
                Ok(Async::Ready(()))
            }
            "no" => {
                futures::task::current().notify();
                Ok(Async::NotReady)
            }
            "lib" => Err(hyperdrive::Error::from_status(http::StatusCode::SERVICE_UNAVAILABLE).into()),
            _ => Err(Tag { i: 0, at: "not ready".into() }.into()),
        }
    }
    fn call(&mut self, r: Request<Body>) -> Self::Future {
        let (parts, body) = r.into_parts();
        let req = req_of(&Request::from_parts(parts, ()));
        self.calls += 1;
        if self.original {
            req.log("the original is used as one of its clones");
        }
        if !self.ready {
            req.log("called before it was ready");
        }
        self.ready = false;
        req.log(&format!("call {}", self.calls));
        let step = Step::new(&req, "handler", &req.plan.hand);
        Box::new(body.concat2().map_err(BoxedError::from).and_then(move |text| {
            if text.as_ref() != req.body_text().as_bytes() {
                req.log("another body");
            }
            step.map(move |()| req.response("handler"))
        }))
    }
}

// ------------------------------------------------------------------ stacks

trait Svc: Send {
    fn ready(&mut self) -> Poll<(), BoxedError>;
    fn call(&mut self, r: Request<Body>) -> DefaultFuture<Response<Body>, BoxedError>;
    fn clone_box(&self) -> Box<dyn Svc>;
}
impl<S> Svc for S
where
    S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError> + Clone + Send + 'static,
    S::Future: Send + 'static,
{
    fn ready(&mut self) -> Poll<(), BoxedError> {
        self.poll_ready()
    }
    fn call(&mut self, r: Request<Body>) -> DefaultFuture<Response<Body>, BoxedError> {
        Box::new(Service::call(self, r))
    }
    fn clone_box(&self) -> Box<dyn Svc> {
        Box::new(self.clone())
    }
}

/// A service, and what makes services of its kind.
type Made = (Box<dyn Svc>, Box<dyn FnMut() -> Box<dyn Svc> + Send>);

fn by_cloning<S>(s: S) -> Made
where
    S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError> + Clone + Send + 'static,
    S::Future: Send + 'static,
{
    // (the maker gets the original)
    let first = s.clone();
    let mut f = s.make_service_by_cloning();
    (Box::new(first), Box::new(move || Box::new(f.make_service(()).wait().map_err(|_| ()).expect("no service was made")) as Box<dyn Svc>))
}

fn by_itself<S>(s: S) -> Made
where
    S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError> + MakeService<u8, Service = S, MakeError = BoxedError, ReqBody = Body, ResBody = Body, Error = BoxedError> + Clone + Send + 'static,
    <S as Service>::Future: Send + 'static,
    <S as MakeService<u8>>::Future: Send + 'static,
{
    let mut f = s.clone();
    (Box::new(s), Box::new(move || Box::new(f.make_service(7).wait().map_err(|_| ()).expect("no service was made")) as Box<dyn Svc>))
}

fn layered<S>(s: S, layers: usize, world: &Arc<World>) -> Made
where
    S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError> + Clone + Send + Sync + 'static,
    S::Future: Send + 'static,
{
    let (a, b) = (world.clone(), world.clone());
    match layers {
        0 => by_cloning(s),
        1 => by_cloning(s.catch_unwind(move |p| panic_handler(&a, 1, p))),
        2 => by_cloning(s.catch_unwind(move |p| panic_handler(&a, 1, p)).catch_unwind(move |p| panic_handler(&b, 2, p))),
        n => panic!("{} layers", n),
    }
}

fn stack(s: &Scenario, world: &Arc<World>) -> Made {
    let ctx = SCtx { id: format!("ctx{}", s.id), count: AtomicUsize::new(0) };
    match s.base.as_str() {
        "async" => {
            let svc = AsyncService::with_context(handle, ctx);
            if s.layers == 0 && s.id % 2 == 0 {
                by_itself(svc)
            } else {
                layered(svc, s.layers, world)
            }
        }
        "sync" => {
            let svc = SyncService::with_context(handle_sync, ctx);
            if s.layers == 0 && s.id % 2 == 0 {
                by_itself(svc)
            } else {
                layered(svc, s.layers, world)
            }
        }
        "custom" => layered(Custom { script: s.ready.clone(), asked: 0, ready: false, calls: 0, original: true }, s.layers, world),
        b => panic!("unknown base {}", b),
    }
}

// ------------------------------------------------------------------ replay

struct Wakes(Vec<AtomicBool>);
impl Notify for Wakes {
    fn notify(&self, id: usize) {
        self.0[id].store(true, Ordering::SeqCst);
    }
}

type Fut = DefaultFuture<Response<Body>, BoxedError>;

fn crash(req: &Req, p: Box<dyn Any + Send>) -> String {
    match payload(&*p) {
        Some((t, kind)) if t.i == req.i && kind == req.plan.payload => format!("crash {}", t.at),
        Some((t, kind)) => format!("crash of request {} at {} with a {}", t.i, t.at, kind),
        None => format!("crash {}", vrt::payload(&*p)),
    }
}

struct Setup {
    reqs: Vec<Arc<Req>>,
    world: Arc<World>,
    insts: Vec<Option<Box<dyn Svc>>>,
    first: Option<Box<dyn Svc>>,
    make: Box<dyn FnMut() -> Box<dyn Svc> + Send>,
}

fn setup(s: &Scenario) -> Setup {
    let world = Arc::new(World::default());
    let reqs: Vec<Arc<Req>> = s
        .reqs
        .iter()
        .enumerate()
        .map(|(k, p)| {
            Arc::new(Req {
                i: k + 1,
                plan: p.clone(),
                scn: s.id as usize,
                wire: s.mode.starts_with("wire"),
                world: world.clone(),
                state: Mutex::default(),
                changed: Condvar::new(),
            })
        })
        .collect();
    *world.reqs.lock().unwrap() = reqs.iter().map(Arc::downgrade).collect();
    let (first, make) = stack(s, &world);
    Setup { reqs, world, insts: s.insts.iter().map(|_| None).collect(), first: Some(first), make }
}

fn create(s: &Scenario, w: &mut Setup, j: usize) {
    let how = &s.insts[j - 1];
    let svc = match how.how.as_str() {
        "orig" => w.first.take().expect("the original is used up"),
        "make" => (w.make)(),
        "clone" => w.insts[how.from - 1].as_ref().unwrap().clone_box(),
        h => panic!("unknown way to create a service: {}", h),
    };
    w.insts[j - 1] = Some(svc);
}

fn ask(svc: &mut Box<dyn Svc>) -> &'static str {
    let wakes = Arc::new(Wakes(vec![AtomicBool::new(false)]));
    let mut f = spawn(futures::future::poll_fn(move || Ok::<_, ()>(Async::Ready(svc.ready()))));
    let r = f.poll_future_notify(&NotifyHandle::from(wakes.clone()), 0);
    match r {
        Ok(Async::Ready(Ok(Async::Ready(())))) => "yes",
        Ok(Async::Ready(Ok(Async::NotReady))) => {
            if wakes.0[0].load(Ordering::SeqCst) {
                "no"
            } else {
                "no, and never again"
            }
        }
        Ok(Async::Ready(Err(ref e))) if e.downcast_ref::<Tag>().map_or(false, |t| t.at == "not ready") => "err",
        Ok(Async::Ready(Err(ref e))) if e.downcast_ref::<hyperdrive::Error>().map_or(false, |e| e.http_status() == 503) => "lib",
        _ => "unknown",
    }
}

fn report(s: &Scenario, w: &Setup, steps: Vec<Value>) -> Value {
    json!({
        "id": s.id,
        "steps": steps,
        "logs": w.reqs.iter().map(|r| r.state.lock().unwrap().log.clone()).collect::<Vec<_>>(),
        "ans": w.reqs.iter().map(|r| r.state.lock().unwrap().answer.clone()).collect::<Vec<_>>(),
        "stray": w.world.stray.lock().unwrap().clone(),
    })
}

/// Everything on one thread, poll by poll.
fn step_mode(s: &Scenario) -> Value {
    let mut w = setup(s);
    let n = s.reqs.len();
    let wakes = Arc::new(Wakes((0..n).map(|_| AtomicBool::new(true)).collect()));
    let handle = NotifyHandle::from(wakes.clone());
    let mut tasks: Vec<Option<Spawn<Fut>>> = (0..n).map(|_| None).collect();
    let mut seen = Vec::new();
    for act in &s.steps {
        let i = act.i;
        let mut note = json!(null);
        match act.a.as_str() {
            "create" => create(s, &mut w, i),
            "ready" => note = ask(w.insts[i - 1].as_mut().unwrap()).into(),
            "call" => {
                let req = w.reqs[i - 1].clone();
                let svc = w.insts[req.plan.inst - 1].as_mut().unwrap();
                match catch_unwind(AssertUnwindSafe(|| svc.call(req.request()))) {
                    Ok(f) => tasks[i - 1] = Some(spawn(f)),
                    Err(p) => req.finish(crash(&req, p)),
                }
            }
            "run" | "idle" => {
                let req = w.reqs[i - 1].clone();
                if act.a == "run" && tasks[i - 1].is_some() && !wakes.0[i - 1].load(Ordering::SeqCst) {
                    req.log("not woken");
                }
                let mut again = 0;
                while tasks[i - 1].is_some() && again < 1000 {
                    wakes.0[i - 1].store(false, Ordering::SeqCst);
                    let t = tasks[i - 1].as_mut().unwrap();
                    let r = catch_unwind(AssertUnwindSafe(|| t.poll_future_notify(&handle, i - 1)));
                    match r {
                        Ok(Ok(Async::NotReady)) => {
                            if !wakes.0[i - 1].load(Ordering::SeqCst) {
                                break;
                            }
                            again += 1;
                        }
                        Ok(Ok(Async::Ready(r))) => {
                            tasks[i - 1] = None;
                            req.finish(req.describe(Ok(r)));
                        }
                        Ok(Err(e)) => {
                            tasks[i - 1] = None;
                            req.finish(req.describe(Err(e)));
                        }
                        Err(p) => {
                            tasks[i - 1] = None;
                            req.finish(crash(&req, p));
                        }
                    }
                }
                let over = req.state.lock().unwrap().answer.is_some();
                note = json!([if over { "over" } else { "waits" }, req.len()]);
            }
            "open" => w.reqs[i - 1].open(),
            "drop" => {
                if tasks[i - 1].take().is_some() {
                    w.reqs[i - 1].finish("none".into());
                }
            }
            "report" => {}
            a => panic!("unknown action {}", a),
        }
        seen.push(note);
    }
    drop(tasks);
    report(s, &w, seen)
}

/// A request as a task of a thread pool.
struct Task {
    fut: Option<Fut>,
    req: Arc<Req>,
    kill: futures::sync::oneshot::Receiver<()>,
}
impl Future for Task {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        if let Ok(Async::Ready(())) = self.kill.poll() {
            self.fut = None;
            self.req.finish("none".into());
            return Ok(Async::Ready(()));
        }
        let f = self.fut.as_mut().unwrap();
        let r = match working_for(&self.req, || catch_unwind(AssertUnwindSafe(|| f.poll()))) {
            Ok(Ok(Async::NotReady)) => return Ok(Async::NotReady),
            Ok(Ok(Async::Ready(r))) => self.req.describe(Ok(r)),
            Ok(Err(e)) => self.req.describe(Err(e)),
            Err(p) => crash(&self.req, p),
        };
        self.fut = None;
        self.req.finish(r);
        Ok(Async::Ready(()))
    }
}

/// Waits until a request got somewhere.
fn until(req: &Req, limit: Duration, f: impl Fn(&ReqState) -> bool) -> bool {
    let end = Instant::now() + limit;
    let mut s = req.state.lock().unwrap();
    loop {
        if f(&s) {
            return true;
        }
        let now = Instant::now();
        if now >= end {
            return false;
        }
        s = req.changed.wait_timeout(s, end - now).unwrap().0;
    }
}

/// How long to wait for what should happen (less once it did not happen).
static FAILED: AtomicUsize = AtomicUsize::new(0);
fn limit() -> Duration {
    match FAILED.load(Ordering::SeqCst) {
        0 => Duration::from_secs(25),
        1..=5 => Duration::from_secs(1),
        _ => Duration::from_millis(100),
    }
}
fn failed() {
    FAILED.fetch_add(1, Ordering::SeqCst);
}

fn pool_mode(s: &Scenario, pool: &tokio_threadpool::ThreadPool) -> Value {
    let mut w = setup(s);
    let n = s.reqs.len();
    let mut kills: Vec<Option<futures::sync::oneshot::Sender<()>>> = (0..n).map(|_| None).collect();
    let shared: Vec<Arc<Mutex<Option<Box<dyn Svc>>>>> = s.insts.iter().map(|_| Arc::new(Mutex::new(None))).collect();
    let mut seen = Vec::new();
    for act in &s.steps {
        let i = act.i;
        let mut note = json!(null);
        match act.a.as_str() {
            "create" => {
                // clones are made from the service in use
                let how = &s.insts[i - 1];
                if how.how == "clone" {
                    let c = shared[how.from - 1].lock().unwrap_or_else(|e| e.into_inner()).as_ref().unwrap().clone_box();
                    *shared[i - 1].lock().unwrap() = Some(c);
                } else {
                    create(s, &mut w, i);
                    *shared[i - 1].lock().unwrap() = w.insts[i - 1].take();
                }
            }
            "ready" => note = ask(shared[i - 1].lock().unwrap_or_else(|e| e.into_inner()).as_mut().unwrap()).into(),
            "call" => {
                let req = w.reqs[i - 1].clone();
                let svc = shared[req.plan.inst - 1].clone();
                let (tx, rx) = futures::sync::oneshot::channel();
                kills[i - 1] = Some(tx);
                pool.spawn(futures::future::lazy(move || {
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        svc.lock().unwrap_or_else(|e| e.into_inner()).as_mut().unwrap().call(req.request())
                    }));
                    req.state.lock().unwrap().called = true;
                    req.changed.notify_all();
                    match r {
                        Ok(f) => futures::future::Either::A(Task { fut: Some(f), req, kill: rx }),
                        Err(p) => {
                            req.finish(crash(&req, p));
                            futures::future::Either::B(futures::future::ok(()))
                        }
                    }
                }));
                if !until(&w.reqs[i - 1], limit(), |s| s.called) {
                    w.reqs[i - 1].log("never called");
                    failed();
                }
            }
            "run" => {
                let req = &w.reqs[i - 1];
                let over = act.r == "over";
                if !until(req, limit(), |s| s.answer.is_some() || !over && s.log.len() >= act.n) {
                    failed();
                }
                let st = req.state.lock().unwrap();
                note = json!([if st.answer.is_some() { "over" } else { "waits" }, st.log.len()]);
            }
            "idle" => {}
            "open" => w.reqs[i - 1].open(),
            "drop" => {
                if let Some(k) = kills[i - 1].take() {
                    k.send(()).ok();
                }
                if !until(&w.reqs[i - 1], limit(), |s| s.answer.is_some()) {
                    failed();
                }
            }
            "report" => {}
            a => panic!("unknown action {}", a),
        }
        seen.push(note);
    }
    report(s, &w, seen)
}

/// Serves a request with a service of its own.
fn serve(mut svc: Box<dyn Svc>, req: Arc<Req>) -> impl Future<Item = (), Error = ()> + Send {
    futures::future::lazy(move || {
        if req.plan.route == "none" {
            req.turn();
        }
        let r = working_for(&req, || catch_unwind(AssertUnwindSafe(|| svc.call(req.request()))));
        match r {
            Ok(f) => futures::future::Either::A(Task { fut: Some(f), req, kill: futures::sync::oneshot::channel().1 }),
            Err(p) => {
                req.finish(crash(&req, p));
                futures::future::Either::B(futures::future::ok(()))
            }
        }
    })
}

fn start(s: &Scenario, pool: &tokio_threadpool::ThreadPool, f: impl Future<Item = (), Error = ()> + Send + 'static) {
    if s.base == "sync" {
        pool.spawn(f);
    } else {
        std::thread::spawn(move || f.wait());
    }
}

/// Every request on a thread of its own; all steps of user code are made in the specified order.
fn turn_mode(s: &Scenario, pool: &tokio_threadpool::ThreadPool) -> Value {
    let mut w = setup(s);
    for j in 1..=s.insts.len() {
        create(s, &mut w, j);
    }
    for r in &w.reqs {
        r.state.lock().unwrap().turns.on = true;
    }
    let stopped = |s: &ReqState| s.turns.taken == s.turns.granted && (s.turns.arrived > s.turns.taken || s.turns.parked || s.answer.is_some());
    let mut seen = Vec::new();
    for act in &s.steps {
        let i = act.i;
        let mut note = json!(null);
        match act.a.as_str() {
            "ready" => note = ask(w.insts[i - 1].as_mut().unwrap()).into(),
            "call" | "turn" => {
                let req = w.reqs[i - 1].clone();
                if act.a == "call" {
                    let svc = w.insts[req.plan.inst - 1].take().expect("a request without a service of its own");
                    start(s, pool, serve(svc, req.clone()));
                } else {
                    req.state.lock().unwrap().turns.granted += 1;
                    req.changed.notify_all();
                }
                note = until(&req, limit(), stopped).into();
                if note == json!(false) {
                    failed();
                    break;
                }
            }
            "open" => w.reqs[i - 1].open(),
            "create" | "report" => {}
            a => panic!("unknown action {}", a),
        }
        seen.push(note);
    }
    for r in &w.reqs {
        let mut s = r.state.lock().unwrap();
        s.turns.granted += 1000;
        r.changed.notify_all();
    }
    for r in &w.reqs {
        until(r, if seen.len() < s.steps.len() { Duration::from_millis(100) } else { limit() }, |s| s.answer.is_some());
    }
    report(s, &w, seen)
}

/// Every request on a thread of its own, all at the same time.
fn free_mode(s: &Scenario, pool: &tokio_threadpool::ThreadPool) -> Value {
    let mut w = setup(s);
    for j in 1..=s.insts.len() {
        create(s, &mut w, j);
    }
    let go = Arc::new(AtomicUsize::new(s.reqs.len()));
    for r in &w.reqs {
        r.state.lock().unwrap().opened = 100;
        let svc = w.insts[r.plan.inst - 1].take().expect("a request without a service of its own");
        let (go, f) = (go.clone(), serve(svc, r.clone()));
        start(s, pool, futures::future::lazy(move || {
            go.fetch_sub(1, Ordering::SeqCst);
            let soon = Instant::now() + Duration::from_millis(5);
            while go.load(Ordering::SeqCst) > 0 && Instant::now() < soon {
                std::hint::spin_loop();
            }
            f
        }));
    }
    for r in &w.reqs {
        if !until(r, limit(), |s| s.answer.is_some()) {
            failed();
        }
    }
    report(s, &w, Vec::new())
}

// ------------------------------------------------------------------ over connections

/// What hyper gets: finds out which request it is.
struct Wired {
    svc: Box<dyn Svc>,
    world: Arc<World>,
    reqs: Arc<Vec<Arc<Req>>>,
}
struct WiredFuture {
    f: Fut,
    req: Arc<Req>,
}
impl Req {
    fn ended(&self, how: String) {
        self.state.lock().unwrap().ended = Some(how);
    }
}
impl Service for Wired {
    type ReqBody = Body;
    type ResBody = Body;
    type Error = BoxedError;
    type Future = WiredFuture;
    fn poll_ready(&mut self) -> Poll<(), BoxedError> {
        self.svc.ready()
    }
    fn call(&mut self, mut r: Request<Body>) -> WiredFuture {
        let i = r.headers().get("x-i").and_then(|v| v.to_str().ok()).and_then(|v| v.parse::<usize>().ok()).unwrap_or(0);
        let req = match self.reqs.get(i.wrapping_sub(1)) {
            Some(r) => r.clone(),
            None => {
                self.world.stray.lock().unwrap().push(format!("unknown request {:?}", r));
                panic!("unknown request");
            }
        };
        r.extensions_mut().insert(ReqRef(req.clone()));
        r.extensions_mut().insert(Marker(i));
        match catch_unwind(AssertUnwindSafe(|| self.svc.call(r))) {
            Ok(f) => WiredFuture { f, req },
            Err(p) => {
                req.ended(crash(&req, p));
                panic!("seen");
            }
        }
    }
}
impl Future for WiredFuture {
    type Item = Response<Body>;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Response<Body>, BoxedError> {
        match catch_unwind(AssertUnwindSafe(|| self.f.poll())) {
            Ok(Ok(a)) => Ok(a),
            Ok(Err(e)) => {
                self.req.ended(self.req.describe(Err(e)));
                Err("seen".into())
            }
            Err(p) => {
                self.req.ended(crash(&self.req, p));
                panic!("seen");
            }
        }
    }
}

fn listen(s: &Scenario, w: Setup, rt: &mut tokio::runtime::Runtime) -> (std::net::SocketAddr, futures::sync::oneshot::Sender<()>) {
    let Setup { reqs, world, mut make, .. } = w;
    let reqs = Arc::new(reqs);
    let server = hyper::Server::bind(&([127, 0, 0, 1], 0).into())
        .serve(hyper::service::make_service_fn(move |_: &hyper::server::conn::AddrStream| {
            futures::future::ok::<_, BoxedError>(Wired { svc: make(), world: world.clone(), reqs: reqs.clone() })
        }));
    let addr = server.local_addr();
    let (stop, stopped) = futures::sync::oneshot::channel();
    let id = s.id;
    rt.spawn(server.with_graceful_shutdown(stopped).map_err(move |e| eprintln!("scenario {}: {}", id, e)));
    (addr, stop)
}

/// The client's end of a connection.
struct Line {
    out: std::net::TcpStream,
    closed: Arc<AtomicBool>,
    over: std::thread::JoinHandle<Option<String>>,
}

impl Req {
    /// The message: its first and its second part.
    fn message(&self, custom: bool) -> (Vec<u8>, Vec<u8>) {
        let p = &self.plan;
        let body = if custom || p.body.has || p.sends { self.body_text() } else { String::new() };
        let mut head = format!("{} {} HTTP/{}\r\nhost: x\r\n", p.method, p.target, if p.reqv == 1 { "1.0" } else { "1.1" }).into_bytes();
        for (k, v) in self.headers().iter() {
            head.extend_from_slice(format!("{}: ", k).as_bytes());
            head.extend_from_slice(v.as_bytes());
            head.extend_from_slice(b"\r\n");
        }
        if p.close {
            head.extend_from_slice(b"connection: close\r\n");
        }
        let (a, b) = body.split_at(body.len() / 2);
        let (a, b) = if body.is_empty() {
            head.extend_from_slice(b"\r\n");
            (String::new(), String::new())
        } else if p.chunked && p.reqv != 1 {
            head.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
            (format!("{:x}\r\n{}\r\n", a.len(), a), format!("{:x}\r\n{}\r\n0\r\n\r\n", b.len(), b))
        } else {
            head.extend_from_slice(format!("content-length: {}\r\n\r\n", body.len()).as_bytes());
            (a.into(), b.into())
        };
        head.extend_from_slice(a.as_bytes());
        (head, b.into_bytes())
    }
    /// Puts a message together again.
    fn describe_message(&self, m: &Message) -> String {
        let mut text = String::from_utf8_lossy(&m.body).into_owned();
        if text == self.resp_text() {
            text = self.plan.resp.clone();
        } else if m.headers.contains_key("x-by") && self.plan.method != "HEAD" {
            text = format!("({} bytes) {}", text.len(), text);
            text.truncate(100);
        }
        let mut headers = without(&m.headers, &FRAMING);
        match m.headers.get("x-by").map(|v| String::from_utf8_lossy(v.as_bytes()).into_owned()) {
            Some(by) => {
                let (want, _) = self.response(&by).into_parts();
                if !want.headers.contains_key("date") {
                    headers.remove("date");
                }
                if m.status != want.status.as_u16() || headers != want.headers {
                    format!("{}, changed to {} {:?}: {}", by, m.status, m.headers, text)
                } else {
                    format!("{}:{}", by, text)
                }
            }
            None => {
                headers.remove("date");
                let allow: Vec<String> = headers.get_all("allow").iter().map(|v| String::from_utf8_lossy(v.as_bytes()).into_owned()).collect();
                headers.remove("allow");
                if !headers.is_empty() {
                    return format!("lib {} with {:?}:{}", m.status, headers, text);
                }
                if allow.is_empty() {
                    return format!("lib {}:{}", m.status, text);
                }
                let mut names: Vec<&str> = allow.iter().flat_map(|a| a.split(',')).map(|a| a.trim()).filter(|a| !a.is_empty()).collect();
                names.sort();
                format!("lib {} allow={}:{}", m.status, names.join(","), text)
            }
        }
    }
}

struct Message {
    status: u16,
    headers: http::HeaderMap,
    body: Vec<u8>,
}

/// Reads a response; none if the connection ends before it begins.
fn read_message(r: &mut impl BufRead, bodiless: bool) -> Result<Option<Message>, String> {
    fn line(r: &mut impl BufRead) -> Result<Vec<u8>, String> {
        let mut l = Vec::new();
        r.read_until(b'\n', &mut l).map_err(|e| e.kind()).map_err(|e| format!("{:?}", e))?;
        if l.ends_with(b"\r\n") {
            l.truncate(l.len() - 2);
            Ok(l)
        } else {
            Err(format!("ends after {:?}", String::from_utf8_lossy(&l)))
        }
    }
    fn exactly(r: &mut impl BufRead, n: usize, into: &mut Vec<u8>) -> Result<(), String> {
        let at = into.len();
        into.resize(at + n, 0);
        r.read_exact(&mut into[at..]).map_err(|e| format!("body: {:?}", e.kind()))
    }
    match r.fill_buf() {
        Ok(b) if b.is_empty() => return Ok(None),
        Err(ref e) if e.kind() == std::io::ErrorKind::ConnectionReset => return Ok(None),
        Err(e) => return Err(format!("{:?}", e.kind())),
        Ok(_) => {}
    }
    let first = line(r)?;
    let first = String::from_utf8_lossy(&first).into_owned();
    let mut words = first.splitn(3, ' ');
    if !words.next().map_or(false, |v| v == "HTTP/1.1" || v == "HTTP/1.0") {
        return Err(format!("not a response: {:?}", first));
    }
    let status = words.next().and_then(|s| s.parse().ok()).ok_or("no status")?;
    let mut headers = http::HeaderMap::new();
    loop {
        let l = line(r)?;
        if l.is_empty() {
            break;
        }
        let colon = l.iter().position(|c| *c == b':').ok_or("a header without a colon")?;
        let name = http::header::HeaderName::from_bytes(&l[..colon]).map_err(|e| e.to_string())?;
        let value = http::header::HeaderValue::from_bytes(String::from_utf8_lossy(&l[colon + 1..]).trim().as_bytes()).map_err(|e| e.to_string())?;
        headers.append(name, value);
    }
    let mut body = Vec::new();
    if bodiless {
    } else if headers.get("transfer-encoding").is_some() {
        loop {
            let l = line(r)?;
            let n = usize::from_str_radix(&String::from_utf8_lossy(&l), 16).map_err(|e| e.to_string())?;
            if n == 0 {
                line(r)?;
                break;
            }
            exactly(r, n, &mut body)?;
            line(r)?;
        }
    } else if let Some(n) = headers.get("content-length") {
        let n = n.to_str().ok().and_then(|n| n.parse().ok()).ok_or("a strange length")?;
        exactly(r, n, &mut body)?;
    } else {
        std::io::Read::read_to_end(r, &mut body).map_err(|e| format!("body: {:?}", e.kind()))?;
    }
    Ok(Some(Message { status, headers, body }))
}

/// Connects; answers are read as they come.
fn connect(addr: std::net::SocketAddr, reqs: Vec<Arc<Req>>) -> Line {
    let out = std::net::TcpStream::connect(addr).expect("no connection");
    out.set_nodelay(true).unwrap();
    out.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
    let closed = Arc::new(AtomicBool::new(false));
    let (mut from, flag) = (std::io::BufReader::new(out.try_clone().unwrap()), closed.clone());
    let over = std::thread::spawn(move || {
        let mut it = reqs.iter();
        let odd = loop {
            let next = it.next();
            match (read_message(&mut from, next.map_or(false, |r| r.plan.method == "HEAD")), next) {
                (Ok(Some(m)), Some(r)) if r.state.lock().unwrap().sent => r.finish(r.describe_message(&m)),
                (Ok(Some(m)), _) => break Some(format!("a response to nothing: {} {:?}", m.status, m.headers)),
                (Ok(None), Some(r)) => {
                    flag.store(true, Ordering::SeqCst);
                    let mut s = r.state.lock().unwrap();
                    if s.sent {
                        s.answer = Some(s.ended.take().unwrap_or("closed".into()));
                    }
                    break None;
                }
                (Ok(None), None) => break None,
                (Err(e), Some(r)) => {
                    flag.store(true, Ordering::SeqCst);
                    r.finish(format!("broken response: {}", e));
                    break None;
                }
                (Err(e), None) => break Some(e),
            }
        };
        flag.store(true, Ordering::SeqCst);
        odd
    });
    Line { out, closed, over }
}

fn finish_wire(s: &Scenario, lines: Vec<Option<Line>>, reqs: Vec<Arc<Req>>, world: Arc<World>, stop: futures::sync::oneshot::Sender<()>, steps: Vec<Value>, good: bool) -> Value {
    let answered: Vec<_> = reqs.iter().map(|r| r.state.lock().unwrap().answer.clone()).collect();
    let logs: Vec<_> = reqs.iter().map(|r| r.state.lock().unwrap().log.clone()).collect();
    for r in &reqs {
        let mut s = r.state.lock().unwrap();
        s.opened += 1000;
        if let Some(t) = s.task.take() {
            t.notify();
        }
        r.changed.notify_all();
    }
    for l in lines {
        if let Some(l) = l {
            l.out.shutdown(if good { std::net::Shutdown::Write } else { std::net::Shutdown::Both }).ok();
            match l.over.join() {
                Ok(None) => {}
                Ok(Some(odd)) => world.stray.lock().unwrap().push(odd),
                Err(_) => world.stray.lock().unwrap().push("the client failed".into()),
            }
        }
    }
    stop.send(()).ok();
    let stray = world.stray.lock().unwrap().clone();
    json!({ "id": s.id, "steps": steps, "logs": logs, "ans": answered, "stray": stray })
}

/// Clients do one thing after the other.
fn wire_mode(s: &Scenario, rt: &mut tokio::runtime::Runtime) -> Value {
    let w = setup(s);
    let (reqs, world) = (w.reqs.clone(), w.world.clone());
    let (addr, stop) = listen(s, w, rt);
    let mut lines: Vec<Option<Line>> = (0..s.conns).map(|_| None).collect();
    let mut seen: Vec<Value> = Vec::new();
    let mut good = true;
    for act in &s.steps {
        let now = |exactly: bool| {
            for (k, r) in reqs.iter().enumerate() {
                if act.now.st[r.plan.inst - 1] == "gone" && act.now.ans[k].is_empty() {
                    continue;
                }
                let st = r.state.lock().unwrap();
                if st.log.len() < act.now.calls[k] || exactly && st.log.len() > act.now.calls[k] {
                    return Some(format!("request {} has made the calls {:?} instead of {}", k + 1, st.log, act.now.calls[k]));
                }
                if st.answer.is_some() != !act.now.ans[k].is_empty() {
                    return Some(format!("request {} is answered {:?}, specified: {:?}", k + 1, st.answer, act.now.ans[k]));
                }
            }
            for (k, l) in lines.iter().enumerate() {
                if act.now.st[k] == "gone" {
                    continue;
                }
                if l.as_ref().map_or(false, |l| l.closed.load(Ordering::SeqCst)) != (act.now.st[k] == "closed") {
                    return Some(format!("connection {} is not {}", k + 1, act.now.st[k]));
                }
            }
            None
        };
        let end = Instant::now() + limit();
        while now(false).is_some() && Instant::now() < end {
            std::thread::sleep(Duration::from_micros(100));
        }
        let bad = now(true);
        seen.push(json!(bad));
        if bad.is_some() {
            failed();
            good = false;
            break;
        }
        let req = || reqs[act.i - 1].clone();
        match act.a.as_str() {
            "connect" => {
                let mine = reqs.iter().filter(|r| r.plan.inst == act.i).cloned().collect();
                lines[act.i - 1] = Some(connect(addr, mine));
            }
            "open" => req().open(),
            "leave" => {
                lines[act.i - 1].as_ref().unwrap().out.shutdown(std::net::Shutdown::Both).ok();
            }
            "send" | "half" | "rest" | "cut" => {
                let r = req();
                let (a, b) = r.message(s.base == "custom");
                let l = lines[r.plan.inst - 1].as_mut().unwrap();
                r.state.lock().unwrap().sent = true;
                // (what cannot be sent is not answered either)
                match act.a.as_str() {
                    "send" => l.out.write_all(&[a, b].concat()).ok(),
                    "half" => l.out.write_all(&a).ok(),
                    "rest" => l.out.write_all(&b).ok(),
                    _ => l.out.shutdown(std::net::Shutdown::Write).ok(),
                };
            }
            "report" => {}
            a => panic!("unknown action {}", a),
        }
    }
    finish_wire(s, lines, reqs, world, stop, seen, good)
}

/// Every connection on a thread of its own.
fn wire_free_mode(s: &Scenario, rt: &mut tokio::runtime::Runtime) -> Value {
    let w = setup(s);
    let (reqs, world) = (w.reqs.clone(), w.world.clone());
    let (addr, stop) = listen(s, w, rt);
    for r in &reqs {
        r.state.lock().unwrap().opened = 100;
    }
    let custom = s.base == "custom";
    let threads: Vec<_> = (1..=s.conns)
        .map(|c| {
            let mine: Vec<Arc<Req>> = reqs.iter().filter(|r| r.plan.inst == c).cloned().collect();
            std::thread::spawn(move || {
                let mut l = connect(addr, mine.clone());
                for r in &mine {
                    if l.closed.load(Ordering::SeqCst) {
                        break;
                    }
                    let (a, b) = r.message(custom);
                    r.state.lock().unwrap().sent = true;
                    if r.plan.close {
                        // (what is left unread could take the answer with it when the connection is closed)
                        l.out.write_all(&[a, b].concat()).ok();
                    } else {
                        l.out.write_all(&a).ok();
                        l.out.write_all(&b).ok();
                    }
                    let end = Instant::now() + limit();
                    while r.state.lock().unwrap().answer.is_none() && Instant::now() < end {
                        std::thread::yield_now();
                    }
                    if r.plan.close {
                        while !l.closed.load(Ordering::SeqCst) && Instant::now() < end {
                            std::thread::yield_now();
                        }
                    }
                    if Instant::now() >= end {
                        failed();
                        break;
                    }
                }
                l
            })
        })
        .collect();
    let lines: Vec<Option<Line>> = threads.into_iter().map(|t| t.join().ok()).collect();
    let good = reqs.iter().all(|r| { let s = r.state.lock().unwrap(); !s.sent || s.answer.is_some() });
    finish_wire(s, lines, reqs, world, stop, Vec::new(), good)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    vrt::watchdog(100);
    if std::env::var("VERIF_FAILED").map_or(false, |f| f != "0") {
        FAILED.store(1, Ordering::SeqCst);
    }
    let path = std::env::args().nth(1).expect("usage: service SCENARIOS");
    let file = std::io::BufReader::new(std::fs::File::open(path).unwrap());
    let out = std::io::stdout();
    let pool = tokio_threadpool::Builder::new().pool_size(4).max_blocking(20).build();
    let mut rt = tokio::runtime::Builder::new().core_threads(4).blocking_threads(100).build().unwrap();
    for line in file.lines() {
        let s: Scenario = serde_json::from_str(&line.unwrap()).unwrap();
        vrt::note_start(s.id);
        let v = match s.mode.as_str() {
            "step" => step_mode(&s),
            "pool" => pool_mode(&s, &pool),
            "turn" => turn_mode(&s, &pool),
            "free" => free_mode(&s, &pool),
            "wire" => wire_mode(&s, &mut rt),
            "wire-free" => wire_free_mode(&s, &mut rt),
            m => panic!("unknown mode {}", m),
        };
        let mut o = out.lock();
        writeln!(o, "{}", v).unwrap();
    }
    // (threads may still be at work for requests that went wrong)
    std::process::exit(0);
}
