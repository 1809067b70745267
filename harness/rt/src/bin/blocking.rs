//! Runs schedules of blocking work on thread pools and records what happens.
//!
//! usage: blocking SCENARIOS; each line: {"id", "workers", "cap", "tasks": [{"kind", "parts": [{"blk", "out"}]}], "steps"}
use futures::sync::oneshot;
use futures::{Async, Future, Poll};
use hyper::service::Service;
use hyper::{Body, Request, Response};
use hyperdrive::service::{AsyncService, SyncService};
use hyperdrive::{blocking, BoxedError, DefaultFuture, FromRequest};
use serde::Deserialize;
use serde_json::json;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Deserialize, Clone, Debug)]
struct Part {
    blk: bool,
    out: String,
}
#[derive(Deserialize, Clone, Debug)]
struct TaskSpec {
    kind: String,
    parts: Vec<Part>,
}
#[derive(Deserialize, Clone, Debug)]
struct Act {
    a: String,
    i: usize,
    k: usize,
}
#[derive(Deserialize, Clone, Debug)]
struct Scenario {
    id: u64,
    workers: usize,
    cap: usize,
    lossy: bool,
    /// How often each task is polled without a reason.
    #[serde(default)]
    idle: usize,
    tasks: Vec<TaskSpec>,
    steps: Vec<Act>,
}

#[derive(Clone, Debug, PartialEq)]
struct Event {
    e: &'static str,
    i: usize,
    k: usize,
    r: String,
}

/// All that happened, and what that means for each task.
#[derive(Default)]
struct State {
    trace: Vec<Event>,
    opened: Vec<[bool; 2]>,
    waiting: Vec<[Option<futures::task::Task>; 2]>,
}
impl State {
    fn ended(&self, i: usize) -> bool {
        self.trace.iter().any(|e| e.i == i && (e.e == "resolve" || e.e == "dropped"))
    }
}
#[derive(Default)]
struct Book {
    state: Mutex<State>,
    changed: Condvar,
}
impl Book {
    fn log(&self, e: &'static str, i: usize, k: usize, r: &str) {
        self.state.lock().unwrap().trace.push(Event { e, i, k, r: r.into() });
        self.changed.notify_all();
    }
}

#[derive(Clone)]
struct Job {
    book: Arc<Book>,
    i: usize,
    k: usize,
    out: String,
}
#[derive(Debug)]
struct Failure(String);
impl std::fmt::Display for Failure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Failure {}

impl Job {
    fn name(&self) -> String {
        format!("{}.{}", self.i, self.k)
    }
    fn end(&self) -> Result<String, Failure> {
        self.book.log("finish", self.i, self.k, "");
        match self.out.as_str() {
            "ok" => Ok(self.name()),
            "err" => Err(Failure(self.name())),
            "boom" => panic_any(self.name()),
            o => panic!("unknown outcome {}", o),
        }
    }
    /// Blocking work.
    fn block(self) -> Result<String, Failure> {
        self.book.log("start", self.i, self.k, "");
        {
            let mut s = self.book.state.lock().unwrap();
            // (waiting on the thread that opens the gates would never end)
            while !s.opened[self.i - 1][self.k - 1] && !DRIVER.with(|d| d.get()) {
                s = self.book.changed.wait(s).unwrap();
            }
        }
        self.end()
    }
    /// Asynchronous work.
    fn light(self) -> Light {
        Light { job: self, begun: false }
    }
}
struct Light {
    job: Job,
    begun: bool,
}
impl Future for Light {
    type Item = String;
    type Error = Failure;
    fn poll(&mut self) -> Poll<String, Failure> {
        let j = &self.job;
        if !self.begun {
            self.begun = true;
            j.book.log("start", j.i, j.k, "");
        }
        {
            let mut s = j.book.state.lock().unwrap();
            if !s.opened[j.i - 1][j.k - 1] {
                s.waiting[j.i - 1][j.k - 1] = Some(futures::task::current());
                return Ok(Async::NotReady);
            }
        }
        j.end().map(Async::Ready)
    }
}

#[derive(FromRequest, Debug)]
enum Route {
    #[get("/")]
    Index,
}
struct Mine(Job);

type Work = Box<dyn Future<Item = String, Error = Failure> + Send>;

fn respond(r: Response<Body>) -> String {
    r.headers()["x-by"].to_str().unwrap().into()
}
fn answer(name: String) -> Response<Body> {
    Response::builder().header("x-by", name).body(Body::empty()).unwrap()
}

fn work(book: &Arc<Book>, i: usize, t: &TaskSpec) -> Work {
    let jobs: Vec<Job> = t.parts.iter().enumerate().map(|(k, p)| Job { book: book.clone(), i, k: k + 1, out: p.out.clone() }).collect();
    let part = |k: usize| -> Work {
        let j = jobs[k].clone();
        if t.parts[k].blk {
            Box::new(blocking(move || j.block()))
        } else {
            Box::new(j.light())
        }
    };
    let request = || {
        let mut b = Request::get("/");
        b.extension(Arc::new(Mutex::new(Some(Mine(jobs[0].clone())))));
        b.body(Body::empty()).unwrap()
    };
    fn mine(r: &Arc<Request<()>>) -> Job {
        r.extensions().get::<Arc<Mutex<Option<Mine>>>>().unwrap().lock().unwrap().take().expect("called twice").0
    }
    let failed = |e: BoxedError| Failure(e.to_string());
    match t.kind.as_str() {
        "one" => part(0),
        "seq" => {
            let second = part(1);
            Box::new(part(0).and_then(move |_| second))
        }
        "join" => Box::new(part(0).join(part(1)).map(|(a, b)| format!("{},{}", a, b))),
        "service" if t.parts[0].blk => {
            let mut s = SyncService::new(|_: Route, r: Arc<Request<()>>| answer(mine(&r).block().expect("the handler cannot fail")));
            Box::new(s.call(request()).map(respond).map_err(failed))
        }
        "service" => {
            let mut s = AsyncService::new(|_: Route, r: Arc<Request<()>>| -> DefaultFuture<Response<Body>, BoxedError> {
                Box::new(mine(&r).light().map(answer).map_err(BoxedError::from))
            });
            Box::new(s.call(request()).map(respond).map_err(failed))
        }
        k => panic!("unknown kind {}", k),
    }
}

struct Task {
    work: Option<Work>,
    i: usize,
    book: Arc<Book>,
    kill: oneshot::Receiver<()>,
    idle: usize,
}
impl Future for Task {
    type Item = ();
    type Error = ();
    fn poll(&mut self) -> Poll<(), ()> {
        if let Ok(Async::Ready(())) = self.kill.poll() {
            self.work = None;
            self.book.log("dropped", self.i, 0, "");
            return Ok(Async::Ready(()));
        }
        let w = self.work.as_mut().unwrap();
        let r = match catch_unwind(AssertUnwindSafe(|| w.poll())) {
            Ok(Ok(Async::NotReady)) => {
                if self.idle > 0 {
                    self.idle -= 1;
                    futures::task::current().notify();
                }
                return Ok(Async::NotReady);
            }
            Ok(Ok(Async::Ready(n))) => format!("ok {}", n),
            Ok(Err(e)) => format!("err {}", e.0),
            Err(p) => match p.downcast_ref::<String>() {
                Some(n) => format!("boom {}", n),
                None => "panics".into(),
            },
        };
        self.work = None;
        self.book.log("resolve", self.i, 0, &r);
        Ok(Async::Ready(()))
    }
}

/// Whether nothing is left to happen (only decides how long to wait).
fn at_rest(s: &Scenario, st: &State) -> bool {
    let n = s.tasks.len();
    let mut part = vec![[0u8; 2]; n];
    let (mut live, mut killed) = (vec![false; n], vec![false; n]);
    for e in &st.trace {
        match e.e {
            "spawn" => live[e.i - 1] = true,
            "kill" => killed[e.i - 1] = true,
            "start" => part[e.i - 1][e.k - 1] = 1,
            "finish" => part[e.i - 1][e.k - 1] = 2,
            "resolve" | "dropped" => live[e.i - 1] = false,
            _ => {}
        }
    }
    let mut blocked = 0;
    for i in 0..n {
        for (k, p) in s.tasks[i].parts.iter().enumerate() {
            if p.blk && part[i][k] == 1 {
                blocked += 1;
            }
        }
    }
    for i in 0..n {
        if !live[i] {
            continue;
        }
        let ps = &s.tasks[i].parts;
        let busy = ps.iter().enumerate().any(|(k, p)| p.blk && part[i][k] == 1);
        let failed = ps.iter().enumerate().any(|(k, p)| p.out != "ok" && part[i][k] == 2);
        let done = (0..ps.len()).all(|k| part[i][k] == 2);
        if !busy && (failed || done || killed[i]) {
            return false;
        }
        for (k, p) in ps.iter().enumerate() {
            if part[i][k] == 1 && st.opened[i][k] && (p.blk || !busy) {
                return false;
            }
            if part[i][k] == 0 && !busy && !(s.tasks[i].kind == "seq" && k == 1 && part[i][0] != 2) && (!p.blk || !s.lossy && blocked < s.cap) {
                return false;
            }
        }
    }
    true
}

thread_local!(static DRIVER: std::cell::Cell<bool> = std::cell::Cell::new(false));
static FAILED: AtomicUsize = AtomicUsize::new(0);

fn run(s: &Scenario) -> serde_json::Value {
    let pool = tokio_threadpool::Builder::new().pool_size(s.workers).max_blocking(s.cap).build();
    let book = Arc::new(Book::default());
    {
        let mut st = book.state.lock().unwrap();
        for _ in &s.tasks {
            st.opened.push([false; 2]);
            st.waiting.push([None, None]);
        }
    }
    let mut kills: Vec<Option<oneshot::Sender<()>>> = s.tasks.iter().map(|_| None).collect();
    for act in &s.steps {
        let (i, k) = (act.i, act.k);
        match act.a.as_str() {
            "spawn" => {
                let (tx, kill) = oneshot::channel();
                kills[i - 1] = Some(tx);
                let work = match catch_unwind(AssertUnwindSafe(|| work(&book, i, &s.tasks[i - 1]))) {
                    Ok(w) => w,
                    Err(_) => {
                        book.log("resolve", i, 0, "boom at creation");
                        continue;
                    }
                };
                book.log("spawn", i, 0, "");
                pool.spawn(Task { work: Some(work), i, book: book.clone(), kill, idle: s.idle });
            }
            "forget" => {
                match catch_unwind(AssertUnwindSafe(|| drop(work(&book, i, &s.tasks[i - 1])))) {
                    Ok(()) => book.log("forget", i, 0, ""),
                    Err(_) => book.log("resolve", i, 0, "boom at creation"),
                }
            }
            "open" => {
                let t = {
                    let mut st = book.state.lock().unwrap();
                    st.opened[i - 1][k - 1] = true;
                    if !st.ended(i) {
                        st.trace.push(Event { e: "open", i, k, r: String::new() });
                    }
                    st.waiting[i - 1][k - 1].take()
                };
                book.changed.notify_all();
                if let Some(t) = t {
                    t.notify();
                }
            }
            "kill" => {
                // (a task that ended meanwhile cannot be told)
                let mut st = book.state.lock().unwrap();
                if !st.ended(i) {
                    st.trace.push(Event { e: "kill", i, k: 0, r: String::new() });
                    drop(st);
                    kills[i - 1].take().map(|t| t.send(()));
                }
            }
            "settle" => {
                let limit = match FAILED.load(Ordering::SeqCst) {
                    0 => Duration::from_secs(25),
                    1..=5 => Duration::from_secs(1),
                    _ => Duration::from_millis(50),
                };
                let end = Instant::now() + limit;
                let mut st = book.state.lock().unwrap();
                while !at_rest(s, &st) {
                    let now = Instant::now();
                    if now >= end {
                        FAILED.fetch_add(1, Ordering::SeqCst);
                        break;
                    }
                    st = book.changed.wait_timeout(st, end - now).unwrap().0;
                }
                st.trace.push(Event { e: "settle", i: 0, k: 0, r: String::new() });
            }
            a => panic!("unknown action {}", a),
        }
    }
    let trace = {
        let mut st = book.state.lock().unwrap();
        let t: Vec<_> = st.trace.iter().map(|e| json!({"e": e.e, "i": e.i, "k": e.k, "r": e.r})).collect();
        // whatever is still blocked may end
        for o in st.opened.iter_mut() {
            *o = [true; 2];
        }
        t
    };
    book.changed.notify_all();
    drop(kills);
    drop(pool);
    json!({"id": s.id, "trace": trace})
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    DRIVER.with(|d| d.set(true));
    vrt::watchdog(100);
    let path = std::env::args().nth(1).expect("usage: blocking SCENARIOS");
    let out = std::io::stdout();
    if std::env::args().nth(2).is_some() || std::env::var("VERIF_FAILED").map_or(false, |f| f != "0") {
        // (what is waited for is not expected to happen)
        FAILED.store(1, Ordering::SeqCst);
    }
    for line in std::io::BufReader::new(std::fs::File::open(path).unwrap()).lines() {
        let s: Scenario = serde_json::from_str(&line.unwrap()).unwrap();
        vrt::note_start(s.id);
        let v = run(&s);
        let mut o = out.lock();
        writeln!(o, "{}", v).unwrap();
    }
    std::process::exit(0);
}
