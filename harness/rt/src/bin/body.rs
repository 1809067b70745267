//! Replays deliveries of a body into the library's decoders, poll by poll.
//!
//! usage: body CASES; each line: {"id", "ty", "via", "headers": [[k, v]], "method", "steps": [{"e", "t"}]}
use futures::executor::{spawn, Notify, NotifyHandle, Spawn};
use futures::{Async, Future, Poll, Stream};
use hyperdrive::{BoxedError, FromBody, NoContext};
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::io::{BufRead, Write};
use std::ops::{Deref, DerefMut};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use vrt::*;

#[derive(Deserialize)]
struct Step {
    e: String,
    t: String,
}

#[derive(Deserialize)]
struct Line {
    id: u64,
    ty: String,
    via: String,
    #[serde(default)]
    headers: Vec<(String, String)>,
    method: String,
    #[serde(default)]
    grow: usize,
    steps: Vec<Step>,
}

/// Counts the wake-ups of the one task.
struct Wakes(AtomicUsize);
impl Notify for Wakes {
    fn notify(&self, _: usize) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

#[derive(Debug)]
struct Broken;
impl std::fmt::Display for Broken {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("broken")
    }
}
impl std::error::Error for Broken {}

enum Item {
    Data(Vec<u8>),
    End,
    Err,
}

#[derive(Default)]
struct Pipe {
    queue: VecDeque<Item>,
    task: Option<futures::task::Task>,
    over: bool,
    after: bool,
}

/// A body that hands out what was put into the pipe.
struct Outlet(Arc<Mutex<Pipe>>);
impl Stream for Outlet {
    type Item = Vec<u8>;
    type Error = Box<dyn std::error::Error + Send + Sync>;
    fn poll(&mut self) -> Poll<Option<Vec<u8>>, Self::Error> {
        let mut p = self.0.lock().unwrap();
        if p.over {
            p.after = true;
        }
        match p.queue.pop_front() {
            Some(Item::Data(d)) => Ok(Async::Ready(Some(d))),
            Some(Item::End) => {
                p.over = true;
                Ok(Async::Ready(None))
            }
            Some(Item::Err) => {
                p.over = true;
                Err(Broken.into())
            }
            None if p.over => Ok(Async::Ready(None)),
            None => {
                p.task = Some(futures::task::current());
                Ok(Async::NotReady)
            }
        }
    }
}

fn name_err(e: &BoxedError) -> String {
    match e.downcast_ref::<hyper::Error>() {
        Some(h) => match std::error::Error::source(h).map(|s| s.is::<Broken>()) {
            Some(false) => format!("transport error with another cause: {:?}", h),
            _ => "transport".into(),
        },
        None => name_error(&**e),
    }
}

fn run<T>(l: &Line) -> Value
where
    T: FromBody<Context = NoContext> + Obs + Deref + DerefMut,
    T::Target: Obs,
    <T::Result as futures::IntoFuture>::Future: Send + 'static,
    T: 'static,
{
    let mut b = http::Request::builder();
    b.method(l.method.as_str()).uri("/");
    for (k, v) in &l.headers {
        b.header(k.as_str(), v.as_str());
    }
    let req = Arc::new(b.body(()).unwrap());
    let wakes = Arc::new(Wakes(AtomicUsize::new(0)));
    let handle: NotifyHandle = wakes.clone().into();
    let pipe = Arc::new(Mutex::new(Pipe::default()));
    let mut sender = None;
    let body = match l.via.as_str() {
        "stream" => hyper::Body::wrap_stream(Outlet(pipe.clone())),
        "channel" => {
            let (tx, body) = hyper::Body::channel();
            sender = Some(tx);
            body
        }
        "whole" => {
            let all: String = l.steps.iter().filter(|s| s.e == "d").map(|s| s.t.as_str()).collect();
            hyper::Body::from(grown(&all, l.grow))
        }
        v => panic!("unknown kind of body {}", v),
    };
    let mut fut: Spawn<_> = spawn(T::from_body(&req, body, &NoContext).into_future_boxed());
    drop(req);
    let mut seen = Vec::new();
    let mut waiting = false;
    let mut woken_at = 0;
    let mut pump = VecDeque::new();
    for s in &l.steps {
        if s.e == "poll" {
            loop {
                let progress = sender_step(&mut sender, &mut pump, &handle);
                woken_at = wakes.0.load(Ordering::SeqCst);
                match fut.poll_future_notify(&handle, 0) {
                    Ok(Async::NotReady) => {
                        if progress && (!pump.is_empty() || sender.is_none()) {
                            continue;
                        }
                        waiting = true;
                        seen.push(json!(["wait", ""]));
                    }
                    Ok(Async::Ready(mut v)) => {
                        let text = v.obs();
                        let inner = v.deref().obs();
                        let inner_mut = v.deref_mut().obs();
                        if inner != inner_mut || !text.ends_with(&format!("({})", inner)) {
                            seen.push(json!(["deref", format!("{} {} {}", text, inner, inner_mut)]));
                        } else {
                            seen.push(json!(["ok", inner]));
                        }
                        return json!({"id": l.id, "seen": seen});
                    }
                    Err(e) => {
                        seen.push(json!(["error", name_err(&e)]));
                        return json!({"id": l.id, "seen": seen});
                    }
                }
                break;
            }
            continue;
        }
        let item = match s.e.as_str() {
            "d" => Item::Data(grown(&s.t, l.grow)),
            "end" => Item::End,
            "err" => Item::Err,
            e => panic!("unknown step {}", e),
        };
        match l.via.as_str() {
            "stream" => {
                let task = {
                    let mut p = pipe.lock().unwrap();
                    p.queue.push_back(item);
                    p.task.take()
                };
                match task {
                    Some(t) => t.notify(),
                    None if waiting => {
                        seen.push(json!(["nobody is waiting for the body", ""]));
                        return json!({"id": l.id, "seen": seen});
                    }
                    None => {}
                }
                if waiting && wakes.0.load(Ordering::SeqCst) == woken_at {
                    seen.push(json!(["the task was not woken", ""]));
                    return json!({"id": l.id, "seen": seen});
                }
                waiting = false;
            }
            "channel" => pump.push_back(item),
            _ => {}
        }
    }
    json!({"id": l.id, "seen": seen})
}

/// Moves what fits into the channel of the body; whether anything was moved.
fn sender_step(sender: &mut Option<hyper::body::Sender>, pump: &mut VecDeque<Item>, handle: &NotifyHandle) -> bool {
    let mut any = false;
    while let Some(tx) = sender.as_mut() {
        match pump.front() {
            None => return any,
            Some(Item::End) => {
                pump.clear();
                *sender = None;
                return true;
            }
            Some(Item::Err) => {
                pump.clear();
                sender.take().unwrap().abort();
                return true;
            }
            Some(Item::Data(_)) => {}
        }
        let ready = spawn(futures::future::poll_fn(|| tx.poll_ready())).poll_future_notify(handle, 0);
        match ready {
            Ok(Async::Ready(())) => {
                if let Some(Item::Data(d)) = pump.pop_front() {
                    if tx.send_data(d.into()).is_err() {
                        return any;
                    }
                    any = true;
                }
            }
            _ => return any,
        }
    }
    any
}

/// `Z` stands for a long run in grown documents.
fn grown(t: &str, n: usize) -> Vec<u8> {
    if n == 0 {
        return bytes_of(t);
    }
    bytes_of(&t.replace('Z', &"Z".repeat(n)))
}

trait Boxed: futures::IntoFuture {
    fn into_future_boxed(self) -> Box<dyn Future<Item = Self::Item, Error = Self::Error> + Send>;
}
impl<I: futures::IntoFuture> Boxed for I
where
    I::Future: Send + 'static,
{
    fn into_future_boxed(self) -> Box<dyn Future<Item = Self::Item, Error = Self::Error> + Send> {
        Box::new(self.into_future())
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    watchdog(30);
    let path = std::env::args().nth(1).expect("usage: body CASES");
    let file = std::io::BufReader::new(std::fs::File::open(path).unwrap());
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in file.lines() {
        let l: Line = serde_json::from_str(&line.unwrap()).unwrap();
        note_start(l.id);
        let f: fn(&Line) -> Value = match l.ty.as_str() {
            "JU16" => run::<JU16>,
            "JStr" => run::<JStr>,
            "JList" => run::<JList>,
            "JPt" => run::<JPt>,
            "JOpt" => run::<JOpt>,
            "FReq" => run::<FReq>,
            "FMap" => run::<FMap>,
            "FPairs" => run::<FPairs>,
            "FDef" => run::<FDef>,
            t => panic!("unknown type {}", t),
        };
        let v = match catch_unwind(AssertUnwindSafe(|| f(&l))) {
            Ok(v) => v,
            Err(p) => json!({"id": l.id, "seen": [["panic", payload(&*p)]]}),
        };
        writeln!(out, "{}", v).unwrap();
    }
}
