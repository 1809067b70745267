//! Builds library errors and looks at them.
//!
//! usage: error CASES; each line: {"id", "plan": [{k, status, ms, t}], "ops": [..], "via"}
use hyperdrive::{BoxedError, DefaultFuture, Error};
use futures::Future;
use http::{Method, StatusCode};
use serde::Deserialize;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vrt::{allow_header, method_set};

#[derive(Deserialize)]
struct Link {
    k: String,
    status: u16,
    ms: Vec<String>,
    t: String,
}

#[derive(Deserialize)]
struct Line {
    id: u64,
    plan: Vec<Link>,
    ops: Vec<String>,
    via: usize,
}

#[derive(Debug)]
struct Own(String, Option<BoxedError>);
impl std::fmt::Display for Own {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Own {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|e| &**e as _)
    }
}

fn leak(ms: &[String]) -> Vec<&'static Method> {
    ms.iter().map(|m| &*Box::leak(Box::new(m.parse::<Method>().unwrap()))).collect()
}

fn lib(l: &Link, inner: Option<BoxedError>, via: usize) -> Error {
    let status = || StatusCode::from_u16(l.status).expect("no such status");
    match l.k.as_str() {
        "status" => Error::from_status(status()),
        "cause" => Error::with_source(status(), inner.expect("a cause")),
        "methods" => {
            let ms = leak(&l.ms);
            if via % 2 == 0 {
                Error::wrong_method(ms)
            } else {
                Error::wrong_method(&*Box::leak(ms.into_boxed_slice()))
            }
        }
        k => panic!("unknown link {}", k),
    }
}

fn build(plan: &[Link], via: usize) -> Error {
    let (last, rest) = (&plan[0], &plan[1..]);
    if rest.len() == 1 && last.k == "cause" && rest[0].k == "text" && via % 3 == 1 {
        // sources may also be given as they are
        let s = StatusCode::from_u16(last.status).unwrap();
        return if via % 2 == 0 {
            Error::with_source(s, rest[0].t.clone())
        } else {
            Error::with_source(s, &*rest[0].t)
        };
    }
    let mut inner: Option<BoxedError> = None;
    for l in rest.iter().rev() {
        inner = Some(match l.k.as_str() {
            "own" => Own(l.t.clone(), inner).into(),
            "text" => l.t.clone().into(),
            _ => lib(l, inner, via).into(),
        });
    }
    lib(last, inner, via)
}

fn name(e: &(dyn std::error::Error + 'static)) -> String {
    if let Some(l) = e.downcast_ref::<Error>() {
        format!("lib{}", l.http_status().as_u16())
    } else if let Some(o) = e.downcast_ref::<Own>() {
        format!("own {}", o.0)
    } else {
        format!("text {}", e)
    }
}

fn look(op: &str, e: Error) -> (Value, Error) {
    let some = |o: Option<Vec<String>>| json!({"has": o.is_some(), "set": o.unwrap_or_default()});
    let mut v = match op {
        "status" => json!({"num": e.http_status().as_u16()}),
        "source" => {
            let s: Option<String> = e.source().map(name);
            json!({"has": s.is_some(), "seq": s.into_iter().collect::<Vec<_>>()})
        }
        "causes" => {
            let mut all = Vec::new();
            let mut at: &(dyn std::error::Error + 'static) = &e;
            while let Some(s) = std::error::Error::source(at) {
                all.push(name(s));
                at = s;
            }
            json!({"seq": all})
        }
        "display" => json!({"text": e.to_string()}),
        "response" => {
            let r = e.response();
            let mut v = some(allow_header(&r));
            v["num"] = r.status().as_u16().into();
            v
        }
        "allowed" => some(e.allowed_methods().map(|ms| method_set(ms.iter().map(|m| m.as_str())))),
        "box" => {
            let b: BoxedError = e.into();
            return match b.downcast::<Error>() {
                Ok(e) => (json!({"op": op}), *e),
                Err(b) => (json!({"op": op, "lost": b.to_string()}), Error::from_status(StatusCode::IM_A_TEAPOT)),
            };
        }
        "future" => {
            let f: DefaultFuture<u8, BoxedError> = e.into_future();
            return match f.wait().map_err(|b| b.downcast::<Error>()) {
                Err(Ok(e)) => (json!({"op": op}), *e),
                _ => (json!({"op": op, "lost": true}), Error::from_status(StatusCode::IM_A_TEAPOT)),
            };
        }
        o => panic!("unknown operation {}", o),
    };
    v["op"] = op.into();
    (v, e)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let path = std::env::args().nth(1).expect("usage: error CASES");
    let file = std::io::BufReader::new(std::fs::File::open(path).unwrap());
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for line in file.lines() {
        let l: Line = serde_json::from_str(&line.unwrap()).unwrap();
        // statuses are parsed outside of what may panic
        for x in &l.plan {
            if x.k == "status" || x.k == "cause" {
                StatusCode::from_u16(x.status).expect("no such status");
            }
        }
        let made = catch_unwind(AssertUnwindSafe(|| build(&l.plan, l.via)));
        let v = match made {
            Err(_) => json!({"id": l.id, "made": false, "seen": []}),
            Ok(e) => {
                let seen = catch_unwind(AssertUnwindSafe(|| {
                    let (mut e, mut seen) = (e, Vec::new());
                    for op in &l.ops {
                        let (v, next) = look(op, e);
                        seen.push(v);
                        e = next;
                    }
                    seen
                }));
                json!({"id": l.id, "made": true, "seen": seen.unwrap_or_else(|_| vec![json!("panic")])})
            }
        };
        writeln!(out, "{}", v).unwrap();
    }
}
