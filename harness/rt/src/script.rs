use futures::{Async, Future, Poll, Stream};
use serde::Deserialize;
use std::sync::{Arc, Mutex};

#[derive(Deserialize, Clone, Debug)]
pub struct GuardScript {
    pub g: String,
    pub pend: usize,
    pub out: String,
    pub status: u16,
    pub allow: Vec<String>,
}

#[derive(Deserialize, Clone, Debug)]
pub struct Piece {
    pub k: String,
    pub t: String,
}

#[derive(Deserialize, Clone, Debug)]
pub struct CaseSpec {
    pub id: u64,
    pub router: String,
    pub method: String,
    pub target: String,
    pub tok: String,
    #[serde(default)]
    pub headers: Vec<(String, String)>,
    pub guards: Vec<GuardScript>,
    pub body: Vec<Piece>,
    /// What guards and bodies that are not ready yet wait for.
    #[serde(default)]
    pub wait: String,
}

/// One request under way: its script, and the log of what user code saw.
pub struct Case {
    pub spec: CaseSpec,
    pub log: Mutex<Vec<String>>,
    pub version: http::Version,
    /// Whether the request's body was given up.
    pub body_gone: std::sync::atomic::AtomicBool,
}

/// Put into the extensions of a request.
#[derive(Clone)]
pub struct CaseRef(pub Arc<Case>);

impl Case {
    pub fn new(spec: CaseSpec) -> Arc<Self> {
        let version = if spec.id % 2 == 0 {
            http::Version::HTTP_11
        } else {
            http::Version::HTTP_10
        };
        Arc::new(Case {
            spec,
            log: Mutex::new(Vec::new()),
            version,
            body_gone: Default::default(),
        })
    }

    pub fn log(&self, e: impl Into<String>) {
        self.log.lock().unwrap_or_else(|e| e.into_inner()).push(e.into());
    }

    pub fn take_log(&self) -> Vec<String> {
        self.log.lock().unwrap_or_else(|e| e.into_inner()).clone()
    }

    pub fn guard(&self, name: &str) -> Option<&GuardScript> {
        self.spec.guards.iter().find(|g| g.g == name)
    }

    /// The request of this case, or `None` if the `http` crate does not accept its target.
    pub fn request(self: &Arc<Self>) -> Option<http::Request<hyper::Body>> {
        let uri = self.spec.target.parse::<http::Uri>().ok()?;
        let mut b = http::Request::builder();
        b.method(self.spec.method.as_str());
        b.uri(uri);
        b.version(self.version);
        for (k, v) in &self.spec.headers {
            b.header(k.as_str(), v.as_str());
        }
        b.header("x-tok", self.spec.tok.as_str());
        b.extension(CaseRef(self.clone()));
        let body = ScriptedBody {
            case: self.clone(),
            next: 0,
            started: false,
            wait: Wait::default(),
        };
        Some(b.body(hyper::Body::wrap_stream(body)).unwrap())
    }

    /// Whether a request is the one of this case in every respect.
    pub fn check_request<T>(&self, req: &http::Request<T>) -> Result<(), String> {
        let want_uri = self.spec.target.parse::<http::Uri>().unwrap();
        if req.method().as_str() != self.spec.method {
            return Err(format!("method {}", req.method()));
        }
        if *req.uri() != want_uri || req.uri().to_string() != want_uri.to_string() {
            return Err(format!("uri {}", req.uri()));
        }
        if req.version() != self.version {
            return Err(format!("version {:?}", req.version()));
        }
        let mut want = self.spec.headers.clone();
        want.push(("x-tok".into(), self.spec.tok.clone()));
        if req.headers().len() != want.len() {
            return Err(format!("headers {:?}", req.headers()));
        }
        for (k, _) in &want {
            let w: Vec<&str> = want.iter().filter(|(n, _)| n == k).map(|(_, v)| v.as_str()).collect();
            let g: Vec<&str> = req
                .headers()
                .get_all(k.as_str())
                .iter()
                .map(|v| v.to_str().unwrap_or("?"))
                .collect();
            if w != g {
                return Err(format!("header {} {:?}", k, g));
            }
        }
        Ok(())
    }
}

/// Finds the case a request belongs to and logs a call made with it.
pub fn log_call(req: &http::Request<()>, what: &str) -> Option<Arc<Case>> {
    match req.extensions().get::<CaseRef>() {
        Some(CaseRef(case)) => {
            case.log(what);
            if let Err(e) = case.check_request(req) {
                case.log(format!("{} saw another request: {}", what, e));
            }
            Some(case.clone())
        }
        None => None,
    }
}

/// The bytes of a text whose characters stand for one byte each.
pub fn bytes_of(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}

/// The text standing for some bytes.
pub fn text_of(b: &[u8]) -> String {
    b.iter().map(|&b| b as char).collect()
}

/// Something to wait for, as user code may.
#[derive(Default)]
pub struct Wait(Option<Box<dyn Future<Item = (), Error = ()> + Send>>);

impl Wait {
    pub fn poll(&mut self, kind: &str) -> Poll<(), ()> {
        if kind == "" {
            if self.0.take().is_some() {
                return Ok(Async::Ready(()));
            }
            self.0 = Some(Box::new(futures::future::ok(())));
            futures::task::current().notify();
            return Ok(Async::NotReady);
        }
        let fut = self.0.get_or_insert_with(|| {
            let soon = std::time::Duration::from_millis(2);
            match kind {
                "timer" => Box::new(tokio::timer::Delay::new(std::time::Instant::now() + soon).map_err(|e| panic!("timer: {}", e))) as Box<_>,
                "spawn" => {
                    let (tx, rx) = futures::sync::oneshot::channel();
                    tokio::spawn(futures::future::lazy(move || tx.send(()).map_err(|_| ())));
                    Box::new(rx.map_err(|e| panic!("spawned task: {}", e)))
                }
                "thread" => {
                    let (tx, rx) = futures::sync::oneshot::channel();
                    std::thread::spawn(move || {
                        std::thread::sleep(soon);
                        tx.send(()).ok();
                    });
                    Box::new(rx.map_err(|e| panic!("thread: {}", e)))
                }
                k => panic!("unknown kind of wait {}", k),
            }
        });
        match fut.poll() {
            Ok(Async::Ready(())) => {
                self.0 = None;
                Ok(Async::Ready(()))
            }
            other => other,
        }
    }
}

pub struct ScriptedBody {
    case: Arc<Case>,
    next: usize,
    started: bool,
    wait: Wait,
}

impl Drop for ScriptedBody {
    fn drop(&mut self) {
        self.case.body_gone.store(true, std::sync::atomic::Ordering::SeqCst);
    }
}

impl Stream for ScriptedBody {
    type Item = Vec<u8>;
    type Error = Box<dyn std::error::Error + Send + Sync>;

    fn poll(&mut self) -> Poll<Option<Vec<u8>>, Self::Error> {
        if !self.started {
            self.started = true;
            self.case.log("read");
        }
        loop {
            let piece = match self.case.spec.body.get(self.next) {
                Some(p) => p.clone(),
                None => return Ok(Async::Ready(None)),
            };
            match piece.k.as_str() {
                "d" => {
                    self.next += 1;
                    return Ok(Async::Ready(Some(bytes_of(&piece.t))));
                }
                "p" => match self.wait.poll(&self.case.spec.wait) {
                    Ok(Async::Ready(())) => self.next += 1,
                    Ok(Async::NotReady) => return Ok(Async::NotReady),
                    Err(()) => panic!("wait failed"),
                },
                "e" => {
                    self.next += 1;
                    return Err(piece.t.into());
                }
                k => panic!("unknown kind of body piece {}", k),
            }
        }
    }
}
