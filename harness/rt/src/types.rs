//! Field types for generated routers.
use crate::ctx::{Ctx, CtxA, CtxB, View};
use crate::obs::Obs;
use crate::script::{bytes_of, log_call, text_of, Case, Wait};
use futures::{Async, Future, Poll, Stream};
use hyperdrive::{BoxedError, DefaultFuture, FromBody, Guard, NoContext};
use serde::Deserialize;
use std::collections::BTreeMap;
use std::str::FromStr;
use std::sync::Arc;

/// The error of guards, bodies and conversions of the harness; its text identifies it.
#[derive(Debug)]
pub struct Tagged(pub String);
impl std::fmt::Display for Tagged {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Tagged {}

// ---------------------------------------------------------------- placeholders

#[derive(Debug, Clone, PartialEq)]
pub struct Even(pub u16);
impl FromStr for Even {
    type Err = Tagged;
    fn from_str(s: &str) -> Result<Self, Tagged> {
        match s.parse::<u16>() {
            Ok(n) if n % 2 == 0 => Ok(Even(n)),
            _ => Err(Tagged(format!("EvenErr({})", s))),
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Short(pub String);
impl FromStr for Short {
    type Err = Tagged;
    fn from_str(s: &str) -> Result<Self, Tagged> {
        if s.chars().count() <= 3 {
            Ok(Short(s.into()))
        } else {
            Err(Tagged(format!("ShortErr({})", s)))
        }
    }
}

// ---------------------------------------------------------------- forms and query strings

pub type QUnit = ();
pub type QMap = BTreeMap<String, String>;
pub type OptQReq = Option<QReq>;
pub type OptQMap = Option<QMap>;
pub type OptQStrict = Option<QStrict>;
pub type OptQDef = Option<QDef>;
pub type QPairs = Vec<(String, String)>;

#[derive(Debug, Clone, Deserialize)]
pub struct QReq {
    pub id: u16,
    pub name: Option<String>,
}

fn no_q() -> String {
    "none".into()
}
fn one() -> u8 {
    1
}
#[derive(Debug, Clone, Deserialize)]
pub struct QDef {
    #[serde(default = "one")]
    pub page: u8,
    #[serde(default = "no_q")]
    pub q: String,
}

#[derive(Debug, Clone, Deserialize)]
#[serde(deny_unknown_fields)]
pub struct QStrict {
    pub id: u16,
}

#[derive(Debug, Clone, Deserialize)]
#[serde(rename_all = "lowercase")]
pub enum Kind {
    Asc,
    Desc,
}
#[derive(Debug, Clone, Deserialize)]
pub struct QSel {
    pub kind: Kind,
}

// ---------------------------------------------------------------- guards

/// What a guard's script makes of it.
pub struct GuardFuture {
    name: String,
    case: Arc<Case>,
    pend: usize,
    wait: Wait,
}

impl GuardFuture {
    fn result(&self) -> Result<String, BoxedError> {
        let tok = &self.case.spec.tok;
        let script = self.case.guard(&self.name);
        match script.map(|s| s.out.as_str()).unwrap_or("ok") {
            "ok" => {
                self.case.log(format!("{}+", self.name));
                Ok(format!("{}#{}", self.name, tok))
            }
            "panic" => panic!("{}!{}", self.name, tok),
            out => {
                let script = script.unwrap();
                self.case.log(format!("{}-", self.name));
                let tag = Tagged(format!("{}!{}", self.name, tok));
                if out == "lib" && script.status == 405 {
                    Err(hyperdrive::Error::wrong_method(
                        script.allow.iter().map(|m| method(m)).collect::<Vec<_>>(),
                    )
                    .into())
                } else if out == "lib" {
                    Err(hyperdrive::Error::with_source(
                        http::StatusCode::from_u16(script.status).unwrap(),
                        tag,
                    )
                    .into())
                } else {
                    Err(tag.into())
                }
            }
        }
    }
}

/// The `http` constant for a method.
pub fn method(name: &str) -> &'static http::Method {
    match name {
        "GET" => &http::Method::GET,
        "HEAD" => &http::Method::HEAD,
        "POST" => &http::Method::POST,
        "PUT" => &http::Method::PUT,
        "DELETE" => &http::Method::DELETE,
        "CONNECT" => &http::Method::CONNECT,
        "OPTIONS" => &http::Method::OPTIONS,
        "TRACE" => &http::Method::TRACE,
        "PATCH" => &http::Method::PATCH,
        m => Box::leak(Box::new(m.parse().expect("no method"))),
    }
}

impl Future for GuardFuture {
    type Item = String;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<String, BoxedError> {
        while self.pend > 0 {
            match self.wait.poll(&self.case.spec.wait) {
                Ok(Async::Ready(())) => self.pend -= 1,
                Ok(Async::NotReady) => return Ok(Async::NotReady),
                Err(()) => panic!("wait failed"),
            }
        }
        self.result().map(Async::Ready)
    }
}

fn start(name: String, view: String, req: &Arc<http::Request<()>>) -> Result<GuardFuture, BoxedError> {
    match log_call(req, &format!("{}({})", name, view)) {
        Some(case) => {
            let pend = case.guard(&name).map(|s| s.pend).unwrap_or(0);
            Ok(GuardFuture { name, case, pend, wait: Wait::default() })
        }
        None => Err(Tagged("request without extensions".into()).into()),
    }
}

macro_rules! guards {
    ($($name:ident $ctx:ty;)*) => { $(
        #[derive(Debug, Clone)]
        pub struct $name<const K: usize>(pub String);
        impl<const K: usize> Guard for $name<K> {
            type Context = $ctx;
            type Result = DefaultFuture<Self, BoxedError>;
            fn from_request(req: &Arc<http::Request<()>>, ctx: &$ctx) -> Self::Result {
                let name = format!("{}{}", stringify!($name), K);
                match start(name, ctx.view(), req) {
                    Ok(f) => Box::new(f.map($name)),
                    Err(e) => Box::new(futures::future::err(e)),
                }
            }
        }
        impl<const K: usize> Obs for $name<K> {
            fn obs(&self) -> String { self.0.clone() }
        }
    )* }
}
guards! {
    GN NoContext;
    GA CtxA;
    GB CtxB;
    GC Ctx;
}

/// A guard that resolves immediately.
#[derive(Debug, Clone)]
pub struct GI<const K: usize>(pub String);
impl<const K: usize> Guard for GI<K> {
    type Context = NoContext;
    type Result = Result<Self, BoxedError>;
    fn from_request(req: &Arc<http::Request<()>>, ctx: &NoContext) -> Self::Result {
        start(format!("GI{}", K), ctx.view(), req)?.result().map(GI)
    }
}
impl<const K: usize> Obs for GI<K> {
    fn obs(&self) -> String {
        self.0.clone()
    }
}

/// Not a guard, body, router or anything else: only for fields that are never filled.
#[derive(Debug, Clone)]
pub struct Inert;

// ---------------------------------------------------------------- bodies

macro_rules! raw_bodies {
    ($($name:ident $ctx:ty;)*) => { $(
        #[derive(Debug, Clone)]
        pub struct $name(pub String);
        impl FromBody for $name {
            type Context = $ctx;
            type Result = DefaultFuture<Self, BoxedError>;
            fn from_body(req: &Arc<http::Request<()>>, body: hyper::Body, ctx: &$ctx) -> Self::Result {
                log_call(req, &format!("{}({})", stringify!($name), ctx.view()));
                Box::new(
                    body.map_err(BoxedError::from)
                        .fold(Vec::new(), |mut all, chunk| -> Result<_, BoxedError> {
                            all.extend_from_slice(&chunk);
                            Ok(all)
                        })
                        .map(|all| $name(text_of(&all))),
                )
            }
        }
        impl Obs for $name {
            fn obs(&self) -> String { format!("{}({})", stringify!($name), self.0) }
        }
    )* }
}
raw_bodies! {
    BRaw NoContext;
    BRawA CtxA;
    BRawC Ctx;
}

/// Does not read the body.
#[derive(Debug, Clone)]
pub struct BIgn;
impl FromBody for BIgn {
    type Context = NoContext;
    type Result = Result<Self, BoxedError>;
    fn from_body(req: &Arc<http::Request<()>>, _: hyper::Body, ctx: &NoContext) -> Self::Result {
        log_call(req, &format!("BIgn({})", ctx.view()));
        Ok(BIgn)
    }
}
impl Obs for BIgn {
    fn obs(&self) -> String {
        "BIgn()".into()
    }
}

/// Fails without reading the body.
#[derive(Debug, Clone)]
pub struct BErr;
impl FromBody for BErr {
    type Context = NoContext;
    type Result = Result<Self, BoxedError>;
    fn from_body(req: &Arc<http::Request<()>>, _: hyper::Body, ctx: &NoContext) -> Self::Result {
        let case = log_call(req, &format!("BErr({})", ctx.view()));
        let tok = case.map(|c| c.spec.tok.clone()).unwrap_or_default();
        Err(hyperdrive::Error::with_source(
            http::StatusCode::UNPROCESSABLE_ENTITY,
            Tagged(format!("BErr!{}", tok)),
        )
        .into())
    }
}
impl Obs for BErr {
    fn obs(&self) -> String {
        "BErr()".into()
    }
}

#[derive(Debug, Clone, Deserialize)]
pub struct Pt {
    pub x: i16,
    pub y: Option<i16>,
}

pub type JU16 = hyperdrive::body::Json<u16>;
pub type JStr = hyperdrive::body::Json<String>;
pub type JList = hyperdrive::body::Json<Vec<u16>>;
pub type JPt = hyperdrive::body::Json<Pt>;
pub type JOpt = hyperdrive::body::Json<Option<u16>>;
pub type FReq = hyperdrive::body::HtmlForm<QReq>;
pub type FMap = hyperdrive::body::HtmlForm<QMap>;
pub type FPairs = hyperdrive::body::HtmlForm<QPairs>;
pub type FDef = hyperdrive::body::HtmlForm<QDef>;

/// Wrapped bodies are told apart by what they decode to.
pub trait Inner {
    fn json_name() -> &'static str {
        "J?"
    }
    fn form_name() -> &'static str {
        "F?"
    }
}
impl Inner for u16 {
    fn json_name() -> &'static str {
        "JU16"
    }
}
impl Inner for Option<u16> {
    fn json_name() -> &'static str {
        "JOpt"
    }
}
impl Inner for String {
    fn json_name() -> &'static str {
        "JStr"
    }
}
impl Inner for Vec<u16> {
    fn json_name() -> &'static str {
        "JList"
    }
}
impl Inner for Pt {
    fn json_name() -> &'static str {
        "JPt"
    }
}
impl Inner for QReq {
    fn form_name() -> &'static str {
        "FReq"
    }
}
impl Inner for QMap {
    fn form_name() -> &'static str {
        "FMap"
    }
}
impl Inner for QPairs {
    fn form_name() -> &'static str {
        "FPairs"
    }
}
impl Inner for QDef {
    fn form_name() -> &'static str {
        "FDef"
    }
}

impl<T: Inner + Obs + serde::de::DeserializeOwned + Send + 'static> Obs for hyperdrive::body::Json<T> {
    fn obs(&self) -> String {
        format!("{}({})", T::json_name(), self.0.obs())
    }
}
impl<T: Inner + Obs + serde::de::DeserializeOwned + Send + 'static> Obs for hyperdrive::body::HtmlForm<T> {
    fn obs(&self) -> String {
        format!("{}({})", T::form_name(), self.0.obs())
    }
}

/// Silences the unused import when no text of bytes is needed.
#[doc(hidden)]
pub fn _bytes(s: &str) -> Vec<u8> {
    bytes_of(s)
}
