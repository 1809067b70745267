// Field types defined with nothing but this library (and std).
extern crate hyperdrive;
pub use hyperdrive::{FromRequest, RequestContext};
#[derive(Debug, Clone, RequestContext)]
pub struct CtxA { pub tok: String }
#[derive(Debug, Clone, RequestContext)]
pub struct CtxB(pub String);
#[derive(Debug, Clone, RequestContext)]
pub struct Ctx { pub tok: String, #[as_ref] pub a: CtxA, #[as_ref] pub b: CtxB }
pub struct Even(pub u16);
impl std::str::FromStr for Even { type Err = std::num::ParseIntError; fn from_str(s: &str) -> Result<Self, Self::Err> { s.parse().map(Even) } }
pub struct Short(pub String);
impl std::str::FromStr for Short { type Err = std::num::ParseIntError; fn from_str(s: &str) -> Result<Self, Self::Err> { s.parse::<u8>().map(|_| Short(s.into())) } }
pub type QUnit = ();
pub type QMap = std::collections::BTreeMap<String, String>;
pub type QPairs = Vec<(String, String)>;
pub type QReq = std::collections::HashMap<String, u16>;
pub type QDef = Vec<(String, u8)>;
pub type QStrict = QMap;
pub type QSel = QMap;
pub type OptQReq = Option<QReq>;
pub type OptQMap = Option<QMap>;
pub type OptQStrict = Option<QStrict>;
pub type OptQDef = Option<QDef>;
pub struct Inert;
macro_rules! guards { ($($n:ident $c:ty;)*) => { $(
    pub struct $n<const K: usize>;
    impl<const K: usize> hyperdrive::Guard for $n<K> {
        type Context = $c;
        type Result = hyperdrive::DefaultFuture<Self, hyperdrive::BoxedError>;
        fn from_request(_: &std::sync::Arc<hyperdrive::http::Request<()>>, _: &$c) -> Self::Result {
            Box::new(hyperdrive::futures::future::ok($n))
        }
    }
)* } }
guards! { GN hyperdrive::NoContext; GA CtxA; GB CtxB; GC Ctx; }
pub struct GI<const K: usize>;
impl<const K: usize> hyperdrive::Guard for GI<K> {
    type Context = hyperdrive::NoContext;
    type Result = Result<Self, hyperdrive::BoxedError>;
    fn from_request(_: &std::sync::Arc<hyperdrive::http::Request<()>>, _: &hyperdrive::NoContext) -> Self::Result { Ok(GI) }
}
macro_rules! bodies { ($($n:ident $c:ty;)*) => { $(
    pub struct $n;
    impl hyperdrive::FromBody for $n {
        type Context = $c;
        type Result = hyperdrive::DefaultFuture<Self, hyperdrive::BoxedError>;
        fn from_body(_: &std::sync::Arc<hyperdrive::http::Request<()>>, _: hyperdrive::hyper::Body, _: &$c) -> Self::Result {
            Box::new(hyperdrive::futures::future::ok($n))
        }
    }
)* } }
bodies! { BRaw hyperdrive::NoContext; BRawA CtxA; BRawC Ctx; BErr hyperdrive::NoContext; }
pub struct BIgn;
impl hyperdrive::FromBody for BIgn {
    type Context = hyperdrive::NoContext;
    type Result = Result<Self, hyperdrive::BoxedError>;
    fn from_body(_: &std::sync::Arc<hyperdrive::http::Request<()>>, _: hyperdrive::hyper::Body, _: &hyperdrive::NoContext) -> Self::Result { Ok(BIgn) }
}
pub type JU16 = hyperdrive::body::Json<u16>;
pub type JStr = hyperdrive::body::Json<String>;
pub type JList = hyperdrive::body::Json<Vec<u16>>;
pub type JPt = hyperdrive::body::Json<QReq>;
pub type JOpt = hyperdrive::body::Json<Option<u16>>;
pub type FReq = hyperdrive::body::HtmlForm<QReq>;
pub type FMap = hyperdrive::body::HtmlForm<QMap>;
pub type FPairs = hyperdrive::body::HtmlForm<QPairs>;
pub type FDef = hyperdrive::body::HtmlForm<QDef>;
pub fn is_router<T: FromRequest + Send + 'static>() where T::Future: Send { }
