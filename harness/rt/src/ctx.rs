use crate::script::CaseSpec;
use hyperdrive::{NoContext, RequestContext};

#[derive(Debug, Clone, RequestContext)]
pub struct CtxA {
    pub tok: String,
}

#[derive(Debug, Clone, RequestContext)]
pub struct CtxB(pub String);

#[derive(Debug, Clone, RequestContext)]
pub struct Ctx {
    pub tok: String,
    #[as_ref]
    pub a: CtxA,
    #[as_ref]
    pub b: CtxB,
}

/// A context type that a case can supply.
pub trait FromCase: Clone + Send + Sync + 'static {
    fn from_case(spec: &CaseSpec) -> Self;
}

impl FromCase for NoContext {
    fn from_case(_: &CaseSpec) -> Self {
        NoContext
    }
}
impl FromCase for CtxA {
    fn from_case(s: &CaseSpec) -> Self {
        CtxA { tok: s.tok.clone() }
    }
}
impl FromCase for CtxB {
    fn from_case(s: &CaseSpec) -> Self {
        CtxB(s.tok.clone())
    }
}
impl FromCase for Ctx {
    fn from_case(s: &CaseSpec) -> Self {
        Ctx {
            tok: s.tok.clone(),
            a: FromCase::from_case(s),
            b: FromCase::from_case(s),
        }
    }
}

/// How the context given to a guard or body is logged.
pub trait View {
    fn view(&self) -> String;
}
impl View for NoContext {
    fn view(&self) -> String {
        "-".into()
    }
}
impl View for CtxA {
    fn view(&self) -> String {
        format!("A{}", self.tok)
    }
}
impl View for CtxB {
    fn view(&self) -> String {
        format!("B{}", self.0)
    }
}
impl View for Ctx {
    fn view(&self) -> String {
        format!("C{}/{}/{}", self.tok, self.a.view(), self.b.view())
    }
}
