//! Rendering of values and errors as text.
use crate::script::text_of;
use crate::types::*;
use hyperdrive::BoxedError;
use serde_json::{json, Value};

pub trait Obs {
    fn obs(&self) -> String;
}

macro_rules! display {
    ($($t:ty)*) => { $( impl Obs for $t { fn obs(&self) -> String { self.to_string() } } )* }
}
display!(u8 u16 i16 bool char);

impl Obs for String {
    fn obs(&self) -> String {
        text_of(self.as_bytes())
    }
}
impl Obs for Even {
    fn obs(&self) -> String {
        self.0.to_string()
    }
}
impl Obs for Short {
    fn obs(&self) -> String {
        self.0.clone()
    }
}
impl Obs for () {
    fn obs(&self) -> String {
        "()".into()
    }
}
impl<T: Obs> Obs for Option<T> {
    fn obs(&self) -> String {
        match self {
            None => "-".into(),
            Some(t) => format!("+{}", t.obs()),
        }
    }
}
impl Obs for QMap {
    fn obs(&self) -> String {
        let all: Vec<_> = self.iter().map(|(k, v)| format!("{}={}", k.obs(), v.obs())).collect();
        format!("{{{}}}", all.join(","))
    }
}
impl Obs for QPairs {
    fn obs(&self) -> String {
        let all: Vec<_> = self.iter().map(|(k, v)| format!("{}={}", k.obs(), v.obs())).collect();
        format!("[{}]", all.join(","))
    }
}
impl Obs for Vec<u16> {
    fn obs(&self) -> String {
        let all: Vec<_> = self.iter().map(|n| n.to_string()).collect();
        format!("[{}]", all.join(","))
    }
}
impl Obs for QReq {
    fn obs(&self) -> String {
        format!("Req({},{})", self.id, self.name.obs())
    }
}
impl Obs for QDef {
    fn obs(&self) -> String {
        format!("Def({},{})", self.page, self.q.obs())
    }
}
impl Obs for QStrict {
    fn obs(&self) -> String {
        format!("Strict({})", self.id)
    }
}
impl Obs for QSel {
    fn obs(&self) -> String {
        format!("Sel({})", match self.kind { Kind::Asc => "asc", Kind::Desc => "desc" })
    }
}
impl Obs for Pt {
    fn obs(&self) -> String {
        format!("Pt({},{})", self.x, self.y.obs())
    }
}

/// Names an error by its type, and by its text where that is the harness's own.
pub fn name_error(e: &(dyn std::error::Error + 'static)) -> String {
    if e.downcast_ref::<std::num::ParseIntError>().is_some() {
        "ParseIntError".into()
    } else if e.downcast_ref::<std::str::ParseBoolError>().is_some() {
        "ParseBoolError".into()
    } else if e.downcast_ref::<std::char::ParseCharError>().is_some() {
        "ParseCharError".into()
    } else if let Some(t) = e.downcast_ref::<Tagged>() {
        t.0.clone()
    } else if e.downcast_ref::<serde_json::Error>().is_some() {
        "json".into()
    } else if e.downcast_ref::<serde_urlencoded::de::Error>().is_some() {
        "form".into()
    } else if let Some(h) = e.downcast_ref::<hyper::Error>() {
        let cause = std::error::Error::source(h).map(|c| c.to_string());
        format!("hyper({})", cause.unwrap_or_else(|| "no cause".into()))
    } else {
        format!("unknown error `{}`", e)
    }
}

const ORDER: &[&str] = &[
    "GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH",
];

/// A list of methods as a set, in a fixed order.
pub fn method_set<'a>(ms: impl IntoIterator<Item = &'a str>) -> Vec<String> {
    let ms: std::collections::BTreeSet<&str> = ms.into_iter().collect();
    let mut out: Vec<String> = ORDER.iter().filter(|m| ms.contains(*m)).map(|m| m.to_string()).collect();
    out.extend(ms.iter().filter(|m| !ORDER.contains(m)).map(|m| m.to_string()));
    out
}

/// The methods in the `Allow` headers of a response; `None` if there is no such header.
pub fn allow_header<B>(r: &http::Response<B>) -> Option<Vec<String>> {
    let mut any = false;
    let mut all = Vec::new();
    for v in r.headers().get_all(http::header::ALLOW) {
        any = true;
        all.extend(v.to_str().unwrap_or("?").split(',').map(|m| m.trim().to_string()).filter(|m| !m.is_empty()));
    }
    if any {
        Some(method_set(all.iter().map(|s| s.as_str())))
    } else {
        None
    }
}

pub fn res(k: &str, v: &str, status: u16, allow: Vec<String>, src: &str) -> Value {
    json!({"k": k, "v": v, "status": status, "allow": allow, "src": src})
}

/// The observable content of an error.
pub fn obs_error(e: &BoxedError) -> Value {
    if let Some(l) = e.downcast_ref::<hyperdrive::Error>() {
        let status = l.http_status().as_u16();
        let src = match l.source() {
            None => String::new(),
            Some(s) => match name_error(s).as_str() {
                "form" => "query".to_string(),
                other => other.to_string(),
            },
        };
        let listed = l.allowed_methods().map(|ms| method_set(ms.iter().map(|m| m.as_str())));
        let resp = l.response();
        let mut k = "lib";
        if allow_header(&resp) != listed || resp.status().as_u16() != status || listed.is_some() != (status == 405) {
            k = "inconsistent error";
        }
        res(k, "", status, listed.unwrap_or_default(), &src)
    } else {
        res("other", "", 0, vec![], &name_error(&**e))
    }
}

pub fn obs_result<R: Obs>(r: &Result<R, BoxedError>) -> Value {
    match r {
        Ok(v) => res("ok", &v.obs(), 0, vec![], ""),
        Err(e) => obs_error(e),
    }
}

/// The text of a panic payload.
pub fn payload(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&'static str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "opaque payload".into()
    }
}
