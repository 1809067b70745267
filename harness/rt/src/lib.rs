//! Run-time support for the conformance harness: instrumented field types, scripted requests,
//! and the observation of results.
//!
//! Everything a request does is scripted by its [`Case`], which travels in the extensions of the
//! request; every call into user code is appended to the log of the case found in the request that
//! the code under test hands out.

pub mod ctx;
pub mod obs;
pub mod parts;
pub mod run;
pub mod script;
pub mod types;

pub use crate::ctx::*;
pub use crate::obs::*;
pub use crate::run::*;
pub use crate::script::*;
pub use crate::types::*;
pub use hyperdrive::{FromRequest, NoContext, RequestContext};
