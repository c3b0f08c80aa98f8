//! Collects what replaying showed.
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Without an allocator whatever needs one may be refused.
pub fn may_refuse(easy: &J) -> bool { cfg!(not(feature = "alloc")) && easy != &J::Bool(true) }

/// Collects what one vector showed.
#[derive(Default)]
pub struct Ctx {
    pub evals: usize,
    pub fails: Vec<J>,
    pub nontrivial: bool,
    pub counts: std::collections::BTreeMap<String, usize>,
    /// traces recorded from the implementation, to be validated by TLC
    pub traces: Vec<J>,
}
impl Ctx {
    pub fn count(&mut self, what: &str) { *self.counts.entry(what.to_string()).or_default() += 1; }
    pub fn fail(&mut self, what: &str, got: impl Into<J>, exp: impl Into<J>) {
        if self.fails.len() < 5 { self.fails.push(json!({"what": what, "got": got.into(), "expected": exp.into()})); }
    }
    pub fn check(&mut self, ok: bool, what: &str, got: impl FnOnce() -> J, exp: impl FnOnce() -> J) {
        self.evals += 1;
        if !ok { let (g, e) = (got(), exp()); self.fail(what, g, e); }
    }
    /// Run code under test; a panic is a failure.
    pub fn guard<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Option<R> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(p) => {
                let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.evals += 1;
                self.fail(&format!("{what}: panicked: {msg}"), J::Null, J::Null);
                None
            }
        }
    }
}
