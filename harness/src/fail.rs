//! E01 beyond plain values: everything that pushes calls into something that may
//! fail is run against it failing at every call. What was seen is recorded and
//! judged by TLC (spec/TraceFail.tla).
use crate::rec::*;
use crate::tok::*;
use crate::Ctx;
use serde::Serialize as _;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashMap};
use sval::{Stream, Value};

/// What a target saw: its calls, the calls after it failed, and the result.
type Seen<T> = (Vec<T>, usize, bool);

struct Sweep<'c> { c: &'c mut Ctx, out: Vec<J>, max: usize }
impl<'c> Sweep<'c> {
    /// Undisturbed first, then failing at every call.
    fn run<T: PartialEq>(&mut self, name: &str, f: impl Fn(Option<usize>) -> Seen<T>) {
        let Some((all, after, ok)) = self.c.guard(name, || f(None)) else { return };
        let mut runs = vec![];
        for n in 0..=all.len() {
            // long ones are sampled, from both ends
            if n > self.max && n + self.max < all.len() { continue }
            let Some((got, after, ok)) = self.c.guard(name, || f(Some(n))) else { return };
            let same = got.len() <= all.len() && got[..] == all[..got.len()];
            runs.push(json!({"at": n, "made": got.len(), "same": same, "after": after, "ok": ok}));
            self.c.evals += 1;
        }
        self.c.count(name);
        self.out.push(json!({"name": name, "total": all.len(), "after": after, "ok": ok, "runs": runs}));
    }
    /// A stream.
    fn rec(&mut self, name: &str, f: impl Fn(&mut Rec) -> bool) {
        self.run(name, |n| { let mut s = Rec::full(); s.fail_at = n; let ok = f(&mut s); (s.toks, s.after, ok) })
    }
    /// Something inside fails: the result must say so.
    fn inner(&mut self, name: &str, f: impl FnOnce() -> bool) {
        if let Some(ok) = self.c.guard(name, f) { self.c.check(!ok, &format!("{name} holding a value that fails"), || json!("Ok"), || json!("Err")); }
    }
}

/// Writers that fail.
struct FailW { got: Vec<String>, at: Option<usize>, failed: bool, after: usize }
impl FailW {
    fn new(at: Option<usize>) -> FailW { FailW { got: vec![], at, failed: false, after: 0 } }
    fn call(&mut self, s: String) -> bool {
        if self.failed { self.after += 1; return false }
        if self.at == Some(self.got.len()) { self.failed = true; return false }
        self.got.push(s);
        true
    }
    fn seen(self, ok: bool) -> Seen<String> { (self.got, self.after, ok) }
}
impl std::fmt::Write for FailW { fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.call(s.to_string()) { Ok(()) } else { Err(std::fmt::Error) } } }
impl std::io::Write for FailW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.call(String::from_utf8_lossy(b).into_owned()) { Ok(b.len()) } else { Err(std::io::Error::new(std::io::ErrorKind::Other, "scripted")) } }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// A token writer that takes every token as one call.
struct FailT(FailW);
impl std::fmt::Write for FailT { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.write_str(s) } }
impl sval_fmt::TokenWrite for FailT {
    fn write_token<T: std::fmt::Display>(&mut self, _: &sval::Tag, t: T) -> std::fmt::Result { if self.0.call(t.to_string()) { Ok(()) } else { Err(std::fmt::Error) } }
}

#[derive(sval_derive::Value)]
struct Named<T> { a: T, #[sval(index = 4)] b: T, #[sval(skip)] #[allow(dead_code)] c: (), #[sval(tag = "sval::tags::NUMBER")] d: T }
#[derive(sval_derive::Value)]
struct Flat1<T> { a: bool, #[sval(flatten)] b: T, c: T }
#[derive(sval_derive::Value)]
#[sval(unlabeled_fields)]
struct Flat2<T> { a: bool, #[sval(flatten)] b: T, c: T }
#[derive(sval_derive::Value)]
#[sval(unlabeled_fields, unindexed_fields)]
struct Flat3<T> { a: bool, #[sval(flatten)] b: T, c: T }
#[derive(sval_derive::Value)]
#[sval(unindexed_fields)]
struct Flat4<T> { a: bool, #[sval(flatten)] b: T, c: T }
#[derive(sval_derive::Value)]
struct Unnamed<T>(T, T);
#[derive(sval_derive::Value)]
#[sval(tag = "sval::tags::NUMBER")]
struct New<T>(T);
#[derive(sval_derive::Value)]
#[sval(transparent)]
struct Clear<T>(T);
#[derive(sval_derive::Value)]
enum Variants<T> { A { a: T, #[sval(flatten)] b: T }, B(T, T), C(T) }
#[derive(sval_derive::Value)]
#[sval(dynamic)]
enum Dynamic<T> { A(T) }

struct MapBox<'a, V: ?Sized>(&'a V);
impl<'a, V: Value + ?Sized> Value for MapBox<'a, V> {
    fn stream<'s, S: Stream<'s> + ?Sized>(&'s self, s: &mut S) -> sval::Result {
        let e = [(self.0, self.0), (self.0, self.0)];
        s.value_computed(sval::MapSlice::new(&e))
    }
}

/// Every container of the crates, holding the value.
fn containers<V: Value>(name: &str, v: &V, f: &mut dyn FnMut(&str, &dyn Fn(&mut Rec) -> bool)) {
    macro_rules! one { ($($n:literal $e:expr;)*) => { $( { let x = $e; f(concat!($n), &|s| s.value(&x).is_ok()); } )* } }
    let _ = name;
    one! {
        "Vec" vec![v, v];
        "slice" [v, v];
        "box of slice" { let b: Box<[&V]> = vec![v, v].into(); b };
        "Some" Some(v);
        "Box" Box::new(v);
        "Ref" sval_ref::Ref::new(v);
        "tuple of 1" (v,);
        "tuple of 2" (v, true);
        "tuple of 3" (1u8, v, "x");
        "MapSlice" MapBox(v);
        "BTreeMap" { let mut m = BTreeMap::new(); m.insert(1u8, v); m.insert(2, v); m };
        "HashMap" { let mut m = HashMap::new(); m.insert("k", v); m };
        "dyn Value" { let b: Box<dyn sval_dynamic::Value + '_> = Box::new(v); b };
        "derived record" Named { a: v, b: v, c: (), d: v };
        "derived tuple" Unnamed(v, v);
        "derived newtype" New(v);
        "derived transparent" Clear(v);
        "derived record variant" Variants::A { a: v, b: v };
        "derived tuple variant" Variants::B(v, v);
        "derived newtype variant" Variants::C(v);
        "derived dynamic" Dynamic::A(v);
        "derived flatten" Flat1 { a: true, b: v, c: v };
        "derived flatten, unlabeled" Flat2 { a: true, b: v, c: v };
        "derived flatten, sequence" Flat3 { a: true, b: v, c: v };
        "derived flatten, unindexed" Flat4 { a: true, b: v, c: v };
    }
    f("tuple of Ref", &|s| sval_ref::stream_ref(s, &(sval_ref::to_ref(v), sval_ref::to_ref(v))).is_ok());
    f("Vec of Ref", &|s| sval_ref::stream_ref(s, &vec![sval_ref::to_ref(v), sval_ref::to_ref(v)]).is_ok());
    f("array of Ref", &|s| sval_ref::stream_ref(s, &[sval_ref::to_ref(v), sval_ref::to_ref(v)]).is_ok());
    f("value_computed", &|s| s.value_computed(v).is_ok());
    f("dyn Stream", &|s| { let s: &mut dyn sval_dynamic::Stream = s; s.value(v).is_ok() });
    f("dyn Stream, computed", &|s| { let s: &mut dyn sval_dynamic::Stream = s; s.value_computed(v).is_ok() });
}

fn sweep<V: Value>(c: &mut Ctx, v: &V, cut: &[&dyn sval_dynamic::Value], max: usize) -> Vec<J> {
    let mut w = Sweep { c, out: vec![], max };
    w.rec("stream", |s| v.stream(s).is_ok());
    containers("", v, &mut |name, f| w.rec(name, f));
    // adapters
    if let Some(Ok(b)) = w.c.guard("ValueBuf::collect", || sval_buffer::ValueBuf::collect(v)) {
        w.rec("ValueBuf", |s| b.stream(s).is_ok());
        w.rec("ValueBuf by Ref", |s| sval_ref::ValueRef::stream_ref(&b, s).is_ok());
        let val = b.to_value();
        w.rec("buffered value", |s| val.stream(s).is_ok());
        w.rec("buffered value by Ref", |s| sval_ref::ValueRef::stream_ref(&val, s).is_ok());
    }
    for target in crate::flat::TARGETS {
        w.rec(&format!("flattened onto {target}"), |s| s.value(&crate::flat::Around(target, v)).is_ok());
    }
    w.rec("through serde", |s| sval_serde::ToValue::new(sval_serde::ToSerialize::new(v)).stream(s).is_ok());
    for min in [false, true] {
        for (how, name) in crate::nested::HOWS {
            w.run(&format!("recursive {name}{}", if min { ", minimal" } else { "" }), |n| {
                let (r, rec) = crate::nested::run(v, min, how, n, false);
                let rec = std::rc::Rc::try_unwrap(rec).ok().map(|r| r.into_inner()).unwrap_or_default();
                (rec.toks, rec.after, r.is_ok())
            });
        }
    }
    w.run("serialize", |n| {
        let sink = crate::sserde::Sink { fail_at: n, ..Default::default() };
        let r = sval_serde::ToSerialize::new(v).serialize(crate::sserde::Ser(&sink)).is_ok();
        (vec![(); sink.calls.get()], sink.after.get(), r)
    });
    w.run("json to fmt", |n| { let mut o = FailW::new(n); let r = sval_json::stream_to_fmt_write(&mut o, v).is_ok(); o.seen(r) });
    w.run("json to io", |n| { let mut o = FailW::new(n); let r = sval_json::stream_to_io_write(&mut o, v).is_ok(); o.seen(r) });
    w.run("fmt", |n| { let mut o = FailW::new(n); let r = sval_fmt::stream_to_write(&mut o, v).is_ok(); o.seen(r) });
    w.run("fmt tokens", |n| { let mut o = FailT(FailW::new(n)); let r = sval_fmt::stream_to_token_write(&mut o, v).is_ok(); o.0.seen(r) });
    // values that fail by themselves
    for (n, v) in cut.iter().enumerate() {
        if n > max && n + max < cut.len() { continue }
        containers("", v, &mut |name, f| w.inner(name, || f(&mut Rec::full())));
        for target in crate::flat::TARGETS { w.inner(target, || Rec::full().value(&crate::flat::Around(target, v)).is_ok()); }
        w.inner("through serde", || sval_serde::ToValue::new(sval_serde::ToSerialize::new(v)).stream(&mut Rec::full()).is_ok());
        w.inner("ValueBuf", || sval_buffer::ValueBuf::collect(v).is_ok());
        w.inner("recursive", || crate::nested::run(v, false, crate::nested::How::Computed, None, false).0.is_ok());
        w.inner("serialize", || sval_serde::ToSerialize::new(v).serialize(crate::sserde::Ser(&Default::default())).is_ok());
        w.inner("json to fmt", || sval_json::stream_to_fmt_write(String::new(), v).is_ok());
        w.inner("json to io", || sval_json::stream_to_io_write(vec![], v).is_ok());
        w.inner("fmt", || sval_fmt::stream_to_write(String::new(), v).is_ok());
    }
    w.out
}

/// Token sequences.
pub fn e01a(v: &J, c: &mut Ctx) {
    let toks = toks_from(&v["toks"]);
    c.nontrivial = toks.len() > 3;
    let val = Nodes::new(&toks);
    let flat: Vec<Tok> = toks.iter().filter(|t| !matches!(t, Tok::ValOpen(_) | Tok::ValClose)).cloned().collect();
    let cuts: Vec<crate::flat::Failing> = (0..=flat.len()).map(|n| crate::flat::Failing(&flat[..n])).collect();
    let cuts: Vec<&dyn sval_dynamic::Value> = cuts.iter().map(|c| c as _).collect();
    let out = sweep(c, &val, &cuts, 12);
    c.traces.push(json!({"of": v["toks"], "cases": out}));
}
/// Values of the types sval knows.
pub fn e01s(v: &J, c: &mut Ctx) {
    let val = crate::stdv::build(&v["value"]);
    c.count(v["value"]["ty"].as_str().unwrap());
    c.nontrivial = v["toks"].as_array().unwrap().len() > 3;
    let out = sweep(c, &val, &[], 12);
    c.traces.push(json!({"of": v["value"], "cases": out}));
}
