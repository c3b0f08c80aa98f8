//! S02, S03, S04, E01: lowering, wrappers, borrowed-ness, failures.
use crate::rec::*;
use crate::tok::*;
use crate::Ctx;
use serde_json::{json, Value as J};
use sval::{Result, Stream, Value};

fn cmp(c: &mut Ctx, what: &str, got: &[Tok], exp: &[Tok]) {
    c.check(got == exp, what, || toks_json(got), || toks_json(exp));
}
fn cmp_merged(c: &mut Ctx, what: &str, got: &[Tok], exp: &[Tok]) {
    c.check(same_merged(got, exp), what, || toks_json(got), || toks_json(exp));
}
fn ok(c: &mut Ctx, what: &str, r: &Result) {
    c.check(r.is_ok(), &format!("{what}: result"), || json!("Err"), || json!("Ok"));
}
fn nontrivial(toks: &[Tok]) -> bool { toks.len() > 3 }

pub fn s02(v: &J, c: &mut Ctx) {
    let toks = toks_from(&v["toks"]);
    c.nontrivial = nontrivial(&toks);
    for t in &toks { c.count(t.kind()); }
    let val = Nodes::new(&toks);
    macro_rules! named {
        ($ty:ident, $name:literal) => {
            let exp = toks_from(&v["named"][$name]);
            let mut s = $ty::default();
            if let Some(r) = c.guard($name, || val.stream(&mut s)) { ok(c, $name, &r); cmp_merged(c, $name, &s.0.toks, &exp); }
            // the same, declared through the mask
            let mut s = Rec::masked(mask_of($ty::IMPL.iter().copied()));
            if let Some(r) = c.guard(concat!($name, " (default_stream)"), || val.stream(&mut s)) { ok(c, $name, &r); cmp_merged(c, concat!($name, " (default_stream)"), &s.toks, &exp); }
        };
    }
    named!(Minimal, "minimal");
    named!(Maps, "maps");
    named!(Tagged, "tagged");
    named!(Recs, "recs");
    let ms: Vec<&str> = v["rnd"]["ms"].as_array().unwrap().iter().map(|m| m.as_str().unwrap()).collect();
    let exp = toks_from(&v["rnd"]["out"]);
    let mut s = Rec::masked(mask_of(ms.iter().copied()));
    if let Some(r) = c.guard("random profile", || val.stream(&mut s)) { ok(c, "random profile", &r); cmp_merged(c, "random profile", &s.toks, &exp); }
}

/// Ways of streaming a value into a recorder that must make no difference.
pub const WRAPPERS: &[&str] = &[
    "direct", "sval::stream", "&mut S", "&mut &mut S", "&mut dyn", "dyn in dyn", "&V", "dyn V",
    #[cfg(feature = "alloc")] "Box<S>", #[cfg(feature = "alloc")] "Box<dyn>", #[cfg(feature = "alloc")] "Box<V>", #[cfg(feature = "alloc")] "&Box<&V>", #[cfg(feature = "alloc")] "Box<dyn V>", #[cfg(feature = "alloc")] "Box<Ref> stream_ref",
    "dyn V, dyn S", "Ref<V>", "Ref<&V>", "stream_ref", "Ref::new_borrowed", "&Ref stream_ref", "s.value", "to_ref",
];
/// Those that keep value()/value_computed() calls visible.
fn keeps_markers(w: &str) -> bool { !w.contains("dyn") }

pub fn via<'a>(w: &str, v: &'a Nodes, wrapped: &'a Wrapped<'a>, s: &mut Rec) -> Result {
    use sval_ref::ValueRef;
    match w {
        "direct" => v.stream(s),
        "sval::stream" => sval::stream(s, v),
        "&mut S" => { let mut s = s; v.stream(&mut s) }
        "&mut &mut S" => { let mut s = s; let mut s2 = &mut s; v.stream(&mut s2) }
        #[cfg(feature = "alloc")] "Box<S>" => {
            let mut b = Box::new(std::mem::take(s));
            let r = v.stream(&mut b);
            *s = *b;
            r
        }
        "&mut dyn" => { let s: &mut dyn sval_dynamic::Stream = s; v.stream(s) }
        #[cfg(feature = "alloc")] "Box<dyn>" => { let mut s: Box<dyn sval_dynamic::Stream + '_> = Box::new(s); v.stream(&mut s) }
        "dyn in dyn" => {
            let mut s: &mut dyn sval_dynamic::Stream = s;
            let s: &mut dyn sval_dynamic::Stream = &mut s;
            v.stream(s)
        }
        "&V" => wrapped.r.stream(s),
        #[cfg(feature = "alloc")] "Box<V>" => wrapped.b.stream(s),
        #[cfg(feature = "alloc")] "&Box<&V>" => wrapped.rb.stream(s),
        "dyn V" => wrapped.d.stream(s),
        #[cfg(feature = "alloc")] "Box<dyn V>" => wrapped.bd.stream(s),
        "dyn V, dyn S" => { let s: &mut dyn sval_dynamic::Stream = s; wrapped.d.stream(s) }
        "Ref<V>" => wrapped.rf.stream(s),
        "Ref<&V>" => wrapped.rfr.stream(s),
        "stream_ref" => sval_ref::stream_ref(s, wrapped.rfr),
        "Ref::new_borrowed" => sval_ref::Ref::new_borrowed(v).stream(s),
        "&Ref stream_ref" => (&&wrapped.rfr).stream_ref(s),
        #[cfg(feature = "alloc")] "Box<Ref> stream_ref" => Box::new(wrapped.rfr).stream_ref(s),
        "to_ref" => sval_ref::to_ref(v).stream_ref(s),
        "s.value" => s.value(v),
        w => panic!("unknown wrapper {w}"),
    }
}
pub struct Wrapped<'a> {
    r: &'a &'a Nodes, b: Box<Nodes>, rb: Box<&'a Nodes>, d: &'a dyn sval_dynamic::Value, bd: Box<dyn sval_dynamic::Value>,
    rf: sval_ref::Ref<Nodes>, rfr: sval_ref::Ref<&'a Nodes>,
}

pub fn s03(v: &J, c: &mut Ctx) {
    let toks = toks_from(&v["toks"]);
    c.nontrivial = nontrivial(&toks);
    let flat = toks_from(&v["flat"]);
    let val = Nodes::new(&toks);
    let rv = &val;
    let w = Wrapped { r: &rv, b: Box::new(val.clone()), rb: Box::new(&val), d: &val, bd: Box::new(val.clone()), rf: sval_ref::Ref::new(val.clone()), rfr: sval_ref::Ref::new(&val) };
    let mut direct = Rec::marked();
    if c.guard("direct", || val.stream(&mut direct)).is_none() { return; }
    for name in WRAPPERS {
        c.count(name);
        let mut s = Rec::full();
        if let Some(r) = c.guard(name, || via(name, &val, &w, &mut s)) { ok(c, name, &r); cmp(c, name, &s.toks, &flat); }
        // calls the stream does not implement must be lowered by the stream, not the wrapper
        let mut s = Rec::masked(mask_of(Recs::IMPL.iter().copied()));
        let exp = toks_from(&v["named"]["recs"]);
        if let Some(r) = c.guard(name, || via(name, &val, &w, &mut s)) { ok(c, name, &r); cmp_merged(c, &format!("{name} (partial stream)"), &s.toks, &exp); }
        if keeps_markers(name) && *name != "s.value" && *name != "sval::stream" {
            let mut s = Rec::marked();
            if let Some(r) = c.guard(name, || via(name, &val, &w, &mut s)) { ok(c, name, &r); cmp(c, &format!("{name} (value calls)"), &s.toks, &direct.toks); }
        }
        // the result is the stream's result
        if !flat.is_empty() {
            let n = (toks.len() * 7 + name.len()) % flat.len();
            let mut s = Rec::failing(n);
            if let Some(r) = c.guard(name, || via(name, &val, &w, &mut s)) {
                c.check(r.is_err(), &format!("{name}: failure of call {n} is returned"), || json!("Ok"), || json!("Err"));
                cmp(c, &format!("{name}: calls before failing"), &s.toks, &flat[..n]);
                c.check(s.after == 0, &format!("{name}: calls after the failure"), || json!(s.after), || json!(0));
            }
        }
    }
    // conversions
    asked(c, "tokens", &val);
    let seed = toks.iter().fold(toks.len() as u64, |h, t| h.wrapping_mul(31).wrapping_add(t.kind().len() as u64 * 7 + t.kind().as_bytes()[0] as u64));
    asked(c, "own answers", &Says(seed, format!("text {seed}"), vec![seed as u8; 3]));
}

/// A value with answers of its own, which only it can give.
#[derive(Clone)]
struct Says(u64, String, Vec<u8>);
impl Says { fn n(&self, k: u64) -> Option<u64> { let x = self.0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(k.wrapping_mul(0xD1B5_4A32_D192_ED03)); (x >> 60 != 0).then(|| x >> 7) } }
impl Value for Says {
    fn stream<'s, S: Stream<'s> + ?Sized>(&'s self, s: &mut S) -> Result { s.null() }
    fn tag(&self) -> Option<sval::Tag> { Some(if self.0 % 2 == 0 { sval::tags::NUMBER } else { sval::tags::RUST_UNIT }) }
    fn to_bool(&self) -> Option<bool> { self.n(1).map(|x| x % 2 == 0) }
    fn to_f32(&self) -> Option<f32> { self.n(2).map(|x| x as f32) }
    fn to_f64(&self) -> Option<f64> { self.n(3).map(|x| x as f64) }
    fn to_i8(&self) -> Option<i8> { self.n(4).map(|x| x as _) }
    fn to_i16(&self) -> Option<i16> { self.n(5).map(|x| x as _) }
    fn to_i32(&self) -> Option<i32> { self.n(6).map(|x| x as _) }
    fn to_i64(&self) -> Option<i64> { self.n(7).map(|x| x as _) }
    fn to_i128(&self) -> Option<i128> { self.n(8).map(|x| x as _) }
    fn to_u8(&self) -> Option<u8> { self.n(9).map(|x| x as _) }
    fn to_u16(&self) -> Option<u16> { self.n(10).map(|x| x as _) }
    fn to_u32(&self) -> Option<u32> { self.n(11).map(|x| x as _) }
    fn to_u64(&self) -> Option<u64> { self.n(12) }
    fn to_u128(&self) -> Option<u128> { self.n(13).map(|x| x as _) }
    fn to_text(&self) -> Option<&str> { self.n(14).map(|_| &*self.1) }
    fn to_binary(&self) -> Option<&[u8]> { self.n(15).map(|_| &*self.2) }
}
fn asked<V: Value + Clone + 'static>(c: &mut Ctx, what: &str, v: &V) {
    use crate::cast::ask;
    let Some(want) = c.guard(what, || ask(v)) else { return };
    let d: &dyn sval_dynamic::Value = v;
    let (r, rr) = (&v, &&v);
    let (rf, rfr) = (sval_ref::Ref::new(v.clone()), sval_ref::Ref::new(v));
    let cases: &[(&str, &dyn Fn() -> (crate::cast::Got, Option<String>))] = &[
        ("&V", &|| ask(r)), ("&&V", &|| ask(rr)), ("dyn V", &|| ask(d)), ("&dyn V", &|| ask(&d)),
        ("Ref<V>", &|| ask(&rf)), ("Ref<&V>", &|| ask(&rfr)), ("Ref::new_borrowed", &|| ask(sval_ref::Ref::new_borrowed(v))), ("Ref<&dyn V>", &|| ask(&sval_ref::Ref::new(d))),
        #[cfg(feature = "alloc")] ("Box<V>", &|| ask(&Box::new(v.clone()))), #[cfg(feature = "alloc")] ("Box<&V>", &|| ask(&Box::new(v))),
        #[cfg(feature = "alloc")] ("Box<dyn V>", &|| { let b: Box<dyn sval_dynamic::Value> = Box::new(v.clone()); ask(&b) }),
        #[cfg(feature = "alloc")] ("dyn Box<dyn V>", &|| { let b: Box<dyn sval_dynamic::Value> = Box::new(v.clone()); let d: &dyn sval_dynamic::Value = &b; ask(d) }),
    ];
    for (name, f) in cases {
        if let Some(got) = c.guard(name, f) { c.check(got == want, &format!("{what}: conversions of {name}"), || json!(format!("{got:?}")), || json!(format!("{want:?}"))); }
    }
    // marked as able to be sent elsewhere
    let s = Says(v as *const V as u64, "s".into(), vec![]);
    let (a, b): (&(dyn sval_dynamic::Value + Send), &(dyn sval_dynamic::Value + Send + Sync)) = (&s, &s);
    let want = ask(&s);
    for (name, got) in [("dyn Send", c.guard("ask", || ask(a))), ("dyn Send + Sync", c.guard("ask", || ask(b)))] {
        if let Some(got) = got { c.check(got == want, name, || json!(format!("{got:?}")), || json!(format!("{want:?}"))); }
    }
}

fn all_computed(t: &[Tok]) -> Vec<Tok> {
    t.iter().cloned().map(|t| match t { Tok::TextFrag(s, _) => Tok::TextFrag(s, false), Tok::BinFrag(s, _) => Tok::BinFrag(s, false), t => t }).collect()
}

pub fn s04(v: &J, c: &mut Ctx) {
    let toks = toks_from(&v["toks"]);
    let flat = toks_from(&v["flat"]);
    let frags = flat.iter().filter(|t| matches!(t, Tok::TextFrag(..) | Tok::BinFrag(..))).count();
    c.nontrivial = frags > 0;
    let val = Nodes::new(&toks);
    let short = all_computed(&flat);
    // a stream that keeps what it was lent for 'sval
    struct Keep<'a> { texts: Vec<&'a str>, bins: Vec<&'a [u8]>, rec: Rec }
    impl<'a> Stream<'a> for Keep<'a> {
        fn null(&mut self) -> Result { Ok(()) }
        fn bool(&mut self, _: bool) -> Result { Ok(()) }
        fn text_begin(&mut self, _: Option<usize>) -> Result { Ok(()) }
        fn text_fragment(&mut self, f: &'a str) -> Result { self.texts.push(f); self.rec.call(Tok::TextFrag(f.to_string(), true)) }
        fn text_fragment_computed(&mut self, _: &str) -> Result { Ok(()) }
        fn text_end(&mut self) -> Result { Ok(()) }
        fn binary_begin(&mut self, _: Option<usize>) -> Result { Ok(()) }
        fn binary_fragment(&mut self, f: &'a [u8]) -> Result { self.bins.push(f); self.rec.call(Tok::BinFrag(f.to_vec(), true)) }
        fn binary_fragment_computed(&mut self, _: &[u8]) -> Result { Ok(()) }
        fn binary_end(&mut self) -> Result { Ok(()) }
        fn i64(&mut self, _: i64) -> Result { Ok(()) }
        fn f64(&mut self, _: f64) -> Result { Ok(()) }
        fn u128(&mut self, _: u128) -> Result { Ok(()) }
        fn i128(&mut self, _: i128) -> Result { Ok(()) }
        fn seq_begin(&mut self, _: Option<usize>) -> Result { Ok(()) }
        fn seq_value_begin(&mut self) -> Result { Ok(()) }
        fn seq_value_end(&mut self) -> Result { Ok(()) }
        fn seq_end(&mut self) -> Result { Ok(()) }
        fn tag(&mut self, _: Option<&sval::Tag>, _: Option<&sval::Label>, _: Option<&sval::Index>) -> Result { Ok(()) }
        fn record_value_begin(&mut self, _: Option<&sval::Tag>, _: &sval::Label) -> Result { Ok(()) }
        fn record_value_end(&mut self, _: Option<&sval::Tag>, _: &sval::Label) -> Result { Ok(()) }
        fn map_key_begin(&mut self) -> Result { Ok(()) }
        fn map_key_end(&mut self) -> Result { Ok(()) }
        fn map_value_begin(&mut self) -> Result { Ok(()) }
        fn map_value_end(&mut self) -> Result { Ok(()) }
    }
    let expt: Vec<Tok> = flat.iter().filter(|t| matches!(t, Tok::TextFrag(_, true) | Tok::BinFrag(_, true))).cloned().collect();
    let mut k = Keep { texts: vec![], bins: vec![], rec: Rec::full() };
    if let Some(r) = c.guard("kept", || val.stream(&mut k)) {
        ok(c, "kept", &r);
        cmp(c, "borrowed fragments", &k.rec.toks, &expt);
        // what was lent is still there, unchanged, afterwards
        let mut got: Vec<Tok> = k.texts.iter().map(|s| Tok::TextFrag(s.to_string(), true)).collect();
        got.sort_by_key(|t| t.to_json().to_string());
        let mut e: Vec<Tok> = expt.iter().filter(|t| matches!(t, Tok::TextFrag(..))).cloned().collect();
        e.sort_by_key(|t| t.to_json().to_string());
        cmp(c, "borrowed text still readable", &got, &e);
        c.check(k.bins.iter().map(|b| b.len()).sum::<usize>() == expt.iter().map(|t| if let Tok::BinFrag(b, _) = t { b.len() } else { 0 }).sum::<usize>(), "borrowed binary still readable", || J::Null, || J::Null);
    }
    let cases: &[(&str, &dyn Fn(&mut Rec) -> Result, &[Tok])] = &[
        ("direct", &|s| val.stream(s), &flat),
        ("stream_computed", &|s| sval::stream_computed(s, &val), &short),
        ("value_computed", &|s| s.value_computed(&val), &short),
        ("value", &|s| s.value(&val), &flat),
        ("value_computed on &mut", &|s| { let mut s = s; (&mut s).value_computed(&val) }, &short),
        #[cfg(feature = "alloc")] ("value_computed on Box", &|s| { let mut b: Box<&mut Rec> = Box::new(s); Stream::value_computed(&mut b, &val) }, &short),
        ("value_computed on dyn", &|s| { let s: &mut dyn sval_dynamic::Stream = s; s.value_computed(&val) }, &short),
        ("value on dyn", &|s| { let s: &mut dyn sval_dynamic::Stream = s; s.value(&val) }, &flat),
        ("value_computed of dyn", &|s| { let v: &dyn sval_dynamic::Value = &val; s.value_computed(v) }, &short),
        ("value_computed twice", &|s| { struct W<'a>(&'a Nodes); impl<'a> Value for W<'a> { fn stream<'s, S: Stream<'s> + ?Sized>(&'s self, s: &mut S) -> Result { s.value_computed(self.0) } } s.value_computed(&W(&val)) }, &short),
        ("value in value_computed", &|s| { struct W<'a>(&'a Nodes); impl<'a> Value for W<'a> { fn stream<'s, S: Stream<'s> + ?Sized>(&'s self, s: &mut S) -> Result { s.value(self.0) } } s.value_computed(&W(&val)) }, &short),
        ("dyn in value_computed", &|s| { struct W<'a>(&'a Nodes); impl<'a> Value for W<'a> { fn stream<'s, S: Stream<'s> + ?Sized>(&'s self, mut s: &mut S) -> Result { let s: &mut dyn sval_dynamic::Stream = &mut s; s.value(self.0) } } s.value_computed(&W(&val)) }, &short),
    ];
    for (name, f, exp) in cases {
        let mut s = Rec::full();
        c.count(name);
        if let Some(r) = c.guard(name, || f(&mut s)) { ok(c, name, &r); cmp(c, name, &s.toks, exp); }
    }
    // lowering keeps what is borrowed borrowed
    let exp = toks_from(&v["named"]["maps"]);
    let mut s = Maps::default();
    if let Some(r) = c.guard("lowered", || val.stream(&mut s)) { ok(c, "lowered", &r); cmp_merged(c, "lowered", &s.0.toks, &exp); }
}

/// Everything that pushes a value into a stream stops at the first failure.
pub fn e01(v: &J, c: &mut Ctx) {
    let toks = toks_from(&v["toks"]);
    c.nontrivial = nontrivial(&toks);
    let flat = toks_from(&v["flat"]);
    let val = Nodes::new(&toks);
    let rv = &val;
    let w = Wrapped { r: &rv, b: Box::new(val.clone()), rb: Box::new(&val), d: &val, bd: Box::new(val.clone()), rf: sval_ref::Ref::new(val.clone()), rfr: sval_ref::Ref::new(&val) };
    let names: &[&str] = &["direct", "dyn V, dyn S", "stream_ref", #[cfg(feature = "alloc")] "Box<dyn>", #[cfg(feature = "alloc")] "Box<S>"];
    for name in names {
        for n in 0..=flat.len() {
            let mut s = Rec::failing(n);
            let Some(r) = c.guard(name, || via(name, &val, &w, &mut s)) else { continue };
            failure(c, name, n, r, &s, &flat);
        }
    }
    // calls made by the defaults; how number text is cut is not specified, so the
    // calls of an undisturbed run (equal to the specified ones up to cuts) are the reference
    let minimal = toks_from(&v["named"]["minimal"]);
    let mut s = Minimal::default();
    if c.guard("minimal", || val.stream(&mut s)).is_none() { return; }
    let all = s.0.toks;
    c.check(same_merged(&all, &minimal), "minimal: all calls", || toks_json(&all), || toks_json(&minimal));
    for n in 0..=all.len() {
        let mut s = Minimal::default();
        s.0.fail_at = Some(n);
        let Some(r) = c.guard("minimal", || val.stream(&mut s)) else { continue };
        failure(c, "minimal", n, r, &s.0, &all);
    }
}
fn failure(c: &mut Ctx, name: &str, n: usize, r: Result, s: &Rec, all: &[Tok]) {
    if n < all.len() {
        c.check(r.is_err(), &format!("{name}: failure of call {n} is returned"), || json!("Ok"), || json!("Err"));
        c.check(s.after == 0, &format!("{name}: calls after failing call {n}"), || json!(s.after), || json!(0));
        c.check(s.toks == all[..n], &format!("{name}: calls before failing call {n}"), || toks_json(&s.toks), || toks_json(&all[..n]));
    } else {
        c.check(r.is_ok(), &format!("{name}: success without failures"), || json!("Err"), || json!("Ok"));
        c.check(s.toks == all, &format!("{name}: all calls"), || toks_json(&s.toks), || toks_json(all));
    }
}
