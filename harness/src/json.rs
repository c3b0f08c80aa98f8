//! J01..J04
use crate::js;
use crate::tok::*;
use crate::Ctx;
use serde_json::{json, Value as J};
use sval::Value;

#[cfg(feature = "alloc")]
fn to_string<V: Value>(v: V) -> Result<String, sval_json::Error> { sval_json::stream_to_string(v) }
#[cfg(not(feature = "alloc"))]
fn to_string<V: Value>(v: V) -> Result<String, sval_json::Error> { let mut s = String::new(); sval_json::stream_to_fmt_write(&mut s, v)?; Ok(s) }

/// Every way of writing a value as JSON, as bytes or an error.
pub fn outputs(v: &Nodes) -> Vec<(&'static str, Result<Vec<u8>, ()>)> {
    struct Chunks(String);
    impl std::fmt::Write for Chunks { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.push_str(s); Ok(()) } }
    let mut out = vec![];
    #[cfg(feature = "alloc")] out.push(("stream_to_string", to_string(v).map(|s| s.into_bytes()).map_err(|_| ())));
    #[cfg(feature = "alloc")] out.push(("stream_to_vec", sval_json::stream_to_vec(v).map_err(|_| ())));
    let mut c = Chunks(String::new());
    out.push(("stream_to_fmt_write", sval_json::stream_to_fmt_write(&mut c, v).map(|_| c.0.into_bytes()).map_err(|_| ())));
    #[cfg(feature = "alloc")] let mut w: Vec<u8> = vec![];
    #[cfg(feature = "alloc")] out.push(("stream_to_io_write", sval_json::stream_to_io_write(&mut w, v).map(|_| w).map_err(|_| ())));
    #[cfg(feature = "alloc")] out.push(("stream_to_json_str", sval_json::stream_to_json_str(v).map(|s| s.as_str().as_bytes().to_vec()).map_err(|_| ())));
    let d: &dyn sval_dynamic::Value = v;
    out.push(("dyn value", to_string(d).map(|s| s.into_bytes()).map_err(|_| ())));
    out
}

fn show(r: &Result<Vec<u8>, ()>) -> J { match r { Ok(b) => json!(String::from_utf8_lossy(b)), Err(()) => json!("Err") } }

/// All output forms agree and the document is the specified one.
pub fn check_doc(c: &mut Ctx, v: &Nodes, exp: &J) -> Option<String> {
    let outs = c.guard("writing JSON", || outputs(v))?;
    for (name, o) in &outs[1..] {
        c.check(*o == outs[0].1, &format!("{name} differs from {}", outs[0].0), || show(o), || show(&outs[0].1));
    }
    if exp["j"] == "err" {
        c.check(outs[0].1.is_err(), "a key that is not a scalar is refused", || show(&outs[0].1), || json!("Err"));
        return None;
    }
    match &outs[0].1 {
        Err(()) => { c.check(false, "writing fails", || json!("Err"), || exp.clone()); None }
        Ok(b) => {
            let Ok(s) = String::from_utf8(b.clone()) else { c.check(false, "output is not UTF-8", || json!(b), || exp.clone()); return None };
            match js::parse(&s) {
                Err(e) => c.check(false, &format!("not valid JSON: {e}"), || json!(s), || exp.clone()),
                Ok(d) => c.check(js::matches(&d, exp), "document differs", || json!(s), || exp.clone()),
            }
            Some(s)
        }
    }
}

pub fn j01(v: &J, c: &mut Ctx) {
    let toks = toks_from(&v["toks"]);
    c.nontrivial = toks.len() > 3;
    let val = Nodes::new(&toks);
    c.count(if v["json"]["j"] == "err" { "refused" } else { "written" });
    for t in &toks { if matches!(t, Tok::EnumBegin(_)) { c.count("enum"); break; } }
    check_doc(c, &val, &v["json"]);
}

// ---------------------------------------------------------------- J02
fn lab(s: &str, st: bool) -> Lab { Lab { s: s.to_string(), st, id: false } }
fn named(s: &str, st: bool) -> Meta { Meta { tag: None, lab: Some(lab(s, st)), idx: None } }
fn text(frags: &[(String, bool)]) -> Vec<Tok> {
    let mut t = vec![Tok::TextBegin(None)];
    t.extend(frags.iter().map(|(s, b)| Tok::TextFrag(s.clone(), *b)));
    t.push(Tok::TextEnd);
    t
}
/// Only what must be escaped is escaped.
fn minimal(doc: &str) -> Result<(), String> {
    let b: Vec<char> = doc.chars().collect();
    let (mut i, mut inside) = (0, false);
    while i < b.len() {
        if !inside { if b[i] == '"' { inside = true; } i += 1; continue; }
        if b[i] == '"' { inside = false; i += 1; continue; }
        if b[i] != '\\' { i += 1; continue; }
        match b.get(i + 1) {
            Some('/') => return Err("/ is escaped".into()),
            Some('u') => {
                let h: String = b[i + 2..(i + 6).min(b.len())].iter().collect();
                let u = u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
                if !(u < 32 || u == 34 || u == 92) { return Err(format!("\\u{h} is escaped")); }
                i += 6;
            }
            _ => i += 2,
        }
    }
    Ok(())
}
fn doc_is(c: &mut Ctx, what: &str, toks: Vec<Tok>, exp: js::Js) -> Option<Vec<u8>> {
    let v = Nodes::new(&toks);
    let outs = c.guard(what, || outputs(&v))?;
    for (name, o) in &outs[1..] { c.check(*o == outs[0].1, &format!("{what}: {name} differs"), || show(o), || show(&outs[0].1)); }
    let Ok(b) = &outs[0].1 else { c.check(false, &format!("{what}: writing fails"), || json!("Err"), || json!(format!("{exp:?}"))); return None };
    let s = String::from_utf8_lossy(b).to_string();
    let d = js::parse(&s);
    c.check(d.as_ref() == Ok(&exp), &format!("{what}: decodes differently"), || json!([s, format!("{d:?}")]), || json!(format!("{exp:?}")));
    let m = minimal(&s);
    c.check(m.is_ok(), &format!("{what}: escapes too much"), || json!([s, format!("{m:?}")]), || J::Null);
    Some(b.clone())
}
pub fn frags_of(v: &J) -> Vec<(String, bool)> { v["frags"].as_array().unwrap().iter().map(|f| (from_cps(&f["s"]), f["b"].as_bool().unwrap())).collect() }

pub fn j02(v: &J, c: &mut Ctx) {
    use js::Js::*;
    let frags = frags_of(v);
    let s = from_cps(&v["s"]);
    c.nontrivial = frags.len() > 1;
    c.count(if s.chars().any(|c| (c as u32) < 32 || c == '"' || c == '\\') { "needs escaping" } else { "plain" });
    let whole = vec![(s.clone(), true)];
    let obj = |k: &str, v: js::Js| Obj(vec![(k.to_string(), v)]);
    let one = || Num("1".into());
    // a text value
    let seq = |t: Vec<Tok>| { let mut o = vec![Tok::SeqBegin(None), Tok::SeqValueBegin]; o.extend(t); o.extend([Tok::SeqValueEnd, Tok::SeqEnd]); o };
    let a = doc_is(c, "text", seq(text(&frags)), Arr(vec![Str(s.clone())]));
    let b = doc_is(c, "whole text", seq(text(&whole)), Arr(vec![Str(s.clone())]));
    c.check(a == b, "the bytes depend on how text is cut", || json!(a), || json!(b));
    // a map key
    let map = |t: Vec<Tok>| { let mut o = vec![Tok::MapBegin(None), Tok::MapKeyBegin]; o.extend(t); o.extend([Tok::MapKeyEnd, Tok::MapValueBegin, Tok::I64(1), Tok::MapValueEnd, Tok::MapEnd]); o };
    let a = doc_is(c, "key", map(text(&frags)), obj(&s, one()));
    let b = doc_is(c, "whole key", map(text(&whole)), obj(&s, one()));
    c.check(a == b, "the bytes depend on how a key is cut", || json!(a), || json!(b));
    // a tagged text is the same text
    let m = Meta::default();
    let wrap = |t: Vec<Tok>| { let mut o = vec![Tok::TaggedBegin(m.clone())]; o.extend(t); o.push(Tok::TaggedEnd(m.clone())); o };
    doc_is(c, "tagged text", wrap(text(&frags)), Str(s.clone()));
    doc_is(c, "tagged key", map(wrap(text(&frags))), obj(&s, one()));
    for st in [true, false] {
        let l = lab(&s, st);
        let n = named(&s, st);
        let none = Meta::default();
        let i0 = Idx { v: 0, off: false };
        doc_is(c, "record label", vec![Tok::RecordBegin(none.clone(), None), Tok::RecordValueBegin(None, l.clone()), Tok::I64(1), Tok::RecordValueEnd(None, l.clone()), Tok::RecordEnd(none.clone())], obj(&s, one()));
        doc_is(c, "record tuple label", vec![Tok::RecordTupleBegin(none.clone(), None), Tok::RecordTupleValueBegin(None, l.clone(), i0.clone()), Tok::I64(1), Tok::RecordTupleValueEnd(None, l.clone(), i0.clone()), Tok::RecordTupleEnd(none.clone())], obj(&s, one()));
        doc_is(c, "tag label", vec![Tok::Tag(n.clone())], Str(s.clone()));
        doc_is(c, "tag label as key", map(vec![Tok::Tag(n.clone())]), obj(&s, one()));
        let en = |t: Vec<Tok>| { let mut o = vec![Tok::EnumBegin(Meta::default())]; o.extend(t); o.push(Tok::EnumEnd(Meta::default())); o };
        doc_is(c, "newtype variant label", en(vec![Tok::TaggedBegin(n.clone()), Tok::I64(1), Tok::TaggedEnd(n.clone())]), obj(&s, one()));
        doc_is(c, "tuple variant label", en(vec![Tok::TupleBegin(n.clone(), None), Tok::TupleEnd(n.clone())]), obj(&s, Arr(vec![])));
        doc_is(c, "record variant label", en(vec![Tok::RecordBegin(n.clone(), None), Tok::RecordEnd(n.clone())]), obj(&s, Obj(vec![])));
        doc_is(c, "unit variant label", en(vec![Tok::Tag(n.clone())]), Str(s.clone()));
        doc_is(c, "nested enum label", en(vec![Tok::EnumBegin(n.clone()), Tok::Tag(n.clone()), Tok::EnumEnd(n.clone())]), obj(&s, Str(s.clone())));
    }
    // the Rust values themselves
    let direct = [#[cfg(feature = "alloc")] to_string(&s), to_string(s.as_str())];
    for d in direct {
        let d = d.map_err(|_| ());
        c.check(d.as_deref().map(js::parse) == Ok(Ok(Str(s.clone()))), "a string value decodes differently", || json!(format!("{d:?}")), || json!(s));
    }
    let mut it = s.chars();
    if let (Some(ch), None) = (it.next(), it.next()) {
        let d = to_string(ch).map_err(|_| ());
        c.check(d.as_deref().map(js::parse) == Ok(Ok(Str(s.clone()))), "a char value decodes differently", || json!(format!("{d:?}")), || json!(s));
    }
}

// ---------------------------------------------------------------- J03
fn joined(j: &J) -> String { j.as_array().unwrap().iter().map(|c| c.as_str().unwrap()).collect() }
struct NumberDisplay(Vec<String>);
impl std::fmt::Display for NumberDisplay {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { for s in &self.0 { f.write_str(s)?; } Ok(()) }
}
impl sval::Value for NumberDisplay {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result { sval::stream_number(s, self) }
}
fn mantissa(name: &str, bits: u32) -> u64 {
    let ones = (1u64 << bits) - 1;
    match name { "0" => 0, "1" => 1, "half" => 1 << (bits - 1), "ones" => ones, "ones-1" => ones - 1, "alt" => 0xaaaa_aaaa_aaaa_aaaa & ones, "third" => 0x5555_5555_5555_5555 & ones, m => panic!("{m}") }
}
pub fn j03(v: &J, c: &mut Ctx) {
    use js::Js::*;
    let kind = v["kind"].as_str().unwrap();
    c.count(kind);
    if kind == "text" {
        let frags: Vec<String> = v["frags"].as_array().unwrap().iter().map(joined).collect();
        let s = joined(&v["s"]);
        c.nontrivial = s.len() > 1;
        let m = Meta { tag: Some("NUMBER".into()), lab: None, idx: None };
        let mut num = vec![Tok::TaggedBegin(m.clone()), Tok::TextBegin(None)];
        num.extend(frags.iter().enumerate().map(|(i, s)| Tok::TextFrag(s.clone(), i % 2 == 0)));
        num.extend([Tok::TextEnd, Tok::TaggedEnd(m)]);
        let exp = (v["neg"].as_bool().unwrap(), joined(&v["dig"]), v["exp"].as_i64().unwrap() as i128);
        let fin = v["fin"].as_bool().unwrap();
        let good = |d: &js::Js| match d { Num(n) => fin && js::canon(n) == Some(exp.clone()), Null => !fin, _ => false };
        let check = |c: &mut Ctx, what: &str, outs: Vec<(&'static str, Result<Vec<u8>, ()>)>, f: &dyn Fn(&js::Js) -> bool| {
            for (name, o) in outs {
                let d = o.as_ref().ok().and_then(|b| std::str::from_utf8(b).ok()).map(js::parse);
                c.check(matches!(&d, Some(Ok(d)) if f(d)), &format!("{what} ({name}): not the same number"), || show(&o), || json!([fin, exp]));
            }
        };
        if let Some(o) = c.guard("number", || outputs(&Nodes::new(&num))) { check(c, "number", o, &good); }
        // embedded: in a sequence followed by text, as a key, as a variant
        let mut t = vec![Tok::SeqBegin(None), Tok::SeqValueBegin]; t.extend(num.clone());
        t.extend([Tok::SeqValueEnd, Tok::SeqValueBegin, Tok::TextBegin(None), Tok::TextFrag("0e".into(), true), Tok::TextEnd, Tok::SeqValueEnd, Tok::SeqEnd]);
        if let Some(o) = c.guard("number in a sequence", || outputs(&Nodes::new(&t))) {
            check(c, "number in a sequence", o, &|d| matches!(d, Arr(xs) if xs.len() == 2 && good(&xs[0]) && xs[1] == Str("0e".into())));
        }
        let mut t = vec![Tok::MapBegin(None), Tok::MapKeyBegin]; t.extend(num.clone()); t.extend([Tok::MapKeyEnd, Tok::MapValueBegin]); t.extend(num.clone()); t.extend([Tok::MapValueEnd, Tok::MapEnd]);
        if let Some(o) = c.guard("number as a key", || outputs(&Nodes::new(&t))) {
            check(c, "number as a key", o, &|d| matches!(d, Obj(xs) if xs.len() == 1 && js::parse(&xs[0].0).map(|k| good(&k)) == Ok(true) && good(&xs[0].1)));
        }
        let m = Meta { tag: Some("NUMBER".into()), lab: Some(lab("V", true)), idx: None };
        let mut t = vec![Tok::EnumBegin(Meta::default())]; t.extend(num.clone()); t[1] = Tok::TaggedBegin(m.clone()); *t.last_mut().unwrap() = Tok::TaggedEnd(m); t.push(Tok::EnumEnd(Meta::default()));
        if let Some(o) = c.guard("number variant", || outputs(&Nodes::new(&t))) {
            check(c, "number variant", o, &|d| matches!(d, Obj(xs) if xs.len() == 1 && xs[0].0 == "V" && good(&xs[0].1)));
        }
        let n = NumberDisplay(frags);
        if let Some(o) = c.guard("stream_number", || to_string(&n).map(|s| s.into_bytes()).map_err(|_| ())) { check(c, "stream_number", vec![("stream_to_string", o)], &good); }
        return;
    }
    c.nontrivial = true;
    let one = |c: &mut Ctx, o: Result<String, ()>, key: Result<String, ()>, ok: &dyn Fn(&js::Js) -> bool| {
        let d = o.as_deref().map(js::parse);
        c.check(matches!(&d, Ok(Ok(d)) if ok(d)), "does not read back as the same number", || json!(format!("{o:?}")), || v.clone());
        let d = key.as_deref().map(js::parse);
        c.check(matches!(&d, Ok(Ok(Obj(xs))) if xs.len() == 1 && matches!(js::parse(&xs[0].0), Ok(k) if ok(&k)) && ok(&xs[0].1)), "as a key: does not read back as the same number", || json!(format!("{key:?}")), || v.clone());
    };
    let key = |t: Tok| vec![Tok::MapBegin(None), Tok::MapKeyBegin, t.clone(), Tok::MapKeyEnd, Tok::MapValueBegin, t, Tok::MapValueEnd, Tok::MapEnd];
    let js = |t: Vec<Tok>| to_string(Nodes::new(&t)).map_err(|_| ());
    match kind {
        "f64" => {
            let x = f64::from_bits((v["neg"].as_bool().unwrap() as u64) << 63 | v["e"].as_u64().unwrap() << 52 | mantissa(v["man"].as_str().unwrap(), 52));
            let fin = v["fin"].as_bool().unwrap();
            one(c, to_string(x).map_err(|_| ()), js(key(Tok::F64(x))), &|d| match d { Num(n) => fin && n.parse::<f64>().map(|y| y.to_bits() == x.to_bits()) == Ok(true), Null => !fin, _ => false });
        }
        "f32" => {
            let x = f32::from_bits((v["neg"].as_bool().unwrap() as u32) << 31 | (v["e"].as_u64().unwrap() as u32) << 23 | mantissa(v["man"].as_str().unwrap(), 23) as u32);
            let fin = v["fin"].as_bool().unwrap();
            one(c, to_string(x).map_err(|_| ()), js(key(Tok::F32(x))), &|d| match d { Num(n) => fin && n.parse::<f32>().map(|y| y.to_bits() == x.to_bits()) == Ok(true), Null => !fin, _ => false });
        }
        k => {
            let s = v["v"].as_str().unwrap();
            let t = Tok::from_json(&json!({"k": k, "v": s}));
            one(c, js(vec![t.clone()]), js(key(t)), &|d| matches!(d, Num(n) if js::canon(n) == js::canon(s)));
        }
    }
}

// ---------------------------------------------------------------- J04
/// A writer that follows a script and writes down every exchange.
struct Scripted<'a> { doc: &'a [u8], got: Vec<u8>, skip: usize, script: &'a [&'a str], evs: Vec<J>, reached: bool }
impl<'a> Scripted<'a> {
    fn next(&mut self) -> &'a str {
        if self.skip > 0 { self.skip -= 1; return "all"; }
        self.reached = true;
        match self.script.split_first() { Some((r, rest)) => { self.script = rest; r } None => "all" }
    }
}
impl<'a> std::io::Write for Scripted<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let r = self.next();
        let at = self.doc.len() >= self.got.len() + b.len() && self.doc[self.got.len()..][..b.len()] == *b;
        let n = match r { "one" => 1, "two" => 2, "half" => b.len() / 2 + 1, "all" => b.len(), _ => 0 }.min(b.len());
        self.got.extend_from_slice(&b[..n]);
        let (kind, res) = match r {
            "intr" => ("intr", Err(std::io::ErrorKind::Interrupted.into())),
            "err" => ("err", Err(std::io::Error::new(std::io::ErrorKind::Other, "scripted"))),
            _ => ("ok", Ok(n)),
        };
        self.evs.push(json!({"off": b.len(), "at": at, "r": kind, "n": n}));
        if self.evs.len() > 10_000 { panic!("the writer is asked again and again"); }
        res
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// The same for formatters: pieces are taken whole or refused.
impl<'a> std::fmt::Write for Scripted<'a> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let b = s.as_bytes();
        let r = self.next();
        let at = self.doc.len() >= self.got.len() + b.len() && self.doc[self.got.len()..][..b.len()] == *b;
        let ok = !matches!(r, "err" | "zero");
        let n = if ok { b.len() } else { 0 };
        self.got.extend_from_slice(&b[..n]);
        self.evs.push(json!({"off": b.len(), "at": at, "r": if ok { "ok" } else { "err" }, "n": n}));
        if ok { Ok(()) } else { Err(std::fmt::Error) }
    }
}
pub fn j04(v: &J, c: &mut Ctx) {
    let toks = toks_from(&v["toks"]);
    let val = Nodes::new(&toks);
    let script: Vec<&str> = v["script"].as_array().unwrap().iter().map(|s| s.as_str().unwrap()).collect();
    let skip = v["skip"].as_u64().unwrap() as usize;
    let Ok(doc) = to_string(&val) else { c.check(false, "writing to a string fails", || J::Null, || J::Null); return };
    let new = || Scripted { doc: doc.as_bytes(), got: vec![], skip, script: &script, evs: vec![], reached: false };
    for sink in ["io", "fmt"] {
        let mut w = new();
        #[cfg(not(feature = "alloc"))] if sink == "io" { continue }
        #[cfg(not(feature = "alloc"))] let r = c.guard("writing", || sval_json::stream_to_fmt_write(&mut w, &val).is_ok());
        #[cfg(feature = "alloc")] let r = if sink == "io" { c.guard("writing", || sval_json::stream_to_io_write(&mut w, &val).is_ok()) } else { c.guard("writing", || sval_json::stream_to_fmt_write(&mut w, &val).is_ok()) };
        let Some(ok) = r else { continue };
        if w.reached && !script.is_empty() { c.nontrivial = true; c.count(&format!("{sink} script reached")); c.count(if ok { "succeeded" } else { "failed" }); }
        c.evals += 1;
        c.traces.push(json!({"sink": sink, "len": doc.len(), "evs": w.evs, "ok": ok, "doc": doc, "skip": skip, "script": script}));
    }
}
