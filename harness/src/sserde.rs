//! D01, D02: serde.
use crate::buf::cmp_whole;
use crate::rec::*;
use crate::tok::*;
use crate::ctx::may_refuse;
use crate::Ctx;
use serde::ser::*;
use serde_json::{json, Value as J};
use std::cell::Cell;
use std::fmt;
use sval::Value as _;

#[derive(Debug, PartialEq)]
pub struct SerErr(String);
impl fmt::Display for SerErr { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for SerErr {}
impl serde::ser::Error for SerErr { fn custom<T: fmt::Display>(m: T) -> Self { SerErr(m.to_string()) } }

/// Counts calls and fails at one of them.
#[derive(Default)]
pub struct Sink { pub calls: Cell<usize>, pub fail_at: Option<usize>, pub failed: Cell<bool>, pub after: Cell<usize> }
impl Sink {
    fn call(&self) -> Result<(), SerErr> {
        if self.failed.get() { self.after.set(self.after.get() + 1); return Err(SerErr("after".into())); }
        let n = self.calls.get();
        if self.fail_at == Some(n) { self.failed.set(true); return Err(SerErr("sink".into())); }
        self.calls.set(n + 1);
        Ok(())
    }
}
fn cps(s: &str) -> J { J::Array(s.chars().map(|c| json!(c as u32)).collect()) }
fn hint(n: Option<usize>) -> J { match n { None => json!(-1), Some(n) => json!(n) } }

/// A serializer that records what it is told as a tree.
#[derive(Clone, Copy)]
pub struct Ser<'a>(pub &'a Sink);
pub struct Many<'a> { s: &'a Sink, node: J, key: &'static str, items: Vec<J>, pending: Option<J> }
impl<'a> Many<'a> {
    fn new(s: &'a Sink, node: J, key: &'static str) -> Self { Many { s, node, key, items: vec![], pending: None } }
    fn push<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SerErr> { self.s.call()?; let x = v.serialize(Ser(self.s))?; self.items.push(x); Ok(()) }
    fn field<T: Serialize + ?Sized>(&mut self, f: &str, v: &T) -> Result<(), SerErr> { self.s.call()?; let x = v.serialize(Ser(self.s))?; self.items.push(json!({"f": cps(f), "x": x})); Ok(()) }
    fn done(mut self) -> Result<J, SerErr> { self.s.call()?; self.node[self.key] = J::Array(self.items); Ok(self.node) }
}
macro_rules! scalar { ($($f:ident $t:ty, $v:ident;)*) => { $(fn $f(self, v: $t) -> Result<J, SerErr> { self.0.call()?; let t = Tok::$v(v).to_json(); Ok(json!({"s": t["k"], "v": t["v"]})) })* } }
impl<'a> Serializer for Ser<'a> {
    type Ok = J; type Error = SerErr;
    type SerializeSeq = Many<'a>; type SerializeTuple = Many<'a>; type SerializeTupleStruct = Many<'a>; type SerializeTupleVariant = Many<'a>;
    type SerializeMap = Many<'a>; type SerializeStruct = Many<'a>; type SerializeStructVariant = Many<'a>;
    scalar! { serialize_bool bool, Bool; serialize_i8 i8, I8; serialize_i16 i16, I16; serialize_i32 i32, I32; serialize_i64 i64, I64; serialize_i128 i128, I128;
        serialize_u8 u8, U8; serialize_u16 u16, U16; serialize_u32 u32, U32; serialize_u64 u64, U64; serialize_u128 u128, U128; serialize_f32 f32, F32; serialize_f64 f64, F64; }
    fn serialize_char(self, v: char) -> Result<J, SerErr> { self.0.call()?; Ok(json!({"s": "char", "t": [v as u32]})) }
    fn serialize_str(self, v: &str) -> Result<J, SerErr> { self.0.call()?; Ok(json!({"s": "str", "t": cps(v)})) }
    fn serialize_bytes(self, v: &[u8]) -> Result<J, SerErr> { self.0.call()?; Ok(json!({"s": "bytes", "t": v})) }
    fn serialize_none(self) -> Result<J, SerErr> { self.0.call()?; Ok(json!({"s": "none"})) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<J, SerErr> { self.0.call()?; Ok(json!({"s": "some", "x": v.serialize(self)?})) }
    fn serialize_unit(self) -> Result<J, SerErr> { self.0.call()?; Ok(json!({"s": "unit"})) }
    fn serialize_unit_struct(self, name: &'static str) -> Result<J, SerErr> { self.0.call()?; Ok(json!({"s": "unit_struct", "name": cps(name)})) }
    fn serialize_unit_variant(self, name: &'static str, i: u32, var: &'static str) -> Result<J, SerErr> { self.0.call()?; Ok(json!({"s": "unit_variant", "name": cps(name), "i": i.to_string(), "var": cps(var)})) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, name: &'static str, v: &T) -> Result<J, SerErr> { self.0.call()?; Ok(json!({"s": "newtype_struct", "name": cps(name), "x": v.serialize(self)?})) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, name: &'static str, i: u32, var: &'static str, v: &T) -> Result<J, SerErr> {
        self.0.call()?; Ok(json!({"s": "newtype_variant", "name": cps(name), "i": i.to_string(), "var": cps(var), "x": v.serialize(self)?}))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Many<'a>, SerErr> { self.0.call()?; Ok(Many::new(self.0, json!({"s": "seq", "n": hint(n)}), "xs")) }
    fn serialize_tuple(self, n: usize) -> Result<Many<'a>, SerErr> { self.0.call()?; Ok(Many::new(self.0, json!({"s": "tuple", "n": n}), "xs")) }
    fn serialize_tuple_struct(self, name: &'static str, n: usize) -> Result<Many<'a>, SerErr> { self.0.call()?; Ok(Many::new(self.0, json!({"s": "tuple_struct", "name": cps(name), "n": n}), "xs")) }
    fn serialize_tuple_variant(self, name: &'static str, i: u32, var: &'static str, n: usize) -> Result<Many<'a>, SerErr> {
        self.0.call()?; Ok(Many::new(self.0, json!({"s": "tuple_variant", "name": cps(name), "i": i.to_string(), "var": cps(var), "n": n}), "xs"))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Many<'a>, SerErr> { self.0.call()?; Ok(Many::new(self.0, json!({"s": "map", "n": hint(n)}), "xs")) }
    fn serialize_struct(self, name: &'static str, n: usize) -> Result<Many<'a>, SerErr> { self.0.call()?; Ok(Many::new(self.0, json!({"s": "struct", "name": cps(name), "n": n}), "fs")) }
    fn serialize_struct_variant(self, name: &'static str, i: u32, var: &'static str, n: usize) -> Result<Many<'a>, SerErr> {
        self.0.call()?; Ok(Many::new(self.0, json!({"s": "struct_variant", "name": cps(name), "i": i.to_string(), "var": cps(var), "n": n}), "fs"))
    }
}
impl<'a> SerializeSeq for Many<'a> { type Ok = J; type Error = SerErr; fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SerErr> { self.push(v) } fn end(self) -> Result<J, SerErr> { self.done() } }
impl<'a> SerializeTuple for Many<'a> { type Ok = J; type Error = SerErr; fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SerErr> { self.push(v) } fn end(self) -> Result<J, SerErr> { self.done() } }
impl<'a> SerializeTupleStruct for Many<'a> { type Ok = J; type Error = SerErr; fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SerErr> { self.push(v) } fn end(self) -> Result<J, SerErr> { self.done() } }
impl<'a> SerializeTupleVariant for Many<'a> { type Ok = J; type Error = SerErr; fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SerErr> { self.push(v) } fn end(self) -> Result<J, SerErr> { self.done() } }
impl<'a> SerializeMap for Many<'a> {
    type Ok = J; type Error = SerErr;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SerErr> { self.s.call()?; if self.pending.is_some() { return Err(SerErr("two keys in a row".into())); } self.pending = Some(v.serialize(Ser(self.s))?); Ok(()) }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SerErr> { self.s.call()?; let x = v.serialize(Ser(self.s))?; let Some(k) = self.pending.take() else { return Err(SerErr("a value without a key".into())) }; self.items.push(json!([k, x])); Ok(()) }
    fn end(self) -> Result<J, SerErr> { if self.pending.is_some() { return Err(SerErr("a key without a value".into())); } self.done() }
}
impl<'a> SerializeStruct for Many<'a> { type Ok = J; type Error = SerErr; fn serialize_field<T: Serialize + ?Sized>(&mut self, f: &'static str, v: &T) -> Result<(), SerErr> { self.field(f, v) } fn end(self) -> Result<J, SerErr> { self.done() } }
impl<'a> SerializeStructVariant for Many<'a> { type Ok = J; type Error = SerErr; fn serialize_field<T: Serialize + ?Sized>(&mut self, f: &'static str, v: &T) -> Result<(), SerErr> { self.field(f, v) } fn end(self) -> Result<J, SerErr> { self.done() } }

struct Failing<'a>(&'a [Tok]);
impl<'a> sval::Value for Failing<'a> {
    fn stream<'s, S: sval::Stream<'s> + ?Sized>(&'s self, s: &mut S) -> sval::Result {
        for t in self.0 { play(t, s)?; }
        sval::error()
    }
}

/// Numbers as the harness writes them.
fn norm(j: &J) -> J {
    match j {
        J::Object(o) if o.contains_key("v") => { let t = Tok::from_json(&json!({"k": o["s"], "v": o["v"]})).to_json(); json!({"s": o["s"], "v": t["v"]}) }
        J::Object(o) => J::Object(o.iter().map(|(k, v)| (k.clone(), norm(v))).collect()),
        J::Array(a) => J::Array(a.iter().map(norm).collect()),
        _ => j.clone(),
    }
}

pub fn d01(v: &J, c: &mut Ctx) {
    let toks = toks_from(&v["toks"]);
    let ok = v["ok"].as_bool().unwrap();
    c.nontrivial = ok && toks.len() > 3;
    c.count(if ok { "has a form" } else { "has no form" });
    if ok { c.count(v["serde"]["s"].as_str().unwrap()); }
    let want = norm(&v["serde"]);
    let val = Nodes::new(&toks);
    let mut calls = 0;
    for (i, what) in ["serialize", "ToSerialize::new", "ToSerialize::new_borrowed", "serialize a reference"].iter().enumerate() {
        let sink = Sink::default();
        let Some(r) = c.guard(what, || match i {
            0 => sval_serde::serialize(Ser(&sink), &val),
            1 => sval_serde::ToSerialize::new(&val).serialize(Ser(&sink)),
            2 => sval_serde::ToSerialize::new_borrowed(&val).serialize(Ser(&sink)),
            _ => { let d: &dyn sval_dynamic::Value = &val; sval_serde::serialize(Ser(&sink), d) }
        }) else { continue };
        if may_refuse(&v[if i == 3 { "easydyn" } else { "easy" }]) && r.is_err() { c.count("refused"); continue }
        c.check(r.is_ok() == ok, &format!("{what}: result"), || json!(format!("{r:?}")), || json!(if ok { "Ok" } else { "Err" }));
        if let (true, Ok(got)) = (ok, r) {
            c.check(got == want, what, || got.clone(), || want.clone());
            calls = sink.calls.get();
        }
    }
    for n in 0..calls {
        let sink = Sink { fail_at: Some(n), ..Sink::default() };
        let Some(r) = c.guard("failing serializer", || sval_serde::serialize(Ser(&sink), &val)) else { continue };
        c.check(r.is_err(), "a failing serializer is an error", || json!(format!("{r:?} at {n}")), || json!("Err"));
        c.check(sink.after.get() == 0, "nothing is serialized after a failure", || json!(sink.after.get()), || json!(0));
    }
    let flat: Vec<Tok> = toks.iter().filter(|t| !matches!(t, Tok::ValOpen(_) | Tok::ValClose)).cloned().collect();
    for n in 0..=flat.len() {
        let f = Failing(&flat[..n]);
        let sink = Sink::default();
        let Some(r) = c.guard("failing value", || sval_serde::serialize(Ser(&sink), &f)) else { continue };
        c.check(r.is_err(), "a failing value is an error", || json!(format!("{r:?} after {n}")), || json!("Err"));
    }
}

// ------------------------------------------------------------------ D02
/// Data described by a tree of serde's data model.
struct Data<'a> { j: &'a J, left: &'a Cell<isize>, chars: bool }
fn s_of(j: &J) -> String { j.as_array().map(|a| a.iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()).unwrap_or_default() }
fn name(j: &J) -> &'static str { intern(&s_of(j)) }
impl<'a> Data<'a> { fn of<'b>(&'b self, j: &'b J) -> Data<'b> { Data { j, left: self.left, chars: self.chars } } }
impl<'a> Serialize for Data<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let j = self.j;
        // the data itself fails here
        if self.left.get() == 0 { self.left.set(-1); return Err(S::Error::custom("data")); }
        self.left.set(self.left.get() - 1);
        let n = j["n"].as_i64().map(|n| n as usize).unwrap_or(0);
        let opt = match j["n"].as_i64() { Some(-1) => None, _ => Some(n) };
        let i = || j["i"].as_str().unwrap().parse::<u32>().unwrap();
        let xs = j["xs"].as_array().or(j["fs"].as_array());
        let xs: &[J] = xs.map(|v| &v[..]).unwrap_or(&[]);
        match j["s"].as_str().unwrap() {
            "none" => s.serialize_none(), "unit" => s.serialize_unit(),
            "str" => {
                let t = s_of(&j["t"]);
                let mut ch = t.chars();
                match (self.chars, ch.next(), ch.next()) {
                    (true, Some(c), None) => s.serialize_char(c),
                    (true, _, _) => s.collect_str(&Pieces(&t)),
                    _ => s.serialize_str(&t),
                }
            }
            "bytes" => s.serialize_bytes(&bytes(&j["t"])),
            "unit_struct" => s.serialize_unit_struct(name(&j["name"])),
            "some" => s.serialize_some(&self.of(&j["x"])),
            "newtype_struct" => s.serialize_newtype_struct(name(&j["name"]), &self.of(&j["x"])),
            // a slice knows how many elements it has
            "seq" if self.chars && opt == Some(xs.len()) => s.collect_seq(xs.iter().map(|x| self.of(x))),
            "seq" => { let mut q = s.serialize_seq(opt)?; for x in xs { q.serialize_element(&self.of(x))?; } q.end() }
            "tuple" => { let mut q = s.serialize_tuple(n)?; for x in xs { q.serialize_element(&self.of(x))?; } q.end() }
            "tuple_struct" => { let mut q = s.serialize_tuple_struct(name(&j["name"]), n)?; for x in xs { q.serialize_field(&self.of(x))?; } q.end() }
            "tuple_variant" => { let mut q = s.serialize_tuple_variant(name(&j["name"]), i(), name(&j["var"]), n)?; for x in xs { q.serialize_field(&self.of(x))?; } q.end() }
            "map" if self.chars && opt == Some(xs.len()) => s.collect_map(xs.iter().map(|x| (self.of(&x[0]), self.of(&x[1])))),
            "map" => {
                let mut q = s.serialize_map(opt)?;
                for x in xs { if self.chars { q.serialize_entry(&self.of(&x[0]), &self.of(&x[1]))?; } else { q.serialize_key(&self.of(&x[0]))?; q.serialize_value(&self.of(&x[1]))?; } }
                q.end()
            }
            "struct" => { let mut q = s.serialize_struct(name(&j["name"]), n)?; for x in xs { if self.chars { q.skip_field("gone")?; } q.serialize_field(name(&x["f"]), &self.of(&x["x"]))?; } if self.chars { q.skip_field("gone")?; } q.end() }
            "struct_variant" => { let mut q = s.serialize_struct_variant(name(&j["name"]), i(), name(&j["var"]), n)?; for x in xs { if self.chars { q.skip_field("gone")?; } q.serialize_field(name(&x["f"]), &self.of(&x["x"]))?; } if self.chars { q.skip_field("gone")?; } q.end() }
            "unit_variant" => s.serialize_unit_variant(name(&j["name"]), i(), name(&j["var"])),
            "newtype_variant" => s.serialize_newtype_variant(name(&j["name"]), i(), name(&j["var"]), &self.of(&j["x"])),
            k => match Tok::from_json(&json!({"k": k, "v": j["v"]})) {
                Tok::Bool(v) => s.serialize_bool(v),
                Tok::I8(v) => s.serialize_i8(v), Tok::I16(v) => s.serialize_i16(v), Tok::I32(v) => s.serialize_i32(v), Tok::I64(v) => s.serialize_i64(v), Tok::I128(v) => s.serialize_i128(v),
                Tok::U8(v) => s.serialize_u8(v), Tok::U16(v) => s.serialize_u16(v), Tok::U32(v) => s.serialize_u32(v), Tok::U64(v) => s.serialize_u64(v), Tok::U128(v) => s.serialize_u128(v),
                Tok::F32(v) => s.serialize_f32(v), Tok::F64(v) => s.serialize_f64(v),
                t => panic!("{t:?}"),
            },
        }
    }
}
/// Displays a text in pieces.
struct Pieces<'a>(&'a str);
impl<'a> fmt::Display for Pieces<'a> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { for c in self.0.chars() { f.write_str(c.encode_utf8(&mut [0; 4]))?; } Ok(()) } }
fn size(j: &J) -> usize {
    match j {
        J::Object(o) => o.contains_key("s") as usize + o.iter().filter(|(k, _)| ["x", "xs", "fs"].contains(&k.as_str())).map(|(_, v)| size(v)).sum::<usize>(),
        J::Array(a) => a.iter().map(size).sum(),
        _ => 0,
    }
}

pub fn d02(v: &J, c: &mut Ctx) {
    if !v["ok"].as_bool().unwrap() { return; }
    let j = &norm(&v["serde"]);
    let back = toks_from(&v["back"]);
    c.nontrivial = back.len() > 3;
    c.count(j["s"].as_str().unwrap());
    let total = size(j);
    let left = Cell::new(-1);
    for chars in [false, true] {
        let data = Data { j, left: &left, chars };
        for (i, what) in ["stream", "ToValue::new", "ToValue::new_borrowed", "value_computed", "dyn Value"].iter().enumerate() {
            let Some((r, x)) = c.guard(what, || {
                let mut r = Rec::full();
                let x = match i {
                    0 => sval_serde::stream(&mut r, &data),
                    1 => sval_serde::ToValue::new(&data).stream(&mut r),
                    2 => sval_serde::ToValue::new_borrowed(&data).stream(&mut r),
                    3 => sval::Stream::value_computed(&mut r, &sval_serde::ToValue::new(&data)),
                    _ => { let t = sval_serde::ToValue::new(&data); let d: &dyn sval_dynamic::Value = &t; d.stream(&mut r) }
                };
                (r, x)
            }) else { continue };
            c.check(x.is_ok(), &format!("{what}: result"), || json!("Err"), || json!("Ok"));
            let l = cmp_whole(c, what, &r.toks, &back);
            c.check(l.iter().all(|l| *l != Some(true)), &format!("{what}: serde data is short-lived"), || json!(l), || json!("all short-lived"));
        }
        // the stream fails
        for n in 0..back.len() {
            let mut r = Rec::failing(n);
            let Some(x) = c.guard("failing stream", || sval_serde::stream(&mut r, &data)) else { continue };
            if !r.failed() { continue; }
            c.check(x.is_err(), "a failing stream is an error", || json!(n), || json!("Err"));
            c.check(r.after == 0, "nothing is streamed after a failure", || json!(r.after), || json!(0));
        }
        // the data fails
        for n in 0..total {
            left.set(n as isize);
            let Some((r, x)) = c.guard("failing data", || { let mut r = Rec::full(); let x = sval_serde::ToValue::new(&data).stream(&mut r); (r, x) }) else { continue };
            left.set(-1);
            c.check(x.is_err(), "failing data is an error", || json!(n), || json!("Err"));
            let g = r.toks.len();
            c.check(g < back.len() || chars, "failing data stops", || json!(g), || json!(back.len()));
        }
    }
    // and through serde again
    let sink = Sink::default();
    let data = Data { j, left: &left, chars: false };
    if let Some(r) = c.guard("back to serde", || sval_serde::serialize(Ser(&sink), sval_serde::ToValue::new(&data))) {
        if may_refuse(&J::Null) && r.is_err() { return }
        c.check(r.as_ref().ok() == Some(j), "through sval and back to serde", || json!(format!("{r:?}")), || j.clone());
    }
}
