//! S01: values of the types sval knows.
use crate::rec::*;
use crate::tok::*;
use crate::Ctx;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use sval::{Result, Stream, Value};

/// Writes the given pieces, one write each.
struct Pieces(Vec<String>);
impl fmt::Display for Pieces { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { for p in &self.0 { f.write_str(p)?; } Ok(()) } }
impl fmt::Debug for Pieces { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(self, f) } }

struct Num(String);
impl Value for Num { fn stream<'s, S: Stream<'s> + ?Sized>(&'s self, s: &mut S) -> Result { sval::stream_number(s, &self.0) } }
/// The functions that stream what can be displayed.
struct Shown(Pieces, u8);
impl Value for Shown {
    fn stream<'s, S: Stream<'s> + ?Sized>(&'s self, s: &mut S) -> Result {
        match self.1 {
            0 => sval::stream_display(s, &self.0),
            1 => sval_fmt::stream_display(s, &self.0),
            _ => sval_fmt::stream_debug(s, &self.0),
        }
    }
}

pub enum V {
    Unit, Null, Bool(bool),
    U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), F32(f32), F64(f64),
    Char(char), Str(String), String(String), BoxStr(Box<str>), Display(sval::Display<Pieces>), Display2(sval_fmt::DisplayToValue<Pieces>), Debug(sval_fmt::DebugToValue<Pieces>),
    Shown(Shown), Num(Num), Json(Box<sval_json::JsonStr>),
    Bin(Vec<u8>), BA0([u8; 0]), BA1([u8; 1]), BA2([u8; 2]), BA3([u8; 3]), BA5([u8; 5]),
    VecU8(Vec<u8>), SliceU8(Vec<u8>), A0([u8; 0]), A1([u8; 1]), A2([u8; 2]), A3([u8; 3]), A5([u8; 5]),
    None(Option<Box<V>>), Some(Option<Box<V>>), Ref(&'static V), Box(Box<V>), Dyn(Box<dyn sval_dynamic::Value + Send + Sync>), SRef(sval_ref::Ref<&'static V>),
    Vec(Vec<V>), Slice(Vec<V>), L0([Box<V>; 0]), L1([Box<V>; 1]), L2([Box<V>; 2]), L3([Box<V>; 3]), L4([Box<V>; 4]),
    Map(Vec<(V, V)>), BTree(BTreeMap<u8, V>), Hash(HashMap<String, V>),
    T1((Box<V>, )),
    T2((Box<V>, Box<V>, )),
    T3((Box<V>, Box<V>, Box<V>, )),
    T4((Box<V>, Box<V>, Box<V>, Box<V>, )),
    T5((Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, )),
    T6((Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, )),
    T7((Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, )),
    T8((Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, )),
    T9((Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, )),
    T10((Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, )),
    T11((Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, )),
    T12((Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, )),
    T13((Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, )),
    T14((Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, )),
    T15((Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, )),
    T16((Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, Box<V>, )),
}
/// Something to do with the concrete value.
trait Do<'s> { type R; fn go<T: Value + ?Sized>(self, v: &'s T) -> Self::R; }
fn each<'s, D: Do<'s>>(v: &'s V, d: D) -> D::R {
    match v {
        V::Unit => d.go(&()), V::Null => d.go(&sval::Null), V::Bool(x) => d.go(x),
        V::U8(x) => d.go(x), V::U16(x) => d.go(x), V::U32(x) => d.go(x), V::U64(x) => d.go(x), V::U128(x) => d.go(x),
        V::I8(x) => d.go(x), V::I16(x) => d.go(x), V::I32(x) => d.go(x), V::I64(x) => d.go(x), V::I128(x) => d.go(x), V::F32(x) => d.go(x), V::F64(x) => d.go(x),
        V::Char(x) => d.go(x), V::Str(x) => d.go(x.as_str()), V::String(x) => d.go(x), V::BoxStr(x) => d.go(x),
        V::Display(x) => d.go(x), V::Display2(x) => d.go(x), V::Debug(x) => d.go(x), V::Shown(x) => d.go(x), V::Num(x) => d.go(x), V::Json(x) => d.go(x),
        V::Bin(x) => d.go(sval::BinarySlice::new(x)), V::BA0(x) => d.go(sval::BinaryArray::new(x)), V::BA1(x) => d.go(sval::BinaryArray::new(x)), V::BA2(x) => d.go(sval::BinaryArray::new(x)), V::BA3(x) => d.go(sval::BinaryArray::new(x)), V::BA5(x) => d.go(sval::BinaryArray::new(x)),
        V::VecU8(x) => d.go(x), V::SliceU8(x) => d.go(x.as_slice()), V::A0(x) => d.go(x), V::A1(x) => d.go(x), V::A2(x) => d.go(x), V::A3(x) => d.go(x), V::A5(x) => d.go(x),
        V::None(x) => d.go(x), V::Some(x) => d.go(x), V::Ref(x) => d.go(x), V::Box(x) => d.go(x), V::Dyn(x) => d.go(x), V::SRef(x) => d.go(x),
        V::Vec(x) => d.go(x), V::Slice(x) => d.go(x.as_slice()), V::L0(x) => d.go(x), V::L1(x) => d.go(x), V::L2(x) => d.go(x), V::L3(x) => d.go(x), V::L4(x) => d.go(x),
        V::Map(x) => d.go(sval::MapSlice::new(x)), V::BTree(x) => d.go(x), V::Hash(x) => d.go(x),
        V::T1(x) => d.go(x),
        V::T2(x) => d.go(x),
        V::T3(x) => d.go(x),
        V::T4(x) => d.go(x),
        V::T5(x) => d.go(x),
        V::T6(x) => d.go(x),
        V::T7(x) => d.go(x),
        V::T8(x) => d.go(x),
        V::T9(x) => d.go(x),
        V::T10(x) => d.go(x),
        V::T11(x) => d.go(x),
        V::T12(x) => d.go(x),
        V::T13(x) => d.go(x),
        V::T14(x) => d.go(x),
        V::T15(x) => d.go(x),
        V::T16(x) => d.go(x),
    }
}
impl Value for V {
    fn stream<'s, S: Stream<'s> + ?Sized>(&'s self, s: &mut S) -> Result {
        struct G<'a, S: ?Sized>(&'a mut S);
        impl<'a, 's, S: Stream<'s> + ?Sized> Do<'s> for G<'a, S> { type R = Result; fn go<T: Value + ?Sized>(self, v: &'s T) -> Result { v.stream(self.0) } }
        each(self, G(s))
    }
}
fn tuple(kids: Vec<V>) -> V {
    let n = kids.len();
    let mut k = kids.into_iter().map(Box::new);
    match n {
        1 => V::T1((k.next().unwrap(), )),
        2 => V::T2((k.next().unwrap(), k.next().unwrap(), )),
        3 => V::T3((k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), )),
        4 => V::T4((k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), )),
        5 => V::T5((k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), )),
        6 => V::T6((k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), )),
        7 => V::T7((k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), )),
        8 => V::T8((k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), )),
        9 => V::T9((k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), )),
        10 => V::T10((k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), )),
        11 => V::T11((k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), )),
        12 => V::T12((k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), )),
        13 => V::T13((k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), )),
        14 => V::T14((k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), )),
        15 => V::T15((k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), )),
        16 => V::T16((k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), k.next().unwrap(), )),
        _ => unreachable!(),
    }
}
/// A tuple of references, streamed for as long as what they refer to lives.
fn tuple_ref<'s>(k: &[&'s V], s: &mut impl Stream<'s>) -> Result {
    let r = sval_ref::Ref::new;
    match k.len() {
        1 => sval_ref::stream_ref(s, (r(k[0]),)),
        2 => sval_ref::stream_ref(s, (r(k[0]), r(k[1]),)),
        3 => sval_ref::stream_ref(s, (r(k[0]), r(k[1]), r(k[2]),)),
        4 => sval_ref::stream_ref(s, (r(k[0]), r(k[1]), r(k[2]), r(k[3]),)),
        5 => sval_ref::stream_ref(s, (r(k[0]), r(k[1]), r(k[2]), r(k[3]), r(k[4]),)),
        6 => sval_ref::stream_ref(s, (r(k[0]), r(k[1]), r(k[2]), r(k[3]), r(k[4]), r(k[5]),)),
        7 => sval_ref::stream_ref(s, (r(k[0]), r(k[1]), r(k[2]), r(k[3]), r(k[4]), r(k[5]), r(k[6]),)),
        8 => sval_ref::stream_ref(s, (r(k[0]), r(k[1]), r(k[2]), r(k[3]), r(k[4]), r(k[5]), r(k[6]), r(k[7]),)),
        9 => sval_ref::stream_ref(s, (r(k[0]), r(k[1]), r(k[2]), r(k[3]), r(k[4]), r(k[5]), r(k[6]), r(k[7]), r(k[8]),)),
        10 => sval_ref::stream_ref(s, (r(k[0]), r(k[1]), r(k[2]), r(k[3]), r(k[4]), r(k[5]), r(k[6]), r(k[7]), r(k[8]), r(k[9]),)),
        11 => sval_ref::stream_ref(s, (r(k[0]), r(k[1]), r(k[2]), r(k[3]), r(k[4]), r(k[5]), r(k[6]), r(k[7]), r(k[8]), r(k[9]), r(k[10]),)),
        12 => sval_ref::stream_ref(s, (r(k[0]), r(k[1]), r(k[2]), r(k[3]), r(k[4]), r(k[5]), r(k[6]), r(k[7]), r(k[8]), r(k[9]), r(k[10]), r(k[11]),)),
        13 => sval_ref::stream_ref(s, (r(k[0]), r(k[1]), r(k[2]), r(k[3]), r(k[4]), r(k[5]), r(k[6]), r(k[7]), r(k[8]), r(k[9]), r(k[10]), r(k[11]), r(k[12]),)),
        14 => sval_ref::stream_ref(s, (r(k[0]), r(k[1]), r(k[2]), r(k[3]), r(k[4]), r(k[5]), r(k[6]), r(k[7]), r(k[8]), r(k[9]), r(k[10]), r(k[11]), r(k[12]), r(k[13]),)),
        15 => sval_ref::stream_ref(s, (r(k[0]), r(k[1]), r(k[2]), r(k[3]), r(k[4]), r(k[5]), r(k[6]), r(k[7]), r(k[8]), r(k[9]), r(k[10]), r(k[11]), r(k[12]), r(k[13]), r(k[14]),)),
        16 => sval_ref::stream_ref(s, (r(k[0]), r(k[1]), r(k[2]), r(k[3]), r(k[4]), r(k[5]), r(k[6]), r(k[7]), r(k[8]), r(k[9]), r(k[10]), r(k[11]), r(k[12]), r(k[13]), r(k[14]), r(k[15]),)),
        _ => unreachable!(),
    }
}
fn array_ref<'s>(k: &[&'s V], s: &mut impl Stream<'s>) -> Result {
    let r = sval_ref::Ref::new;
    match k.len() {
        0 => sval_ref::stream_ref(s, [(); 0].map(|_| r(k[0]))), 1 => sval_ref::stream_ref(s, [r(k[0])]), 2 => sval_ref::stream_ref(s, [r(k[0]), r(k[1])]),
        3 => sval_ref::stream_ref(s, [r(k[0]), r(k[1]), r(k[2])]), 4 => sval_ref::stream_ref(s, [r(k[0]), r(k[1]), r(k[2]), r(k[3])]),
        _ => unreachable!(),
    }
}

fn arr<const N: usize>(v: Vec<u8>) -> [u8; N] { v.try_into().unwrap() }
pub fn build(j: &J) -> V {
    let c = &j["c"];
    let kids = || -> Vec<V> { j["kids"].as_array().unwrap().iter().map(build).collect() };
    let kid = || Box::new(build(&j["kids"][0]));
    let ps = || Pieces(c.as_array().unwrap().iter().map(from_cps).collect());
    match j["ty"].as_str().unwrap() {
        "unit" => V::Unit, "null" => V::Null, "bool" => V::Bool(c.as_bool().unwrap()),
        "int" | "float" => match Tok::from_json(c) {
            Tok::U8(x) => V::U8(x), Tok::U16(x) => V::U16(x), Tok::U32(x) => V::U32(x), Tok::U64(x) => V::U64(x), Tok::U128(x) => V::U128(x),
            Tok::I8(x) => V::I8(x), Tok::I16(x) => V::I16(x), Tok::I32(x) => V::I32(x), Tok::I64(x) => V::I64(x), Tok::I128(x) => V::I128(x),
            Tok::F32(x) => V::F32(x), Tok::F64(x) => V::F64(x), _ => unreachable!(),
        },
        "char" => V::Char(char::from_u32(c.as_u64().unwrap() as u32).unwrap()),
        "str" => V::Str(from_cps(c)), "string" => V::String(from_cps(c)), "boxstr" => V::BoxStr(from_cps(c).into()),
        "display" => V::Display(sval::Display::new(ps())), "display2" => V::Display2(sval_fmt::DisplayToValue::new(ps())), "debug" => V::Debug(sval_fmt::DebugToValue::new(ps())),
        "shown" => V::Shown(Shown(ps(), (c.as_array().unwrap().len() % 3) as u8)),
        "number" => V::Num(Num(from_cps(c))), "json" => V::Json(sval_json::JsonStr::boxed(from_cps(c))),
        "binslice" => V::Bin(bytes(c)),
        "binarray" => { let b = bytes(c); match b.len() { 0 => V::BA0(arr(b)), 1 => V::BA1(arr(b)), 2 => V::BA2(arr(b)), 3 => V::BA3(arr(b)), 5 => V::BA5(arr(b)), _ => unreachable!() } }
        "vec_u8" => V::VecU8(bytes(c)), "slice_u8" => V::SliceU8(bytes(c)),
        "array_u8" => { let b = bytes(c); match b.len() { 0 => V::A0(arr(b)), 1 => V::A1(arr(b)), 2 => V::A2(arr(b)), 3 => V::A3(arr(b)), 5 => V::A5(arr(b)), _ => unreachable!() } }
        "none" => V::None(None), "some" => V::Some(Some(kid())),
        "ref" => V::Ref(Box::leak(kid())), "box" => V::Box(kid()), "dyn" => V::Dyn(kid()), "Ref" => V::SRef(sval_ref::Ref::new(Box::leak(kid()))),
        "vec" => V::Vec(kids()), "slice" => V::Slice(kids()),
        "array" => { let k: Vec<Box<V>> = kids().into_iter().map(Box::new).collect(); match k.len() { 0 => V::L0([]), 1 => V::L1(k.try_into().ok().unwrap()), 2 => V::L2(k.try_into().ok().unwrap()), 3 => V::L3(k.try_into().ok().unwrap()), 4 => V::L4(k.try_into().ok().unwrap()), _ => unreachable!() } }
        "tuple" => tuple(kids()),
        "mapslice" => { let mut k = kids().into_iter(); let mut m = vec![]; while let Some(a) = k.next() { m.push((a, k.next().unwrap())); } V::Map(m) }
        "btree" => V::BTree(c.as_array().into_iter().flatten().map(|k| k.as_u64().unwrap() as u8).zip(kids()).collect()),
        "hash" => V::Hash(c.as_array().into_iter().flatten().map(from_cps).zip(kids()).collect()),
        t => panic!("unknown type {t}"),
    }
}
fn kids_of(v: &V) -> Option<Vec<&V>> {
    Some(match v {
        V::Vec(x) | V::Slice(x) => x.iter().collect(),
        V::L0(x) => x.iter().map(|b| &**b).collect(), V::L1(x) => x.iter().map(|b| &**b).collect(), V::L2(x) => x.iter().map(|b| &**b).collect(),
        V::L3(x) => x.iter().map(|b| &**b).collect(), V::L4(x) => x.iter().map(|b| &**b).collect(),
        V::T1(x) => vec![&*x.0],
        V::T2(x) => vec![&*x.0, &*x.1],
        V::T3(x) => vec![&*x.0, &*x.1, &*x.2],
        V::T4(x) => vec![&*x.0, &*x.1, &*x.2, &*x.3],
        V::T5(x) => vec![&*x.0, &*x.1, &*x.2, &*x.3, &*x.4],
        V::T6(x) => vec![&*x.0, &*x.1, &*x.2, &*x.3, &*x.4, &*x.5],
        V::T7(x) => vec![&*x.0, &*x.1, &*x.2, &*x.3, &*x.4, &*x.5, &*x.6],
        V::T8(x) => vec![&*x.0, &*x.1, &*x.2, &*x.3, &*x.4, &*x.5, &*x.6, &*x.7],
        V::T9(x) => vec![&*x.0, &*x.1, &*x.2, &*x.3, &*x.4, &*x.5, &*x.6, &*x.7, &*x.8],
        V::T10(x) => vec![&*x.0, &*x.1, &*x.2, &*x.3, &*x.4, &*x.5, &*x.6, &*x.7, &*x.8, &*x.9],
        V::T11(x) => vec![&*x.0, &*x.1, &*x.2, &*x.3, &*x.4, &*x.5, &*x.6, &*x.7, &*x.8, &*x.9, &*x.10],
        V::T12(x) => vec![&*x.0, &*x.1, &*x.2, &*x.3, &*x.4, &*x.5, &*x.6, &*x.7, &*x.8, &*x.9, &*x.10, &*x.11],
        V::T13(x) => vec![&*x.0, &*x.1, &*x.2, &*x.3, &*x.4, &*x.5, &*x.6, &*x.7, &*x.8, &*x.9, &*x.10, &*x.11, &*x.12],
        V::T14(x) => vec![&*x.0, &*x.1, &*x.2, &*x.3, &*x.4, &*x.5, &*x.6, &*x.7, &*x.8, &*x.9, &*x.10, &*x.11, &*x.12, &*x.13],
        V::T15(x) => vec![&*x.0, &*x.1, &*x.2, &*x.3, &*x.4, &*x.5, &*x.6, &*x.7, &*x.8, &*x.9, &*x.10, &*x.11, &*x.12, &*x.13, &*x.14],
        V::T16(x) => vec![&*x.0, &*x.1, &*x.2, &*x.3, &*x.4, &*x.5, &*x.6, &*x.7, &*x.8, &*x.9, &*x.10, &*x.11, &*x.12, &*x.13, &*x.14, &*x.15],
        _ => return None,
    })
}

/// The calls to expect.
fn expected(v: &J, val: &V) -> Vec<Tok> {
    let mut exp = toks_from(&v["toks"]);
    // entries of a hash map come in the order of the map itself
    if let V::Hash(m) = &val {
        if m.len() > 1 {
            let keys: Vec<String> = v["value"]["c"].as_array().unwrap().iter().map(from_cps).collect();
            exp = vec![exp[0].clone()];
            for k in m.keys() { exp.extend(toks_from(&v["entries"][keys.iter().position(|x| x == k).unwrap()])); }
            exp.push(Tok::MapEnd);
        }
    }
    exp
}

/// S04: what text and binary arrives, and whether as long-lived.
pub fn s04s(v: &J, c: &mut Ctx) {
    let val = build(&v["value"]);
    let exp = expected(v, &val);
    fn lives(t: &[Tok]) -> Vec<(Vec<u8>, bool)> {
        merge(t).iter().filter_map(|t| match t { Tok::TextFrag(s, b) => Some((s.clone().into_bytes(), *b)), Tok::BinFrag(s, b) => Some((s.clone(), *b)), _ => None }).collect()
    }
    let long = lives(&exp);
    let short: Vec<_> = long.iter().map(|(s, _)| (s.clone(), false)).collect();
    c.nontrivial = !long.is_empty();
    c.count(v["value"]["ty"].as_str().unwrap());
    let kids = kids_of(&val);
    let refs: Option<Vec<_>> = kids.as_ref().map(|k| k.iter().map(|k| sval_ref::Ref::new(*k)).collect());
    let ty = v["value"]["ty"].as_str().unwrap();
    let b = sval_buffer::ValueBuf::collect(&val).ok();
    let mut cases: Vec<(&str, Box<dyn Fn(&mut Rec) -> Result + '_>, &Vec<(Vec<u8>, bool)>)> = vec![
        ("stream", Box::new(|s| val.stream(s)), &long),
        ("value", Box::new(|s| s.value(&val)), &long),
        ("stream_ref", Box::new(|s| sval_ref::stream_ref(s, sval_ref::to_ref(&val))), &long),
        ("dyn", Box::new(|s| { let s: &mut dyn sval_dynamic::Stream = s; s.value(&val) }), &long),
        ("value_computed", Box::new(|s| s.value_computed(&val)), &short),
        ("dyn, computed", Box::new(|s| { let s: &mut dyn sval_dynamic::Stream = s; s.value_computed(&val) }), &short),
        ("computed container", Box::new(|s| s.value_computed(&[&val])), &short),
        ("computed Ref", Box::new(|s| s.value_computed(&sval_ref::to_ref(&val))), &short),
    ];
    if let Some(b) = &b { cases.push(("computed buffer", Box::new(move |s| s.value_computed(b)), &short)); }
    if let Some(refs) = &refs {
        match ty {
            "vec" | "slice" => {
                cases.push(("Vec of Ref", Box::new(move |s| sval_ref::stream_ref(s, refs)), &long));
                cases.push(("slice of Ref", Box::new(move |s| sval_ref::stream_ref(s, &refs[..])), &long));
            }
            "array" => cases.push(("array of Ref", Box::new(|s| array_ref(kids.as_ref().unwrap(), s)), &long)),
            _ => cases.push(("tuple of Ref", Box::new(|s| tuple_ref(kids.as_ref().unwrap(), s)), &long)),
        }
    }
    for (name, f, exp) in &cases {
        let mut s = Rec::full();
        if c.guard(name, || f(&mut s)).is_some() { let got = lives(&s.toks); c.check(got == **exp, name, || json!(got), || json!(exp)); }
    }
}

pub fn s01(v: &J, c: &mut Ctx) {
    let val = build(&v["value"]);
    let exp = expected(v, &val);
    c.count(v["value"]["ty"].as_str().unwrap());
    c.nontrivial = exp.len() > 1;
    fn judge(c: &mut Ctx, what: &str, got: &[Tok], exp: &[Tok]) { c.check(same_merged(got, exp), what, || toks_json(got), || toks_json(exp)); }
    let mut s = Rec::full();
    let Some(r) = c.guard("stream", || val.stream(&mut s)) else { return };
    c.check(r.is_ok(), "stream", || json!("Err"), || json!("Ok"));
    judge(c, "stream", &s.toks, &exp);
    let all = s.toks;
    // as a value held by something shorter-lived
    let mut s = Rec::full();
    if let Some(r) = c.guard("value_computed", || s.value_computed(&val)) {
        let short: Vec<Tok> = exp.iter().map(|t| match t { Tok::TextFrag(s, _) => Tok::TextFrag(s.clone(), false), Tok::BinFrag(s, _) => Tok::BinFrag(s.clone(), false), t => t.clone() }).collect();
        c.check(r.is_ok(), "value_computed", || json!("Err"), || json!("Ok"));
        judge(c, "value_computed", &s.toks, &short);
    }
    // through references to the parts
    if let Some(kids) = kids_of(&val) {
        let refs: Vec<_> = kids.iter().map(|k| sval_ref::Ref::new(*k)).collect();
        let ty = v["value"]["ty"].as_str().unwrap();
        let mut cases: Vec<(&str, Box<dyn Fn(&mut Rec) -> Result + '_>)> = vec![];
        match ty {
            "vec" | "slice" => {
                cases.push(("Vec of Ref", Box::new(|s| sval_ref::stream_ref(s, &refs))));
                cases.push(("slice of Ref", Box::new(|s| sval_ref::stream_ref(s, &refs[..]))));
                cases.push(("box of slice of Ref", Box::new(|s| { let b: Box<[&sval_ref::Ref<&V>]> = refs.iter().collect(); sval_ref::stream_ref(s, b) })));
            }
            "array" => cases.push(("array of Ref", Box::new(|s| array_ref(&kids, s)))),
            _ => cases.push(("tuple of Ref", Box::new(|s| tuple_ref(&kids, s)))),
        }
        for (name, f) in cases {
            c.count(name);
            let mut s = Rec::full();
            if let Some(r) = c.guard(name, || f(&mut s)) { c.check(r.is_ok(), name, || json!("Err"), || json!("Ok")); judge(c, name, &s.toks, &exp); }
            for n in 0..all.len() {
                let mut s = Rec::failing(n);
                if let Some(r) = c.guard(name, || f(&mut s)) { c.check(r.is_err() && s.after == 0, &format!("{name}: stops at failing call {n}"), || json!([r.is_err(), s.after]), || json!([true, 0])); }
            }
        }
    }
    // a stream that fails is left alone, and its failure reported
    for n in 0..all.len() {
        let mut s = Rec::failing(n);
        if let Some(r) = c.guard("failing", || val.stream(&mut s)) { c.check(r.is_err() && s.after == 0, &format!("stops at failing call {n}"), || json!([r.is_err(), s.after]), || json!([true, 0])); }
    }
    // what it says when asked
    struct Ask;
    impl<'s> Do<'s> for Ask { type R = (crate::cast::Got, Option<String>); fn go<T: Value + ?Sized>(self, v: &'s T) -> Self::R { crate::cast::ask(v) } }
    if let Some((got, tag)) = c.guard("ask", || each(&val, Ask)) {
        crate::cast::judge(c, "ask", got, &v["ask"], false);
        let want = v["tag"].as_str().unwrap();
        c.check(tag.as_deref().unwrap_or("") == want, "tag", || json!(tag), || json!(want));
    }
}
