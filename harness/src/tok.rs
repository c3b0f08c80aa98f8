//! The token alphabet of the specification (spec/SvalTokens.tla) in Rust.
use serde_json::{json, Map, Value as J};
use std::collections::HashMap;
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Lab { pub s: String, pub st: bool, pub id: bool }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Idx { pub v: i128, pub off: bool }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Meta { pub tag: Option<String>, pub lab: Option<Lab>, pub idx: Option<Idx> }

#[derive(Clone, Debug)]
pub enum Tok {
    Null, Bool(bool),
    U8(u8), U16(u16), U32(u32), U64(u64), U128(u128),
    I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), F32(f32), F64(f64),
    TextBegin(Option<usize>), TextFrag(String, bool), TextEnd,
    BinBegin(Option<usize>), BinFrag(Vec<u8>, bool), BinEnd,
    MapBegin(Option<usize>), MapKeyBegin, MapKeyEnd, MapValueBegin, MapValueEnd, MapEnd,
    SeqBegin(Option<usize>), SeqValueBegin, SeqValueEnd, SeqEnd,
    Tag(Meta), TagHint(String),
    EnumBegin(Meta), EnumEnd(Meta), TaggedBegin(Meta), TaggedEnd(Meta),
    RecordBegin(Meta, Option<usize>), RecordValueBegin(Option<String>, Lab), RecordValueEnd(Option<String>, Lab), RecordEnd(Meta),
    TupleBegin(Meta, Option<usize>), TupleValueBegin(Option<String>, Idx), TupleValueEnd(Option<String>, Idx), TupleEnd(Meta),
    RecordTupleBegin(Meta, Option<usize>), RecordTupleValueBegin(Option<String>, Lab, Idx), RecordTupleValueEnd(Option<String>, Lab, Idx), RecordTupleEnd(Meta),
    ValOpen(bool), ValClose,
}

impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool { self.to_json() == o.to_json() }
}

fn cps(s: &str) -> J { J::Array(s.chars().map(|c| json!(c as u32)).collect()) }
pub fn from_cps(j: &J) -> String {
    j.as_array().map(|a| a.iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()).unwrap_or_default()
}
fn hint(n: &Option<usize>) -> J { match n { Some(n) => json!(n), None => json!(-1) } }
fn from_hint(j: &J) -> Option<usize> { j.as_i64().and_then(|n| if n < 0 { None } else { Some(n as usize) }) }
fn tagj(t: &Option<String>) -> J { json!(t.clone().unwrap_or_default()) }
fn from_tagj(j: &J) -> Option<String> { let s = j.as_str().unwrap_or(""); if s.is_empty() { None } else { Some(s.to_string()) } }
fn labj(l: Option<&Lab>) -> J {
    match l {
        Some(l) => json!({"some": true, "s": cps(&l.s), "st": l.st, "id": l.id}),
        None => json!({"some": false, "s": [], "st": false, "id": false}),
    }
}
fn from_labj(j: &J) -> Option<Lab> {
    if j["some"].as_bool().unwrap() { Some(Lab { s: from_cps(&j["s"]), st: j["st"].as_bool().unwrap(), id: j["id"].as_bool().unwrap() }) } else { None }
}
fn idxj(i: Option<&Idx>) -> J {
    match i {
        Some(i) => json!({"some": true, "v": i.v.to_string(), "off": i.off}),
        None => json!({"some": false, "v": "", "off": false}),
    }
}
fn from_idxj(j: &J) -> Option<Idx> {
    if j["some"].as_bool().unwrap() { Some(Idx { v: j["v"].as_str().unwrap().parse().unwrap(), off: j["off"].as_bool().unwrap() }) } else { None }
}
fn metaj(m: &Meta) -> J { json!({"tag": tagj(&m.tag), "lab": labj(m.lab.as_ref()), "idx": idxj(m.idx.as_ref())}) }
fn from_metaj(j: &J) -> Meta { Meta { tag: from_tagj(&j["tag"]), lab: from_labj(&j["lab"]), idx: from_idxj(&j["idx"]) } }
pub fn parse_f64(s: &str) -> f64 { s.parse().unwrap_or_else(|_| panic!("bad f64 {s}")) }
pub fn parse_f32(s: &str) -> f32 { s.parse().unwrap_or_else(|_| panic!("bad f32 {s}")) }

impl Tok {
    pub fn kind(&self) -> &'static str {
        use Tok::*;
        match self {
            Null => "null", Bool(_) => "bool", U8(_) => "u8", U16(_) => "u16", U32(_) => "u32", U64(_) => "u64", U128(_) => "u128",
            I8(_) => "i8", I16(_) => "i16", I32(_) => "i32", I64(_) => "i64", I128(_) => "i128", F32(_) => "f32", F64(_) => "f64",
            TextBegin(_) => "text_begin", TextFrag(..) => "text_fragment", TextEnd => "text_end",
            BinBegin(_) => "binary_begin", BinFrag(..) => "binary_fragment", BinEnd => "binary_end",
            MapBegin(_) => "map_begin", MapKeyBegin => "map_key_begin", MapKeyEnd => "map_key_end", MapValueBegin => "map_value_begin", MapValueEnd => "map_value_end", MapEnd => "map_end",
            SeqBegin(_) => "seq_begin", SeqValueBegin => "seq_value_begin", SeqValueEnd => "seq_value_end", SeqEnd => "seq_end",
            Tag(_) => "tag", TagHint(_) => "tag_hint", EnumBegin(_) => "enum_begin", EnumEnd(_) => "enum_end", TaggedBegin(_) => "tagged_begin", TaggedEnd(_) => "tagged_end",
            RecordBegin(..) => "record_begin", RecordValueBegin(..) => "record_value_begin", RecordValueEnd(..) => "record_value_end", RecordEnd(_) => "record_end",
            TupleBegin(..) => "tuple_begin", TupleValueBegin(..) => "tuple_value_begin", TupleValueEnd(..) => "tuple_value_end", TupleEnd(_) => "tuple_end",
            RecordTupleBegin(..) => "record_tuple_begin", RecordTupleValueBegin(..) => "record_tuple_value_begin", RecordTupleValueEnd(..) => "record_tuple_value_end", RecordTupleEnd(_) => "record_tuple_end",
            ValOpen(_) => "v(", ValClose => "v)",
        }
    }
    pub fn to_json(&self) -> J {
        use Tok::*;
        let mut o = Map::new();
        o.insert("k".into(), json!(self.kind()));
        let mut put = |k: &str, v: J| { o.insert(k.to_string(), v); };
        match self {
            Bool(v) => put("v", json!(v)),
            U8(v) => put("v", json!(v.to_string())), U16(v) => put("v", json!(v.to_string())), U32(v) => put("v", json!(v.to_string())),
            U64(v) => put("v", json!(v.to_string())), U128(v) => put("v", json!(v.to_string())),
            I8(v) => put("v", json!(v.to_string())), I16(v) => put("v", json!(v.to_string())), I32(v) => put("v", json!(v.to_string())),
            I64(v) => put("v", json!(v.to_string())), I128(v) => put("v", json!(v.to_string())),
            F32(v) => put("v", json!(format!("{v:?}"))), F64(v) => put("v", json!(format!("{v:?}"))),
            TextBegin(n) | BinBegin(n) | MapBegin(n) | SeqBegin(n) => put("n", hint(n)),
            TextFrag(s, b) => { put("s", cps(s)); put("b", json!(b)); }
            BinFrag(s, b) => { put("s", json!(s)); put("b", json!(b)); }
            Tag(m) | EnumBegin(m) | EnumEnd(m) | TaggedBegin(m) | TaggedEnd(m) | RecordEnd(m) | TupleEnd(m) | RecordTupleEnd(m) => put("m", metaj(m)),
            TagHint(t) => put("t", json!(t)),
            RecordBegin(m, n) | TupleBegin(m, n) | RecordTupleBegin(m, n) => { put("m", metaj(m)); put("n", hint(n)); }
            RecordValueBegin(t, l) | RecordValueEnd(t, l) => { put("t", tagj(t)); put("lab", labj(Some(l))); }
            TupleValueBegin(t, i) | TupleValueEnd(t, i) => { put("t", tagj(t)); put("idx", idxj(Some(i))); }
            RecordTupleValueBegin(t, l, i) | RecordTupleValueEnd(t, l, i) => { put("t", tagj(t)); put("lab", labj(Some(l))); put("idx", idxj(Some(i))); }
            ValOpen(c) => put("c", json!(c)),
            _ => {}
        }
        J::Object(o)
    }
    pub fn from_json(j: &J) -> Tok {
        use Tok::*;
        let s = || j["v"].as_str().unwrap();
        let m = || from_metaj(&j["m"]);
        let n = || from_hint(&j["n"]);
        let t = || from_tagj(&j["t"]);
        let l = || from_labj(&j["lab"]).unwrap();
        let i = || from_idxj(&j["idx"]).unwrap();
        match j["k"].as_str().unwrap() {
            "null" => Null, "bool" => Bool(j["v"].as_bool().unwrap()),
            "u8" => U8(s().parse().unwrap()), "u16" => U16(s().parse().unwrap()), "u32" => U32(s().parse().unwrap()), "u64" => U64(s().parse().unwrap()), "u128" => U128(s().parse().unwrap()),
            "i8" => I8(s().parse().unwrap()), "i16" => I16(s().parse().unwrap()), "i32" => I32(s().parse().unwrap()), "i64" => I64(s().parse().unwrap()), "i128" => I128(s().parse().unwrap()),
            "f32" => F32(parse_f32(s())), "f64" => F64(parse_f64(s())),
            "text_begin" => TextBegin(n()), "text_fragment" => TextFrag(from_cps(&j["s"]), j["b"].as_bool().unwrap()), "text_end" => TextEnd,
            "binary_begin" => BinBegin(n()), "binary_fragment" => BinFrag(bytes(&j["s"]), j["b"].as_bool().unwrap()), "binary_end" => BinEnd,
            "map_begin" => MapBegin(n()), "map_key_begin" => MapKeyBegin, "map_key_end" => MapKeyEnd, "map_value_begin" => MapValueBegin, "map_value_end" => MapValueEnd, "map_end" => MapEnd,
            "seq_begin" => SeqBegin(n()), "seq_value_begin" => SeqValueBegin, "seq_value_end" => SeqValueEnd, "seq_end" => SeqEnd,
            "tag" => Tag(m()), "tag_hint" => TagHint(t().unwrap()),
            "enum_begin" => EnumBegin(m()), "enum_end" => EnumEnd(m()), "tagged_begin" => TaggedBegin(m()), "tagged_end" => TaggedEnd(m()),
            "record_begin" => RecordBegin(m(), n()), "record_value_begin" => RecordValueBegin(t(), l()), "record_value_end" => RecordValueEnd(t(), l()), "record_end" => RecordEnd(m()),
            "tuple_begin" => TupleBegin(m(), n()), "tuple_value_begin" => TupleValueBegin(t(), i()), "tuple_value_end" => TupleValueEnd(t(), i()), "tuple_end" => TupleEnd(m()),
            "record_tuple_begin" => RecordTupleBegin(m(), n()), "record_tuple_value_begin" => RecordTupleValueBegin(t(), l(), i()), "record_tuple_value_end" => RecordTupleValueEnd(t(), l(), i()), "record_tuple_end" => RecordTupleEnd(m()),
            "v(" => ValOpen(j["c"].as_bool().unwrap()), "v)" => ValClose,
            k => panic!("unknown token kind {k}"),
        }
    }
}
pub fn bytes(j: &J) -> Vec<u8> { j.as_array().map(|a| a.iter().map(|b| b.as_u64().unwrap() as u8).collect()).unwrap_or_default() }
pub fn toks_from(j: &J) -> Vec<Tok> { j.as_array().unwrap().iter().map(Tok::from_json).collect() }
pub fn toks_json(t: &[Tok]) -> J { J::Array(t.iter().map(|t| t.to_json()).collect()) }

// ---------------------------------------------------------------- tags
pub const T1: sval::Tag = sval::Tag::new("T1");
pub const T2: sval::Tag = sval::Tag::new("T2");
pub const T3: sval::Tag = sval::Tag::new("T3");
static KNOWN: &[(&str, &sval::Tag)] = &[
    ("RUST_OPTION_SOME", &sval::tags::RUST_OPTION_SOME), ("RUST_OPTION_NONE", &sval::tags::RUST_OPTION_NONE),
    ("RUST_UNIT", &sval::tags::RUST_UNIT), ("NUMBER", &sval::tags::NUMBER), ("CONSTANT_SIZE", &sval::tags::CONSTANT_SIZE),
    ("VALUE_IDENT", &sval::tags::VALUE_IDENT), ("VALUE_OFFSET", &sval::tags::VALUE_OFFSET),
    ("JSON_VALUE", &sval_json::tags::JSON_VALUE), ("JSON_TEXT", &sval_json::tags::JSON_TEXT), ("JSON_NUMBER", &sval_json::tags::JSON_NUMBER),
    ("T1", &T1), ("T2", &T2), ("T3", &T3),
];
pub fn known() -> &'static [(&'static str, &'static sval::Tag)] { KNOWN }
pub fn tag_named(name: &str) -> &'static sval::Tag {
    KNOWN.iter().find(|(n, _)| *n == name).unwrap_or_else(|| panic!("unknown tag {name}")).1
}
pub fn tag_name(t: &sval::Tag) -> String {
    KNOWN.iter().find(|(_, k)| *k == t).map(|(n, _)| n.to_string()).unwrap_or_else(|| format!("?{t:?}"))
}

static STATICS: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
pub fn intern(s: &str) -> &'static str {
    let mut g = STATICS.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(r) = m.get(s) { return r; }
    let r: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(s.to_string(), r);
    r
}
impl Lab {
    pub fn label(&self) -> sval::Label<'_> {
        let l = if self.st { sval::Label::new(intern(&self.s)) } else { sval::Label::new_computed(&self.s) };
        if self.id { l.with_tag(&sval::tags::VALUE_IDENT) } else { l }
    }
    pub fn of(l: &sval::Label) -> Lab {
        Lab { s: l.as_str().to_string(), st: l.as_static_str().is_some(), id: l.tag() == Some(&sval::tags::VALUE_IDENT) }
    }
}
impl Idx {
    pub fn index(&self) -> sval::Index {
        let i = if let Ok(v) = i64::try_from(self.v) { sval::Index::new_i64(v) } else { sval::Index::new_u64(u64::try_from(self.v).unwrap()) };
        if self.off { i.with_tag(&sval::tags::VALUE_OFFSET) } else { i }
    }
    pub fn of(i: &sval::Index) -> Idx {
        Idx { v: i.to_string().parse().unwrap_or(i128::MIN), off: i.tag() == Some(&sval::tags::VALUE_OFFSET) }
    }
}
impl Meta {
    pub fn of(t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>) -> Meta {
        Meta { tag: t.map(tag_name), lab: l.map(Lab::of), idx: i.map(Idx::of) }
    }
    pub fn with<R>(&self, f: impl FnOnce(Option<&sval::Tag>, Option<&sval::Label>, Option<&sval::Index>) -> R) -> R {
        let l = self.lab.as_ref().map(|l| l.label());
        let i = self.idx.as_ref().map(|i| i.index());
        f(self.tag.as_deref().map(tag_named), l.as_ref(), i.as_ref())
    }
}
pub fn tag_opt(t: &Option<String>) -> Option<&'static sval::Tag> { t.as_deref().map(tag_named) }

// ---------------------------------------------------------------- replay
/// A value that streams exactly the given tokens.
#[derive(Debug, Clone)]
pub struct Nodes(pub Vec<Node>);
#[derive(Debug, Clone)]
pub enum Node { T(Tok), V(bool, Nodes) }

impl Nodes {
    pub fn new(toks: &[Tok]) -> Nodes {
        let mut stack: Vec<(bool, Vec<Node>)> = vec![(false, vec![])];
        for t in toks {
            match t {
                Tok::ValOpen(c) => stack.push((*c, vec![])),
                Tok::ValClose => { let (c, n) = stack.pop().unwrap(); stack.last_mut().unwrap().1.push(Node::V(c, Nodes(n))); }
                t => stack.last_mut().unwrap().1.push(Node::T(t.clone())),
            }
        }
        Nodes(stack.pop().unwrap().1)
    }
}
impl sval::Value for Nodes {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        for n in &self.0 {
            match n {
                Node::T(t) => play(t, s)?,
                Node::V(false, v) => s.value(v)?,
                Node::V(true, v) => s.value_computed(v)?,
            }
        }
        Ok(())
    }
}
/// Make one call on a stream.
pub fn play<'sval, S: sval::Stream<'sval> + ?Sized>(t: &'sval Tok, s: &mut S) -> sval::Result {
    use Tok::*;
    match t {
        Null => s.null(), Bool(v) => s.bool(*v),
        U8(v) => s.u8(*v), U16(v) => s.u16(*v), U32(v) => s.u32(*v), U64(v) => s.u64(*v), U128(v) => s.u128(*v),
        I8(v) => s.i8(*v), I16(v) => s.i16(*v), I32(v) => s.i32(*v), I64(v) => s.i64(*v), I128(v) => s.i128(*v),
        F32(v) => s.f32(*v), F64(v) => s.f64(*v),
        TextBegin(n) => s.text_begin(*n), TextEnd => s.text_end(),
        TextFrag(f, true) => s.text_fragment(f),
        TextFrag(f, false) => { let c = f.clone(); s.text_fragment_computed(&c) }
        BinBegin(n) => s.binary_begin(*n), BinEnd => s.binary_end(),
        BinFrag(f, true) => s.binary_fragment(f),
        BinFrag(f, false) => { let c = f.clone(); s.binary_fragment_computed(&c) }
        MapBegin(n) => s.map_begin(*n), MapKeyBegin => s.map_key_begin(), MapKeyEnd => s.map_key_end(), MapValueBegin => s.map_value_begin(), MapValueEnd => s.map_value_end(), MapEnd => s.map_end(),
        SeqBegin(n) => s.seq_begin(*n), SeqValueBegin => s.seq_value_begin(), SeqValueEnd => s.seq_value_end(), SeqEnd => s.seq_end(),
        Tag(m) => m.with(|t, l, i| s.tag(t, l, i)), TagHint(t) => s.tag_hint(tag_named(t)),
        EnumBegin(m) => m.with(|t, l, i| s.enum_begin(t, l, i)), EnumEnd(m) => m.with(|t, l, i| s.enum_end(t, l, i)),
        TaggedBegin(m) => m.with(|t, l, i| s.tagged_begin(t, l, i)), TaggedEnd(m) => m.with(|t, l, i| s.tagged_end(t, l, i)),
        RecordBegin(m, n) => m.with(|t, l, i| s.record_begin(t, l, i, *n)), RecordEnd(m) => m.with(|t, l, i| s.record_end(t, l, i)),
        RecordValueBegin(t, l) => s.record_value_begin(tag_opt(t), &l.label()), RecordValueEnd(t, l) => s.record_value_end(tag_opt(t), &l.label()),
        TupleBegin(m, n) => m.with(|t, l, i| s.tuple_begin(t, l, i, *n)), TupleEnd(m) => m.with(|t, l, i| s.tuple_end(t, l, i)),
        TupleValueBegin(t, i) => s.tuple_value_begin(tag_opt(t), &i.index()), TupleValueEnd(t, i) => s.tuple_value_end(tag_opt(t), &i.index()),
        RecordTupleBegin(m, n) => m.with(|t, l, i| s.record_tuple_begin(t, l, i, *n)), RecordTupleEnd(m) => m.with(|t, l, i| s.record_tuple_end(t, l, i)),
        RecordTupleValueBegin(t, l, i) => s.record_tuple_value_begin(tag_opt(t), &l.label(), &i.index()),
        RecordTupleValueEnd(t, l, i) => s.record_tuple_value_end(tag_opt(t), &l.label(), &i.index()),
        ValOpen(_) | ValClose => unreachable!("markers are not calls"),
    }
}
