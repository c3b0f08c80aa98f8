//! Recording streams.
use crate::tok::*;
use sval::{default_stream as d, Index, Label, Result, Tag, Value};

pub const METHODS: &[&str] = &[
    "null", "bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64",
    "text_begin", "text_fragment", "text_fragment_computed", "text_end", "binary_begin", "binary_fragment", "binary_fragment_computed", "binary_end",
    "map_begin", "map_key_begin", "map_key_end", "map_value_begin", "map_value_end", "map_end",
    "seq_begin", "seq_value_begin", "seq_value_end", "seq_end", "tag", "tag_hint", "enum_begin", "enum_end", "tagged_begin", "tagged_end",
    "record_begin", "record_value_begin", "record_value_end", "record_end", "tuple_begin", "tuple_value_begin", "tuple_value_end", "tuple_end",
    "record_tuple_begin", "record_tuple_value_begin", "record_tuple_value_end", "record_tuple_end",
];
pub const REQUIRED: &[&str] = &["null", "bool", "text_begin", "text_fragment_computed", "text_end", "i64", "f64", "seq_begin", "seq_value_begin", "seq_value_end", "seq_end"];

pub fn mask_of<'a>(names: impl IntoIterator<Item = &'a str>) -> u64 {
    let mut m = 0;
    for n in names.into_iter().chain(REQUIRED.iter().copied()) {
        m |= 1 << METHODS.iter().position(|x| *x == n).unwrap_or_else(|| panic!("unknown method {n}"));
    }
    m
}

/// Records every call it implements (mask), optionally failing at the n-th call.
pub struct Rec {
    pub toks: Vec<Tok>,
    pub mask: u64,
    pub fail_at: Option<usize>,
    /// calls made after the failing one
    pub after: usize,
    /// record value()/value_computed() as markers
    pub markers: bool,
    depth_failed: bool,
}
impl Default for Rec { fn default() -> Self { Rec::full() } }
impl Rec {
    pub fn full() -> Rec { Rec { toks: vec![], mask: !0, fail_at: None, after: 0, markers: false, depth_failed: false } }
    pub fn masked(mask: u64) -> Rec { Rec { mask, ..Rec::full() } }
    pub fn marked() -> Rec { Rec { markers: true, ..Rec::full() } }
    pub fn failing(n: usize) -> Rec { Rec { fail_at: Some(n), ..Rec::full() } }
    pub fn failed(&self) -> bool { self.depth_failed }
    pub fn call(&mut self, t: Tok) -> Result {
        if self.depth_failed { self.after += 1; return sval::error(); }
        if self.fail_at == Some(self.toks.len()) { self.depth_failed = true; return sval::error(); }
        self.toks.push(t);
        Ok(())
    }
    #[inline]
    fn has(&self, i: usize) -> bool { self.mask & (1 << i) != 0 }
}
macro_rules! idx { ($n:literal) => {{ const fn f(n: &str) -> usize { let mut i = 0; while i < METHODS.len() { if eq(METHODS[i], n) { return i; } i += 1; } panic!() } const I: usize = f($n); I }} }
const fn eq(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() { if a[i] != b[i] { return false; } i += 1; }
    true
}
fn lo(l: &Label) -> Lab { Lab::of(l) }
fn io(i: &Index) -> Idx { Idx::of(i) }
fn to(t: Option<&Tag>) -> Option<String> { t.map(tag_name) }

macro_rules! m {
    ($self:ident, $n:literal, $name:ident ( $($a:expr),* ), $tok:expr) => {
        if $self.has(idx!($n)) { let t = $tok; $self.call(t) } else { d::$name($self $(, $a)*) }
    };
}
type T<'a> = Option<&'a Tag>;
type L<'a> = Option<&'a Label<'a>>;
type I<'a> = Option<&'a Index>;

impl<'sval> sval::Stream<'sval> for Rec {
    fn value<V: Value + ?Sized>(&mut self, v: &'sval V) -> Result {
        if !self.markers { return d::value(self, v); }
        self.call(Tok::ValOpen(false))?; d::value(self, v)?; self.call(Tok::ValClose)
    }
    fn value_computed<V: Value + ?Sized>(&mut self, v: &V) -> Result {
        if !self.markers { return d::value_computed(self, v); }
        self.call(Tok::ValOpen(true))?; d::value_computed(self, v)?; self.call(Tok::ValClose)
    }
    fn null(&mut self) -> Result { self.call(Tok::Null) }
    fn bool(&mut self, v: bool) -> Result { self.call(Tok::Bool(v)) }
    fn text_begin(&mut self, n: Option<usize>) -> Result { self.call(Tok::TextBegin(n)) }
    fn text_fragment(&mut self, f: &'sval str) -> Result { m!(self, "text_fragment", text_fragment(f), Tok::TextFrag(f.to_string(), true)) }
    fn text_fragment_computed(&mut self, f: &str) -> Result { self.call(Tok::TextFrag(f.to_string(), false)) }
    fn text_end(&mut self) -> Result { self.call(Tok::TextEnd) }
    fn binary_begin(&mut self, n: Option<usize>) -> Result { m!(self, "binary_begin", binary_begin(n), Tok::BinBegin(n)) }
    fn binary_fragment(&mut self, f: &'sval [u8]) -> Result { m!(self, "binary_fragment", binary_fragment(f), Tok::BinFrag(f.to_vec(), true)) }
    fn binary_fragment_computed(&mut self, f: &[u8]) -> Result { m!(self, "binary_fragment_computed", binary_fragment_computed(f), Tok::BinFrag(f.to_vec(), false)) }
    fn binary_end(&mut self) -> Result { m!(self, "binary_end", binary_end(), Tok::BinEnd) }
    fn u8(&mut self, v: u8) -> Result { m!(self, "u8", u8(v), Tok::U8(v)) }
    fn u16(&mut self, v: u16) -> Result { m!(self, "u16", u16(v), Tok::U16(v)) }
    fn u32(&mut self, v: u32) -> Result { m!(self, "u32", u32(v), Tok::U32(v)) }
    fn u64(&mut self, v: u64) -> Result { m!(self, "u64", u64(v), Tok::U64(v)) }
    fn u128(&mut self, v: u128) -> Result { m!(self, "u128", u128(v), Tok::U128(v)) }
    fn i8(&mut self, v: i8) -> Result { m!(self, "i8", i8(v), Tok::I8(v)) }
    fn i16(&mut self, v: i16) -> Result { m!(self, "i16", i16(v), Tok::I16(v)) }
    fn i32(&mut self, v: i32) -> Result { m!(self, "i32", i32(v), Tok::I32(v)) }
    fn i64(&mut self, v: i64) -> Result { self.call(Tok::I64(v)) }
    fn i128(&mut self, v: i128) -> Result { m!(self, "i128", i128(v), Tok::I128(v)) }
    fn f32(&mut self, v: f32) -> Result { m!(self, "f32", f32(v), Tok::F32(v)) }
    fn f64(&mut self, v: f64) -> Result { self.call(Tok::F64(v)) }
    fn map_begin(&mut self, n: Option<usize>) -> Result { m!(self, "map_begin", map_begin(n), Tok::MapBegin(n)) }
    fn map_key_begin(&mut self) -> Result { m!(self, "map_key_begin", map_key_begin(), Tok::MapKeyBegin) }
    fn map_key_end(&mut self) -> Result { m!(self, "map_key_end", map_key_end(), Tok::MapKeyEnd) }
    fn map_value_begin(&mut self) -> Result { m!(self, "map_value_begin", map_value_begin(), Tok::MapValueBegin) }
    fn map_value_end(&mut self) -> Result { m!(self, "map_value_end", map_value_end(), Tok::MapValueEnd) }
    fn map_end(&mut self) -> Result { m!(self, "map_end", map_end(), Tok::MapEnd) }
    fn seq_begin(&mut self, n: Option<usize>) -> Result { self.call(Tok::SeqBegin(n)) }
    fn seq_value_begin(&mut self) -> Result { self.call(Tok::SeqValueBegin) }
    fn seq_value_end(&mut self) -> Result { self.call(Tok::SeqValueEnd) }
    fn seq_end(&mut self) -> Result { self.call(Tok::SeqEnd) }
    fn tag(&mut self, t: T, l: L, i: I) -> Result { m!(self, "tag", tag(t, l, i), Tok::Tag(Meta::of(t, l, i))) }
    fn tag_hint(&mut self, t: &Tag) -> Result { m!(self, "tag_hint", tag_hint(t), Tok::TagHint(tag_name(t))) }
    fn enum_begin(&mut self, t: T, l: L, i: I) -> Result { m!(self, "enum_begin", enum_begin(t, l, i), Tok::EnumBegin(Meta::of(t, l, i))) }
    fn enum_end(&mut self, t: T, l: L, i: I) -> Result { m!(self, "enum_end", enum_end(t, l, i), Tok::EnumEnd(Meta::of(t, l, i))) }
    fn tagged_begin(&mut self, t: T, l: L, i: I) -> Result { m!(self, "tagged_begin", tagged_begin(t, l, i), Tok::TaggedBegin(Meta::of(t, l, i))) }
    fn tagged_end(&mut self, t: T, l: L, i: I) -> Result { m!(self, "tagged_end", tagged_end(t, l, i), Tok::TaggedEnd(Meta::of(t, l, i))) }
    fn record_begin(&mut self, t: T, l: L, i: I, n: Option<usize>) -> Result { m!(self, "record_begin", record_begin(t, l, i, n), Tok::RecordBegin(Meta::of(t, l, i), n)) }
    fn record_value_begin(&mut self, t: T, l: &Label) -> Result { m!(self, "record_value_begin", record_value_begin(t, l), Tok::RecordValueBegin(to(t), lo(l))) }
    fn record_value_end(&mut self, t: T, l: &Label) -> Result { m!(self, "record_value_end", record_value_end(t, l), Tok::RecordValueEnd(to(t), lo(l))) }
    fn record_end(&mut self, t: T, l: L, i: I) -> Result { m!(self, "record_end", record_end(t, l, i), Tok::RecordEnd(Meta::of(t, l, i))) }
    fn tuple_begin(&mut self, t: T, l: L, i: I, n: Option<usize>) -> Result { m!(self, "tuple_begin", tuple_begin(t, l, i, n), Tok::TupleBegin(Meta::of(t, l, i), n)) }
    fn tuple_value_begin(&mut self, t: T, i: &Index) -> Result { m!(self, "tuple_value_begin", tuple_value_begin(t, i), Tok::TupleValueBegin(to(t), io(i))) }
    fn tuple_value_end(&mut self, t: T, i: &Index) -> Result { m!(self, "tuple_value_end", tuple_value_end(t, i), Tok::TupleValueEnd(to(t), io(i))) }
    fn tuple_end(&mut self, t: T, l: L, i: I) -> Result { m!(self, "tuple_end", tuple_end(t, l, i), Tok::TupleEnd(Meta::of(t, l, i))) }
    fn record_tuple_begin(&mut self, t: T, l: L, i: I, n: Option<usize>) -> Result { m!(self, "record_tuple_begin", record_tuple_begin(t, l, i, n), Tok::RecordTupleBegin(Meta::of(t, l, i), n)) }
    fn record_tuple_value_begin(&mut self, t: T, l: &Label, i: &Index) -> Result { m!(self, "record_tuple_value_begin", record_tuple_value_begin(t, l, i), Tok::RecordTupleValueBegin(to(t), lo(l), io(i))) }
    fn record_tuple_value_end(&mut self, t: T, l: &Label, i: &Index) -> Result { m!(self, "record_tuple_value_end", record_tuple_value_end(t, l, i), Tok::RecordTupleValueEnd(to(t), lo(l), io(i))) }
    fn record_tuple_end(&mut self, t: T, l: L, i: I) -> Result { m!(self, "record_tuple_end", record_tuple_end(t, l, i), Tok::RecordTupleEnd(Meta::of(t, l, i))) }
}

/// Streams that leave whole groups of methods to the trait's own defaults.
macro_rules! partial {
    ($name:ident, $static_name:literal, [$($imp:literal),*], { $($body:tt)* }) => {
        #[derive(Default)]
        pub struct $name(pub Rec);
        impl $name { pub const IMPL: &'static [&'static str] = &[$($imp),*]; }
        impl<'sval> sval::Stream<'sval> for $name {
            fn null(&mut self) -> Result { self.0.call(Tok::Null) }
            fn bool(&mut self, v: bool) -> Result { self.0.call(Tok::Bool(v)) }
            fn text_begin(&mut self, n: Option<usize>) -> Result { self.0.call(Tok::TextBegin(n)) }
            fn text_fragment_computed(&mut self, f: &str) -> Result { self.0.call(Tok::TextFrag(f.to_string(), false)) }
            fn text_end(&mut self) -> Result { self.0.call(Tok::TextEnd) }
            fn i64(&mut self, v: i64) -> Result { self.0.call(Tok::I64(v)) }
            fn f64(&mut self, v: f64) -> Result { self.0.call(Tok::F64(v)) }
            fn seq_begin(&mut self, n: Option<usize>) -> Result { self.0.call(Tok::SeqBegin(n)) }
            fn seq_value_begin(&mut self) -> Result { self.0.call(Tok::SeqValueBegin) }
            fn seq_value_end(&mut self) -> Result { self.0.call(Tok::SeqValueEnd) }
            fn seq_end(&mut self) -> Result { self.0.call(Tok::SeqEnd) }
            $($body)*
        }
    };
}
partial!(Minimal, "minimal", [], {});
partial!(Maps, "maps", ["text_fragment", "map_begin", "map_key_begin", "map_key_end", "map_value_begin", "map_value_end", "map_end"], {
    fn text_fragment(&mut self, f: &'sval str) -> Result { self.0.call(Tok::TextFrag(f.to_string(), true)) }
    fn map_begin(&mut self, n: Option<usize>) -> Result { self.0.call(Tok::MapBegin(n)) }
    fn map_key_begin(&mut self) -> Result { self.0.call(Tok::MapKeyBegin) }
    fn map_key_end(&mut self) -> Result { self.0.call(Tok::MapKeyEnd) }
    fn map_value_begin(&mut self) -> Result { self.0.call(Tok::MapValueBegin) }
    fn map_value_end(&mut self) -> Result { self.0.call(Tok::MapValueEnd) }
    fn map_end(&mut self) -> Result { self.0.call(Tok::MapEnd) }
});
partial!(Tagged, "tagged", ["tagged_begin", "tagged_end", "binary_begin", "binary_fragment_computed", "binary_end", "u64", "i128"], {
    fn tagged_begin(&mut self, t: T, l: L, i: I) -> Result { self.0.call(Tok::TaggedBegin(Meta::of(t, l, i))) }
    fn tagged_end(&mut self, t: T, l: L, i: I) -> Result { self.0.call(Tok::TaggedEnd(Meta::of(t, l, i))) }
    fn binary_begin(&mut self, n: Option<usize>) -> Result { self.0.call(Tok::BinBegin(n)) }
    fn binary_fragment_computed(&mut self, f: &[u8]) -> Result { self.0.call(Tok::BinFrag(f.to_vec(), false)) }
    fn binary_end(&mut self) -> Result { self.0.call(Tok::BinEnd) }
    fn u64(&mut self, v: u64) -> Result { self.0.call(Tok::U64(v)) }
    fn i128(&mut self, v: i128) -> Result { self.0.call(Tok::I128(v)) }
});
partial!(Recs, "recs", ["text_fragment", "tag", "enum_begin", "enum_end", "u32", "i16", "f32", "record_begin", "record_value_begin", "record_value_end", "record_end", "tuple_begin", "tuple_value_begin", "tuple_value_end", "tuple_end"], {
    fn text_fragment(&mut self, f: &'sval str) -> Result { self.0.call(Tok::TextFrag(f.to_string(), true)) }
    fn tag(&mut self, t: T, l: L, i: I) -> Result { self.0.call(Tok::Tag(Meta::of(t, l, i))) }
    fn enum_begin(&mut self, t: T, l: L, i: I) -> Result { self.0.call(Tok::EnumBegin(Meta::of(t, l, i))) }
    fn enum_end(&mut self, t: T, l: L, i: I) -> Result { self.0.call(Tok::EnumEnd(Meta::of(t, l, i))) }
    fn u32(&mut self, v: u32) -> Result { self.0.call(Tok::U32(v)) }
    fn i16(&mut self, v: i16) -> Result { self.0.call(Tok::I16(v)) }
    fn f32(&mut self, v: f32) -> Result { self.0.call(Tok::F32(v)) }
    fn record_begin(&mut self, t: T, l: L, i: I, n: Option<usize>) -> Result { self.0.call(Tok::RecordBegin(Meta::of(t, l, i), n)) }
    fn record_value_begin(&mut self, t: T, l: &Label) -> Result { self.0.call(Tok::RecordValueBegin(to(t), lo(l))) }
    fn record_value_end(&mut self, t: T, l: &Label) -> Result { self.0.call(Tok::RecordValueEnd(to(t), lo(l))) }
    fn record_end(&mut self, t: T, l: L, i: I) -> Result { self.0.call(Tok::RecordEnd(Meta::of(t, l, i))) }
    fn tuple_begin(&mut self, t: T, l: L, i: I, n: Option<usize>) -> Result { self.0.call(Tok::TupleBegin(Meta::of(t, l, i), n)) }
    fn tuple_value_begin(&mut self, t: T, i: &Index) -> Result { self.0.call(Tok::TupleValueBegin(to(t), io(i))) }
    fn tuple_value_end(&mut self, t: T, i: &Index) -> Result { self.0.call(Tok::TupleValueEnd(to(t), io(i))) }
    fn tuple_end(&mut self, t: T, l: L, i: I) -> Result { self.0.call(Tok::TupleEnd(Meta::of(t, l, i))) }
});

/// Merge adjacent fragments of the same kind, drop empty ones.
pub fn merge(toks: &[Tok]) -> Vec<Tok> {
    let mut out: Vec<Tok> = vec![];
    for t in toks {
        match t {
            Tok::TextFrag(s, b) => {
                if s.is_empty() { continue; }
                if let Some(Tok::TextFrag(p, pb)) = out.last_mut() { if *pb == *b { p.push_str(s); continue; } }
                out.push(t.clone());
            }
            Tok::BinFrag(s, b) => {
                if s.is_empty() { continue; }
                if let Some(Tok::BinFrag(p, pb)) = out.last_mut() { if *pb == *b { p.extend_from_slice(s); continue; } }
                out.push(t.clone());
            }
            t => out.push(t.clone()),
        }
    }
    out
}
/// Compare two token sequences up to how text and binary are cut.
pub fn same_merged(a: &[Tok], b: &[Tok]) -> bool { merge(a) == merge(b) }
pub fn show(t: &[Tok]) -> String { serde_json::to_string(&toks_json(t)).unwrap() }
