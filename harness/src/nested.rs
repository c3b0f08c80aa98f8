//! N01: recursive streams.
use crate::buf::{cmp_whole, whole};
use crate::rec::*;
use crate::tok::*;
use crate::ctx::may_refuse;
use crate::Ctx;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::rc::Rc;
use sval::{Index, Label, Tag, Value};
use sval_nested::{Error, Result, StreamEnum, StreamMap, StreamRecord, StreamSeq, StreamTuple};
use sval_ref::ValueRef;

/// Where everything a recursive stream is shown is written down.
#[derive(Clone)]
struct Sink { rec: Rc<RefCell<Rec>>, flat: bool }
impl Sink {
    fn new(fail_at: Option<usize>, flat: bool) -> Sink {
        let mut r = Rec::full();
        r.fail_at = fail_at;
        // what a child streams is compared after the same lowering
        if flat { r.mask = mask_of(METHODS.iter().copied().filter(|m| !m.starts_with("record_tuple") && *m != "tag_hint")); }
        Sink { rec: Rc::new(RefCell::new(r)), flat }
    }
    fn put(&self, t: Tok) -> Result<()> { self.rec.borrow_mut().call(t).map_err(|_| Error::invalid_value("sink")) }
    fn text(&self, s: &str, b: bool) -> Result<()> {
        self.put(Tok::TextBegin(Some(s.len())))?;
        self.put(Tok::TextFrag(s.to_string(), b))?;
        self.put(Tok::TextEnd)
    }
    fn bin(&self, s: &[u8], b: bool) -> Result<()> {
        self.put(Tok::BinBegin(Some(s.len())))?;
        self.put(Tok::BinFrag(s.to_vec(), b))?;
        self.put(Tok::BinEnd)
    }
}
fn meta(t: &Option<Tag>, l: &Option<Label>, i: &Option<Index>) -> Meta { Meta::of(t.as_ref(), l.as_ref(), i.as_ref()) }

/// Implements everything.
#[derive(Clone)]
struct Full(Sink);
/// Implements only what it must.
#[derive(Clone)]
struct Min(Sink);
trait Kid: Clone {
    fn sink(&self) -> &Sink;
    fn child<'s, V: ValueRef<'s>>(&self, v: V) -> Result<()>;
    fn child_computed<V: Value>(&self, v: V) -> Result<()>;
    const RICH: bool;
}
impl Kid for Full {
    fn sink(&self) -> &Sink { &self.0 }
    fn child<'s, V: ValueRef<'s>>(&self, v: V) -> Result<()> {
        if self.0.flat {
            let mut r = self.0.rec.borrow_mut();
            sval_ref::stream_ref(&mut *r, v).map_err(|_| Error::invalid_value("flat"))
        } else { sval_nested::stream(self.clone(), v) }
    }
    fn child_computed<V: Value>(&self, v: V) -> Result<()> {
        if self.0.flat {
            let mut r = self.0.rec.borrow_mut();
            sval::stream_computed(&mut *r, &v).map_err(|_| Error::invalid_value("flat"))
        } else { sval_nested::stream_computed(self.clone(), &v) }
    }
    const RICH: bool = true;
}
impl Kid for Min {
    fn sink(&self) -> &Sink { &self.0 }
    fn child<'s, V: ValueRef<'s>>(&self, v: V) -> Result<()> { sval_nested::stream(self.clone(), v) }
    fn child_computed<V: Value>(&self, v: V) -> Result<()> { sval_nested::stream_computed(self.clone(), &v) }
    const RICH: bool = false;
}
struct Coll<K>(K, Tok);
struct Rich<T>(T);

macro_rules! coll {
    ($ty:ident, $long:tt) => {
        impl<'sval, K: Kid> StreamSeq<'sval> for $ty<K> {
            type Ok = ();
            coll!(@$long fn value<V: ValueRef<'sval>>(&mut self, v: V) -> Result {
                self.0.sink().put(Tok::SeqValueBegin)?; self.0.child(v)?; self.0.sink().put(Tok::SeqValueEnd)
            });
            fn value_computed<V: Value>(&mut self, v: V) -> Result {
                self.0.sink().put(Tok::SeqValueBegin)?; self.0.child_computed(v)?; self.0.sink().put(Tok::SeqValueEnd)
            }
            fn end(self) -> Result<()> { self.0.sink().put(self.1) }
        }
        impl<'sval, K: Kid> StreamMap<'sval> for $ty<K> {
            type Ok = ();
            coll!(@$long fn key<V: ValueRef<'sval>>(&mut self, v: V) -> Result {
                self.0.sink().put(Tok::MapKeyBegin)?; self.0.child(v)?; self.0.sink().put(Tok::MapKeyEnd)
            });
            fn key_computed<V: Value>(&mut self, v: V) -> Result {
                self.0.sink().put(Tok::MapKeyBegin)?; self.0.child_computed(v)?; self.0.sink().put(Tok::MapKeyEnd)
            }
            coll!(@$long fn value<V: ValueRef<'sval>>(&mut self, v: V) -> Result {
                self.0.sink().put(Tok::MapValueBegin)?; self.0.child(v)?; self.0.sink().put(Tok::MapValueEnd)
            });
            fn value_computed<V: Value>(&mut self, v: V) -> Result {
                self.0.sink().put(Tok::MapValueBegin)?; self.0.child_computed(v)?; self.0.sink().put(Tok::MapValueEnd)
            }
            fn end(self) -> Result<()> { self.0.sink().put(self.1) }
        }
        impl<'sval, K: Kid> StreamTuple<'sval> for $ty<K> {
            type Ok = ();
            coll!(@$long fn value<V: ValueRef<'sval>>(&mut self, t: Option<Tag>, i: Index, v: V) -> Result {
                let t = t.as_ref().map(tag_name);
                self.0.sink().put(Tok::TupleValueBegin(t.clone(), Idx::of(&i)))?; self.0.child(v)?; self.0.sink().put(Tok::TupleValueEnd(t, Idx::of(&i)))
            });
            fn value_computed<V: Value>(&mut self, t: Option<Tag>, i: Index, v: V) -> Result {
                let t = t.as_ref().map(tag_name);
                self.0.sink().put(Tok::TupleValueBegin(t.clone(), Idx::of(&i)))?; self.0.child_computed(v)?; self.0.sink().put(Tok::TupleValueEnd(t, Idx::of(&i)))
            }
            fn end(self) -> Result<()> { self.0.sink().put(self.1) }
        }
        impl<'sval, K: Kid> StreamRecord<'sval> for $ty<K> {
            type Ok = ();
            coll!(@$long fn value<V: ValueRef<'sval>>(&mut self, t: Option<Tag>, l: Label, v: V) -> Result {
                let t = t.as_ref().map(tag_name);
                self.0.sink().put(Tok::RecordValueBegin(t.clone(), Lab::of(&l)))?; self.0.child(v)?; self.0.sink().put(Tok::RecordValueEnd(t, Lab::of(&l)))
            });
            fn value_computed<V: Value>(&mut self, t: Option<Tag>, l: Label, v: V) -> Result {
                let t = t.as_ref().map(tag_name);
                self.0.sink().put(Tok::RecordValueBegin(t.clone(), Lab::of(&l)))?; self.0.child_computed(v)?; self.0.sink().put(Tok::RecordValueEnd(t, Lab::of(&l)))
            }
            fn end(self) -> Result<()> { self.0.sink().put(self.1) }
        }
    };
    (@yes $i:item) => { $i };
    (@no $i:item) => {};
}
// the streams for containers: one that implements the long-lived calls, one that does not
struct CollLong<K>(K, Tok);
coll!(CollLong, yes);
coll!(Coll, no);

struct En<K>(K);
struct EnMin<K>(K);
macro_rules! en {
    ($ty:ident, $coll:ident, { $($extra:tt)* }) => {
        impl<'sval, K: Kid> StreamEnum<'sval> for $ty<K> {
            type Ok = ();
            type Tuple = $coll<K>;
            type Record = $coll<K>;
            type Nested = $ty<K>;
            fn tag(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> Result<()> { self.0.sink().put(Tok::Tag(meta(&t, &l, &i))) }
            fn tagged_computed<V: Value>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<()> {
                let m = meta(&t, &l, &i);
                self.0.sink().put(Tok::TaggedBegin(m.clone()))?; self.0.child_computed(v)?; self.0.sink().put(Tok::TaggedEnd(m))
            }
            $($extra)*
            fn tuple_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<$coll<K>> {
                let m = meta(&t, &l, &i);
                self.0.sink().put(Tok::TupleBegin(m.clone(), n))?; Ok($coll(self.0, Tok::TupleEnd(m)))
            }
            fn record_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<$coll<K>> {
                let m = meta(&t, &l, &i);
                self.0.sink().put(Tok::RecordBegin(m.clone(), n))?; Ok($coll(self.0, Tok::RecordEnd(m)))
            }
            fn nested<F: FnOnce(Self::Nested) -> Result<()>>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, f: F) -> Result<()> {
                let m = meta(&t, &l, &i);
                self.0.sink().put(Tok::EnumBegin(m.clone()))?; f($ty(self.0.clone()))?; self.0.sink().put(Tok::EnumEnd(m))
            }
            fn empty(self) -> Result<()> { Ok(()) }
        }
    };
}
en!(En, CollLong, {
    fn tagged<V: ValueRef<'sval>>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<()> {
        let m = meta(&t, &l, &i);
        self.0.sink().put(Tok::TaggedBegin(m.clone()))?; self.0.child(v)?; self.0.sink().put(Tok::TaggedEnd(m))
    }
});
en!(EnMin, Coll, {});
/// The end of the outermost enum is not announced to the stream, so it is written when the variant ends.
struct EnEnd<E>(E, Sink, Meta);
struct CollEnd<C>(C, Sink, Meta);
macro_rules! enend {
    ($en:ident, $coll:ident) => {
        impl<'sval, K: Kid> StreamEnum<'sval> for EnEnd<$en<K>> {
            type Ok = ();
            type Tuple = CollEnd<$coll<K>>;
            type Record = CollEnd<$coll<K>>;
            type Nested = $en<K>;
            fn tag(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> Result<()> { self.0.tag(t, l, i)?; self.1.put(Tok::EnumEnd(self.2)) }
            fn tagged<V: ValueRef<'sval>>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<()> { self.0.tagged(t, l, i, v)?; self.1.put(Tok::EnumEnd(self.2)) }
            fn tagged_computed<V: Value>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<()> { self.0.tagged_computed(t, l, i, v)?; self.1.put(Tok::EnumEnd(self.2)) }
            fn tuple_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<Self::Tuple> { Ok(CollEnd(self.0.tuple_begin(t, l, i, n)?, self.1, self.2)) }
            fn record_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<Self::Record> { Ok(CollEnd(self.0.record_begin(t, l, i, n)?, self.1, self.2)) }
            fn nested<F: FnOnce(Self::Nested) -> Result<()>>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, f: F) -> Result<()> { self.0.nested(t, l, i, f)?; self.1.put(Tok::EnumEnd(self.2)) }
            fn empty(self) -> Result<()> { self.0.empty()?; self.1.put(Tok::EnumEnd(self.2)) }
        }
    };
}
enend!(En, CollLong);
enend!(EnMin, Coll);
impl<'sval, C: StreamTuple<'sval, Ok = ()>> StreamTuple<'sval> for CollEnd<C> {
    type Ok = ();
    fn value<V: ValueRef<'sval>>(&mut self, t: Option<Tag>, i: Index, v: V) -> Result { self.0.value(t, i, v) }
    fn value_computed<V: Value>(&mut self, t: Option<Tag>, i: Index, v: V) -> Result { self.0.value_computed(t, i, v) }
    fn end(self) -> Result<()> { self.0.end()?; self.1.put(Tok::EnumEnd(self.2)) }
}
impl<'sval, C: StreamRecord<'sval, Ok = ()>> StreamRecord<'sval> for CollEnd<C> {
    type Ok = ();
    fn value<V: ValueRef<'sval>>(&mut self, t: Option<Tag>, l: Label, v: V) -> Result { self.0.value(t, l, v) }
    fn value_computed<V: Value>(&mut self, t: Option<Tag>, l: Label, v: V) -> Result { self.0.value_computed(t, l, v) }
    fn end(self) -> Result<()> { self.0.end()?; self.1.put(Tok::EnumEnd(self.2)) }
}

macro_rules! top {
    ($ty:ident, $coll:ident, $en:ident, { $($extra:tt)* }) => {
        impl<'sval> sval_nested::Stream<'sval> for $ty {
            type Ok = ();
            type Seq = $coll<$ty>;
            type Map = $coll<$ty>;
            type Tuple = $coll<$ty>;
            type Record = $coll<$ty>;
            type Enum = EnEnd<$en<$ty>>;
            fn null(self) -> Result<()> { self.0.put(Tok::Null) }
            fn bool(self, v: bool) -> Result<()> { self.0.put(Tok::Bool(v)) }
            fn i64(self, v: i64) -> Result<()> { self.0.put(Tok::I64(v)) }
            fn f64(self, v: f64) -> Result<()> { self.0.put(Tok::F64(v)) }
            fn text_computed(self, v: &str) -> Result<()> { self.0.text(v, false) }
            fn seq_begin(self, n: Option<usize>) -> Result<Self::Seq> { self.0.put(Tok::SeqBegin(n))?; Ok($coll(self, Tok::SeqEnd)) }
            fn map_begin(self, n: Option<usize>) -> Result<Self::Map> { self.0.put(Tok::MapBegin(n))?; Ok($coll(self, Tok::MapEnd)) }
            fn tuple_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<Self::Tuple> {
                let m = meta(&t, &l, &i);
                self.0.put(Tok::TupleBegin(m.clone(), n))?; Ok($coll(self, Tok::TupleEnd(m)))
            }
            fn record_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<Self::Record> {
                let m = meta(&t, &l, &i);
                self.0.put(Tok::RecordBegin(m.clone(), n))?; Ok($coll(self, Tok::RecordEnd(m)))
            }
            fn enum_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> Result<Self::Enum> {
                let m = meta(&t, &l, &i);
                self.0.put(Tok::EnumBegin(m.clone()))?; let s = self.0.clone(); Ok(EnEnd($en(self), s, m))
            }
            $($extra)*
        }
    };
}
top!(Min, Coll, EnMin, {});
top!(Full, CollLong, En, {
    fn i8(self, v: i8) -> Result<()> { self.0.put(Tok::I8(v)) }
    fn i16(self, v: i16) -> Result<()> { self.0.put(Tok::I16(v)) }
    fn i32(self, v: i32) -> Result<()> { self.0.put(Tok::I32(v)) }
    fn i128(self, v: i128) -> Result<()> { self.0.put(Tok::I128(v)) }
    fn u8(self, v: u8) -> Result<()> { self.0.put(Tok::U8(v)) }
    fn u16(self, v: u16) -> Result<()> { self.0.put(Tok::U16(v)) }
    fn u32(self, v: u32) -> Result<()> { self.0.put(Tok::U32(v)) }
    fn u64(self, v: u64) -> Result<()> { self.0.put(Tok::U64(v)) }
    fn u128(self, v: u128) -> Result<()> { self.0.put(Tok::U128(v)) }
    fn f32(self, v: f32) -> Result<()> { self.0.put(Tok::F32(v)) }
    fn text(self, v: &'sval str) -> Result<()> { self.0.text(v, true) }
    fn binary(self, v: &'sval [u8]) -> Result<()> { self.0.bin(v, true) }
    fn binary_computed(self, v: &[u8]) -> Result<()> { self.0.bin(v, false) }
    fn tag(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> Result<()> { self.0.put(Tok::Tag(meta(&t, &l, &i))) }
    fn tagged<V: ValueRef<'sval>>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<()> {
        let m = meta(&t, &l, &i);
        self.0.put(Tok::TaggedBegin(m.clone()))?; self.child(v)?; self.0.put(Tok::TaggedEnd(m))
    }
    fn tagged_computed<V: Value>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<()> {
        let m = meta(&t, &l, &i);
        self.0.put(Tok::TaggedBegin(m.clone()))?; self.child_computed(v)?; self.0.put(Tok::TaggedEnd(m))
    }
});

#[derive(Clone, Copy, PartialEq)]
pub enum How { Stream, Ref, Computed }
pub const HOWS: [(How, &str); 3] = [(How::Stream, "stream"), (How::Ref, "stream_ref"), (How::Computed, "stream_computed")];
pub fn run<V: Value>(v: &V, min: bool, how: How, fail_at: Option<usize>, flat: bool) -> (Result<()>, Rc<RefCell<Rec>>) {
    let s = Sink::new(fail_at, flat);
    let rec = s.rec.clone();
    let r = match (min, how) {
        (false, How::Stream) => sval_nested::stream(Full(s), sval_ref::to_ref(v)),
        (false, How::Ref) => sval_nested::stream_ref(Full(s), v),
        (false, How::Computed) => sval_nested::stream_computed(Full(s), v),
        (true, How::Stream) => sval_nested::stream(Min(s), sval_ref::to_ref(v)),
        (true, How::Ref) => sval_nested::stream_ref(Min(s), v),
        (true, How::Computed) => sval_nested::stream_computed(Min(s), v),
    };
    (r, rec)
}

/// Fails after so many tokens, at any depth.
struct Failing<'a>(&'a [Tok]);
impl<'a> Value for Failing<'a> {
    fn stream<'s, S: sval::Stream<'s> + ?Sized>(&'s self, s: &mut S) -> sval::Result {
        for t in self.0 { play(t, s)?; }
        sval::error()
    }
}
struct Enumed<'a>(&'a Nodes);
impl<'a> Value for Enumed<'a> {
    fn stream<'s, S: sval::Stream<'s> + ?Sized>(&'s self, s: &mut S) -> sval::Result {
        s.enum_begin(Some(&T1), Some(&Label::new("E")), None)?;
        self.0.stream(s)?;
        s.enum_end(Some(&T1), Some(&Label::new("E")), None)
    }
}

pub fn n01(v: &J, c: &mut Ctx) {
    let toks = toks_from(&v["toks"]);
    let (shown, minimal) = (toks_from(&v["shown"]), toks_from(&v["minimal"]));
    let must: Vec<bool> = v["must"].as_array().unwrap().iter().map(|b| b.as_bool().unwrap()).collect();
    c.nontrivial = toks.len() > 3;
    let val = Nodes::new(&toks);
    for (how, name) in HOWS {
        for (min, flat) in [(false, false), (false, true), (true, false)] {
            let what = format!("{name} {}", if min { "minimal" } else if flat { "full, children streamed flat" } else { "full" });
            let Some((r, rec)) = c.guard(&what, || run(&val, min, how, None, flat)) else { continue };
            if may_refuse(&v["easy"][if min { "min" } else if how == How::Computed { "short" } else { "long" }]) && r.is_err() { c.count("refused"); continue }
            c.check(r.is_ok(), &format!("{what}: result"), || json!(format!("{r:?}")), || json!("Ok"));
            let got = rec.borrow().toks.clone();
            if r.is_err() { continue; }
            let lives = cmp_whole(c, &what, &got, if min { &minimal } else { &shown });
            // a text or binary is one piece
            if !flat {
                let pieces = got.iter().filter(|t| matches!(t, Tok::TextFrag(..) | Tok::BinFrag(..))).count();
                let texts = got.iter().filter(|t| matches!(t, Tok::TextEnd | Tok::BinEnd)).count();
                c.check(pieces == texts, &format!("{what}: whole pieces"), || json!(pieces), || json!(texts));
            }
            if !min && how != How::Computed && lives.len() == must.len() {
                for (g, m) in lives.iter().zip(&must) {
                    if *m { c.count("stays long-lived"); }
                    c.check(!(*m && *g == Some(false)), &format!("{what}: long-lived stays long-lived"), || json!(lives), || json!(must));
                }
            }
            if how == How::Computed { c.check(lives.iter().all(|l| *l != Some(true)), &format!("{what}: nothing short-lived becomes long-lived"), || json!(lives), || json!("all short-lived")); }
        }
    }
    by_hand(v, &toks, &shown, &minimal, c);
    // a target that fails
    for min in [false, true] {
        let total = if min { whole_len(&minimal) } else { whole_len(&shown) };
        for n in 0..total {
            let what = format!("target fails at {n}");
            let Some((r, rec)) = c.guard(&what, || run(&val, min, if n % 2 == 0 { How::Ref } else { How::Computed }, Some(n), false)) else { continue };
            c.check(r.is_err(), &format!("{what}: must be an error"), || json!("Ok"), || json!("Err"));
            let after = rec.borrow().after;
            c.check(after == 0, &format!("{what}: nothing after the failure"), || json!(after), || json!(0));
        }
    }
    // a value that fails
    let flat: Vec<Tok> = toks.iter().filter(|t| !matches!(t, Tok::ValOpen(_) | Tok::ValClose)).cloned().collect();
    for n in 0..=flat.len() {
        let f = Failing(&flat[..n]);
        for (how, name) in HOWS {
            let what = format!("{name} of a value that fails after {n}");
            let Some((r, _)) = c.guard(&what, || run(&f, n % 2 == 1, how, None, false)) else { continue };
            c.check(r.is_err(), &format!("{what}: must be an error"), || json!("Ok"), || json!("Err"));
        }
    }
    // as the variant of an enum
    let ok = v["variant"].as_bool().unwrap();
    let what = if ok { "as a variant" } else { "no variant" };
    c.count(what);
    let m = Meta { tag: Some("T1".into()), lab: Some(Lab { s: "E".into(), st: true, id: false }), idx: None };
    let e = Enumed(&val);
    for (how, name) in HOWS {
        let what = format!("{what} {name}");
        let Some((r, rec)) = c.guard(&what, || run(&e, false, how, None, false)) else { continue };
        if may_refuse(&v["easy"]["variant"]) && r.is_err() { c.count("refused"); continue }
        c.check(r.is_ok() == ok, &format!("{what}: result"), || json!(format!("{r:?}")), || json!(if ok { "Ok" } else { "Err" }));
        if ok && r.is_ok() {
            let mut exp = vec![Tok::EnumBegin(m.clone())];
            exp.extend(shown.clone());
            exp.push(Tok::EnumEnd(m.clone()));
            cmp_whole(c, &what, &rec.borrow().toks, &exp);
        }
    }
}
fn whole_len(t: &[Tok]) -> usize { let _ = whole; t.len() }

// ------------------------------------------------------------------ driving a recursive stream by hand
/// A value as its parts, for making the calls of a recursive stream directly.
enum Tree {
    Leaf(Tok), Text(String, bool), Bin(Vec<u8>, bool),
    Seq(Option<usize>, Vec<Nodes>), Map(Option<usize>, Vec<(Nodes, Nodes)>),
    Tuple(Meta, Option<usize>, Vec<(Option<String>, Idx, Nodes)>), Record(Meta, Option<usize>, Vec<(Option<String>, Lab, Nodes)>),
    Tagged(Meta, Nodes), Enum(Meta, Option<Box<Tree>>),
}
fn span(t: &[Tok]) -> usize {
    use Tok::*;
    let (mut depth, mut i) = (0, 0);
    loop {
        match &t[i] {
            TextBegin(_) | BinBegin(_) | SeqBegin(_) | MapBegin(_) | TupleBegin(..) | RecordBegin(..) | RecordTupleBegin(..) | TaggedBegin(_) | EnumBegin(_) => depth += 1,
            TextEnd | BinEnd | SeqEnd | MapEnd | TupleEnd(_) | RecordEnd(_) | RecordTupleEnd(_) | TaggedEnd(_) | EnumEnd(_) => depth -= 1,
            _ => (),
        }
        i += 1;
        if depth == 0 { return i; }
    }
}
fn tree(t: &[Tok]) -> Tree {
    use Tok::*;
    let one = |i: &mut usize| { let n = span(&t[*i..]); let v = Nodes::new(&t[*i..*i + n]); *i += n; v };
    let mut i = 1;
    match &t[0] {
        TextBegin(_) => Tree::Text(t.iter().filter_map(|t| if let TextFrag(s, _) = t { Some(&s[..]) } else { None }).collect(), t.iter().all(|t| !matches!(t, TextFrag(_, false)))),
        BinBegin(_) => Tree::Bin(t.iter().filter_map(|t| if let BinFrag(s, _) = t { Some(&s[..]) } else { None }).collect::<Vec<_>>().concat(), t.iter().all(|t| !matches!(t, BinFrag(_, false)))),
        SeqBegin(n) => { let mut xs = vec![]; while t[i] != SeqEnd { i += 1; xs.push(one(&mut i)); i += 1; } Tree::Seq(*n, xs) }
        MapBegin(n) => { let mut xs = vec![]; while t[i] != MapEnd { i += 1; let k = one(&mut i); i += 2; let v = one(&mut i); i += 1; xs.push((k, v)); } Tree::Map(*n, xs) }
        TupleBegin(m, n) => { let mut xs = vec![]; while let TupleValueBegin(g, x) = &t[i] { i += 1; xs.push((g.clone(), x.clone(), one(&mut i))); i += 1; } Tree::Tuple(m.clone(), *n, xs) }
        RecordBegin(m, n) => { let mut xs = vec![]; while let RecordValueBegin(g, x) = &t[i] { i += 1; xs.push((g.clone(), x.clone(), one(&mut i))); i += 1; } Tree::Record(m.clone(), *n, xs) }
        RecordTupleBegin(m, n) => { let mut xs = vec![]; while let RecordTupleValueBegin(g, x, _) = &t[i] { i += 1; xs.push((g.clone(), x.clone(), one(&mut i))); i += 1; } Tree::Record(m.clone(), *n, xs) }
        TaggedBegin(m) => Tree::Tagged(m.clone(), one(&mut i)),
        EnumBegin(m) => Tree::Enum(m.clone(), if t.len() > 2 { Some(Box::new(tree(&t[1..t.len() - 1]))) } else { None }),
        x => Tree::Leaf(x.clone()),
    }
}
fn own(m: &Meta) -> (Option<Tag>, Option<Label<'_>>, Option<Index>) { (m.tag.as_deref().map(|t| tag_named(t).clone()), m.lab.as_ref().map(|l| l.label()), m.idx.as_ref().map(|i| i.index())) }
fn tuple<'s, T: StreamTuple<'s>>(mut q: T, xs: &'s [(Option<String>, Idx, Nodes)], how: How) -> Result<T::Ok> {
    for (t, i, v) in xs {
        let (t, i) = (tag_opt(t).cloned(), i.index());
        match how { How::Stream => q.value(t, i, sval_ref::to_ref(v))?, How::Ref => q.value_ref(t, i, v)?, How::Computed => q.value_computed(t, i, v)? }
    }
    q.end()
}
fn record<'s, T: StreamRecord<'s>>(mut q: T, xs: &'s [(Option<String>, Lab, Nodes)], how: How) -> Result<T::Ok> {
    for (t, l, v) in xs {
        let (t, l) = (tag_opt(t).cloned(), l.label());
        match how { How::Stream => q.value(t, l, sval_ref::to_ref(v))?, How::Ref => q.value_ref(t, l, v)?, How::Computed => q.value_computed(t, l, v)? }
    }
    q.end()
}
fn variant<'s, E: StreamEnum<'s>>(e: E, x: &'s Option<Box<Tree>>, how: How) -> Result<E::Ok> {
    let Some(x) = x else { return e.empty() };
    match &**x {
        Tree::Leaf(Tok::Tag(m)) => { let (t, l, i) = own(m); e.tag(t, l, i) }
        Tree::Tagged(m, v) => { let (t, l, i) = own(m); match how { How::Stream => e.tagged(t, l, i, sval_ref::to_ref(v)), How::Ref => e.tagged_ref(t, l, i, v), How::Computed => e.tagged_computed(t, l, i, v) } }
        Tree::Tuple(m, n, xs) => { let (t, l, i) = own(m); tuple(e.tuple_begin(t, l, i, *n)?, xs, how) }
        Tree::Record(m, n, xs) => { let (t, l, i) = own(m); record(e.record_begin(t, l, i, *n)?, xs, how) }
        Tree::Enum(m, x) => { let (t, l, i) = own(m); e.nested(t, l, i, |e| variant_again(e, x, how)) }
        _ => unreachable!("not a variant"),
    }
}
// variants are nested no deeper than the type of the stream can be followed
fn variant_again<'s, E: StreamEnum<'s>>(e: E, x: &'s Option<Box<Tree>>, how: How) -> Result<E::Ok> {
    let Some(x) = x else { return e.empty() };
    match &**x {
        Tree::Leaf(Tok::Tag(m)) => { let (t, l, i) = own(m); e.tag(t, l, i) }
        Tree::Tagged(m, v) => { let (t, l, i) = own(m); match how { How::Stream => e.tagged(t, l, i, sval_ref::to_ref(v)), How::Ref => e.tagged_ref(t, l, i, v), How::Computed => e.tagged_computed(t, l, i, v) } }
        Tree::Tuple(m, n, xs) => { let (t, l, i) = own(m); tuple(e.tuple_begin(t, l, i, *n)?, xs, how) }
        Tree::Record(m, n, xs) => { let (t, l, i) = own(m); record(e.record_begin(t, l, i, *n)?, xs, how) }
        _ => Err(Error::invalid_value("too deep to follow")),
    }
}
fn too_deep(x: &Tree) -> bool { matches!(x, Tree::Enum(_, Some(x)) if matches!(&**x, Tree::Enum(_, Some(x)) if matches!(&**x, Tree::Enum(..)))) }
fn drive<'s, S: sval_nested::Stream<'s>>(s: S, x: &'s Tree, how: How) -> Result<S::Ok> {
    match x {
        Tree::Text(t, true) if how != How::Computed => s.text(t),
        Tree::Text(t, _) => { let t = t.clone(); s.text_computed(&t) }
        Tree::Bin(t, true) if how != How::Computed => s.binary(t),
        Tree::Bin(t, _) => { let t = t.clone(); s.binary_computed(&t) }
        Tree::Seq(n, xs) => {
            let mut q = s.seq_begin(*n)?;
            for v in xs { match how { How::Stream => q.value(sval_ref::to_ref(v))?, How::Ref => q.value_ref(v)?, How::Computed => q.value_computed(v)? } }
            q.end()
        }
        Tree::Map(n, xs) => {
            let mut q = s.map_begin(*n)?;
            for (k, v) in xs {
                match how {
                    How::Stream => { q.key(sval_ref::to_ref(k))?; q.value(sval_ref::to_ref(v))? }
                    How::Ref => { q.key_ref(k)?; q.value_ref(v)? }
                    How::Computed => { q.key_computed(k)?; q.value_computed(v)? }
                }
            }
            q.end()
        }
        Tree::Tuple(m, n, xs) => { let (t, l, i) = own(m); tuple(s.tuple_begin(t, l, i, *n)?, xs, how) }
        Tree::Record(m, n, xs) => { let (t, l, i) = own(m); record(s.record_begin(t, l, i, *n)?, xs, how) }
        Tree::Tagged(m, v) => { let (t, l, i) = own(m); match how { How::Stream => s.tagged(t, l, i, sval_ref::to_ref(v)), How::Ref => s.tagged_ref(t, l, i, v), How::Computed => s.tagged_computed(t, l, i, v) } }
        Tree::Enum(m, x) => { let (t, l, i) = own(m); variant(s.enum_begin(t, l, i)?, x, how) }
        Tree::Leaf(t) => match t {
            Tok::Null => s.null(), Tok::Bool(v) => s.bool(*v),
            Tok::U8(v) => s.u8(*v), Tok::U16(v) => s.u16(*v), Tok::U32(v) => s.u32(*v), Tok::U64(v) => s.u64(*v), Tok::U128(v) => s.u128(*v),
            Tok::I8(v) => s.i8(*v), Tok::I16(v) => s.i16(*v), Tok::I32(v) => s.i32(*v), Tok::I64(v) => s.i64(*v), Tok::I128(v) => s.i128(*v),
            Tok::F32(v) => s.f32(*v), Tok::F64(v) => s.f64(*v),
            Tok::Tag(m) => { let (t, l, i) = own(m); s.tag(t, l, i) }
            t => unreachable!("{t:?}"),
        },
    }
}
/// The calls of a recursive stream made by hand mean the same as those made for a value.
fn by_hand(v: &J, toks: &[Tok], shown: &[Tok], minimal: &[Tok], c: &mut Ctx) {
    let flat: Vec<Tok> = toks.iter().filter(|t| !matches!(t, Tok::ValOpen(_) | Tok::ValClose | Tok::TagHint(_))).cloned().collect();
    // a whole value given to a stream
    let whole = Nodes::new(toks);
    for (how, name) in HOWS {
        for min in [false, true] {
            let what = format!("given to the stream as {name}{}", if min { ", minimal" } else { "" });
            let Some((r, rec)) = c.guard(&what, || {
                use sval_nested::Stream;
                let s = Sink::new(None, false);
                let rec = s.rec.clone();
                (match (min, how) {
                    (false, How::Stream) => Full(s).value(sval_ref::to_ref(&whole)), (false, How::Ref) => Full(s).value_ref(&whole), (false, How::Computed) => Full(s).value_computed(&whole),
                    (true, How::Stream) => Min(s).value(sval_ref::to_ref(&whole)), (true, How::Ref) => Min(s).value_ref(&whole), (true, How::Computed) => Min(s).value_computed(&whole),
                }, rec)
            }) else { continue };
            if may_refuse(&v["easy"][if min { "min" } else if how == How::Computed { "short" } else { "long" }]) && r.is_err() { continue }
            c.check(r.is_ok(), &format!("{what}: result"), || json!(format!("{r:?}")), || json!("Ok"));
            if r.is_ok() {
                let lives = cmp_whole(c, &what, &rec.borrow().toks, if min { minimal } else { shown });
                let must: Vec<bool> = v["must"].as_array().unwrap().iter().map(|b| b.as_bool().unwrap()).collect();
                if how == How::Computed { c.check(lives.iter().all(|l| *l != Some(true)), &format!("{what}: nothing short-lived becomes long-lived"), || json!(lives), || json!("all short-lived")); }
                else if !min && lives.len() == must.len() { for (g, m) in lives.iter().zip(&must) { c.check(!(*m && *g == Some(false)), &format!("{what}: long-lived stays long-lived"), || json!(lives), || json!(must)); } }
            }
        }
    }
    let x = tree(&flat);
    if too_deep(&x) { return; }
    for (how, name) in HOWS {
        for min in [false, true] {
            let what = format!("by hand, {name} {}", if min { "minimal" } else { "full" });
            let Some((r, rec)) = c.guard(&what, || {
                let s = Sink::new(None, false);
                let rec = s.rec.clone();
                (if min { drive(Min(s), &x, how) } else { drive(Full(s), &x, how) }, rec)
            }) else { continue };
            if may_refuse(&v["easy"][if min { "min" } else if how == How::Computed { "short" } else { "long" }]) && r.is_err() { c.count("refused"); continue }
            c.check(r.is_ok(), &format!("{what}: result"), || json!(format!("{r:?}")), || json!("Ok"));
            if r.is_err() { continue; }
            let got = rec.borrow().toks.clone();
            let lives = cmp_whole(c, &what, &got, if min { minimal } else { shown });
            if how == How::Computed { c.check(lives.iter().all(|l| *l != Some(true)), &format!("{what}: nothing short-lived becomes long-lived"), || json!(lives), || json!("all short-lived")); }
            else if !min && toks.len() == flat.len() {
                let must: Vec<bool> = v["must"].as_array().unwrap().iter().map(|b| b.as_bool().unwrap()).collect();
                if must.len() == lives.len() {
                    for (g, m) in lives.iter().zip(&must) { c.check(!(*m && *g == Some(false)), &format!("{what}: long-lived stays long-lived"), || json!(lives), || json!(must)); }
                }
            }
        }
    }
}
