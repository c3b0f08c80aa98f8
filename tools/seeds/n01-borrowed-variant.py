ID='n01-borrowed-variant'; PROP='N01'
NEEDS='a recursive stream of an enum whose variant is a record holding long-lived text'
BREAKS='fields of record variants arrive as short-lived'
EDITS=[('nested/src/flat.rs','''            |stream, tag, label, index| stream.tagged(tag, label, index, value),
            |stream, tag, index| stream.value(tag, index, value),
            |stream, tag, label| stream.value(tag, label, value),
        )
    }

    fn value_computed<V''','''            |stream, tag, label, index| stream.tagged(tag, label, index, value),
            |stream, tag, index| stream.value(tag, index, value),
            |stream, tag, label| stream.value_computed(tag, label, value),
        )
    }

    fn value_computed<V''')]
DEPS=['sval','sval_nested','sval_ref']
DEMO='''
use sval_nested::{Stream, StreamEnum, StreamRecord, Unsupported};
type O = String;
type Lb<'a> = Option<sval::Label<'a>>;
fn no<X>() -> sval_nested::Result<X> { Err(sval_nested::Error::invalid_value("no")) }
struct T;
struct En;
struct R(String);
impl<'sval> Stream<'sval> for T {
    type Ok = O; type Seq = Unsupported<O>; type Map = Unsupported<O>; type Tuple = Unsupported<O>; type Record = R; type Enum = En;
    fn null(self) -> sval_nested::Result<O> { Ok("null".into()) }
    fn bool(self, _: bool) -> sval_nested::Result<O> { Ok("bool".into()) }
    fn i64(self, _: i64) -> sval_nested::Result<O> { Ok("i64".into()) }
    fn f64(self, _: f64) -> sval_nested::Result<O> { Ok("f64".into()) }
    fn text_computed(self, t: &str) -> sval_nested::Result<O> { Ok(format!("computed {t}")) }
    fn text(self, t: &'sval str) -> sval_nested::Result<O> { Ok(format!("borrowed {t}")) }
    fn binary_computed(self, _: &[u8]) -> sval_nested::Result<O> { Ok("binary".into()) }
    fn tag(self, _: Option<sval::Tag>, _: Lb, _: Option<sval::Index>) -> sval_nested::Result<O> { Ok("tag".into()) }
    fn tagged_computed<V: sval::Value>(self, _: Option<sval::Tag>, _: Lb, _: Option<sval::Index>, v: V) -> sval_nested::Result<O> { T.value_computed(v) }
    fn seq_begin(self, _: Option<usize>) -> sval_nested::Result<Unsupported<O>> { no() }
    fn map_begin(self, _: Option<usize>) -> sval_nested::Result<Unsupported<O>> { no() }
    fn tuple_begin(self, _: Option<sval::Tag>, _: Lb, _: Option<sval::Index>, _: Option<usize>) -> sval_nested::Result<Unsupported<O>> { no() }
    fn record_begin(self, _: Option<sval::Tag>, _: Lb, _: Option<sval::Index>, _: Option<usize>) -> sval_nested::Result<R> { Ok(R("record".into())) }
    fn enum_begin(self, _: Option<sval::Tag>, _: Lb, _: Option<sval::Index>) -> sval_nested::Result<En> { Ok(En) }
}
impl<'sval> StreamRecord<'sval> for R {
    type Ok = O;
    fn value<V: sval_ref::ValueRef<'sval>>(&mut self, _: Option<sval::Tag>, l: sval::Label, v: V) -> sval_nested::Result {
        self.0 += &format!(" {}={}", l.as_str(), Stream::value(T, v)?); Ok(())
    }
    fn value_computed<V: sval::Value>(&mut self, _: Option<sval::Tag>, l: sval::Label, v: V) -> sval_nested::Result {
        self.0 += &format!(" {}={}", l.as_str(), T.value_computed(v)?); Ok(())
    }
    fn end(self) -> sval_nested::Result<O> { Ok(self.0) }
}
impl<'sval> StreamEnum<'sval> for En {
    type Ok = O; type Tuple = Unsupported<O>; type Record = R; type Nested = En;
    fn tag(self, _: Option<sval::Tag>, _: Lb, _: Option<sval::Index>) -> sval_nested::Result<O> { Ok("enum tag".into()) }
    fn tagged_computed<V: sval::Value>(self, _: Option<sval::Tag>, _: Lb, _: Option<sval::Index>, v: V) -> sval_nested::Result<O> { T.value_computed(v) }
    fn tuple_begin(self, _: Option<sval::Tag>, _: Lb, _: Option<sval::Index>, _: Option<usize>) -> sval_nested::Result<Unsupported<O>> { no() }
    fn record_begin(self, _: Option<sval::Tag>, _: Lb, _: Option<sval::Index>, _: Option<usize>) -> sval_nested::Result<R> { Ok(R("variant".into())) }
    fn nested<F: FnOnce(En) -> sval_nested::Result<O>>(self, _: Option<sval::Tag>, _: Lb, _: Option<sval::Index>, f: F) -> sval_nested::Result<O> { Ok(format!("nested {}", f(En)?)) }
    fn empty(self) -> sval_nested::Result<O> { Ok("empty".into()) }
}
'''
DEMO += '''
struct E(String);
impl sval::Value for E {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, stream: &mut S) -> sval::Result {
        stream.enum_begin(None, Some(&sval::Label::new("E")), None)?;
        stream.record_begin(None, Some(&sval::Label::new("V")), None, Some(1))?;
        stream.record_value_begin(None, &sval::Label::new("a"))?;
        stream.value(&self.0)?;
        stream.record_value_end(None, &sval::Label::new("a"))?;
        stream.record_end(None, Some(&sval::Label::new("V")), None)?;
        stream.enum_end(None, Some(&sval::Label::new("E")), None)
    }
}
fn main() {
    let e = E("text".into());
    assert_eq!("variant a=borrowed text", T.value_ref(&e).unwrap());
}
'''
