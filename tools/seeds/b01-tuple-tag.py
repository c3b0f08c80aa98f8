ID='b01-tuple-value-tag'; PROP='B01'
NEEDS='a buffered tuple with a tagged element'
BREAKS='the tag of a tuple element is given when the element begins but is missing when it ends'
EDITS=[('buffer/src/value.rs','''                        stream.tuple_value_begin(tag.as_ref(), index)?;
                        sval_ref::stream_ref(stream, body)?;
                        stream.tuple_value_end(tag.as_ref(), index)''','''                        stream.tuple_value_begin(tag.as_ref(), index)?;
                        sval_ref::stream_ref(stream, body)?;
                        stream.tuple_value_end(None, index)''')]
DEMO='''
use sval::Stream;
static T: sval::Tag = sval::Tag::new("demo");
struct V;
impl sval::Value for V {
    fn stream<'a, S: Stream<'a> + ?Sized>(&'a self, s: &mut S) -> sval::Result {
        s.tuple_begin(None, None, None, Some(1))?;
        s.tuple_value_begin(Some(&T), &sval::Index::new(0))?;
        s.bool(true)?;
        s.tuple_value_end(Some(&T), &sval::Index::new(0))?;
        s.tuple_end(None, None, None)
    }
}
#[derive(Default)]
struct R(Vec<bool>);
impl<'a> Stream<'a> for R {
    fn null(&mut self) -> sval::Result { Ok(()) }
    fn bool(&mut self, _: bool) -> sval::Result { Ok(()) }
    fn text_begin(&mut self, _: Option<usize>) -> sval::Result { Ok(()) }
    fn text_fragment_computed(&mut self, _: &str) -> sval::Result { Ok(()) }
    fn text_end(&mut self) -> sval::Result { Ok(()) }
    fn i64(&mut self, _: i64) -> sval::Result { Ok(()) }
    fn f64(&mut self, _: f64) -> sval::Result { Ok(()) }
    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result { Ok(()) }
    fn seq_value_begin(&mut self) -> sval::Result { Ok(()) }
    fn seq_value_end(&mut self) -> sval::Result { Ok(()) }
    fn seq_end(&mut self) -> sval::Result { Ok(()) }
    fn tuple_value_begin(&mut self, t: Option<&sval::Tag>, _: &sval::Index) -> sval::Result { self.0.push(t == Some(&T)); Ok(()) }
    fn tuple_value_end(&mut self, t: Option<&sval::Tag>, _: &sval::Index) -> sval::Result { self.0.push(t == Some(&T)); Ok(()) }
}
fn main() {
    let b = sval_buffer::ValueBuf::collect(&V).unwrap();
    let mut r = R::default();
    sval::stream(&mut r, &b).unwrap();
    assert_eq!(r.0, [true, true]);
}
'''
