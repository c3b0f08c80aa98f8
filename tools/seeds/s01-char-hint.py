ID='s01-char-hint'; PROP='S01'
NEEDS='a character outside of ASCII'
BREAKS='the size hint is the number of characters, not of bytes'
EDITS=[('src/data/text.rs','''        let mut buf = [0; 4];
        let value = &*self.encode_utf8(&mut buf);

        stream.text_begin(Some(value.len()))?;''','''        let mut buf = [0; 4];
        let value = &*self.encode_utf8(&mut buf);

        // There's always a single character
        stream.text_begin(Some(1))?;''')]
DEMO='''
struct Hint(Option<usize>);
impl<'a> sval::Stream<'a> for Hint {
    fn null(&mut self) -> sval::Result { Ok(()) }
    fn bool(&mut self, _: bool) -> sval::Result { Ok(()) }
    fn text_begin(&mut self, n: Option<usize>) -> sval::Result { self.0 = n; Ok(()) }
    fn text_fragment_computed(&mut self, f: &str) -> sval::Result { assert!(self.0.is_none() || self.0 == Some(f.len())); Ok(()) }
    fn text_end(&mut self) -> sval::Result { Ok(()) }
    fn i64(&mut self, _: i64) -> sval::Result { Ok(()) }
    fn f64(&mut self, _: f64) -> sval::Result { Ok(()) }
    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result { Ok(()) }
    fn seq_value_begin(&mut self) -> sval::Result { Ok(()) }
    fn seq_value_end(&mut self) -> sval::Result { Ok(()) }
    fn seq_end(&mut self) -> sval::Result { Ok(()) }
}
fn main() {
    use sval::Value as _;
    'a'.stream(&mut Hint(None)).unwrap();
    '\\u{20ac}'.stream(&mut Hint(None)).unwrap();
}
'''
