ID='e01-map-value'; PROP='E01'
NEEDS='a stream failing exactly at the end of a value of a map that is a slice of pairs'
BREAKS='the failure is dropped and streaming goes on with the next entry'
EDITS=[('src/data/map.rs','''        for (k, v) in self.0.iter() {
            stream.map_key_begin()?;
            stream.value(k)?;
            stream.map_key_end()?;

            stream.map_value_begin()?;
            stream.value(v)?;
            stream.map_value_end()?;
        }

        stream.map_end()''','''        for (k, v) in self.0.iter() {
            stream.map_key_begin()?;
            stream.value(k)?;
            stream.map_key_end()?;

            stream.map_value_begin()?;
            let r = stream.value(v);
            stream.map_value_end()?;
            r?;
        }

        stream.map_end()''')]
NEEDS='a stream that fails inside a value of a map that is a slice of pairs'
BREAKS='after the failure the end of the entry is still streamed'
DEMO='''
struct S(Vec<&'static str>);
impl<'sval> sval::Stream<'sval> for S {
    fn null(&mut self) -> sval::Result { self.0.push("null"); Ok(()) }
    fn bool(&mut self, _: bool) -> sval::Result { self.0.push("bool"); sval::error() }
    fn text_begin(&mut self, _: Option<usize>) -> sval::Result { self.0.push("text"); Ok(()) }
    fn text_fragment_computed(&mut self, _: &str) -> sval::Result { self.0.push("frag"); Ok(()) }
    fn text_end(&mut self) -> sval::Result { self.0.push("text_end"); Ok(()) }
    fn i64(&mut self, _: i64) -> sval::Result { self.0.push("i64"); Ok(()) }
    fn f64(&mut self, _: f64) -> sval::Result { self.0.push("f64"); Ok(()) }
    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result { self.0.push("seq"); Ok(()) }
    fn seq_value_begin(&mut self) -> sval::Result { self.0.push("val"); Ok(()) }
    fn seq_value_end(&mut self) -> sval::Result { self.0.push("val_end"); Ok(()) }
    fn seq_end(&mut self) -> sval::Result { self.0.push("seq_end"); Ok(()) }
}
fn main() {
    use sval::Value as _;
    let m = [(1, true), (2, false)];
    let mut s = S(vec![]);
    assert!(sval::MapSlice::new(&m).stream(&mut s).is_err());
    assert_eq!(Some(&"bool"), s.0.last());
}
'''
