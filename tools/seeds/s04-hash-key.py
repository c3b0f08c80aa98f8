ID='s04-hash-key'; PROP='S04'
NEEDS='a hash map with text keys streamed to something that keeps long-lived text'
BREAKS='the keys arrive as short-lived although the map outlives the stream'
EDITS=[('src/data/map.rs','''H: BuildHasher> Value for HashMap<K, V, H> {
        fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, stream: &mut S) -> Result {
            stream.map_begin(Some(self.len()))?;

            for (k, v) in self {
                stream.map_key_begin()?;
                stream.value(k)?;
                stream.map_key_end()?;

                stream.map_value_begin()?;
                stream.value(v)?;
                stream.map_value_end()?;
            }

            stream.map_end()
        }
    }
}
''','''H: BuildHasher> Value for HashMap<K, V, H> {
        fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, stream: &mut S) -> Result {
            stream.map_begin(Some(self.len()))?;

            for (k, v) in self {
                stream.map_key_begin()?;
                stream.value_computed(k)?;
                stream.map_key_end()?;

                stream.map_value_begin()?;
                stream.value(v)?;
                stream.map_value_end()?;
            }

            stream.map_end()
        }
    }
}
''')]
DEPS=['sval']
DEMO='''
#[derive(Default)]
struct Keep<'a>(Vec<&'a str>);
impl<'a> sval::Stream<'a> for Keep<'a> {
    fn null(&mut self) -> sval::Result { Ok(()) }
    fn bool(&mut self, _: bool) -> sval::Result { Ok(()) }
    fn text_begin(&mut self, _: Option<usize>) -> sval::Result { Ok(()) }
    fn text_fragment(&mut self, f: &'a str) -> sval::Result { self.0.push(f); Ok(()) }
    fn text_fragment_computed(&mut self, _: &str) -> sval::Result { Ok(()) }
    fn text_end(&mut self) -> sval::Result { Ok(()) }
    fn i64(&mut self, _: i64) -> sval::Result { Ok(()) }
    fn f64(&mut self, _: f64) -> sval::Result { Ok(()) }
    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result { Ok(()) }
    fn seq_value_begin(&mut self) -> sval::Result { Ok(()) }
    fn seq_value_end(&mut self) -> sval::Result { Ok(()) }
    fn seq_end(&mut self) -> sval::Result { Ok(()) }
}
fn main() {
    let mut m = std::collections::HashMap::new();
    m.insert("key".to_string(), "value".to_string());
    let mut k = Keep::default();
    sval::stream(&mut k, &m).unwrap();
    assert_eq!(vec!["key", "value"], k.0);
}
'''
