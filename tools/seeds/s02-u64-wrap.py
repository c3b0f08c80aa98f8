ID='s02-u64-wrap'; PROP='S02'
NEEDS='an unsigned 64 bit value above i64::MAX given to a stream that implements neither u64 nor u128'
BREAKS='u64 values too wide for i64 arrive as negative integers instead of number text'
EDITS=[('src/stream.rs','''        stream.u128(value as u128)
    }

    /**
    Stream an unsigned 128bit integer.
    */
    pub fn u128<''','''        // Most values fit, so avoid going through a wider integer
        if value <= 1 << (u64::BITS - 1) {
            stream.i64(value as i64)
        } else {
            stream.u128(value as u128)
        }
    }

    /**
    Stream an unsigned 128bit integer.
    */
    pub fn u128<''')]
DEMO='''
#[derive(Default)]
struct S(Vec<String>);
impl<'a> sval::Stream<'a> for S {
    fn null(&mut self) -> sval::Result { Ok(()) }
    fn bool(&mut self, _: bool) -> sval::Result { Ok(()) }
    fn text_begin(&mut self, _: Option<usize>) -> sval::Result { self.0.push(String::new()); Ok(()) }
    fn text_fragment_computed(&mut self, f: &str) -> sval::Result { self.0.last_mut().unwrap().push_str(f); Ok(()) }
    fn text_end(&mut self) -> sval::Result { Ok(()) }
    fn i64(&mut self, v: i64) -> sval::Result { self.0.push(v.to_string()); Ok(()) }
    fn f64(&mut self, _: f64) -> sval::Result { Ok(()) }
    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result { Ok(()) }
    fn seq_value_begin(&mut self) -> sval::Result { Ok(()) }
    fn seq_value_end(&mut self) -> sval::Result { Ok(()) }
    fn seq_end(&mut self) -> sval::Result { Ok(()) }
}
fn main() {
    for v in [0u64, 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX] {
        let mut s = S::default();
        sval::stream(&mut s, &v).unwrap();
        assert_eq!(s.0, [v.to_string()]);
    }
}
'''
