ID='f01-u128-key'; PROP='F01'
NEEDS='a flattened map with an unsigned 128bit key above the largest signed one'
BREAKS='flattening a map onto a record fails for keys that do not fit i128, where they should become a label'
EDITS=[('flatten/src/label.rs','''    fn u128(&mut self, value: u128) -> sval::Result {
        self.u128(value)
    }
''','''    fn u128(&mut self, value: u128) -> sval::Result {
        // All integers share a single representation
        self.i128(value)
    }
''')]
DEPS=['sval','sval_flatten','sval_json']
DEMO='''
use sval::Stream as _;
struct Outer<'a>(&'a sval::MapSlice<u128, i32>);
impl<'a> sval::Value for Outer<'a> {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, stream: &mut S) -> sval::Result {
        stream.record_begin(None, None, None, None)?;
        sval_flatten::flatten_to_record(&mut *stream, self.0, 0)?;
        stream.record_end(None, None, None)
    }
}
fn main() {
    let m = [(u128::MAX, 1)];
    let _ = |s: &mut sval_json_dummy| s;
    assert_eq!("{\\"340282366920938463463374607431768211455\\":1}", sval_json::stream_to_string(Outer(sval::MapSlice::new(&m))).unwrap());
}
#[allow(non_camel_case_types)]
struct sval_json_dummy;
'''
DEMO=DEMO.replace("    let _ = |s: &mut sval_json_dummy| s;\n","").replace("#[allow(non_camel_case_types)]\nstruct sval_json_dummy;\n","").replace("use sval::Stream as _;\n","")
