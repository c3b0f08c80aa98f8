ID='j01-negative-index'; PROP='J01'
NEEDS='an enum variant without a label whose index is negative'
BREAKS='the object around such a variant is never closed'
EDITS=[('json/src/to_fmt.rs','''        self.is_internally_tagged =
            label.is_some() || index.and_then(|index| index.to_i64()).is_some();
''','''        self.is_internally_tagged =
            label.is_some() || index.and_then(|index| index.to_u64()).is_some();
''')]
DEMO='''
struct E;
impl sval::Value for E {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, stream: &mut S) -> sval::Result {
        stream.enum_begin(None, Some(&sval::Label::new("E")), None)?;
        stream.tagged_begin(None, None, Some(&sval::Index::new_isize(-1)))?;
        stream.i64(5)?;
        stream.tagged_end(None, None, Some(&sval::Index::new_isize(-1)))?;
        stream.enum_end(None, Some(&sval::Label::new("E")), None)
    }
}
fn main() {
    assert_eq!("{\\"-1\\":5}", sval_json::stream_to_string(E).unwrap());
}
'''
