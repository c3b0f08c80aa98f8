ID='d01-wide-index'; PROP='D01'
NEEDS='a tuple variant whose index does not fit 32 bits'
BREAKS='the variant index given to serde is cut to 32 bits instead of being refused'
EDITS=[('serde/src/to_serialize.rs','''        let variant_index = index.and_then(|index| index.to_u32()).ok_or_else(|| {
            sval_nested::Error::invalid_value("tuple variant index must be a 32bit value")
        })?;''','''        let variant_index = index
            .and_then(|index| index.to_usize())
            .map(|index| index as u32)
            .ok_or_else(|| {
                sval_nested::Error::invalid_value("tuple variant index must be a 32bit value")
            })?;''')]
DEPS=['sval','sval_serde','sval_json',('serde','serde = { version = "1", features = ["std"] }'),('serde_test','serde_json = "1"')]
DEMO='''
struct E;
impl sval::Value for E {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, stream: &mut S) -> sval::Result {
        stream.enum_begin(None, Some(&sval::Label::new("E")), None)?;
        stream.tuple_begin(None, Some(&sval::Label::new("V")), Some(&sval::Index::new_u64(1 << 32)), Some(0))?;
        stream.tuple_end(None, Some(&sval::Label::new("V")), Some(&sval::Index::new_u64(1 << 32)))?;
        stream.enum_end(None, Some(&sval::Label::new("E")), None)
    }
}
fn main() {
    assert!(serde_json::to_string(&sval_serde::ToSerialize::new(E)).is_err());
}
'''
