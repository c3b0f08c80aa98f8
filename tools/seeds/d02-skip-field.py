ID='d02-skip-field'; PROP='D02'
NEEDS='serde data that skips a field of a struct variant'
BREAKS='a skipped field is streamed as null'
EDITS=[('serde/src/to_value.rs','''            .record_value_end(None, &sval::Label::new(key))
            .map_err(|_| Error::custom("failed to stream a record variant value"))
    }

    fn end(mut self)''','''            .record_value_end(None, &sval::Label::new(key))
            .map_err(|_| Error::custom("failed to stream a record variant value"))
    }

    fn skip_field(&mut self, key: &'static str) -> Result<(), Self::Error> {
        self.serialize_field(key, &())
    }

    fn end(mut self)''')]
DEPS=['sval','sval_serde','sval_json',('serde','serde = { version = "1", features = ["std"] }')]
DEMO='''
use serde::ser::SerializeStructVariant as _;
struct D;
impl serde::Serialize for D {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut s = s.serialize_struct_variant("E", 0, "V", 1)?;
        s.serialize_field("a", &1)?;
        s.skip_field("b")?;
        s.end()
    }
}
fn main() {
    assert_eq!("{\\"V\\":{\\"a\\":1}}", sval_json::stream_to_string(sval_serde::ToValue::new(D)).unwrap());
}
'''
