ID='m01-ref-f32'; PROP='M01'
NEEDS='a token writer with its own method for single precision floats, used through a mutable reference'
BREAKS='a single precision float is given to a token writer behind a reference as the double nearest to it'
EDITS=[('fmt/src/token_write.rs','''        (**self).write_f32(value)''','''        (**self).write_f64(value.into())''')]
DEPS=['sval','sval_fmt']
DEMO='''
use std::fmt::{self, Write};
struct W(String);
impl Write for W { fn write_str(&mut self, s: &str) -> fmt::Result { self.0.push_str(s); Ok(()) } }
impl sval_fmt::TokenWrite for W {}
fn main() {
    let mut w = W(String::new());
    sval_fmt::stream_to_token_write(&mut w, 0.1f32).unwrap();
    assert_eq!("0.1", w.0);
}
'''
