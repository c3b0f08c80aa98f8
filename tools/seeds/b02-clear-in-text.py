ID='b02-clear-in-text'; PROP='B02'
NEEDS='a buffer cleared while it is inside a text or binary, then reused'
BREAKS='after clearing a buffer in the middle of a text and collecting another value the buffer never reports itself complete'
EDITS=[('buffer/src/value.rs','''        parts.clear();
        stack.clear();
        *is_in_text_or_binary = false;
        *err = None;''','''        // Only a buffer that is inside a container has anything open
        if stack.len() > 0 {
            stack.clear();
            *is_in_text_or_binary = false;
        }

        parts.clear();
        *err = None;''')]
DEMO='''
use sval::Stream as _;
fn main() {
    let mut b = sval_buffer::ValueBuf::new();
    b.text_begin(None).unwrap();
    b.text_fragment("abc").unwrap();
    b.clear();
    b.seq_begin(Some(0)).unwrap();
    b.seq_end().unwrap();
    assert!(b.is_complete(), "a whole value is complete");
}
'''
