ID='v01-empty-fragment'; PROP='V01'
NEEDS='a text streamed as a long-lived fragment followed by an empty one and then another'
BREAKS='to_text returns only the last of several fragments when an empty one comes between them'
EDITS=[('src/value.rs','''                // Allow either independent strings, or fragments of a single borrowed string
                if !self.seen_fragment {
                    self.extracted = Some(fragment);
                    self.seen_fragment = true;
                } else {
                    self.extracted = None;
                }
''','''                // Allow either independent strings, or fragments of a single borrowed string
                if !self.seen_fragment {
                    self.extracted = Some(fragment);
                    // An empty fragment doesn't contribute anything, the string may still follow
                    self.seen_fragment = fragment.len() > 0;
                } else {
                    self.extracted = None;
                    self.seen_fragment = fragment.len() > 0;
                }
''')]
DEMO='''
struct Cut;
impl sval::Value for Cut {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, stream: &mut S) -> sval::Result {
        stream.text_begin(None)?;
        stream.text_fragment("one ")?;
        stream.text_fragment("")?;
        stream.text_fragment("two")?;
        stream.text_end()
    }
}
fn main() {
    use sval::Value as _;
    assert!(matches!(Cut.to_text(), None | Some("one two")), "{:?}", Cut.to_text());
}
'''
