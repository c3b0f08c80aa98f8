ID='j03-sign-fragment'; PROP='J03'
NEEDS='number text whose minus sign arrives in a fragment of its own'
BREAKS='-5 streamed as the two fragments - and 5 is written as the JSON number 5'
EDITS=[('json/src/to_fmt.rs','''                    b'0'..=b'9' => {
                        if self.at_start && self.sign_negative {''','''                    b'0'..=b'9' => {
                        if range.start > 0 && self.at_start && self.sign_negative {''')]
DEMO='''
struct N(Vec<&'static str>);
impl sval::Value for N {
    fn stream<'a, S: sval::Stream<'a> + ?Sized>(&'a self, s: &mut S) -> sval::Result {
        s.tagged_begin(Some(&sval::tags::NUMBER), None, None)?;
        s.text_begin(None)?;
        for f in &self.0 { s.text_fragment(f)?; }
        s.text_end()?;
        s.tagged_end(Some(&sval::tags::NUMBER), None, None)
    }
}
fn main() {
    for f in [vec!["-5"], vec!["-", "5"], vec!["-0", "05"], vec!["-", "0", ".5"]] {
        let whole: f64 = f.concat().parse().unwrap();
        let json: f64 = sval_json::stream_to_string(N(f.clone())).unwrap().parse().unwrap();
        assert_eq!(whole, json, "{f:?}");
    }
}
'''
