ID='g01-descending'; PROP='G01'
NEEDS='an enum with explicit discriminants in descending order followed by a variant without one'
BREAKS='the last variant is numbered after the largest discriminant, not after the one before it'
EDITS=[('derive_macros/src/index.rs','''            self.next_const_index = index + 1;
''','''            self.next_const_index = self.next_const_index.max(index + 1);
''')]
DEPS=['sval',('d','sval_derive = { path = "$repo/derive", features = ["std"] }')]
DEMO='''
#[derive(sval_derive::Value)]
#[allow(dead_code)]
enum E { A = 5, B = 1, C }
struct Ix(Option<isize>);
impl<'a> sval::Stream<'a> for Ix {
    fn null(&mut self) -> sval::Result { Ok(()) }
    fn bool(&mut self, _: bool) -> sval::Result { Ok(()) }
    fn text_begin(&mut self, _: Option<usize>) -> sval::Result { Ok(()) }
    fn text_fragment_computed(&mut self, _: &str) -> sval::Result { Ok(()) }
    fn text_end(&mut self) -> sval::Result { Ok(()) }
    fn i64(&mut self, _: i64) -> sval::Result { Ok(()) }
    fn f64(&mut self, _: f64) -> sval::Result { Ok(()) }
    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result { Ok(()) }
    fn seq_value_begin(&mut self) -> sval::Result { Ok(()) }
    fn seq_value_end(&mut self) -> sval::Result { Ok(()) }
    fn seq_end(&mut self) -> sval::Result { Ok(()) }
    fn tag(&mut self, _: Option<&sval::Tag>, _: Option<&sval::Label>, i: Option<&sval::Index>) -> sval::Result { self.0 = i.and_then(|i| i.to_isize()); Ok(()) }
}
fn main() {
    use sval::Value as _;
    let mut ix = Ix(None);
    E::C.stream(&mut ix).unwrap();
    assert_eq!(Some(E::C as isize), ix.0);
}
'''
