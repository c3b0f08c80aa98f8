ID='s03-dyn-u64'; PROP='S03'
NEEDS='a u64 above i64::MAX behind a dynamically dispatched value that is asked for a u64'
BREAKS='the dynamic value answers nothing where the value itself answers'
EDITS=[('dynamic/src/value.rs','''    fn dispatch_to_u64(&self) -> Option<u64> {
        self.to_u64()
    }''','''    fn dispatch_to_u64(&self) -> Option<u64> {
        self.to_i64().and_then(|v| v.try_into().ok())
    }''')]
DEPS=['sval','sval_dynamic']
DEMO='''
use sval::Value as _;
fn main() {
    let v = u64::MAX - 3;
    let d: &dyn sval_dynamic::Value = &v;
    assert_eq!(v.to_u64(), d.to_u64());
}
'''
