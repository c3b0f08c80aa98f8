ID='l01-tag-id'; PROP='L01'
NEEDS='two tag names whose 64bit identifiers collide'
BREAKS='two different tags compare equal when the hashes of their names are equal'
EDITS=[('src/data.rs','''pub struct Tag {
    id: u64,
    data: &'static str,
}
''','''pub struct Tag {
    id: u64,
    len: usize,
}
'''),('src/data.rs','''            id: compute_id(data.as_bytes()),
            data,''','''            id: compute_id(data.as_bytes()),
            len: data.len(),'''),('src/data.rs','''            id: self.id,
            data: self.data,''','''            id: self.id,
            len: self.len,'''),('src/data.rs','''f.debug_tuple("Tag").field(&self.data).finish()''','''f.debug_tuple("Tag").field(&self.id).finish()''')]
DEMO='''
// The identifier is ((a * K) <<< 5 ^ b) * K for 16 bytes (a, b): look for names with the same one
const K: u64 = 0x517cc1b727220a95;
fn ascii(v: u64) -> bool { v.to_ne_bytes().iter().all(|b| *b < 0x80) }
fn main() {
    let word = |n: u64| u64::from_ne_bytes(*format!("{:08}", n).as_bytes().first_chunk::<8>().unwrap());
    let h = |n: u64| word(n).wrapping_mul(K).rotate_left(5);
    for n in 1..100000u64 {
        let d = h(0) ^ h(n);
        if !ascii(d) { continue }
        let second = u64::from_ne_bytes(*b"abcdefgh");
        let other = second ^ d;
        let a = [word(0).to_ne_bytes(), second.to_ne_bytes()].concat();
        let b = [word(n).to_ne_bytes(), other.to_ne_bytes()].concat();
        let a: &'static str = String::from_utf8(a).unwrap().leak();
        let b: &'static str = String::from_utf8(b).unwrap().leak();
        assert!(sval::Tag::new(a) != sval::Tag::new(b), "{a:?} and {b:?} are the same tag");
    }
}
'''
