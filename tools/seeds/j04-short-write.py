ID='j04-short-write'; PROP='J04'
NEEDS='a writer that is interrupted after having accepted only part of a fragment'
BREAKS='the part already written is written again after the interruption'
EDITS=[('json/src/to_io.rs','''            let mut buf = v.as_bytes();

            while buf.len() > 0 {''','''            let all = v.as_bytes();
            let mut buf = all;

            while buf.len() > 0 {'''),
 ('json/src/to_io.rs','''                    Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,''','''                    // Nothing has been written, so try again
                    Err(e) if e.kind() == io::ErrorKind::Interrupted => buf = all,''')]
DEMO='''
struct W(Vec<u8>, usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 == 3 { return Err(std::io::ErrorKind::Interrupted.into()) }
        let n = b.len().min(3);
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = W(vec![], 0);
    sval_json::stream_to_io_write(&mut w, "a long piece of text").unwrap();
    assert_eq!("\\"a long piece of text\\"", String::from_utf8(w.0).unwrap());
}
'''
