ID='b03-record-bytes'; PROP='B03'
NEEDS='collecting binary from a record or map of bytes'
BREAKS='a map of bytes is collected as binary (keys and values run together) instead of being refused'
EDITS=[('buffer/src/fragments.rs','''    fn map_begin(&mut self, _: Option<usize>) -> sval::Result {
        self.fail(Error::unsupported("binary", "map"))
    }

    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result {
        Ok(())
    }
''','''    fn map_begin(&mut self, num_entries: Option<usize>) -> sval::Result {
        // Nothing needs to be buffered for an empty map
        match num_entries {
            Some(0) => self.seq_begin(num_entries),
            _ => self.fail(Error::unsupported("binary", "map")),
        }
    }

    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result {
        Ok(())
    }
''')]
DEMO='''
fn main() {
    let m: [(u8, u8); 0] = [];
    assert!(sval_buffer::BinaryBuf::collect(sval::MapSlice::new(&m)).is_err());
}
'''
NEEDS='collecting binary from a map that says it is empty'
BREAKS='an empty map is collected as empty binary instead of being refused'
ID='b03-empty-map'
