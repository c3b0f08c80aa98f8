ID='j02-unit-separator'; PROP='J02'
NEEDS='text or a label holding the control character U+001F'
BREAKS='one control character is written into JSON strings unescaped, which is not valid JSON'
EDITS=[('json/src/to_fmt.rs','''        if escape == 0 {
            continue;
        }

        if start < i {''','''        // Anything at or above the last control character is only escaped if it's syntax
        if escape == 0 || (escape == U && byte >= b' ' - 1) {
            continue;
        }

        if start < i {''')]
DEMO='''
fn main() {
    for c in 0u8..0x80 {
        let s = (c as char).to_string();
        let json = sval_json::stream_to_string(&*s).unwrap();
        assert!(json.bytes().all(|b| b >= 0x20), "raw control character {c:#x}");
    }
}
'''
