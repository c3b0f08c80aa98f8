//! V01: asking values for scalars.
use crate::tok::*;
use crate::Ctx;
use serde_json::{json, Value as J};
use sval::Value;

pub type Got = Vec<(&'static str, Option<J>)>;

pub fn ask<V: Value + ?Sized>(v: &V) -> (Got, Option<String>) {
    let n = |x: Option<String>| x.map(J::String);
    (vec![
        ("bool", v.to_bool().map(|b| json!(b))),
        ("f32", n(v.to_f32().map(|x| format!("{x:?}")))), ("f64", n(v.to_f64().map(|x| format!("{x:?}")))),
        ("i8", n(v.to_i8().map(|x| x.to_string()))), ("i16", n(v.to_i16().map(|x| x.to_string()))), ("i32", n(v.to_i32().map(|x| x.to_string()))),
        ("i64", n(v.to_i64().map(|x| x.to_string()))), ("i128", n(v.to_i128().map(|x| x.to_string()))),
        ("u8", n(v.to_u8().map(|x| x.to_string()))), ("u16", n(v.to_u16().map(|x| x.to_string()))), ("u32", n(v.to_u32().map(|x| x.to_string()))),
        ("u64", n(v.to_u64().map(|x| x.to_string()))), ("u128", n(v.to_u128().map(|x| x.to_string()))),
        ("text", v.to_text().map(|s| json!(s))), ("binary", v.to_binary().map(|s| json!(s))),
    ], v.tag().map(|t| tag_name(&t)))
}

/// What was given is the datum itself.
fn same(kind: &str, verdict: &str, got: &J, v: &J) -> bool {
    match kind {
        "text" => got.as_str().unwrap() == from_cps(v),
        "binary" => *got == json!(bytes(v)),
        "f32" if verdict == "some" => got == v || (got == "NaN" && v.as_str().unwrap().contains("NaN")),
        // the datum may be of the other width; it has to be the same number
        "f32" => { let (g, v): (f32, f64) = (got.as_str().unwrap().parse().unwrap(), v.as_str().unwrap().parse().unwrap()); (g.is_nan() && v.is_nan()) || ((g as f64) == v && g.is_sign_negative() == v.is_sign_negative()) }
        "f64" => { let (g, v): (f64, f64) = (got.as_str().unwrap().parse().unwrap(), v.as_str().unwrap().parse().unwrap()); (g.is_nan() && v.is_nan()) || g.to_bits() == v.to_bits() }
        _ => got == v,
    }
}

pub fn judge(c: &mut Ctx, what: &str, got: Got, want: &J, owned: bool) {
    for (kind, g) in got {
        let w = &want[kind];
        let bytes = kind == "text" || kind == "binary";
        let verdict = w["a"].as_str().unwrap();
        let ok = match (verdict, &g) {
            ("none", None) | ("either", None) => true,
            ("some", None) => owned && bytes,
            ("some", Some(g)) | ("either", Some(g)) => same(kind, verdict, g, &w["v"]),
            // a copy may keep text in one piece where the original did not
            ("none", Some(g)) => owned && bytes && w.get("v").is_some_and(|v| same(kind, verdict, g, v)),
            _ => false,
        };
        c.check(ok, &format!("{what}: to_{kind}"), || json!(g), || w.clone());
    }
}

pub fn v01(v: &J, c: &mut Ctx) {
    let toks = toks_from(&v["toks"]);
    let val = Nodes::new(&toks);
    let want = &v["ask"];
    let tag = v["tag"].as_str().unwrap();
    let tag = (!tag.is_empty()).then(|| tag.to_string());
    c.nontrivial = want.as_object().unwrap().values().any(|a| a["a"] != "none");
    for (k, a) in want.as_object().unwrap() { c.count(&format!("{} {}", a["a"].as_str().unwrap(), k)); }
    macro_rules! through {
        ($what:expr, $x:expr, $tag:expr) => { through!($what, $x, $tag, false) };
        ($what:expr, $x:expr, $tag:expr, $owned:expr) => {{
            if let Some((g, t)) = c.guard($what, || ask($x)) {
                judge(c, $what, g, want, $owned);
                let want_tag: Option<String> = $tag;
                c.check(t == want_tag, &format!("{}: tag", $what), || json!(t), || json!(want_tag));
            }
        }};
    }
    through!("value", &val, tag.clone());
    through!("reference", &&val, tag.clone());
    #[cfg(feature = "alloc")] through!("box", &Box::new(&val), tag.clone());
    let d: &dyn sval_dynamic::Value = &val;
    through!("dyn Value", d, tag.clone());
    #[cfg(feature = "alloc")] let b: Box<dyn sval_dynamic::Value> = Box::new(val.clone());
    #[cfg(feature = "alloc")] through!("box of dyn Value", &b, tag.clone());
    through!("Ref", &sval_ref::Ref::new(&val), tag.clone());
    through!("Option", &Some(&val), Some("RUST_OPTION_SOME".to_string()));
    let mut buf = None;
    c.guard("collect", || buf = sval_buffer::ValueBuf::collect(&val).ok());
    if let Some(buf) = &buf { through!("ValueBuf", buf, tag.clone(), true); }
    if let [t] = &toks[..] {
        match t {
            Tok::Bool(x) => through!("bool", x, None),
            Tok::Null => { through!("Null", &sval::Null, None); through!("None", &None::<bool>, Some("RUST_OPTION_NONE".to_string())); through!("unit", &(), Some("RUST_UNIT".to_string())); }
            Tok::U8(x) => through!("u8", x, tag.clone()), Tok::U16(x) => through!("u16", x, tag.clone()), Tok::U32(x) => through!("u32", x, tag.clone()),
            Tok::U64(x) => through!("u64", x, tag.clone()),
            Tok::U128(x) => through!("u128", x, tag.clone()),
            Tok::I8(x) => through!("i8", x, tag.clone()), Tok::I16(x) => through!("i16", x, tag.clone()), Tok::I32(x) => through!("i32", x, tag.clone()),
            Tok::I64(x) => through!("i64", x, tag.clone()),
            Tok::I128(x) => through!("i128", x, tag.clone()),
            Tok::F32(x) => through!("f32", x, tag.clone()), Tok::F64(x) => through!("f64", x, tag.clone()),
            _ => {}
        }
    }
    if let [Tok::TextBegin(_), Tok::TextFrag(s, true), Tok::TextEnd] = &toks[..] {
        through!("str", s.as_str(), None);
        #[cfg(feature = "alloc")] through!("String", s, None);
        if let Some(t) = c.guard("TextBuf", || sval_buffer::TextBuf::from(s.as_str())) { through!("TextBuf", &t, None, true) }
    }
    if let [Tok::BinBegin(_), Tok::BinFrag(s, true), Tok::BinEnd] = &toks[..] {
        through!("BinarySlice", sval::BinarySlice::new(s), None);
        if let Some(t) = c.guard("BinaryBuf", || sval_buffer::BinaryBuf::from(&s[..])) { through!("BinaryBuf", &t, None, true) }
    }
}
