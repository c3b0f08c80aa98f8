//! F01: flattening.
use crate::rec::*;
use crate::tok::*;
use crate::ctx::may_refuse;
use crate::Ctx;
use serde_json::{json, Value as J};
use sval::{Index, Label, Stream, Value};

pub const TARGETS: &[&str] = &["map", "seq", "record", "tuple", "record_tuple"];

fn flatten<'a, S: Stream<'a> + ?Sized, V: Value + ?Sized>(target: &str, s: &mut S, v: &'a V, from: isize) -> sval::Result<Option<isize>> {
    match target {
        "map" => sval_flatten::flatten_to_map(s, v, from).map(Some),
        "seq" => sval_flatten::flatten_to_seq(s, v).map(|_| None),
        "record" => sval_flatten::flatten_to_record(s, v, from).map(Some),
        "tuple" => sval_flatten::flatten_to_tuple(s, v, from).map(Some),
        _ => sval_flatten::flatten_to_record_tuple(s, v, from).map(Some),
    }
}

/// A value with an entry of its own, a flattened value, and another entry.
pub struct Around<'a, V: ?Sized>(pub &'a str, pub &'a V);
impl<'a, V: Value + ?Sized> Around<'a, V> {
    fn own<'s, S: Stream<'s> + ?Sized>(&self, s: &mut S, l: &'static str, i: isize, v: bool) -> sval::Result {
        let l = Label::new(l);
        let i = Index::new_isize(i).with_tag(&sval::tags::VALUE_OFFSET);
        match self.0 {
            "map" => { s.map_key_begin()?; s.value(l.as_static_str().unwrap())?; s.map_key_end()?; s.map_value_begin()?; s.bool(v)?; s.map_value_end() }
            "seq" => { s.seq_value_begin()?; s.bool(v)?; s.seq_value_end() }
            "record" => { s.record_value_begin(None, &l)?; s.bool(v)?; s.record_value_end(None, &l) }
            "tuple" => { s.tuple_value_begin(None, &i)?; s.bool(v)?; s.tuple_value_end(None, &i) }
            _ => { s.record_tuple_value_begin(None, &l, &i)?; s.bool(v)?; s.record_tuple_value_end(None, &l, &i) }
        }
    }
}
impl<'a, V: Value + ?Sized> Value for Around<'a, V> {
    fn stream<'s, S: Stream<'s> + ?Sized>(&'s self, s: &mut S) -> sval::Result {
        match self.0 {
            "map" => s.map_begin(None)?, "seq" => s.seq_begin(None)?, "record" => s.record_begin(None, None, None, None)?,
            "tuple" => s.tuple_begin(None, None, None, None)?, _ => s.record_tuple_begin(None, None, None, None)?,
        }
        self.own(s, "a", 0, true)?;
        let next = flatten(self.0, &mut *s, self.1, 1)?.unwrap_or(1);
        self.own(s, "d", next, false)?;
        match self.0 {
            "map" => s.map_end(), "seq" => s.seq_end(), "record" => s.record_end(None, None, None),
            "tuple" => s.tuple_end(None, None, None), _ => s.record_tuple_end(None, None, None),
        }
    }
}

pub struct Failing<'a>(pub &'a [Tok]);
impl<'a> Value for Failing<'a> {
    fn stream<'s, S: Stream<'s> + ?Sized>(&'s self, s: &mut S) -> sval::Result {
        for t in self.0 { play(t, s)?; }
        sval::error()
    }
}

pub fn f01(v: &J, c: &mut Ctx) {
    let toks = toks_from(&v["toks"]);
    let val = Nodes::new(&toks);
    let from = v["start"].as_i64().unwrap() as isize;
    c.nontrivial = v["entries"].as_u64().unwrap() > 0;
    c.count(&format!("onto {}", v["pair"][0].as_str().unwrap()));
    let flat: Vec<Tok> = toks.iter().filter(|t| !matches!(t, Tok::ValOpen(_) | Tok::ValClose)).cloned().collect();
    for target in TARGETS {
        let want = toks_from(&v["out"][target]["toks"]);
        let next: isize = v["out"][target]["next"].as_str().unwrap().parse().unwrap();
        for how in ["value", "dyn Value", "dyn Stream"] {
            let what = format!("onto {target}, {how}");
            let Some((r, x)) = c.guard(&what, || {
                let mut r = Rec::full();
                let x = match how {
                    "value" => flatten(target, &mut r, &val, from),
                    "dyn Value" => { let d: &dyn sval_dynamic::Value = &val; flatten(target, &mut r, d, from) }
                    _ => { let d: &mut dyn sval_dynamic::Stream = &mut r; flatten(target, d, &val, from) }
                };
                (r, x)
            }) else { continue };
            if may_refuse(&v["easy"][target]) && x.is_err() { c.count("refused"); continue }
            match x {
                Ok(n) => c.check(n.is_none() || n == Some(next), &format!("{what}: next offset"), || json!(n), || json!(next)),
                Err(_) => c.check(false, &format!("{what}: result"), || json!("Err"), || json!("Ok")),
            }
            c.check(r.toks == want, &what, || toks_json(&r.toks), || toks_json(&want));
        }
        for n in 0..want.len() {
            let mut r = Rec::failing(n);
            let Some(x) = c.guard("failing stream", || flatten(target, &mut r, &val, from).is_ok()) else { continue };
            c.check(!x, &format!("onto {target}: a failing stream is an error"), || json!(n), || json!("Err"));
            c.check(r.after == 0, &format!("onto {target}: nothing after a failure"), || json!(r.after), || json!(0));
        }
        for n in 0..=flat.len() {
            let f = Failing(&flat[..n]);
            let Some(x) = c.guard("failing value", || flatten(target, &mut Rec::full(), &f, from).is_ok()) else { continue };
            c.check(!x, &format!("onto {target}: a failing value is an error"), || json!(n), || json!("Err"));
        }
    }
    let (a, b) = (v["pair"][0].as_str().unwrap(), v["pair"][1].as_str().unwrap());
    let want = toks_from(&v["twice"]);
    if let Some((r, x)) = c.guard("flattened twice", || {
        let inner = Around(a, &val);
        let outer = Around(b, &inner);
        let mut r = Rec::full();
        let x = r.value(&outer).is_ok();
        (r.toks, x)
    }) {
        if may_refuse(&v["easytwice"]) && !x { c.count("refused"); return }
        c.check(x, "flattened twice: result", || json!("Err"), || json!("Ok"));
        c.check(r == want, &format!("{a} flattened onto {b}"), || toks_json(&r), || toks_json(&want));
    }
}
