//! M01: formatting.
use crate::tok::*;
use crate::Ctx;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::fmt::{self, Write};
use std::rc::Rc;
use sval_fmt::TokenWrite;

enum Piece { Lit(String), Float(bool, String) }
type Pieces = Vec<(String, Vec<Piece>)>;

fn pieces(v: &J) -> Pieces {
    let mut out: Pieces = vec![];
    for p in v.as_array().unwrap() {
        let c = p["c"].as_str().unwrap().to_string();
        let x = if let Some(s) = p.get("p") { Piece::Lit(s.as_str().unwrap().to_string()) }
            else if let Some(s) = p.get("s") { Piece::Lit(from_cps(s)) }
            else { Piece::Float(p["f"] == "f32", p["v"].as_str().unwrap().to_string()) };
        match out.last_mut() { Some((k, xs)) if *k == c => xs.push(x), _ => out.push((c, vec![x])) }
    }
    out
}

/// Take the pieces off the front of the output.
fn take<'a>(mut s: &'a str, xs: &[Piece]) -> Option<&'a str> {
    for x in xs {
        match x {
            Piece::Lit(l) => s = s.strip_prefix(l.as_str())?,
            Piece::Float(single, v) => {
                let n = s.find([' ', ',', ')', ']', '}', ':']).unwrap_or(s.len());
                let ok = if *single {
                    let (a, b): (f32, f32) = (s[..n].parse().ok()?, v.parse().unwrap());
                    (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits()
                } else {
                    let (a, b): (f64, f64) = (s[..n].parse().ok()?, v.parse().unwrap());
                    (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits()
                };
                if !ok { return None }
                s = &s[n..];
            }
        }
    }
    Some(s)
}
fn matches(s: &str, ps: &Pieces) -> bool {
    let mut s = s;
    for (_, xs) in ps { match take(s, xs) { Some(r) => s = r, None => return false } }
    s.is_empty()
}
fn show(ps: &Pieces) -> J {
    json!(ps.iter().flat_map(|(_, xs)| xs.iter().map(|x| match x { Piece::Lit(s) => s.clone(), Piece::Float(_, v) => v.clone() })).collect::<String>())
}

/// The tokens that were written, with their classes.
#[derive(Default)]
struct Toks(Vec<(String, String)>);
impl Write for Toks { fn write_str(&mut self, s: &str) -> fmt::Result { self.0.push(("plain".into(), s.to_string())); Ok(()) } }
impl TokenWrite for Toks {
    fn write_token<T: fmt::Display>(&mut self, tag: &sval::Tag, token: T) -> fmt::Result {
        let c = [("NUMBER", &sval_fmt::tags::NUMBER), ("ATOM", &sval_fmt::tags::ATOM), ("PUNCT", &sval_fmt::tags::PUNCT), ("IDENT", &sval_fmt::tags::IDENT), ("TEXT", &sval_fmt::tags::TEXT), ("WS", &sval_fmt::tags::WS)]
            .iter().find(|(_, t)| *t == tag).map(|(n, _)| *n).unwrap_or("?");
        let s = token.to_string();
        if s.is_empty() { return Ok(()) }
        match self.0.last_mut() { Some((k, x)) if k == c => x.push_str(&s), _ => self.0.push((c.to_string(), s)) }
        Ok(())
    }
}

/// Logs every call.
#[derive(Clone, Default)]
struct Log(Rc<RefCell<Vec<String>>>);
impl Log { fn log(&mut self, m: &str, a: String) -> fmt::Result { self.0.borrow_mut().push(format!("{m} {a}")); Ok(()) } }
impl Write for Log { fn write_str(&mut self, s: &str) -> fmt::Result { self.log("str", s.to_string()) } }
impl TokenWrite for Log {
    fn write_token<T: fmt::Display>(&mut self, tag: &sval::Tag, token: T) -> fmt::Result { self.log("token", format!("{:?} {}", tag, token)) }
    fn write_u8(&mut self, value: u8) -> fmt::Result { self.log("u8", format!("{:?}", value)) }
    fn write_u16(&mut self, value: u16) -> fmt::Result { self.log("u16", format!("{:?}", value)) }
    fn write_u32(&mut self, value: u32) -> fmt::Result { self.log("u32", format!("{:?}", value)) }
    fn write_u64(&mut self, value: u64) -> fmt::Result { self.log("u64", format!("{:?}", value)) }
    fn write_u128(&mut self, value: u128) -> fmt::Result { self.log("u128", format!("{:?}", value)) }
    fn write_i8(&mut self, value: i8) -> fmt::Result { self.log("i8", format!("{:?}", value)) }
    fn write_i16(&mut self, value: i16) -> fmt::Result { self.log("i16", format!("{:?}", value)) }
    fn write_i32(&mut self, value: i32) -> fmt::Result { self.log("i32", format!("{:?}", value)) }
    fn write_i64(&mut self, value: i64) -> fmt::Result { self.log("i64", format!("{:?}", value)) }
    fn write_i128(&mut self, value: i128) -> fmt::Result { self.log("i128", format!("{:?}", value)) }
    fn write_f32(&mut self, value: f32) -> fmt::Result { self.log("f32", format!("{:?}", value)) }
    fn write_f64(&mut self, value: f64) -> fmt::Result { self.log("f64", format!("{:?}", value)) }
    fn write_number<N: fmt::Display>(&mut self, num: N) -> fmt::Result { self.log("number", num.to_string()) }
    fn write_null(&mut self) -> fmt::Result { self.log("null", String::new()) }
    fn write_bool(&mut self, value: bool) -> fmt::Result { self.log("bool", value.to_string()) }
    fn write_atom<A: fmt::Display>(&mut self, atom: A) -> fmt::Result { self.log("atom", atom.to_string()) }
    fn write_type(&mut self, s: &str) -> fmt::Result { self.log("type", s.to_string()) }
    fn write_field(&mut self, s: &str) -> fmt::Result { self.log("field", s.to_string()) }
    fn write_ident(&mut self, s: &str) -> fmt::Result { self.log("ident", s.to_string()) }
    fn write_punct(&mut self, s: &str) -> fmt::Result { self.log("punct", s.to_string()) }
    fn write_ws(&mut self, s: &str) -> fmt::Result { self.log("ws", s.to_string()) }
    fn write_text(&mut self, s: &str) -> fmt::Result { self.log("text", s.to_string()) }
    fn write_record_type(&mut self, s: &str) -> fmt::Result { self.log("record_type", s.to_string()) }
    fn write_tuple_type(&mut self, s: &str) -> fmt::Result { self.log("tuple_type", s.to_string()) }
    fn write_text_quote(&mut self) -> fmt::Result { self.log("text_quote", String::new()) }
    fn write_map_begin(&mut self) -> fmt::Result { self.log("map_begin", String::new()) }
    fn write_record_begin(&mut self) -> fmt::Result { self.log("record_begin", String::new()) }
    fn write_seq_begin(&mut self) -> fmt::Result { self.log("seq_begin", String::new()) }
    fn write_tuple_begin(&mut self) -> fmt::Result { self.log("tuple_begin", String::new()) }
    fn write_map_key_begin(&mut self, b: bool) -> fmt::Result { self.log("map_key_begin", b.to_string()) }
    fn write_map_value_begin(&mut self, b: bool) -> fmt::Result { self.log("map_value_begin", b.to_string()) }
    fn write_map_end(&mut self, b: bool) -> fmt::Result { self.log("map_end", b.to_string()) }
    fn write_record_end(&mut self, b: bool) -> fmt::Result { self.log("record_end", b.to_string()) }
    fn write_seq_value_begin(&mut self, b: bool) -> fmt::Result { self.log("seq_value_begin", b.to_string()) }
    fn write_seq_end(&mut self, b: bool) -> fmt::Result { self.log("seq_end", b.to_string()) }
    fn write_tuple_value_begin(&mut self, b: bool) -> fmt::Result { self.log("tuple_value_begin", b.to_string()) }
    fn write_tuple_end(&mut self, b: bool) -> fmt::Result { self.log("tuple_end", b.to_string()) }
    fn write_record_value_begin(&mut self, field: &str, b: bool) -> fmt::Result { self.log("record_value_begin", format!("{field:?} {b}")) }
}

/// Fails from the nth write on.
struct Fails { out: String, writes: usize, at: usize, after: usize }
impl Fails { fn at(at: usize) -> Fails { Fails { out: String::new(), writes: 0, at, after: 0 } } }
impl Write for Fails {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.writes >= self.at { self.after += 1; return Err(fmt::Error) }
        self.writes += 1;
        self.out.push_str(s);
        Ok(())
    }
}

struct Through<'a, V>(&'a V);
impl<'a, V: sval::Value> fmt::Display for Through<'a, V> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { sval_fmt::stream_to_fmt(f, self.0) }
}

struct Failing<'a>(&'a [Tok]);
impl<'a> sval::Value for Failing<'a> {
    fn stream<'s, S: sval::Stream<'s> + ?Sized>(&'s self, s: &mut S) -> sval::Result {
        for t in self.0 { play(t, s)?; }
        sval::error()
    }
}

pub fn m01(v: &J, c: &mut Ctx) {
    let toks = toks_from(&v["toks"]);
    let val = Nodes::new(&toks);
    let want = pieces(&v["out"]);
    c.nontrivial = want.len() > 1;
    let flat: Vec<Tok> = toks.iter().filter(|t| !matches!(t, Tok::ValOpen(_) | Tok::ValClose)).cloned().collect();
    let d: &dyn sval_dynamic::Value = &val;
    let mut text = None;
    for how in [#[cfg(feature = "alloc")] "stream_to_string", "stream_to_write", "display", "debug", "borrowed", "stream_to_fmt", "dyn"] {
        let Some(r) = c.guard(how, || {
            let mut s = String::new();
            let r = match how {
                #[cfg(feature = "alloc")] "stream_to_string" => { s = sval_fmt::stream_to_string(&val); Ok(()) }
                "stream_to_write" => sval_fmt::stream_to_write(&mut s, &val),
                "display" => write!(s, "{}", sval_fmt::ToFmt::new(&val)),
                "debug" => write!(s, "{:?}", sval_fmt::ToFmt::new(&val)),
                "borrowed" => write!(s, "{}", sval_fmt::ToFmt::new_borrowed(&val)),
                "stream_to_fmt" => write!(s, "{}", Through(&val)),
                _ => sval_fmt::stream_to_write(&mut s, d),
            };
            (s, r)
        }) else { continue };
        c.check(r.1.is_ok(), &format!("{how}: result"), || json!("Err"), || json!("Ok"));
        c.check(matches(&r.0, &want), how, || json!(r.0), || show(&want));
        if how == "stream_to_write" { text = Some(r.0) }
    }
    // token by token
    for how in ["token", "token through a reference"] {
        let Some(t) = c.guard(how, || {
            let mut t = Toks::default();
            let ok = if how == "token" { sval_fmt::stream_to_token_write(&mut t, &val) } else { sval_fmt::stream_to_token_write(&mut &mut t, &val) };
            (t.0, ok.is_ok())
        }) else { continue };
        c.check(t.1, &format!("{how}: result"), || json!("Err"), || json!("Ok"));
        let ok = t.0.len() == want.len() && t.0.iter().zip(&want).all(|((c, s), (k, xs))| c == k && take(s, xs) == Some(""));
        c.check(ok, how, || json!(t.0), || v["out"].clone());
    }
    // a reference to a writer is called just as the writer is
    if let Some((a, b)) = c.guard("log", || {
        let (a, mut b) = (Log::default(), Log::default());
        let _ = sval_fmt::stream_to_token_write(a.clone(), &val);
        let _ = sval_fmt::stream_to_token_write(&mut b, &val);
        let x = (a.0.borrow().clone(), b.0.borrow().clone());
        x
    }) { c.check(a == b, "calls through a reference", || json!(b), || json!(a)); }
    // failing writers
    let mut all = Fails::at(usize::MAX);
    let _ = sval_fmt::stream_to_write(&mut all, &val);
    if let Some(text) = text {
        for n in (0..all.writes).take(40) {
            let mut w = Fails::at(n);
            let Some(r) = c.guard("failing writer", || sval_fmt::stream_to_write(&mut w, &val).is_ok()) else { continue };
            c.check(!r, "stream_to_write: a failing writer is an error", || json!(n), || json!("Err"));
            c.check(w.after <= 1 && text.starts_with(&w.out), "stream_to_write: nothing after a failure", || json!([w.after, w.out]), || json!(text));
            let mut w = Fails::at(n);
            let Some(r) = c.guard("failing writer, ToFmt", || write!(w, "{}", sval_fmt::ToFmt::new(&val)).is_ok()) else { continue };
            // the Formatter may write in fewer pieces
            c.check(!r || w.writes < n || w.after == 0, "ToFmt: a failing writer is an error", || json!(n), || json!("Err"));
        }
    }
    for n in (0..=flat.len()).take(40) {
        let f = Failing(&flat[..n]);
        if let Some(r) = c.guard("failing value", || sval_fmt::stream_to_write(String::new(), &f).is_ok()) { c.check(!r, "stream_to_write: a failing value is an error", || json!(n), || json!("Err")); }
        c.guard("failing value, ToFmt", || { let mut s = String::new(); write!(s, "{}", sval_fmt::ToFmt::new(&f)).is_ok() });
    }
}
