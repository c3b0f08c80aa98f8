//! B01, B02, B03: buffers.
use crate::rec::*;
use crate::tok::*;
use crate::Ctx;
use serde_json::{json, Value as J};
use sval::{Result, Stream, Value};
use sval_buffer::{BinaryBuf, TextBuf, ValueBuf};
use sval_ref::ValueRef;

/// Text and binary in one piece; how long the piece lives is returned apart.
pub fn whole(toks: &[Tok]) -> (Vec<Tok>, Vec<Option<bool>>) {
    let (mut out, mut lives) = (vec![], vec![]);
    let mut cur: Option<(bool, Vec<u8>, Option<bool>, Option<usize>)> = None;
    for t in toks {
        match t {
            Tok::TextBegin(n) => cur = Some((true, vec![], None, *n)),
            Tok::BinBegin(n) => cur = Some((false, vec![], None, *n)),
            Tok::TextFrag(s, b) if cur.is_some() => { let c = cur.as_mut().unwrap(); if !s.is_empty() { c.1.extend(s.as_bytes()); c.2 = Some(c.2.unwrap_or(true) && *b); } }
            Tok::BinFrag(s, b) if cur.is_some() => { let c = cur.as_mut().unwrap(); if !s.is_empty() { c.1.extend(s); c.2 = Some(c.2.unwrap_or(true) && *b); } }
            Tok::TagHint(_) if cur.is_some() => {}
            Tok::TextEnd if cur.is_some() => {
                let (_, s, b, n) = cur.take().unwrap();
                // a hint that is given is right
                let n = if n.is_none() || n == Some(s.len()) { None } else { n };
                out.extend([Tok::TextBegin(n), Tok::TextFrag(String::from_utf8(s).unwrap_or_else(|e| format!("not UTF-8: {e:?}")), false), Tok::TextEnd]);
                lives.push(b);
            }
            Tok::BinEnd if cur.is_some() => {
                let (_, s, b, n) = cur.take().unwrap();
                let n = if n.is_none() || n == Some(s.len()) { None } else { n };
                out.extend([Tok::BinBegin(n), Tok::BinFrag(s, false), Tok::BinEnd]);
                lives.push(b);
            }
            t => out.push(t.clone()),
        }
    }
    (out, lives)
}
pub fn cmp_whole(c: &mut Ctx, what: &str, got: &[Tok], exp: &[Tok]) -> Vec<Option<bool>> {
    let (g, l) = whole(got);
    let (e, _) = whole(exp);
    c.check(g == e, what, || toks_json(&g), || toks_json(&e));
    l
}
fn record(f: impl FnOnce(&mut Rec) -> Result) -> (Rec, Result) { let mut r = Rec::full(); let x = f(&mut r); (r, x) }

/// Overwrite what a source lent, so that anything still referring to it shows.
pub fn poison(n: &mut Nodes) {
    for n in &mut n.0 {
        match n {
            Node::V(_, n) => poison(n),
            Node::T(t) => match t {
                // same length, still UTF-8
                Tok::TextFrag(s, _) => unsafe { s.as_bytes_mut().fill(b'#') },
                Tok::BinFrag(s, _) => s.fill(b'#'),
                _ => {}
            },
        }
    }
}

pub fn b01(v: &J, c: &mut Ctx) {
    let toks = toks_from(&v["toks"]);
    let out = toks_from(&v["out"]);
    let lives: Vec<&str> = v["lives"].as_array().unwrap().iter().map(|s| s.as_str().unwrap()).collect();
    c.nontrivial = toks.len() > 3;
    for l in &lives { c.count(&format!("text or binary: {l}")); }
    let mut val = Nodes::new(&toks);
    let mut owned: Vec<(&str, Box<dyn Fn(&mut Rec) -> Result>)> = vec![];
    {
        let val = &val;
        let see = |c: &mut Ctx, what: &str, check_lives: bool, f: &dyn Fn(&mut Rec) -> Result| {
            c.count(what);
            let Some((r, x)) = c.guard(what, || record(|r| f(r))) else { return };
            c.check(x.is_ok(), &format!("{what}: result"), || json!("Err"), || json!("Ok"));
            let l = cmp_whole(c, what, &r.toks, &out);
            if check_lives && l.len() == lives.len() {
                for (g, e) in l.iter().zip(&lives) {
                    c.check(!(*e == "long" && *g == Some(false)), &format!("{what}: one long-lived piece stays long-lived"), || json!(l), || json!(lives));
                }
            }
        };
        macro_rules! get { ($what:literal, $e:expr) => { match c.guard($what, || $e) { Some(Ok(b)) => b, Some(Err(_)) => { c.check(false, concat!($what, " fails"), || json!("Err"), || json!("Ok")); return } None => return } } }
        let b = get!("collect", ValueBuf::collect(val));
        c.check(b.is_complete(), "a collected value is complete", || json!(false), || json!(true));
        see(c, "ValueBuf::stream", true, &|s| b.stream(s));
        see(c, "ValueBuf::stream twice", true, &|s| b.stream(s));
        see(c, "ValueBuf::stream_ref", true, &|s| b.stream_ref(s));
        see(c, "sval_ref::stream_ref(&ValueBuf)", true, &|s| sval_ref::stream_ref(s, &b));
        let imm = b.to_value();
        see(c, "to_value stream", true, &|s| imm.stream(s));
        see(c, "to_value stream_ref", true, &|s| imm.stream_ref(s));
        let cl = imm.clone();
        drop(imm);
        see(c, "Value::clone", true, &|s| cl.stream(s));
        let imm = get!("stream_to_value", sval_buffer::stream_to_value(val));
        see(c, "stream_to_value", true, &|s| imm.stream(s));
        let imm = get!("Value::collect", sval_buffer::Value::collect(val));
        see(c, "Value::collect", true, &|s| imm.stream_ref(s));
        let inner = get!("buffer of a buffer", ValueBuf::collect(&b));
        see(c, "buffer of a buffer", true, &|s| inner.stream(s));
        see(c, "dyn ValueBuf", true, &|s| { let d: &dyn sval_dynamic::Value = &b; d.stream(s) });
        see(c, "value_computed(ValueBuf)", false, &|s| s.value_computed(&b));
        // in a larger stream
        let (r, x) = record(|s| {
            s.seq_begin(Some(2))?;
            s.seq_value_begin()?; s.value(&b)?; s.seq_value_end()?;
            s.seq_value_begin()?; s.value(&imm)?; s.seq_value_end()?;
            s.seq_end()
        });
        c.check(x.is_ok(), "in a sequence: result", || json!("Err"), || json!("Ok"));
        let mut twice = vec![Tok::SeqBegin(Some(2)), Tok::SeqValueBegin];
        twice.extend(out.clone());
        twice.extend([Tok::SeqValueEnd, Tok::SeqValueBegin]);
        twice.extend(out.clone());
        twice.extend([Tok::SeqValueEnd, Tok::SeqEnd]);
        cmp_whole(c, "in a sequence", &r.toks, &twice);
        struct Twice<'a>(&'a Nodes, &'a ValueBuf<'a>);
        impl<'a> Value for Twice<'a> {
            fn stream<'s, S: Stream<'s> + ?Sized>(&'s self, s: &mut S) -> Result {
                s.seq_begin(Some(2))?;
                s.seq_value_begin()?; s.value(self.0)?; s.seq_value_end()?;
                s.seq_value_begin()?; s.value(self.1)?; s.seq_value_end()?;
                s.seq_end()
            }
        }
        let tw = Twice(val, &b);
        let wide = get!("collect a value and its buffer", ValueBuf::collect(&tw));
        let (r, _) = record(|s| wide.stream(s));
        cmp_whole(c, "a value and its buffer, buffered", &r.toks, &twice);
        drop(wide);
        drop(inner);
        // reused, after something whole, something cut short and an error
        let mut again = ValueBuf::new();
        for stop in [0, 1, toks.len() / 2, toks.len()] {
            let part = Nodes::new(&toks_from(&v["flat"])[..stop.min(v["flat"].as_array().unwrap().len())]);
            let part: &Nodes = Box::leak(Box::new(part));
            if c.guard("partial", || part.stream(&mut again)).is_none() { continue }
            c.guard("unbalanced", || { let _ = again.seq_end(); let _ = again.map_value_end(); });
            again.clear();
            c.check(!again.is_complete(), "a cleared buffer is not complete", || json!(true), || json!(false));
            let Some(x) = c.guard("reuse", || val.stream(&mut again)) else { continue };
            c.check(x.is_ok(), "reused: result", || json!("Err"), || json!("Ok"));
            see(c, "cleared and reused", true, &|s| again.stream(s));
            c.check(again.is_complete(), "a reused buffer is complete", || json!(false), || json!(true));
            unsafe { drop(Box::from_raw(part as *const Nodes as *mut Nodes)) };
            again.clear();
        }
        let (r, _) = record(|s| again.stream(s));
        cmp_whole(c, "empty buffer", &r.toks, &[Tok::Null]);
        let (r, _) = record(|s| again.to_value().stream(s));
        cmp_whole(c, "empty value", &r.toks, &[Tok::Null]);
        // owned forms, looked at once the source is gone
        let x = get!("ValueBuf::into_owned", b.into_owned());
        let y = x.to_value();
        owned.push(("ValueBuf::into_owned", Box::new(move |s| x.stream(s))));
        owned.push(("ValueBuf::into_owned to_value", Box::new(move |s| y.stream(s))));
        let x = get!("ValueBuf::collect_owned", ValueBuf::collect_owned(val));
        owned.push(("ValueBuf::collect_owned", Box::new(move |s| x.stream_ref(s))));
        let x = get!("Value::collect_owned", sval_buffer::Value::collect_owned(val));
        owned.push(("Value::collect_owned", Box::new(move |s| x.stream(s))));
        let x = get!("stream_to_value_owned", sval_buffer::stream_to_value_owned(val));
        owned.push(("stream_to_value_owned", Box::new(move |s| x.stream(s))));
        let x = get!("into_value into_owned", { let b = get2(val); b.and_then(|b| b.into_value().into_owned()) });
        let y = x.clone();
        let z = get!("into_owned twice", x.into_owned());
        owned.push(("Value::into_owned clone", Box::new(move |s| y.stream_ref(s))));
        owned.push(("Value::into_owned twice", Box::new(move |s| z.stream(s))));
    }
    poison(&mut val);
    for (what, f) in &owned {
        c.count(what);
        let Some((r, x)) = c.guard(what, || record(|r| f(r))) else { continue };
        c.check(x.is_ok(), &format!("{what}: result"), || json!("Err"), || json!("Ok"));
        cmp_whole(c, what, &r.toks, &out);
    }
}

fn ends() -> Vec<Tok> {
    let m = Meta { tag: None, lab: None, idx: None };
    let l = Lab { s: "a".into(), st: true, id: true };
    let i = Idx { v: 0, off: true };
    vec![
        Tok::MapKeyEnd, Tok::MapValueEnd, Tok::MapEnd, Tok::SeqValueEnd, Tok::SeqEnd, Tok::EnumEnd(m.clone()), Tok::TaggedEnd(m.clone()), Tok::RecordValueEnd(None, l.clone()),
        Tok::RecordEnd(m.clone()), Tok::TupleValueEnd(None, i.clone()), Tok::TupleEnd(m.clone()), Tok::RecordTupleValueEnd(None, l, i), Tok::RecordTupleEnd(m),
    ]
}
/// Streams the first n calls of a value, then fails.
struct Cut<'a>(&'a [Tok]);
impl<'a> Value for Cut<'a> {
    fn stream<'s, S: Stream<'s> + ?Sized>(&'s self, s: &mut S) -> Result {
        for t in self.0 { play(t, s)?; }
        sval::error()
    }
}

pub fn b02(v: &J, c: &mut Ctx) {
    let flat = toks_from(&v["flat"]);
    let out = toks_from(&v["out"]);
    let complete: Vec<bool> = v["complete"].as_array().unwrap().iter().map(|b| b.as_bool().unwrap()).collect();
    c.nontrivial = flat.len() > 3;
    let ends = ends();
    let frags = [Tok::TextFrag("x".into(), true), Tok::TextFrag("x".into(), false), Tok::BinFrag(vec![1], true), Tok::BinFrag(vec![1], false)];
    let mut b = ValueBuf::new();
    c.check(!b.is_complete(), "an empty buffer is not complete", || json!(true), || json!(false));
    for e in ends.iter().chain(&frags) {
        let mut b = ValueBuf::new();
        if let Some(r) = c.guard(&format!("{} on an empty buffer", e.kind()), || play(e, &mut b)) {
            c.check(r.is_err(), &format!("{} on an empty buffer is an error", e.kind()), || json!("Ok"), || json!("Err"));
            c.check(b.into_err().is_some(), &format!("{} on an empty buffer: what failed is known", e.kind()), || json!(false), || json!(true));
        }
    }
    for (i, t) in flat.iter().enumerate() {
        match c.guard(t.kind(), || play(t, &mut b)) {
            Some(r) => c.check(r.is_ok(), &format!("call {i} is accepted"), || json!("Err"), || json!("Ok")),
            None => return,
        }
        c.check(b.is_complete() == complete[i], &format!("complete after call {i}"), || json!(b.is_complete()), || json!(complete[i]));
        c.count(if complete[i] { "complete" } else { "incomplete" });
    }
    // whole: nothing is open
    for e in &ends {
        if let Some(r) = c.guard(&format!("{} on a complete buffer", e.kind()), || play(e, &mut b)) {
            c.check(r.is_err(), &format!("{} on a complete buffer is an error", e.kind()), || json!("Ok"), || json!("Err"));
            c.check(b.is_complete(), "still complete", || json!(false), || json!(true));
        }
    }
    let last = &flat[flat.len() - 1];
    for f in &frags {
        let text = matches!(f, Tok::TextFrag(..));
        // a fragment of the other kind, or anywhere outside text and binary
        if (text && *last == Tok::TextEnd) || (!text && *last == Tok::BinEnd) { continue }
        // (what is after a container depends on its last part)
        if matches!(last.kind(), k if k.ends_with("_end") && k != "text_end" && k != "binary_end") { continue }
        if let Some(r) = c.guard(&format!("{} out of place", f.kind()), || play(f, &mut b)) {
            c.check(r.is_err(), &format!("{} out of place is an error", f.kind()), || json!("Ok"), || json!("Err"));
        }
    }
    let (r, _) = record(|s| b.stream(s));
    cmp_whole(c, "what was collected is unharmed", &r.toks, &out);
    let v = b.to_value();
    c.check(b.into_err().is_some(), "what failed is known", || json!(false), || json!(true));
    let (r, _) = record(|s| v.stream(s));
    cmp_whole(c, "what was collected is unharmed (to_value)", &r.toks, &out);
    // cleared anywhere, the buffer is as good as new
    for n in 0..=flat.len() {
        let mut b = ValueBuf::new();
        if c.guard("cut short", || { for t in &flat[..n] { let _ = play(t, &mut b); } let _ = b.seq_end(); b.clear(); }).is_none() { break }
        c.check(!b.is_complete(), "a cleared buffer is not complete", || json!(true), || json!(false));
        for (i, t) in flat.iter().enumerate() {
            if !matches!(c.guard(t.kind(), || play(t, &mut b)), Some(Ok(()))) { c.check(false, &format!("call {i} after clearing a buffer of {n} calls fails"), || json!("Err"), || json!("Ok")); break }
            c.check(b.is_complete() == complete[i], &format!("complete after call {i} of a buffer cleared after {n} calls"), || json!(b.is_complete()), || json!(complete[i]));
        }
        for other in [&[Tok::Null][..], &[Tok::SeqBegin(Some(0)), Tok::SeqEnd], &[Tok::TextBegin(None), Tok::TextEnd]] {
            let mut b = ValueBuf::new();
            if c.guard("cut short", || { for t in &flat[..n] { let _ = play(t, &mut b); } b.clear(); }).is_none() { break }
            for (i, t) in other.iter().enumerate() {
                if !matches!(c.guard(t.kind(), || play(t, &mut b)), Some(Ok(()))) { break }
                c.check(b.is_complete() == (i + 1 == other.len()), &format!("complete after call {i} of another value, buffer cleared after {n} calls"), || json!(b.is_complete()), || toks_json(other));
            }
        }
        c.check(b.into_err().is_none(), "clearing forgets the error", || json!(true), || json!(false));
    }
    // failing half way
    for n in 0..=flat.len() {
        let cut = Cut(&flat[..n]);
        let cases: [(&str, &dyn Fn() -> bool); 8] = [
            ("ValueBuf::collect", &|| ValueBuf::collect(&cut).is_err()),
            ("Value::collect", &|| sval_buffer::Value::collect(&cut).is_err()),
            ("ValueBuf::collect_owned", &|| ValueBuf::collect_owned(&cut).is_err()),
            ("Value::collect_owned", &|| sval_buffer::Value::collect_owned(&cut).is_err()),
            ("stream_to_value", &|| sval_buffer::stream_to_value(&cut).is_err()),
            ("stream_to_value_owned", &|| sval_buffer::stream_to_value_owned(&cut).is_err()),
            ("TextBuf::collect", &|| TextBuf::collect(&cut).is_err()),
            ("BinaryBuf::collect", &|| BinaryBuf::collect(&cut).is_err()),
        ];
        for (what, f) in cases {
            if let Some(x) = c.guard(what, f) { c.check(x, &format!("{what} of a value failing after {n} calls fails"), || json!("Ok"), || json!("Err")); }
        }
    }
}

pub fn b03(v: &J, c: &mut Ctx) {
    let toks = toks_from(&v["toks"]);
    let val = Nodes::new(&toks);
    let (t, b) = (&v["astext"], &v["asbin"]);
    let (tok, bok) = (t["ok"].as_bool().unwrap(), b["ok"].as_bool().unwrap());
    // an enum without a variant is neither
    if toks.windows(2).any(|w| matches!(w, [Tok::EnumBegin(_), Tok::EnumEnd(_)])) { return }
    c.nontrivial = tok || bok;
    if tok { c.count("one text"); }
    if bok { c.count("one binary"); }
    if let Some(r) = c.guard("TextBuf::collect", || TextBuf::collect(&val)) {
        c.check(r.is_ok() == tok, "TextBuf::collect succeeds exactly for a text", || json!(r.is_ok()), || t.clone());
        if let (Ok(r), true) = (&r, tok) {
            let e = from_cps(&t["s"]);
            c.check(r.as_str() == e, "TextBuf::collect", || json!(r.as_str()), || json!(e));
        }
    }
    if let Some(r) = c.guard("BinaryBuf::collect", || BinaryBuf::collect(&val)) {
        c.check(r.is_ok() == bok, "BinaryBuf::collect succeeds exactly for binary", || json!(r.is_ok()), || b.clone());
        if let (Ok(r), true) = (&r, bok) {
            let e: Vec<u8> = b["s"].as_array().unwrap().iter().map(|x| x.as_u64().map(|x| x as u8).unwrap_or_else(|| x.as_str().unwrap().parse().unwrap())).collect();
            c.check(r.as_slice() == e, "BinaryBuf::collect", || json!(r.as_slice()), || json!(e));
        }
    }
}

pub fn b03t(v: &J, c: &mut Ctx) {
    let frags: Vec<(String, bool)> = crate::json::frags_of(v);
    let s: String = frags.iter().map(|f| f.0.as_str()).collect();
    c.nontrivial = frags.len() > 1;
    let full: Vec<&(String, bool)> = frags.iter().filter(|f| !f.0.is_empty()).collect();
    let must = frags.len() == 1 && frags[0].1;
    let may = full.len() <= 1 && full.iter().all(|f| f.1);
    c.count(if must { "one long-lived fragment" } else if may { "at most one long-lived fragment" } else { "other" });
    macro_rules! kind {
        ($Buf:ident, $as:ident, $borrowed:ident, $bytes:expr, $wrap:expr, $begin:ident, $end:ident, $what:literal) => {{
            let bytes = $bytes;
            let mut t = $Buf::new();
            for round in 0..2 {
                c.check(t.$as().len() == 0, concat!($what, ": starts empty"), || json!(t.$as()), || json!(""));
                let mut upto = 0;
                for (f, b) in &frags {
                    let r = c.guard($what, || if *b { t.push_fragment(bytes(f)) } else { let f = f.clone(); t.push_fragment_computed(bytes(&f)) });
                    let Some(r) = r else { return };
                    c.check(r.is_ok(), concat!($what, ": pushing succeeds"), || json!("Err"), || json!("Ok"));
                    upto += f.len();
                    c.check(t.$as() == bytes(&s[..upto]), concat!($what, ": concatenation"), || json!(t.$as()), || json!(&s[..upto]));
                }
                c.check(t.as_ref() == bytes(&s), concat!($what, ": as_ref"), || json!(t.$as()), || json!(s));
                let bor = t.$borrowed();
                if must { c.check(bor == Some(bytes(&s)), concat!($what, ": a single long-lived fragment is handed out as long-lived"), || json!(bor), || json!(s)); }
                if !may { c.check(bor.is_none(), concat!($what, ": not handed out as long-lived"), || json!(bor), || json!(null_())); }
                c.check(bor.map(|b| b == bytes(&s)).unwrap_or(true), concat!($what, ": handed out as it is"), || json!(bor), || json!(s));
                if let (Some(b), true) = (bor, full.len() == 1) {
                    c.check(b.as_ptr() == bytes(&full[0].0).as_ptr(), concat!($what, ": the fragment itself"), || json!("a copy"), || json!("the same memory"));
                }
                let cl = t.clone();
                c.check(cl == t && cl.$as() == bytes(&s), concat!($what, ": clone"), || json!(cl.$as()), || json!(s));
                let from = $Buf::from(bytes(&s));
                c.check(from == t && from.$borrowed() == Some(bytes(&s)), concat!($what, ": from"), || json!(from.$as()), || json!(s));
                let mut longer = cl;
                let _ = longer.push_fragment(bytes("z"));
                c.check(longer != t && t.$as() == bytes(&s), concat!($what, ": equal only if the same"), || json!(t.$as()), || json!(s));
                let exp = [Tok::$begin(Some(s.len())), $wrap(&s), Tok::$end];
                for (what, (r, x)) in [(concat!($what, ": stream"), record(|r| t.stream(r))), (concat!($what, ": stream_ref"), record(|r| t.stream_ref(r))), (concat!($what, ": dyn"), record(|r| { let d: &dyn sval_dynamic::Value = &t; d.stream(r) }))] {
                    c.check(x.is_ok(), what, || json!("Err"), || json!("Ok"));
                    cmp_whole(c, what, &r.toks, &exp);
                    if must && !s.is_empty() { c.check(whole(&r.toks).1 == [Some(true)], &format!("{what}: long-lived"), || toks_json(&r.toks), || json!(true)); }
                    if what.ends_with("stream_ref") && !may { c.check(whole(&r.toks).1 == [Some(false)], &format!("{what}: short-lived"), || toks_json(&r.toks), || json!(false)); }
                }
                let nodes = { let mut n = vec![Tok::$begin(None)]; n.extend(frags.iter().map(|(f, b)| match $wrap(f) { Tok::TextFrag(s, _) => Tok::TextFrag(s, *b), Tok::BinFrag(s, _) => Tok::BinFrag(s, *b), t => t })); n.push(Tok::$end); Nodes::new(&n) };
                match c.guard($what, || $Buf::collect(&nodes).map(|t| (t.$as().to_vec_(), t.$borrowed().is_some()))) {
                    Some(Ok((t, b))) => {
                        c.check(t == bytes(&s).to_vec_(), concat!($what, ": collect"), || json!(t), || json!(s));
                        if must && !b { c.check(false, concat!($what, ": collect keeps long-lived"), || json!(b), || json!(true)); }
                        if !may && b { c.check(false, concat!($what, ": collect does not make long-lived"), || json!(b), || json!(false)); }
                    }
                    Some(Err(_)) => c.check(false, concat!($what, ": collect fails"), || json!("Err"), || json!("Ok")),
                    None => {}
                }
                if round == 0 { t.clear(); }
            }
        }};
    }
    kind!(TextBuf, as_str, as_borrowed_str, id, |s: &str| Tok::TextFrag(s.to_string(), false), TextBegin, TextEnd, "TextBuf");
    kind!(BinaryBuf, as_slice, as_borrowed_slice, by, |s: &str| Tok::BinFrag(s.as_bytes().to_vec(), false), BinBegin, BinEnd, "BinaryBuf");
    // displayed
    struct D<'a>(&'a [(String, bool)], bool);
    impl<'a> std::fmt::Display for D<'a> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            for (s, _) in self.0 { f.write_str(s)?; }
            if self.1 { Err(std::fmt::Error) } else { Ok(()) }
        }
    }
    let d = D(&frags, false);
    match c.guard("collect_display", || TextBuf::collect_display(&d)) {
        Some(Ok(t)) => { c.check(t.as_str() == s, "collect_display", || json!(t.as_str()), || json!(s)); if !s.is_empty() { c.check(t.as_borrowed_str().is_none(), "collect_display is short-lived", || json!(true), || json!(false)); } }
        Some(Err(_)) => c.check(false, "collect_display fails", || json!("Err"), || json!("Ok")),
        None => {}
    }
    let mut t = TextBuf::from(s.as_str());
    let x = t.push_display(&d);
    c.check(x.is_ok() && t.as_str() == format!("{s}{s}"), "push_display appends", || json!(t.as_str()), || json!([s, s]));
    use std::fmt::Write;
    let x = write!(t, "{d}");
    c.check(x.is_ok() && t.as_str() == s.repeat(3), "writing appends", || json!(t.as_str()), || json!([s, s, s]));
    let bad = D(&frags, true);
    if let Some(r) = c.guard("a failing Display", || (TextBuf::collect_display(&bad).is_err(), t.push_display(&bad).is_err())) { c.check(r == (true, true), "a failing Display is an error", || json!([r.0, r.1]), || json!(true)); }
}
fn null_() -> J { J::Null }
fn id(s: &str) -> &str { s }
fn by(s: &str) -> &[u8] { s.as_bytes() }
trait ToVec { fn to_vec_(&self) -> Vec<u8>; }
impl ToVec for str { fn to_vec_(&self) -> Vec<u8> { self.as_bytes().to_vec() } }
impl ToVec for [u8] { fn to_vec_(&self) -> Vec<u8> { self.to_vec() } }
fn get2(v: &Nodes) -> std::result::Result<ValueBuf<'_>, sval_buffer::Error> { ValueBuf::collect(v) }
