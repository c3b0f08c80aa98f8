//! R01: buffers in a build without an allocator. What they hold is exact; what they cannot hold is refused.
use crate::buf::{cmp_whole, poison};
use crate::ctx::may_refuse;
use crate::rec::*;
use crate::tok::*;
use crate::Ctx;
use serde_json::{json, Value as J};
use sval::{Result, Stream, Value};
use sval_buffer::{BinaryBuf, TextBuf, ValueBuf};
use sval_ref::ValueRef;

fn record(f: impl FnOnce(&mut Rec) -> Result) -> (Vec<Tok>, Result) { let mut r = Rec::full(); let x = f(&mut r); (r.toks, x) }

pub fn r01b(v: &J, c: &mut Ctx) {
    let toks = toks_from(&v["toks"]);
    let flat = toks_from(&v["flat"]);
    let out = toks_from(&v["out"]);
    let easy = v["easy"] == true;
    let complete: Vec<bool> = v["complete"].as_array().unwrap().iter().map(|b| b.as_bool().unwrap()).collect();
    c.nontrivial = true;
    c.count(if easy { "must be held" } else { "may be refused" });
    let mut val = Nodes::new(&toks);
    let see = |c: &mut Ctx, what: &str, f: &dyn Fn(&mut Rec) -> Result| {
        let Some((r, x)) = c.guard(what, || record(|r| f(r))) else { return };
        c.check(x.is_ok(), &format!("{what}: result"), || json!("Err"), || json!("Ok"));
        cmp_whole(c, what, &r, &out);
    };
    let mut owned: Vec<(&str, Box<dyn Fn(&mut Rec) -> Result>)> = vec![];
    {
        let val = &val;
        macro_rules! get {
            ($what:literal, $e:expr, $b:ident, $($then:tt)*) => {
                match c.guard($what, || $e) {
                    Some(Ok($b)) => { c.count("held"); $($then)* }
                    Some(Err(_)) => { c.count("refused"); c.check(may_refuse(&v["easy"]), concat!($what, ": must be held"), || json!("Err"), || json!("Ok")) }
                    None => {}
                }
            };
        }
        get!("ValueBuf::collect", ValueBuf::collect(val), b, {
            c.check(b.is_complete(), "complete", || json!(false), || json!(true));
            see(c, "ValueBuf::stream", &|s| b.stream(s));
            see(c, "ValueBuf::stream twice", &|s| b.stream(s));
            see(c, "ValueBuf::stream_ref", &|s| b.stream_ref(s));
            let i = b.to_value();
            see(c, "to_value", &|s| i.stream(s));
            let i2 = i.clone();
            drop(i);
            see(c, "clone", &|s| i2.stream_ref(s));
            get!("collect a buffer", ValueBuf::collect(&b), n, { see(c, "buffer of a buffer", &|s| n.stream(s)) });
            let i = b.into_value();
            see(c, "into_value", &|s| i.stream(s));
        });
        get!("Value::collect", sval_buffer::Value::collect(val), b, { see(c, "Value::collect", &|s| b.stream(s)) });
        get!("stream_to_value", sval_buffer::stream_to_value(val), b, { see(c, "stream_to_value", &|s| b.stream_ref(s)) });
        // owned forms may always be refused
        macro_rules! own { ($what:literal, $e:expr, $how:ident) => { match c.guard($what, || $e) { Some(Ok(b)) => owned.push(($what, Box::new(move |s| b.$how(s)))), Some(Err(_)) => c.count("refused"), None => {} } } }
        own!("ValueBuf::collect_owned", ValueBuf::collect_owned(val), stream);
        own!("Value::collect_owned", sval_buffer::Value::collect_owned(val), stream);
        own!("stream_to_value_owned", sval_buffer::stream_to_value_owned(val), stream_ref);
        own!("ValueBuf::into_owned", ValueBuf::collect(val).and_then(|b| b.into_owned()), stream);
        own!("Value::into_owned", sval_buffer::Value::collect(val).and_then(|b| b.into_owned()), stream_ref);
    }
    poison(&mut val);
    for (what, f) in &owned { see(c, what, f); }
    drop(owned);
    let val = Nodes::new(&toks);
    // call by call, up to the first that is refused; then cleared and used again
    let mut b = ValueBuf::new();
    for round in 0..3 {
        let mut refused = false;
        for (i, t) in flat.iter().enumerate() {
            let Some(r) = c.guard(t.kind(), || play(t, &mut b)) else { return };
            if r.is_err() {
                refused = true;
                c.check(may_refuse(&v["easy"]), &format!("call {i} must be held"), || json!("Err"), || json!("Ok"));
                break;
            }
            c.check(b.is_complete() == complete[i], &format!("complete after call {i}"), || json!(b.is_complete()), || json!(complete[i]));
        }
        if !refused { see(c, "call by call", &|s| b.stream(s)); }
        // a refused call changes nothing that can be seen as a whole value other than what was streamed
        if refused { c.count("refused call"); }
        if round == 1 { let _ = b.seq_end(); }
        if c.guard("clear", || b.clear()).is_none() { return }
        c.check(!b.is_complete(), "a cleared buffer is not complete", || json!(true), || json!(false));
        let (r, _) = record(|s| b.stream(s));
        cmp_whole(c, "a cleared buffer is null", &r, &[Tok::Null]);
        // a scalar or a long-lived text can always be held
        if round == 2 {
            for one in [vec![Tok::Bool(true)], vec![Tok::U128(u128::MAX)], vec![Tok::TextBegin(None), Tok::TextFrag("é".into(), true), Tok::TextEnd]] {
                let mut b = ValueBuf::new();
                let _ = c.guard("before", || { for t in flat.iter().take(2) { let _ = play(t, &mut b); } b.clear(); });
                for t in &one { if !matches!(c.guard("one part", || play(t, &mut b)), Some(Ok(()))) { c.check(false, "one part can be held", || json!("Err"), || toks_json(&one)); } }
                let (r, _) = record(|s| b.stream(s));
                cmp_whole(c, "one part", &r, &one);
            }
        }
    }
    let _ = val;
    // one text, one binary
    let (t, bi) = (&v["astext"], &v["asbin"]);
    let val = Nodes::new(&toks);
    if toks.windows(2).any(|w| matches!(w, [Tok::EnumBegin(_), Tok::EnumEnd(_)])) { return }
    if let Some(Ok(r)) = c.guard("TextBuf::collect", || TextBuf::collect(&val)) {
        let e = from_cps(&t["s"]);
        c.check(t["ok"] == true && r.as_str() == e, "TextBuf::collect", || json!(r.as_str()), || t.clone());
    }
    if let Some(Ok(r)) = c.guard("BinaryBuf::collect", || BinaryBuf::collect(&val)) {
        let e: Vec<u8> = bi["s"].as_array().unwrap().iter().map(|x| x.as_u64().map(|x| x as u8).unwrap_or_else(|| x.as_str().unwrap().parse().unwrap())).collect();
        c.check(bi["ok"] == true && r.as_slice() == e, "BinaryBuf::collect", || json!(r.as_slice()), || bi.clone());
    }
}

pub fn r01t(v: &J, c: &mut Ctx) {
    let frags: Vec<(String, bool)> = crate::json::frags_of(v);
    c.nontrivial = frags.len() > 1;
    let all: String = frags.iter().map(|f| f.0.as_str()).collect();
    macro_rules! kind {
        ($Buf:ident, $as:ident, $borrowed:ident, $bytes:expr, $frag:expr, $begin:ident, $end:ident, $what:literal) => {{
            let bytes = $bytes;
            let mut t = $Buf::new();
            for round in 0..2 {
                let mut held = String::new();
                let (mut long, mut taken) = (true, 0);
                for (f, b) in &frags {
                    let Some(r) = c.guard($what, || if *b { t.push_fragment(bytes(f)) } else { let f = f.clone(); t.push_fragment_computed(bytes(&f)) }) else { return };
                    match r {
                        Ok(()) => { held.push_str(f); long &= *b || f.is_empty(); taken += !f.is_empty() as usize; c.count("taken"); }
                        Err(_) => { c.count("refused"); c.check(!(held.is_empty() && *b), concat!($what, ": a long-lived fragment must be held"), || json!("Err"), || json!("Ok")); }
                    }
                    c.check(t.$as() == bytes(&held) && t.as_ref() == bytes(&held), concat!($what, ": holds what it took"), || json!(t.$as()), || json!(held));
                    let bor = t.$borrowed();
                    c.check(bor.is_none_or(|b| b == bytes(&held)), concat!($what, ": handed out as it is"), || json!(bor), || json!(held));
                    if !held.is_empty() && !(long && taken == 1) { c.check(bor.is_none(), concat!($what, ": not long-lived"), || json!(bor), || J::Null); }
                    if taken == 1 && long { c.check(bor.is_some(), concat!($what, ": long-lived"), || json!(bor), || json!(held)); }
                }
                let exp = [Tok::$begin(Some(held.len())), $frag(&held, false), Tok::$end];
                for (what, (r, x)) in [("stream", record(|r| t.stream(r))), ("stream_ref", record(|r| t.stream_ref(r)))] {
                    c.check(x.is_ok(), what, || json!("Err"), || json!("Ok"));
                    cmp_whole(c, what, &r, &exp);
                }
                let cl = t.clone();
                c.check(cl == t && cl.$as() == bytes(&held), concat!($what, ": clone"), || json!(cl.$as()), || json!(held));
                let from = $Buf::from(bytes(&all));
                c.check(from.$borrowed() == Some(bytes(&all)) && (from == t) == (held == all), concat!($what, ": from"), || json!(from.$as()), || json!(all));
                if round == 0 { t.clear(); c.check(t.$as() == bytes(""), concat!($what, ": cleared"), || json!(t.$as()), || json!("")); }
            }
            // collected: all of it or nothing
            let mut n = vec![Tok::$begin(None)];
            n.extend(frags.iter().map(|(f, b)| $frag(f, *b)));
            n.push(Tok::$end);
            let nodes = Nodes::new(&n);
            match c.guard($what, || $Buf::collect(&nodes).map(|t| { let b = t.$borrowed() == Some(t.$as()); (t.$as() == bytes(&all), b) })) {
                Some(Ok((same, _))) => { c.count("collected"); c.check(same, concat!($what, ": collect"), || json!(false), || json!(all)); }
                Some(Err(_)) => c.check(!(frags.len() == 1 && frags[0].1), concat!($what, ": one long-lived fragment is collected"), || json!("Err"), || json!("Ok")),
                None => {}
            }
        }};
    }
    fn by(s: &str) -> &[u8] { s.as_bytes() }
    fn id(s: &str) -> &str { s }
    kind!(TextBuf, as_str, as_borrowed_str, id, |s: &str, b| Tok::TextFrag(s.to_string(), b), TextBegin, TextEnd, "TextBuf");
    kind!(BinaryBuf, as_slice, as_borrowed_slice, by, |s: &str, b| Tok::BinFrag(s.as_bytes().to_vec(), b), BinBegin, BinEnd, "BinaryBuf");
    struct D<'a>(&'a [(String, bool)]);
    impl<'a> std::fmt::Display for D<'a> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { for (s, _) in self.0 { f.write_str(s)?; } Ok(()) } }
    if let Some(Ok(t)) = c.guard("collect_display", || TextBuf::collect_display(&D(&frags))) { c.check(t.as_str() == all, "collect_display", || json!(t.as_str()), || json!(all)); }
    let mut t = TextBuf::from("q");
    match c.guard("push_display", || t.push_display(&D(&frags))) {
        Some(Ok(())) => c.check(t.as_str() == format!("q{all}"), "push_display", || json!(t.as_str()), || json!(all)),
        Some(Err(_)) => c.check("q".len() <= t.as_str().len() && format!("q{all}").starts_with(t.as_str()), "push_display refused", || json!(t.as_str()), || json!(all)),
        None => {}
    }
}
