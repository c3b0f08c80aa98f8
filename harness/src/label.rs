//! L01: labels, tags and indexes.
use crate::tok::*;
use crate::Ctx;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::hash::{DefaultHasher, Hash, Hasher};
use sval::{Index, Label, Tag};

fn hash<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

/// Sources are freed only while nothing borrows them (the specification sees to it);
/// freed memory is overwritten, see main.rs.
struct Store { sources: HashMap<u64, Box<str>>, slots: HashMap<u64, Label<'static>> }

fn labels(v: &J, c: &mut Ctx) {
    let mut st = Store { sources: HashMap::new(), slots: HashMap::new() };
    let ops = v["ops"].as_array().unwrap();
    let seen = v["seen"].as_array().unwrap();
    c.nontrivial = seen.iter().any(|s| s.as_array().unwrap().iter().filter(|l| l["some"] == true).count() > 1);
    for (op, seen) in ops.iter().zip(seen) {
        let n = |k: &str| op[k].as_u64().unwrap();
        let o = op["o"].as_str().unwrap();
        c.count(o);
        match o {
            "static" => { st.slots.insert(n("d"), Label::new(intern(&from_cps(&op["t"])))); }
            #[cfg(feature = "alloc")] "owned" => { st.slots.insert(n("d"), Label::new_owned(from_cps(&op["t"]))); }
            "computed" => {
                let s: &str = &st.sources[&n("src")];
                // SAFETY: the source outlives the label in every behaviour of the specification
                let s: &'static str = unsafe { std::mem::transmute(s) };
                // `new_computed` does not know that the lifetime is long
                st.slots.insert(n("d"), Label::new_computed(s));
            }
            "with_tag" => { let l = st.slots.remove(&n("d")).unwrap(); st.slots.insert(n("d"), l.with_tag(tag_named(op["t"].as_str().unwrap()))); }
            "clone" => { let l = st.slots[&n("s")].clone(); st.slots.insert(n("d"), l); }
            #[cfg(feature = "alloc")] "to_owned" => { let l = st.slots[&n("s")].to_owned(); st.slots.insert(n("d"), l); }
            "try_to_owned" => match st.slots[&n("s")].try_to_owned() {
                Ok(l) => { st.slots.insert(n("d"), l); }
                Err(_) => { c.check(false, "try_to_owned", || json!("Err"), || json!("Ok")); return }
            },
            "try_to_owned fails" => c.check(st.slots[&n("s")].try_to_owned().is_err(), "try_to_owned without an allocator", || json!("Ok"), || json!("Err")),
            "move" => { let l = Box::new(st.slots.remove(&n("s")).unwrap()); st.slots.insert(n("d"), *l); }
            "drop" => { st.slots.remove(&n("d")); }
            "fill" => { st.sources.insert(n("src"), from_cps(&op["t"]).into_boxed_str()); }
            "free" => { st.sources.remove(&n("src")); }
            o => panic!("operation {o}"),
        }
        let seen = seen.as_array().unwrap();
        for (i, w) in seen.iter().enumerate() {
            let Some(l) = st.slots.get(&(i as u64 + 1)) else { continue };
            let s = from_cps(&w["s"]);
            let bytes = l.as_str().as_bytes();
            c.check(bytes == s.as_bytes(), &format!("after {o}: text of slot {}", i + 1), || json!(bytes), || json!(s));
            if bytes != s.as_bytes() { return }
            c.check(l.as_static_str().is_some() == w["st"].as_bool().unwrap() && l.as_static_str().is_none_or(|t| t == s), &format!("after {o}: is static"), || json!(l.as_static_str()), || w.clone());
            let t = l.tag().map(tag_name).unwrap_or_default();
            c.check(t == w["tag"].as_str().unwrap(), &format!("after {o}: tag"), || json!(t), || w.clone());
            c.check(hash(l) == hash(s.as_str()) && <Label as std::borrow::Borrow<str>>::borrow(l) == s, &format!("after {o}: hash"), || json!(hash(l)), || json!(hash(s.as_str())));
            for (j, u) in seen.iter().enumerate() {
                let Some(m) = st.slots.get(&(j as u64 + 1)) else { continue };
                c.check((l == m) == (w["s"] == u["s"]), &format!("after {o}: equality"), || json!(l == m), || json!([w, u]));
            }
            c.check((l == &Label::new_computed(&s)) && (Label::new_computed(&s) == *l), &format!("after {o}: equal to its text"), || json!(false), || json!(s));
        }
        c.check(st.slots.len() == seen.iter().filter(|s| s["some"] == true).count(), "slots", || json!(0), || json!(0));
    }
}

fn index(j: &J) -> Vec<Index> {
    let s = j["v"].as_str().unwrap();
    match j["kind"].as_str().unwrap() {
        "u32" => { let x: u32 = s.parse().unwrap(); vec![Index::new_u32(x), Index::from(x)] }
        "u64" => { let x: u64 = s.parse().unwrap(); let mut v = vec![Index::new_u64(x), Index::from(x)]; if let Ok(x) = usize::try_from(x) { v.push(Index::new(x)); v.push(Index::from(x)); } v }
        "i32" => { let x: i32 = s.parse().unwrap(); vec![Index::new_i32(x), Index::from(x)] }
        _ => { let x: i64 = s.parse().unwrap(); let mut v = vec![Index::new_i64(x), Index::from(x)]; if let Ok(x) = isize::try_from(x) { v.push(Index::new_isize(x)); v.push(Index::from(x)); } v }
    }
}

fn indexes(v: &J, c: &mut Ctx) {
    let (a, b) = (index(&v["a"]), index(&v["b"]));
    let ord = v["cmp"].as_i64().unwrap().cmp(&0);
    c.nontrivial = ord.is_ne();
    let text = v["a"]["v"].as_str().unwrap();
    for x in a.iter().chain(&[a[0].clone().with_tag(&T1)]).chain(&[a[0].clone().with_tag(&T2).clone()]) {
        c.check(x.to_string() == text, "shown", || json!(x.to_string()), || json!(text));
        let got = [("u32", x.to_u32().map(|x| x.to_string())), ("u64", x.to_u64().map(|x| x.to_string())), ("i32", x.to_i32().map(|x| x.to_string())), ("i64", x.to_i64().map(|x| x.to_string())),
            ("u64", x.to_usize().map(|x| x.to_string())), ("i64", x.to_isize().map(|x| x.to_string()))];
        for (k, g) in got {
            let want = v["fits"][k].as_bool().unwrap().then_some(text.to_string());
            c.check(g == want, &format!("as {k}"), || json!(g), || json!(want));
        }
        for y in b.iter().chain(&[b[0].clone().with_tag(&T2)]) {
            c.check(x.cmp(y) == ord && x.partial_cmp(y) == Some(ord) && y.cmp(x) == ord.reverse() && (x == y) == ord.is_eq() && (x < y) == ord.is_lt() && (x > y) == ord.is_gt(),
                "compared", || json!([text, y.to_string(), format!("{:?}", x.cmp(y))]), || json!(format!("{ord:?}")));
            c.check(!ord.is_eq() || hash(x) == hash(y), "hash", || json!([hash(x), hash(y)]), || v.clone());
        }
    }
    let t = a[0].clone().with_tag(&T1);
    c.check(a[0].tag().is_none() && t.tag() == Some(&T1) && t.clone().tag() == Some(&T1) && t.clone().with_tag(&T2).tag() == Some(&T2), "index tag", || json!(null_dbg(t.tag())), || json!("T1"));
}
fn null_dbg(t: Option<&Tag>) -> String { format!("{t:?}") }

fn tags(v: &J, c: &mut Ctx) {
    let (a, b) = (from_cps(&v["a"]), from_cps(&v["b"]));
    let (ta, tb) = (Tag::new(intern(&a)), Tag::new(intern(&b)));
    let eq = v["eq"].as_bool().unwrap();
    c.nontrivial = !eq;
    c.check((ta == tb) == eq && (tb == ta) == eq && (ta.clone() == tb) == eq && ta == ta.clone(), "tags equal", || json!(ta == tb), || json!(eq));
    // also as the tag of a label and of an index
    let (l, i) = (Label::new("x").with_tag(&ta), Index::new(0).with_tag(&ta));
    c.check((l.tag() == Some(&tb)) == eq && (l.try_to_owned().unwrap().tag() == Some(&tb)) == eq && (i.tag() == Some(&tb)) == eq, "tags of labels and indexes", || json!(null_dbg(l.tag())), || json!(eq));
    // the tags sval defines are all different
    for (n, k) in known() { c.check(ta != **k, "known tags", || json!(a), || json!(n)); }
    if a.is_empty() && b.is_empty() {
        for (n, k) in known() { for (m, l) in known() { c.check((k == l) == (n == m), "known tags differ", || json!([n, m]), || json!(n == m)); } }
    }
}

pub fn l01(v: &J, c: &mut Ctx) {
    match v["v"].as_str().unwrap() { "label" => labels(v, c), "index" => indexes(v, c), _ => tags(v, c) }
}
