//! What the generated declarations of G01 (src/bin, written by tools/derive.py) share.
#![allow(clippy::all)]
#[path = "../../harness/src/tok.rs"]
pub mod tok;
#[path = "../../harness/src/rec.rs"]
pub mod rec;
#[path = "../../harness/src/ctx.rs"]
pub mod ctx;

use ctx::Ctx;
use rec::*;
use serde_json::{json, Value as J};
use sval::{Result, Stream, Value};
use tok::*;

pub use std::collections::BTreeMap;
pub use tok::{T1, T2};
pub const LBL: sval::Label<'static> = sval::Label::new("lbl");
pub const IDX: sval::Index = sval::Index::new(9);
#[derive(sval_derive::Value)]
pub struct Inner { pub x: i32, pub y: bool }
#[derive(sval_derive::Value)]
pub struct Pair(pub u8, pub u8);
#[derive(sval_derive::Value)]
pub enum Var { A, B(u8) }
/// a bound of type parameters
pub trait Mark {}
impl Mark for i32 {}
/// not a value
pub struct Opaque;
pub fn map() -> BTreeMap<u8, bool> { [(1, true), (4, false)].into_iter().collect() }

pub struct Run<'a> { vector: &'a J, c: Ctx }
impl<'a> Run<'a> {
    pub fn value<V: Value>(&mut self, i: usize, v: &V) { self.judge(i, v.tag().map(|t| tag_name(&t)), &|s| v.stream(s), &|s| s.value_computed(v)) }
    fn judge(&mut self, i: usize, tag: Option<String>, stream: &dyn Fn(&mut Rec) -> Result, computed: &dyn Fn(&mut Rec) -> Result) {
        let e = &self.vector["values"][i];
        let exp = toks_from(&e["toks"]);
        let c = &mut self.c;
        c.nontrivial = true;
        c.count(self.vector["base"].as_str().unwrap());
        c.count(exp[0].kind());
        let mut s = Rec::full();
        if let Some(r) = c.guard("stream", || stream(&mut s)) {
            c.check(r.is_ok() && s.toks == exp, "stream", || json!([r.is_ok(), toks_json(&s.toks)]), || toks_json(&exp));
        }
        let short: Vec<Tok> = exp.iter().map(|t| match t { Tok::TextFrag(s, _) => Tok::TextFrag(s.clone(), false), t => t.clone() }).collect();
        let mut s = Rec::full();
        if let Some(r) = c.guard("value_computed", || computed(&mut s)) {
            c.check(r.is_ok() && s.toks == short, "value_computed", || json!([r.is_ok(), toks_json(&s.toks)]), || toks_json(&short));
        }
        for n in 0..exp.len() {
            let mut s = Rec::failing(n);
            if let Some(r) = c.guard("failing", || stream(&mut s)) {
                c.check(r.is_err() && s.after == 0, &format!("stops at failing call {n}"), || json!([r.is_err(), s.after]), || json!([true, 0]));
            }
        }
        let want = e["tag"].as_str().unwrap();
        c.check(tag.as_deref().unwrap_or("") == want, "tag", || json!(tag), || json!(want));
    }
}

/// usage: gN <result.json> <vectors.jsonl>, a line of which belongs to each function
pub fn main(all: &[fn(&mut Run)]) {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let text = std::fs::read_to_string(&args[2]).unwrap();
    let lines: Vec<&str> = text.lines().collect();
    if lines.len() != all.len() { eprintln!("{} declarations, {} vectors", all.len(), lines.len()); std::process::exit(2) }
    let (mut evals, mut counts, mut fails, mut samples, mut n) = (0, BTreeMap::<String, usize>::new(), vec![], vec![], 0);
    for (f, line) in all.iter().zip(&lines) {
        let vector: J = serde_json::from_str(line).unwrap();
        let mut r = Run { vector: &vector, c: Ctx::default() };
        f(&mut r);
        let c = r.c;
        evals += c.evals;
        n += c.nontrivial as usize;
        for (k, n) in c.counts { *counts.entry(k).or_default() += n; }
        if samples.is_empty() { samples.push(vector.clone()); }
        if !c.fails.is_empty() && fails.len() < 20 { fails.push(json!({"vector": vector, "failures": c.fails})); }
    }
    std::fs::write(&args[1], json!({"vectors": lines.len(), "evaluations": evals, "distinct_nontrivial": n, "counts": counts, "failures": fails, "samples": samples}).to_string()).unwrap();
}
