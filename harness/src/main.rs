//! svh: replays behaviours of the specification into sval and compares.
//! usage: svh <mode> <result.json> <vectors.jsonl>...
#![allow(clippy::all)]
mod ctx;
mod tok;
mod rec;
mod stream;
mod js;
mod json;
mod buf;
mod nested;
mod sserde;
mod flat;
mod cast;
mod label;
mod fmtm;
#[cfg(not(feature = "alloc"))]
mod noalloc;
#[cfg(feature = "alloc")]
mod stdv;
#[cfg(feature = "alloc")]
mod fail;

pub use ctx::Ctx;
use serde_json::{json, Value as J};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

/// Freed memory is overwritten, so that what still points to it shows.
struct Overwrite;
unsafe impl std::alloc::GlobalAlloc for Overwrite {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::ptr::write_bytes(p, 0xDD, l.size());
        std::hint::black_box(p);
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Overwrite = Overwrite;

type Mode = fn(&J, &mut Ctx);
/// Large values are nested deeper than the reader allows by default.
fn read(s: &str) -> serde_json::Result<J> {
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    serde::Deserialize::deserialize(&mut d)
}

fn mode(name: &str) -> Mode {
    match name {
        "s02" => stream::s02, "s03" => stream::s03, "s04" => stream::s04, "e01" => stream::e01,
        "b01" => buf::b01, "b02" => buf::b02, "b03" => buf::b03, "b03t" => buf::b03t,
        "d01" => sserde::d01, "d02" => sserde::d02,
        "n01" => nested::n01, "f01" => flat::f01, "v01" => cast::v01, "l01" => label::l01, "m01" => fmtm::m01, #[cfg(feature = "alloc")] "s01" => stdv::s01, #[cfg(feature = "alloc")] "s04s" => stdv::s04s, #[cfg(feature = "alloc")] "e01a" => fail::e01a, #[cfg(feature = "alloc")] "e01s" => fail::e01s,
        #[cfg(not(feature = "alloc"))] "r01b" => noalloc::r01b, #[cfg(not(feature = "alloc"))] "r01t" => noalloc::r01t,
        "j01" => json::j01, "j02" => json::j02, "j03" => json::j03, "j04" => json::j04,
        _ => { eprintln!("unknown mode {name}"); std::process::exit(2) }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 { eprintln!("usage: svh <mode> <result.json> <vectors>..."); std::process::exit(2) }
    let f = mode(&args[1]);
    std::panic::set_hook(Box::new(|_| {}));
    let mut lines: Vec<String> = vec![];
    for p in &args[3..] {
        let file = std::fs::File::open(p).unwrap_or_else(|e| { eprintln!("{p}: {e}"); std::process::exit(2) });
        lines.extend(std::io::BufReader::new(file).lines().map(|l| l.unwrap()));
    }
    let next = AtomicUsize::new(0);
    let total = Mutex::new((0usize, vec![] as Vec<J>, std::collections::BTreeMap::<String, usize>::new(), HashSet::<u64>::new(), 0usize, vec![] as Vec<J>, vec![] as Vec<J>));
    let threads = std::env::var("SVH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let broken = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads {
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || {
                let mut seen = vec![];
                let (mut evals, mut fails, mut counts, mut samples, mut vectors, mut traces) = (0, vec![], std::collections::BTreeMap::<String, usize>::new(), vec![], 0usize, vec![]);
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= lines.len() { break; }
                    let line = &lines[i];
                    if line.is_empty() { continue; }
                    let parsed: Result<J, _> = if line.starts_with('"') {
                        serde_json::from_str::<String>(line).and_then(|s| read(&s))
                    } else { read(line) };
                    let v = match parsed { Ok(v) => v, Err(_) => { broken.fetch_add(1, Ordering::Relaxed); continue } };
                    let mut c = Ctx::default();
                    // a panic outside guard() is still about this vector
                    if let Err(p) = catch_unwind(AssertUnwindSafe(|| f(&v, &mut c))) {
                        let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        c.fail(&format!("panicked: {msg}"), J::Null, J::Null);
                    }
                    evals += c.evals;
                    vectors += 1;
                    traces.extend(c.traces);
                    for (k, n) in c.counts { *counts.entry(k).or_default() += n; }
                    if c.nontrivial {
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        line.hash(&mut h);
                        seen.push(h.finish());
                        if samples.is_empty() { samples.push(v.clone()); }
                    }
                    if !c.fails.is_empty() && fails.len() < 20 { fails.push(json!({"vector": v, "failures": c.fails})); }
                }
                let mut t = total.lock().unwrap();
                t.0 += evals; t.1.extend(fails); for (k, n) in counts { *t.2.entry(k).or_default() += n; } t.3.extend(seen); t.4 += vectors;
                t.5.extend(samples); t.6.extend(traces);
            });
            h.unwrap();
        }
    });
    if broken.load(Ordering::Relaxed) > 0 { eprintln!("{} unreadable vectors", broken.load(Ordering::Relaxed)); std::process::exit(2) }
    let (evals, mut fails, counts, seen, vectors, samples, traces) = total.into_inner().unwrap();
    fails.sort_by_key(|f| f.to_string().len());
    fails.truncate(20);
    if !traces.is_empty() {
        let mut out = String::new();
        for t in &traces { out.push_str(&t.to_string()); out.push('\n'); }
        std::fs::write(format!("{}.traces", args[2]), out).unwrap();
    }
    let r = json!({"vectors": vectors, "evaluations": evals, "distinct_nontrivial": seen.len(), "counts": counts, "failures": fails, "samples": samples.into_iter().take(2).collect::<Vec<_>>(), "traces": traces.len()});
    std::fs::write(&args[2], r.to_string()).unwrap();
}
