//! Witness search and replay: runs the real crate against independent oracles on generated inputs.
//!   replay search PROP SEED SECONDS MAXCASES [CONSTS.json]   first failing case as JSON on stdout (exit 1), otherwise a summary (exit 0)
//!   replay case PROP SEED INDEX [CONSTS.json]                one case again
mod cli; mod metrics; mod stats; mod stores; mod util;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::*;

#[derive(Debug)]
pub struct Fail { pub what: String, pub expected: String, pub actual: String }
impl Fail { pub fn new(w: impl ToString, e: impl ToString, a: impl ToString) -> Self { Fail { what: w.to_string(), expected: e.to_string(), actual: a.to_string() } } }
/// failures of inputs of the current class belong to a recorded finding if that class is listed
pub fn class(s: &'static str) { CLASS.with(|c| c.set(s)) }
pub type Res = Result<(), Fail>;
pub fn fail(w: impl ToString, e: impl ToString, a: impl ToString) -> Res { Err(Fail::new(w, e, a)) }
thread_local! { static CLASS: std::cell::Cell<&'static str> = const { std::cell::Cell::new("") }; static INPUT: RefCell<String> = RefCell::new(String::new()); static DISTINCT: RefCell<std::collections::HashSet<u64>> = Default::default(); }
pub fn input(s: String) {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut h);
    DISTINCT.with(|d| d.borrow_mut().insert(h.finish()));
    INPUT.with(|i| *i.borrow_mut() = s);
}
fn run(prop: &str, r: &mut Rng) -> Res {
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" => metrics::metric(prop, r),
        "C12" | "C13" | "C14" | "C15" => stores::store(prop, r),
        "C16" => stores::names(r), "C17" | "C18" => stores::trec(prop, r), "C29" => stores::serde_(r),
        "C19" => stats::tuples(r), "C20" | "C21" => stats::ttest(prop, r), "C22" => stats::bootstrap(r), "C23" => stats::seeds(r),
        "C24" | "C25" | "C26" | "C27" => stats::anova(prop, r), "C28" => stats::randomized(r),
        "C30" => cli::convert(r), "C31" => cli::evaluate(r), "C32" => cli::compare(r),
        _ => { eprintln!("unknown property {prop}"); std::process::exit(2) }
    }
}
fn one(prop: &str, seed: u64, idx: u64, c: &Consts) -> Option<serde_json::Value> {
    let mut r = Rng::new(prop, seed, idx, c);
    INPUT.with(|i| i.borrow_mut().clear()); class("");
    let res = catch_unwind(AssertUnwindSafe(|| run(prop, &mut r)));
    let f = match res { Ok(Ok(())) => return None, Ok(Err(f)) => f, Err(p) => Fail::new("the call returns", "no panic", format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) };
    Some(serde_json::json!({"property": prop, "seed": seed, "index": idx, "class": CLASS.with(|c| c.get()), "input": INPUT.with(|i| i.borrow().clone()), "what": f.what, "expected": f.expected, "actual": f.actual}))
}
fn consts(p: Option<&String>) -> Consts {
    let mut c = Consts::default();
    if let Some(p) = p {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(p).expect("constants")).expect("constants");
        for x in v["ints"].as_array().unwrap() { if let Ok(i) = x.as_str().unwrap().parse() { c.ints.push(i); } }
        for x in v["floats"].as_array().unwrap() { if let Ok(i) = x.as_str().unwrap().parse() { c.floats.push(i); } }
        for x in v["strs"].as_array().unwrap() { c.strs.push(x.as_str().unwrap().into()); }
    }
    c
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    if a.len() < 5 { eprintln!("usage"); std::process::exit(2); }
    let prop = a[2].clone(); let seed: u64 = a[3].parse().unwrap();
    if a[1] == "case" {
        match one(&prop, seed, a[4].parse().unwrap(), &consts(a.get(5))) { Some(v) => { println!("{}", serde_json::to_string_pretty(&v).unwrap()); if prop.as_str() >= "C30" { cli::cleanup(); } std::process::exit(1) } None => { println!("the case passes"); return } }
    }
    let secs: f64 = a[4].parse().unwrap(); let max: u64 = a[5].parse().unwrap(); let c = consts(a.get(6)); let known: Vec<String> = a.get(7).map_or(vec![], |x| x.split(',').map(|s| s.to_string()).collect());
    let kcount: Arc<Mutex<std::collections::BTreeMap<String, (u64, serde_json::Value)>>> = Default::default();
    let nt = 6u64; let stop = Arc::new(AtomicBool::new(false)); let found: Arc<Mutex<Option<serde_json::Value>>> = Default::default();
    let next = Arc::new(AtomicU64::new(0)); let done = Arc::new(AtomicU64::new(0)); let distinct = Arc::new(AtomicU64::new(0));
    let start = Instant::now();
    let cur: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..nt).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    let hs: Vec<_> = (0..nt).map(|t| {
        let (known, kcount) = (known.clone(), kcount.clone());
        let (prop, c, stop, found, next, done, distinct, cur) = (prop.clone(), c.clone(), stop.clone(), found.clone(), next.clone(), done.clone(), distinct.clone(), cur.clone());
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            while !stop.load(SeqCst) {
                let i = next.fetch_add(1, SeqCst); if i >= max { break; }
                cur[t as usize].0.store(i, SeqCst); cur[t as usize].1.store(start.elapsed().as_millis() as u64 + 1, SeqCst);
                if let Some(v) = one(&prop, seed, i, &c) {
                    let cl = v["class"].as_str().unwrap().to_string();
                    if !cl.is_empty() && known.contains(&cl) { let mut k = kcount.lock().unwrap(); k.entry(cl).or_insert((0, v)).0 += 1; cur[t as usize].1.store(0, SeqCst); done.fetch_add(1, SeqCst); continue; }
                    let mut f = found.lock().unwrap();
                    // the shortest witness of those found
                    if f.as_ref().map_or(true, |o| o["input"].as_str().unwrap().len() > v["input"].as_str().unwrap().len()) { *f = Some(v); }
                }
                cur[t as usize].1.store(0, SeqCst); done.fetch_add(1, SeqCst);
            }
            if prop.as_str() >= "C30" { cli::cleanup(); }
            distinct.fetch_add(DISTINCT.with(|d| d.borrow().len() as u64), SeqCst);
        }).unwrap()
    }).collect();
    let mut hit: Option<Instant> = None;
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) { break; }
        if found.lock().unwrap().is_some() && hit.is_none() { hit = Some(Instant::now()); }
        if start.elapsed().as_secs_f64() > secs || hit.map_or(false, |h| h.elapsed().as_secs_f64() > 1.0) { stop.store(true, SeqCst); }
        let now = start.elapsed().as_millis() as u64;
        for x in cur.iter() {
            let b = x.1.load(SeqCst);
            if b > 0 && now > b + 40_000 {
                println!("{}", serde_json::to_string_pretty(&serde_json::json!({"property": prop, "seed": seed, "index": x.0.load(SeqCst), "input": "the generated case with this index", "what": "the call returns", "expected": "a result within 40 s", "actual": "still running"})).unwrap());
                std::process::exit(1);
            }
        }
    }
    if let Some(v) = found.lock().unwrap().as_ref() { println!("{}", serde_json::to_string_pretty(v).unwrap()); std::process::exit(1); }
    println!("{}", serde_json::json!({"evaluations": done.load(SeqCst), "distinct": distinct.load(SeqCst), "known": kcount.lock().unwrap().iter().map(|(k, (n, v))| (k.clone(), serde_json::json!({"count": n, "example": v}))).collect::<serde_json::Map<_, _>>()}));
}
