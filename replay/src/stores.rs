//! C12-C18, C29
use crate::util::*;
use crate::{fail, input, Res};
use elinor::*;
use ordered_float::OrderedFloat;
use std::collections::{BTreeMap, BTreeSet};

type R = (String, String, i64);
pub fn records(r: &mut Rng, dups: bool) -> Vec<R> {
    let big = r.chance(1, 300);
    let n = if big { let n = r.near(4200, 70000).unwrap_or(4200) as usize; if r.chance(1, 2) { n + n / 8 + r.below(9) } else { n } } else { r.size(0, 14, 4200) };
    let (nq, nd, ns) = (1 + r.below(5), 1 + r.below(if n > 20 { n } else { 8 }), 1 + r.below(5) as i64);
    let mut v: Vec<R> = vec![]; let mut seen = BTreeSet::new();
    let p = if n > 20 && r.chance(1, 2) { "d0" } else { "d" };
    for i in 0..n {
        let mut d = if big || n > 40 && r.chance(9, 10) { format!("{p}{i}") } else { r.id("d", nd) };
        let mut q = r.id("q", if big { 1 } else { nq });
        if dups && !v.is_empty() && r.chance(1, 12) { let j = r.below(v.len()); q = v[j].0.clone(); d = v[j].1.clone(); }
        if !seen.insert((q.clone(), d.clone())) && !dups { continue; }
        let s = if r.chance(1, 12) { r.int(0, u32::MAX as i128, 9) as i64 } else { r.range(0, ns) };
        v.push((q, d, s));
    }
    v
}
fn expected(v: &[R]) -> BTreeMap<String, BTreeMap<String, i64>> {
    let mut m: BTreeMap<String, BTreeMap<String, i64>> = BTreeMap::new();
    for (q, d, s) in v { m.entry(q.clone()).or_default().entry(d.clone()).or_insert(*s); }
    m
}
fn sorted(m: &BTreeMap<String, i64>) -> Vec<(String, i64)> {
    let mut x: Vec<(String, i64)> = m.iter().map(|(d, s)| (d.clone(), *s)).collect();
    x.sort_by(|a, b| b.1.cmp(&a.1).then_with(|| a.0.cmp(&b.0)));
    x
}
/// everything observable of a store against the expected content
fn agrees<S: Clone + Ord + Copy>(st: &relevance::RelevanceStore<String, S>, m: &BTreeMap<String, BTreeMap<String, i64>>, f: impl Fn(S) -> i64, probe: &[(String, String)]) -> Res {
    let qs: Vec<&String> = st.query_ids().collect();
    if !qs.iter().copied().eq(m.keys()) { return fail("query_ids lists exactly the queries in ascending order", format!("{:?}", m.keys().collect::<Vec<_>>()), format!("{qs:?}")); }
    if st.n_queries() != m.len() { return fail("n_queries", m.len(), st.n_queries()); }
    let nd: usize = m.values().map(|x| x.len()).sum();
    if st.n_docs() != nd { return fail("n_docs", nd, st.n_docs()); }
    for (q, x) in m {
        let g = st.get_map(q.as_str()).map(|y| y.iter().map(|(d, s)| (d.clone(), f(*s))).collect::<BTreeMap<_, _>>());
        if g.as_ref() != Some(x) { return fail(format!("get_map({q:?})"), format!("{x:?}"), format!("{g:?}")); }
        let s = st.get_sorted(q.as_str()).map(|y| y.iter().map(|e| (e.doc_id.clone(), f(e.score))).collect::<Vec<_>>());
        let e = sorted(x);
        if s.as_ref() != Some(&e) { return fail(format!("get_sorted({q:?})"), format!("{e:?}"), format!("{s:?}")); }
        for (d, sc) in x { let g = st.get_score(q.as_str(), d.as_str()).map(|s| f(*s)); if g != Some(*sc) { return fail(format!("get_score({q:?}, {d:?})"), format!("Some({sc})"), format!("{g:?}")); } }
    }
    for (q, d) in probe {
        let e = m.get(q).and_then(|x| x.get(d)).copied();
        let g = st.get_score(q.as_str(), d.as_str()).map(|s| f(*s));
        if g != e { return fail(format!("get_score({q:?}, {d:?})"), format!("{e:?}"), format!("{g:?}")); }
        if st.get_map(q.as_str()).is_some() != m.contains_key(q) || st.get_sorted(q.as_str()).is_some() != m.contains_key(q) { return fail(format!("the query {q:?} is known to the map and the sorted list exactly when it has records"), m.contains_key(q), (st.get_map(q.as_str()).is_some(), st.get_sorted(q.as_str()).is_some()).0); }
    }
    Ok(())
}
fn recs(v: &[R]) -> Vec<Record<String, u32>> { v.iter().map(|(q, d, s)| Record { query_id: q.clone(), doc_id: d.clone(), score: *s as u32 }).collect() }
pub fn store(prop: &str, r: &mut Rng) -> Res {
    let v = records(r, prop == "C12");
    input(if v.len() > 3000 { format!("{} records, beginning {:?}", v.len(), &v[..20]) } else { format!("records {v:?}") });
    let m = expected(&v);
    let probe: Vec<(String, String)> = (0..4).map(|_| (r.id("q", 6), r.id("d", 9))).collect();
    let dup = { let mut s = BTreeSet::new(); !v.iter().all(|(q, d, _)| s.insert((q, d))) };
    // builder, one by one
    let mut b = TrueRelStoreBuilder::new(); let mut have = BTreeSet::new();
    for (q, d, s) in &v {
        let res = b.add_record(q.clone(), d.clone(), *s as u32);
        let new = have.insert((q.clone(), d.clone()));
        match (new, &res) { (true, Ok(())) | (false, Err(ElinorError::DuplicateEntry(_))) => {}, _ => return fail(format!("add_record({q:?}, {d:?}, {s})"), if new { "Ok" } else { "Err(DuplicateEntry)" }, format!("{res:?}")) }
    }
    let st = b.build();
    agrees(&st, &m, |s| s as i64, &probe)?;
    match TrueRelStore::from_records(recs(&v)) {
        Ok(st) => { if dup { return fail("from_records rejects a repeated pair", "Err", "Ok"); } agrees(&st, &m, |s| s as i64, &probe)?; }
        Err(ElinorError::DuplicateEntry(_)) if dup => {}
        Err(e) => return fail("from_records", if dup { "Err(DuplicateEntry)" } else { "Ok" }, format!("{e:?}")),
    }
    // order of insertion is irrelevant; float scores
    if !dup {
        let mut w = v.clone(); r.shuffle(&mut w);
        let st2 = TrueRelStore::from_records(recs(&w)).map_err(|e| crate::Fail { what: "from_records of shuffled records".into(), expected: "Ok".into(), actual: format!("{e:?}") })?;
        agrees(&st2, &m, |s| s as i64, &probe)?;
        let p = PredRelStore::from_records(v.iter().map(|(q, d, s)| Record { query_id: q.clone(), doc_id: d.clone(), score: OrderedFloat(*s as f64 / 4.0) })).map_err(|e| crate::Fail { what: "from_records of predictions".into(), expected: "Ok".into(), actual: format!("{e:?}") })?;
        agrees(&p, &m, |s| (s.0 * 4.0) as i64, &probe)?;
        // export
        let want: Vec<R> = m.iter().flat_map(|(q, x)| sorted(x).into_iter().map(move |(d, s)| (q.clone(), d, s))).collect();
        for (name, ex) in [("records", st.records()), ("into_records", st2.into_records())] {
            let got: Vec<R> = ex.iter().map(|x| (x.query_id.clone(), x.doc_id.clone(), x.score as i64)).collect();
            if got != want { return fail(format!("{name} exports query by query in ranking order"), format!("{want:?}"), format!("{got:?}")); }
            match TrueRelStore::from_records(ex) { Ok(s3) => agrees(&s3, &m, |s| s as i64, &probe)?, Err(e) => return fail("rebuilding from the export", "Ok", format!("{e:?}")) }
        }
    }
    Ok(())
}
// ------------------------------------------------------------------ C16
const NAMES: [&str; 13] = ["hits", "success", "precision", "recall", "f1", "r_precision", "ap", "rr", "bpref", "dcg", "ndcg", "dcg_burges", "ndcg_burges"];
fn known(s: &str) -> Option<Metric> {
    let (n, k) = match s.split_once('@') { None => (s, 0usize), Some((n, d)) => { if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return None; } (n, d.parse().ok()?) } };
    Some(match n { "hits" => Metric::Hits { k }, "success" => Metric::Success { k }, "precision" => Metric::Precision { k }, "recall" => Metric::Recall { k }, "f1" => Metric::F1 { k }, "r_precision" => Metric::RPrecision,
        "ap" => Metric::AP { k }, "rr" => Metric::RR { k }, "bpref" => Metric::Bpref, "dcg" => Metric::DCG { k }, "ndcg" => Metric::NDCG { k }, "dcg_burges" => Metric::DCGBurges { k }, "ndcg_burges" => Metric::NDCGBurges { k }, _ => return None })
}
pub fn names(r: &mut Rng) -> Res {
    let k = r.int(0, u64::MAX as i128, 120) as usize;
    for (m, n) in crate::metrics::all(k).into_iter().zip(["hits", "success", "precision", "recall", "f1", "r_precision", "ap", "rr", "bpref", "dcg", "ndcg", "dcg_burges", "ndcg_burges"]) {
        input(format!("{m:?}"));
        let s = m.to_string();
        let e = if k == 0 || matches!(m, Metric::RPrecision | Metric::Bpref) { n.to_string() } else { format!("{n}@{k}") };
        if s != e { return fail("text of the metric", e, s); }
        match s.parse::<Metric>() { Ok(x) if x == m => {}, x => return fail("parsing the metric's own text", format!("{m:?}"), format!("{x:?}")) }
    }
    let base = NAMES[r.below(13)];
    let s = match r.below(16) {
        0 => base.to_string(), 1 => format!("{base}@{k}"), 2 => format!("{base}@0{k}"), 3 => format!("{base}@{k}{}", r.u64()), 4 => format!("{base}@-{k}"), 5 => format!("{base}@+{k}"), 6 => format!(" {base}@{k}"), 7 => format!("{base}@{k}\n"),
        8 => format!("{base}@"), 9 => format!("{base}@@{k}"), 10 => base.to_uppercase(), 11 => format!("{base}{}", r.id("x", 9)), 12 => format!("{base}@{k}x"), 13 => r.id("m", 5),
        14 => { let mut b: Vec<char> = format!("{base}@{k}").chars().collect(); let i = r.below(b.len()); match r.below(3) { 0 => { b.remove(i); } 1 => { b[i] = *r.pick(&['a', '@', '0', '_', ' ', '٣', 's']); } _ => { b.insert(i, *r.pick(&['a', '@', '0', '_', ' ', '\n', 's'])); } } b.into_iter().collect() }
        _ => ["", "@", "@1", "hit", "hitss", "18446744073709551615", "hits@18446744073709551615", "hits@18446744073709551616", "hits@٣", "ap@1_000", "n_dcg", "map", "mrr"][r.below(13)].to_string(),
    };
    input(format!("{s:?}"));
    match (known(&s), s.parse::<Metric>()) {
        (Some(m), Ok(x)) if m == x => Ok(()),
        (None, Err(ElinorError::InvalidFormat(_))) => Ok(()),
        (e, x) => fail("parsing a text as a metric", e.map_or("Err(InvalidFormat)".into(), |m| format!("Ok({m:?})")), format!("{x:?}")),
    }
}
// ------------------------------------------------------------------ C17 / C18
pub fn trec_lines(qrels: bool, bad: bool, r: &mut Rng) -> Vec<String> {
    let n = r.size(0, 8, 3000);
    let mut lines = vec![]; let mut used: Vec<(String, String)> = vec![];
    for i in 0..n {
        let (mut q, mut d) = (r.id("q", 4), if n > 20 { format!("d{i}") } else { r.id("d", 9) });
        let b = bad && r.chance(1, 4);
        if b && r.chance(1, 3) && !used.is_empty() { let j = r.below(used.len()); (q, d) = used[j].clone(); }
        if !b && (used.contains(&(q.clone(), d.clone())) || q.is_empty() || d.is_empty()) { continue; }
        used.push((q.clone(), d.clone()));
        let num = if qrels {
            match r.below(14) { 0 => r.int(i32::MIN as i128, i32::MAX as i128, 9).to_string(), 1 => "-1".into(), 2 => "+2".into(), 3 => "007".into(), 4 if b => "1.0".into(), 5 if b => "x".into(), 6 if b => "2147483648".into(), 7 if b => "-2147483649".into(), 8 => "-2147483648".into(), 9 => format!("-{}", r.below(5)), _ => r.below(4).to_string() }
        } else {
            match r.below(14) { 0 => "1e3".into(), 1 => "-0".into(), 2 => "+.5".into(), 3 => "inf".into(), 4 if b => "1,5".into(), 5 if b => "0x10".into(), 6 if b => "e".into(), 7 => "1e-320".into(), 8 => "1e999".into(), 9 => "-infinity".into(), 10 => format!("{}", r.fconst().unwrap_or(0.1)), _ => format!("{}.{}", r.below(3), r.below(100)) }
        };
        let sep: &str = [" ", "\t", "  ", " \t ", " ", "\t", " ", "\u{a0}", "\u{2003}", "\u{85}", "\u{b}", "\u{c}"][r.below(12)];
        let mut c: Vec<String> = vec![q, ["0", "Q0", "1", "x"][r.below(4)].into(), d];
        if qrels { c.push(num); } else { c.push(["1", "x", "-5", "0"][r.below(4)].into()); c.push(num); }
        if !qrels || r.chance(1, 6) { c.push("tag".into()); }
        if r.chance(1, 10) { c.push("9".into()); }
        if b && r.chance(1, 3) { let k = r.below(c.len()); c.truncate(k); }
        let mut s = c.join(sep);
        if r.chance(1, 6) { s = format!("  {s}"); } if r.chance(1, 6) { s.push(' '); }
        lines.push(s);
    }
    lines
}
pub fn trec(prop: &str, r: &mut Rng) -> Res {
    let qrels = prop == "C17";
    let bad = r.chance(2, 5);
    let lines = trec_lines(qrels, bad, r);
    input(format!("lines {lines:?}"));
    let mut m: BTreeMap<String, BTreeMap<String, f64>> = BTreeMap::new();
    let mut err: Option<&str> = None;
    for l in &lines {
        let c: Vec<&str> = l.split_whitespace().collect();
        let v = if qrels { if c.len() < 4 { None } else { c[3].parse::<i32>().ok().map(|x| x.max(0) as f64) } } else if c.len() < 5 { None } else { c[4].parse::<f64>().ok() };
        let Some(v) = v else { err = Some("InvalidFormat"); break };
        if m.get(c[0]).map_or(false, |x| x.contains_key(c[2])) { err = Some("DuplicateEntry"); break }
        m.entry(c[0].into()).or_default().insert(c[2].into(), v);
    }
    let got: Result<Vec<(String, String, f64)>> = if qrels { trec::parse_true_rels_in_trec(lines.iter()).map(|s| s.into_records().into_iter().map(|x| (x.query_id, x.doc_id, x.score as f64)).collect()) }
        else { trec::parse_pred_rels_in_trec(lines.iter()).map(|s| s.into_records().into_iter().map(|x| (x.query_id, x.doc_id, x.score.0)).collect()) };
    match (err, got) {
        (Some("InvalidFormat"), Err(ElinorError::InvalidFormat(_))) | (Some("DuplicateEntry"), Err(ElinorError::DuplicateEntry(_))) => Ok(()),
        (None, Ok(v)) => {
            let g: BTreeMap<(String, String), f64> = v.iter().map(|(q, d, s)| ((q.clone(), d.clone()), *s)).collect();
            let e: BTreeMap<(String, String), f64> = m.into_iter().flat_map(|(q, x)| x.into_iter().map(move |(d, s)| ((q.clone(), d), s))).collect();
            if g.len() != v.len() || g != e { return fail("the parsed store", format!("{e:?}"), format!("{v:?}")); }
            Ok(())
        }
        (e, g) => fail("parsing", e.map_or("Ok".into(), |e| format!("Err({e})")), format!("{g:?}")),
    }
}
// ------------------------------------------------------------------ C29
pub fn serde_(r: &mut Rng) -> Res {
    let mk = |r: &mut Rng| { let mut s = r.id("q", 50); if r.chance(1, 3) { s.push(*r.pick(&['"', '\\', '\n', '\u{0}', 'é', '/'])); } s };
    let (q, d) = (mk(r), mk(r)); let s = r.int(0, u32::MAX as i128, 100) as u32; let f = r.int(-1000000, 1000000, 1000) as f64 / 8.0;
    let t = Record { query_id: q.clone(), doc_id: d.clone(), score: s }; let p = Record { query_id: q.clone(), doc_id: d.clone(), score: OrderedFloat(f) };
    input(format!("{t:?} {p:?}"));
    let (vt, vp) = (serde_json::to_value(&t).map_err(|e| crate::Fail::new("serialising", "Ok", e))?, serde_json::to_value(&p).map_err(|e| crate::Fail::new("serialising", "Ok", e))?);
    if vt != serde_json::json!({"query_id": q, "doc_id": d, "score": s}) { return fail("JSON of the judged record", "object with query_id, doc_id, score", vt); }
    if vp != serde_json::json!({"query_id": q, "doc_id": d, "score": f}) { return fail("JSON of the predicted record", "object with query_id, doc_id, score", vp); }
    let mut names = ["query_id", "doc_id", "score"]; for i in (1..3).rev() { names.swap(i, r.int(0, i as i128, 1) as usize); }
    let lack = if r.chance(1, 4) { Some(names[r.int(0, 2, 1) as usize]) } else { None };
    let text = |v: &serde_json::Value| format!("{{{}}}", names.iter().filter(|n| Some(**n) != lack).map(|n| format!("{:?}:{}", n, v[*n])).collect::<Vec<_>>().join(","));
    let (jt, jp) = (text(&vt), text(&vp));
    input(format!("{jt} {jp}"));
    let (rt, rp) = (serde_json::from_str::<Record<String, u32>>(&jt), serde_json::from_str::<Record<String, OrderedFloat<f64>>>(&jp));
    if lack.is_some() {
        if rt.is_ok() { return fail("deserialising an object without a field", "an error", format!("{rt:?}")); }
        return if rp.is_ok() { fail("deserialising an object without a field", "an error", format!("{rp:?}")) } else { Ok(()) };
    }
    match rt { Ok(x) if x == t => {}, x => return fail("deserialised judged record", format!("{t:?}"), format!("{x:?}")) }
    match rp { Ok(x) if x == p => Ok(()), x => fail("deserialised predicted record", format!("{p:?}"), format!("{x:?}")) }
}
