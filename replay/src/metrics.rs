//! C01-C11: evaluation against an oracle that works on plain record lists.
use crate::util::*;
use crate::{fail, input, Res};
use elinor::*;
use std::collections::{BTreeMap, BTreeSet};

pub type T3<S> = (String, String, S);
pub struct World { pub trues: Vec<T3<u32>>, pub preds: Vec<T3<f64>> }
impl World {
    pub fn dump(&self, extra: &str) -> String {
        let cut = |s: String| if s.len() > 6000 { format!("{}... ({} bytes)", s.chars().take(6000).collect::<String>(), s.len()) } else { s };
        format!("judgments {} predictions {} {extra}", cut(format!("{:?}", self.trues)), cut(format!("{:?}", self.preds)))
    }
    pub fn stores(&self) -> Result<(TrueRelStore<String>, PredRelStore<String>)> {
        let t = TrueRelStore::from_records(self.trues.iter().map(|(q, d, s)| Record { query_id: q.clone(), doc_id: d.clone(), score: *s }))?;
        let p = PredRelStore::from_records(self.preds.iter().map(|(q, d, s)| Record { query_id: q.clone(), doc_id: d.clone(), score: (*s).into() }))?;
        Ok((t, p))
    }
}
fn pscore(r: &mut Rng, ties: usize) -> f64 {
    match r.below(24) {
        0 => 0.0, 1 => -0.0, 2 => -1.5, 3 => f64::INFINITY, 4 => f64::NEG_INFINITY, 5 => r.fconst().unwrap_or(1e300), 6 => 1e-300, 7 => r.int(-1000000, 1000000, 1000) as f64,
        _ => r.below(ties) as f64 / 4.0 - 1.0,
    }
}
fn tscore(r: &mut Rng, burges: bool) -> u32 {
    let hi = if burges { 1000 } else { u32::MAX as i128 };
    match r.below(10) { 0 => r.int(0, hi, 40) as u32, 1 => 2, 2 => 3, 3 | 4 | 5 => 0, _ => 1 }
}
pub fn world(r: &mut Rng, missing: bool, burges: bool) -> World {
    if r.chance(1, 25) { return deep(r, burges); }
    let many = r.chance(1, 60);
    let nq = if r.chance(1, 40) { 0 } else if many { 2 * r.near(30, 2100).unwrap_or(30) as usize + r.below(3) } else { r.size(1, 3, 60) };
    let cap = if nq > 4 { 30 } else { 4200 };
    let mut w = World { trues: vec![], preds: vec![] };
    let mut qs = BTreeSet::new();
    for i in 0..nq { let q = if many { format!("q{i}") } else { r.id("q", 12) }; qs.insert(q); }
    let style = r.below(6);
    for q in &qs {
        let npool = if many { 1 + r.below(2) } else { r.size(1, 14, cap) };
        let mut pool: Vec<String> = (0..npool).map(|i| format!("d{i}")).collect();
        for _ in 0..r.below(3) { let x = r.id("d", 20); if !pool.contains(&x) { pool.push(x); } }
        let ties = 1 + r.below(12);
        let (jt, jp) = match style { 0 => (10, 10), 1 => (10, 3), 2 => (3, 10), _ => (6, 7) };
        let mut any = (false, false);
        let allrel = r.below(8); 
        r.shuffle(&mut pool);
        for d in &pool {
            if r.chance(jt, 10) { let s = match allrel { 0 => 0, 1 => 1 + r.below(3) as u32, _ => tscore(r, burges) }; w.trues.push((q.clone(), d.clone(), s)); any.0 = true; }
            if r.chance(jp, 10) { w.preds.push((q.clone(), d.clone(), pscore(r, ties))); any.1 = true; }
        }
        if !any.0 && !missing { let s = tscore(r, burges); w.trues.push((q.clone(), pool[0].clone(), s)); }
    }
    if missing && r.chance(1, 2) { let q = r.id("q", 30); if !qs.contains(&q) { w.preds.push((q, "d0".into(), 1.0)); } }
    if r.chance(1, 3) { let q = r.id("qq", 5); if !qs.contains(&q) { w.trues.push((q, "d0".into(), 1)); } }
    let mut w2 = w; 
    let mut t = std::mem::take(&mut w2.trues); r.shuffle(&mut t); w2.trues = t;
    let mut p = std::mem::take(&mut w2.preds); r.shuffle(&mut p); w2.preds = p;
    w2
}
/// one query whose relevant documents come after many others, sizes at the constants of the code
fn deep(r: &mut Rng, burges: bool) -> World {
    let mut n = || { let n = r.near(1, 4200).unwrap_or(10) as usize; match r.below(4) { 0 => n, 1 => 1 + r.below(n), 2 => 2 * n, _ => n + 1 + r.below(n) }.min(5000) };
    let (lead, rel) = (n(), n());
    let rel = if r.chance(1, 3) { 1 + r.below(3) } else { rel };
    let judged = r.chance(1, 2);
    let mut w = World { trues: vec![], preds: vec![] };
    for i in 0..lead + rel {
        let d = format!("d{i}"); let s = if i < lead { 0 } else { tscore(r, burges).max(1) };
        if i >= lead || judged { w.trues.push(("q".into(), d.clone(), s)); }
        w.preds.push(("q".into(), d, -(i as f64)));
    }
    r.shuffle(&mut w.trues); r.shuffle(&mut w.preds);
    w
}
pub struct Q { pub t: BTreeMap<String, u32>, pub rank: Vec<String> }
pub fn queries(w: &World) -> BTreeMap<String, Q> {
    let mut m: BTreeMap<&String, (BTreeMap<String, u32>, Vec<(&String, f64)>)> = BTreeMap::new();
    for x in &w.preds { m.entry(&x.0).or_default().1.push((&x.1, x.2)); }
    for x in &w.trues { if let Some(e) = m.get_mut(&x.0) { e.0.insert(x.1.clone(), x.2); } }
    m.into_iter().map(|(q, (t, mut p))| {
        p.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap().then_with(|| a.0.cmp(b.0)));
        (q.clone(), Q { t, rank: p.into_iter().map(|x| x.0.clone()).collect() })
    }).collect()
}
impl Q {
    fn rel(&self, d: &str) -> bool { self.t.get(d).map_or(false, |s| *s >= 1) }
    fn r(&self) -> usize { self.t.values().filter(|s| **s >= 1).count() }
    fn top(&self, k: usize) -> &[String] { if k == 0 || k > self.rank.len() { &self.rank } else { &self.rank[..k] } }
    fn hits(&self, k: usize) -> f64 { self.top(k).iter().filter(|d| self.rel(d)).count() as f64 }
    fn prec(&self, k: usize) -> f64 { let kk = if k == 0 { self.rank.len() } else { k }; if kk == 0 { 0.0 } else { self.hits(k) / kk as f64 } }
    fn dcg(gains: impl Iterator<Item = u32>, burges: bool) -> f64 {
        gains.enumerate().map(|(i, s)| (if burges { 2f64.powi(s as i32) - 1.0 } else { s as f64 }) / ((i + 2) as f64).log2()).sum()
    }
    fn idcg(&self, k: usize, b: bool) -> f64 {
        let mut v: Vec<u32> = self.t.values().copied().collect(); v.sort(); v.reverse();
        if k > 0 { v.truncate(k); }
        Self::dcg(v.into_iter(), b)
    }
    fn own(&self, k: usize, b: bool) -> f64 { Self::dcg(self.top(k).iter().map(|d| *self.t.get(d).unwrap_or(&0)), b) }
    pub fn score(&self, m: Metric) -> f64 {
        let r = self.r() as f64;
        match m {
            Metric::Hits { k } => self.hits(k),
            Metric::Success { k } => if self.hits(k) > 0.0 { 1.0 } else { 0.0 },
            Metric::Precision { k } => self.prec(k),
            Metric::Recall { k } => if r == 0.0 { 0.0 } else { self.hits(k) / r },
            Metric::F1 { k } => { let p = self.prec(k); let c = if r == 0.0 { 0.0 } else { self.hits(k) / r }; if p + c == 0.0 { 0.0 } else { 2.0 * p * c / (p + c) } }
            Metric::RPrecision => if r == 0.0 { 0.0 } else { self.rank.iter().take(self.r()).filter(|d| self.rel(d)).count() as f64 / r },
            Metric::AP { k } => {
                if r == 0.0 { return 0.0; }
                let (mut h, mut s) = (0.0, 0.0);
                for (i, d) in self.top(k).iter().enumerate() { if self.rel(d) { h += 1.0; s += h / (i + 1) as f64; } }
                s / r
            }
            Metric::RR { k } => self.top(k).iter().position(|d| self.rel(d)).map_or(0.0, |i| 1.0 / (i + 1) as f64),
            Metric::Bpref => {
                if r == 0.0 { return 0.0; }
                let n = self.t.len() as f64 - r;
                let (mut nr, mut s) = (0.0f64, 0.0);
                for d in &self.rank {
                    if self.rel(d) { s += if nr == 0.0 { 1.0 } else { 1.0 - nr.min(r) / r.min(n) }; } else if self.t.contains_key(d) { nr += 1.0; }
                }
                s / r
            }
            Metric::DCG { k } => self.own(k, false),
            Metric::DCGBurges { k } => self.own(k, true),
            Metric::NDCG { k } => { let i = self.idcg(k, false); if i == 0.0 { 1.0 } else { self.own(k, false) / i } }
            Metric::NDCGBurges { k } => { let i = self.idcg(k, true); if i == 0.0 { 1.0 } else { self.own(k, true) / i } }
        }
    }
}
pub fn all(k: usize) -> Vec<Metric> {
    vec![Metric::Hits { k }, Metric::Success { k }, Metric::Precision { k }, Metric::Recall { k }, Metric::F1 { k }, Metric::RPrecision, Metric::AP { k }, Metric::RR { k },
         Metric::Bpref, Metric::DCG { k }, Metric::NDCG { k }, Metric::DCGBurges { k }, Metric::NDCGBurges { k }]
}
fn of(prop: &str, k: usize) -> Vec<Metric> {
    match prop {
        "C01" => vec![Metric::Hits { k }, Metric::Success { k }],
        "C02" => vec![Metric::Precision { k }, Metric::Recall { k }, Metric::RPrecision],
        "C03" => vec![Metric::F1 { k }], "C04" => vec![Metric::AP { k }], "C05" => vec![Metric::RR { k }], "C06" => vec![Metric::Bpref],
        "C07" => vec![Metric::DCG { k }, Metric::DCGBurges { k }], "C08" => vec![Metric::NDCG { k }, Metric::NDCGBurges { k }],
        _ => all(k),
    }
}
fn pickk(r: &mut Rng, w: &World) -> usize {
    match r.below(8) { 0 => 0, 1 => r.int(0, u64::MAX as i128, 50) as usize, 2 => w.preds.len(), 3 => w.preds.len() + 1, 4 => w.preds.len().saturating_sub(1), _ => 1 + r.below(8) }
}
pub fn metric(prop: &str, r: &mut Rng) -> Res {
    let w = world(r, prop == "C09", matches!(prop, "C07" | "C08" | "C09" | "C10" | "C11"));
    let k = pickk(r, &w);
    let (t, p) = match w.stores() { Ok(x) => x, Err(e) => { input(w.dump("")); return fail("building the stores succeeds", "Ok", e) } };
    let judged: BTreeSet<&String> = w.trues.iter().map(|x| &x.0).collect();
    let qs: BTreeSet<&String> = w.preds.iter().map(|x| &x.0).collect();
    let ok = qs.iter().all(|q| judged.contains(*q));
    let cache = queries(&w);
    for m in of(prop, k) {
        input(w.dump(&format!("metric {m:?}")));
        let res = metrics::compute_metric(&t, &p, m);
        if !ok {
            if prop == "C09" { match res { Err(ElinorError::MissingEntry(_)) => {}, x => return fail("a predicted query without judgments gives MissingEntry", "Err(MissingEntry)", format!("{x:?}")) } }
            continue;
        }
        let s = match res { Ok(s) => s, Err(e) => return fail("every predicted query is judged, so scoring succeeds", "Ok", e) };
        if !s.keys().eq(qs.iter().copied()) { return fail("exactly the predicted queries are scored", format!("{qs:?}"), format!("{:?}", s.keys().collect::<Vec<_>>())); }
        for (q, v) in &s {
            if prop == "C10" {
                let normalised = !matches!(m, Metric::Hits { .. } | Metric::DCG { .. } | Metric::DCGBurges { .. });
                if !v.is_finite() || *v < 0.0 || (normalised && *v > 1.0 + 1e-9) { return fail(format!("the score of {q:?} is finite, not negative and at most 1 for a normalised metric"), "in range", v); }
                continue;
            }
            if prop == "C11" { continue; }
            let e = cache[q].score(m);
            if !close(*v, e) || !v.is_finite() { return fail(format!("score of query {q:?} under {m:?}"), e, v); }
        }
        if prop == "C11" || prop == "C09" {
            if s.is_empty() { continue; }
            let ev = match evaluate(&t, &p, m) { Ok(x) => x, Err(e) => return fail("evaluate succeeds", "Ok", e) };
            let sc: Vec<f64> = ev.scores().values().copied().collect();
            if ev.metric() != m { return fail("the evaluation reports the metric asked for", format!("{m:?}"), format!("{:?}", ev.metric())); }
            if ev.scores().keys().ne(s.keys()) || ev.scores().values().zip(s.values()).any(|(a, b)| !close(*a, *b)) { return fail("the evaluation reports the per-query scores", format!("{s:?}"), format!("{:?}", ev.scores())); }
            let n = sc.len() as f64; let mx = sc.iter().fold(0.0f64, |a, b| a.max(b.abs()));
            if mx > 1e150 { continue; }
            let mean = sc.iter().sum::<f64>() / n;
            let var = sc.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / n;
            let tol = 1e-9 * (1.0 + mx) * (1.0 + mx);
            if (ev.mean() - mean).abs() > 1e-9 * (1.0 + mx) || ev.mean().is_nan() { return fail("mean", mean, ev.mean()); }
            if (ev.variance() - var).abs() > tol || ev.variance().is_nan() { return fail("population variance", var, ev.variance()); }
            if (ev.std_dev() - ev.variance().sqrt()).abs() > 1e-9 * (1.0 + mx) || ev.std_dev().is_nan() { return fail("standard deviation", ev.variance().sqrt(), ev.std_dev()); }
        }
    }
    Ok(())
}
