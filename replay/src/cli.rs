//! C30-C32: runs the real command line tools (built from /repo by the caller) in a scratch directory and reads what they print and write.
use crate::stores::{records, trec_lines};
use crate::util::*;
use crate::{fail, input, Fail, Res};
use elinor::*;
use ordered_float::OrderedFloat;
use std::path::PathBuf;
use std::process::{Command, Output};

thread_local! { static DIR: PathBuf = { let d = std::env::temp_dir().join(format!("elinor-replay-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], "")); std::fs::create_dir_all(&d).unwrap(); d } }
fn file(n: &str) -> PathBuf { DIR.with(|d| d.join(n)) }
/// removes the scratch directory of this thread
pub fn cleanup() { DIR.with(|d| { let _ = std::fs::remove_dir_all(d); }); }
pub fn tool(name: &str, args: &[String]) -> std::result::Result<Output, Fail> {
    let exe = std::env::current_exe().unwrap().parent().unwrap().join("../../cli/debug").join(name);
    Command::new(exe).args(args).output().map_err(|e| Fail::new("starting the tool", "a process", e))
}
fn put(n: &str, b: &[u8]) -> String { let p = file(n); std::fs::write(&p, b).unwrap(); p.to_string_lossy().into_owned() }
fn show(o: &Output) -> String { format!("{} stderr {:?}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(200).collect::<String>()) }

pub fn convert(r: &mut Rng) -> Res {
    let qrels = r.chance(1, 2);
    let bad = r.chance(1, 4);
    let mut lines = trec_lines(qrels, bad, r);
    if r.chance(1, 12) { lines.push("".into()); }
    if r.chance(1, 10) { let n = 2000 + r.below(3000); for i in 0..n { lines.push(if qrels { format!("qq{} 0 doc{i} {}", i % 7, r.below(3)) } else { format!("qq{} Q0 doc{i} {i} 0.{} t", i % 7, r.below(1000)) }); } }
    let mut text = lines.join("\n").into_bytes();
    if !lines.is_empty() && r.chance(3, 4) { text.push(b'\n'); }
    let utf8 = !r.chance(1, 30); if !utf8 { text.extend_from_slice(b"q \xff\xfe 1\n"); }
    let lines: Vec<String> = String::from_utf8_lossy(&text).lines().map(|l| l.to_string()).collect();
    let full = r.chance(1, 8);
    let inp = put("in.trec", &text); let out = if full { "/dev/full".to_string() } else { put("out.jsonl", b"stale\n") };
    let missing = r.chance(1, 40); let inp = if missing { file("absent").to_string_lossy().into_owned() } else { inp };
    let kind = if r.chance(1, 30) { "other" } else if qrels { "true" } else { "pred" };
    input(format!("elinor-convert --rel-type {kind}, output {}, input {}", if full { "/dev/full" } else { "a file" }, if missing { "absent".into() } else { format!("{:?}", String::from_utf8_lossy(&text)) }));
    let o = tool("elinor-convert", &["--input-trec".into(), inp, "--output-jsonl".into(), out.clone(), "--rel-type".into(), kind.into()])?;
    let want: Option<Vec<serde_json::Value>> = if !utf8 || missing || kind == "other" { None }
        else if qrels { trec::parse_true_rels_in_trec(lines.iter()).ok().map(|s| s.into_records().into_iter().map(|x| serde_json::json!({"query_id": x.query_id, "doc_id": x.doc_id, "score": x.score})).collect()) }
        else { trec::parse_pred_rels_in_trec(lines.iter()).ok().map(|s| s.into_records().into_iter().map(|x| serde_json::json!({"query_id": x.query_id, "doc_id": x.doc_id, "score": x.score.0})).collect()) };
    match want {
        None => if o.status.success() { fail("exit status for an input that cannot be read or parsed", "failure", show(&o)) } else { Ok(()) },
        Some(w) if full && !w.is_empty() => if o.status.success() { fail("exit status when the output cannot be written", "failure", show(&o)) } else { Ok(()) },
        Some(w) => {
            if !o.status.success() { return fail("exit status", "success", show(&o)); }
            if full { return Ok(()); }
            let got = std::fs::read_to_string(&out).unwrap_or_default();
            let g: Vec<&str> = got.split_terminator('\n').collect();
            if !got.is_empty() && !got.ends_with('\n') { return fail("the end of the output file", "a line end", format!("{:?}", &got[got.len().saturating_sub(60)..])); }
            if g.len() != w.len() { return fail("number of lines written", w.len(), g.len()); }
            // (the parser of serde_json may be off by one in the last digit: the expected record is read back the same way)
            for (i, (a, b)) in g.iter().zip(&w).enumerate() { match serde_json::from_str::<serde_json::Value>(a) { Ok(v) if v == *b || serde_json::from_str(&b.to_string()).ok() == Some(v.clone()) => {} x => return fail(format!("line {i} of the output"), b, format!("{x:?}")) } }
            Ok(())
        }
    }
}
fn default_metrics() -> Vec<Metric> {
    use Metric::*;
    let mut m = vec![];
    m.extend([1, 5, 10].map(|k| Success { k })); m.extend([5, 10, 15, 20].map(|k| Recall { k })); m.extend([5, 10, 15, 20].map(|k| Precision { k }));
    m.extend([5, 10, 15, 20, 0].map(|k| AP { k })); m.push(RR { k: 0 }); m.extend([5, 10, 15, 20].map(|k| NDCG { k }));
    m
}
pub fn evaluate(r: &mut Rng) -> Res {
    let dup = r.chance(1, 20); let t = records(r, dup); let dup = r.chance(1, 20); let p = records(r, dup);
    let clean = |v: Vec<(String, String, i64)>| v.into_iter().filter(|(q, d, _)| (q.clone() + d).chars().all(|c| c.is_ascii_alphanumeric()) && !q.is_empty()).collect::<Vec<_>>();
    let (t, mut p) = (clean(t), clean(p));
    let tr: Vec<TrueRecord<String>> = t.into_iter().map(|(q, d, s)| Record { query_id: q, doc_id: d, score: s as u32 }).collect();
    if r.chance(9, 10) { let qs: std::collections::BTreeSet<_> = tr.iter().map(|x| x.query_id.clone()).collect(); p.retain(|x| qs.contains(&x.0)); if r.chance(3, 4) { for q in &qs { if !p.iter().any(|x| x.0 == *q) { p.push((q.clone(), r.id("d", 5).replace(|c: char| !c.is_ascii_alphanumeric(), ""), 1)); } } } }
    let pr: Vec<PredRecord<String>> = p.into_iter().map(|(q, d, s)| Record { query_id: q, doc_id: d, score: OrderedFloat(s as f64 / 8.0) }).collect();
    let line = |v: Vec<String>| v.into_iter().map(|l| l + "\n").collect::<String>();
    let (tj, pj) = (line(tr.iter().map(|x| serde_json::json!({"query_id": x.query_id, "doc_id": x.doc_id, "score": x.score}).to_string()).collect()), line(pr.iter().map(|x| serde_json::json!({"query_id": x.query_id, "doc_id": x.doc_id, "score": x.score.0}).to_string()).collect()));
    let broken = r.chance(1, 30);
    let ms: Vec<Metric> = if r.chance(1, 4) { vec![] } else { let n = 1 + r.below(4); let mut v: Vec<Metric> = vec![]; for _ in 0..n { let k = r.size(0, 6, 300); let m = metric(r.below(13), k); if !v.contains(&m) { v.push(m); } } v };
    let csv = r.chance(2, 3); let tab = r.chance(1, 4);
    let tp = put("t.jsonl", (tj.clone() + if broken { "{\"query_id\": 3}\n" } else { "" }).as_bytes()); let pp = put("p.jsonl", pj.as_bytes()); let full = csv && r.chance(1, 8); let cp = if full { "/dev/full".to_string() } else { put("o.csv", b"stale") };
    let mut args = vec!["--true-jsonl".to_string(), tp, "--pred-jsonl".into(), pp];
    if csv { args.extend(["--output-csv".into(), cp.clone()]); } if tab { args.push("--tab-separator".into()); }
    if !ms.is_empty() { args.push("--metrics".into()); args.extend(ms.iter().map(name)); }
    input(format!("elinor-evaluate {} with judged records {tj:?}, predicted records {pj:?}", args[4..].join(" ")));
    let o = tool("elinor-evaluate", &args)?;
    let stores = match (TrueRelStore::from_records(tr.clone()), PredRelStore::from_records(pr.clone())) { (Ok(a), Ok(b)) if !broken => Some((a, b)), _ => None };
    let ms = if ms.is_empty() { default_metrics() } else { ms };
    let evs = stores.as_ref().and_then(|(a, b)| ms.iter().map(|m| elinor::evaluate(a, b, *m).ok()).collect::<Option<Vec<_>>>());
    let (Some((a, b)), Some(evs)) = (stores, evs) else { return if o.status.success() { fail("exit status for inputs that cannot be evaluated", "failure", show(&o)) } else { Ok(()) } };
    if full { return if o.status.success() { fail("exit status when the CSV file cannot be written", "failure", show(&o)) } else { Ok(()) }; }
    if !o.status.success() { return fail("exit status", "success", show(&o)); }
    let mut want = format!("n_queries_in_true\t{}\nn_queries_in_pred\t{}\nn_docs_in_true\t{}\nn_docs_in_pred\t{}\nn_relevant_docs\t{}\n", a.n_queries(), b.n_queries(), a.n_docs(), b.n_docs(), tr.iter().filter(|x| x.score > 0).count());
    for (m, e) in ms.iter().zip(&evs) { want += &format!("{}\t{:.4}\n", name(m), e.mean()); }
    let got = String::from_utf8_lossy(&o.stdout).into_owned();
    if got != want { return fail("standard output", format!("{want:?}"), format!("{got:?}")); }
    if csv {
        let got = std::fs::read_to_string(&cp).unwrap_or_default(); let sep = if tab { '\t' } else { ',' };
        let mut rows = got.split_terminator('\n').map(|l| l.split(sep).map(|s| s.trim_matches('"').to_string()).collect::<Vec<_>>());
        let mut head = vec!["query_id".to_string()]; head.extend(ms.iter().map(name));
        if rows.next() != Some(head.clone()) { return fail("the header of the CSV file", format!("{head:?}"), got.lines().next().unwrap_or("").to_string()); }
        let rows: Vec<_> = rows.collect(); let qs: Vec<&String> = evs[0].scores().keys().collect();
        if rows.len() != qs.len() { return fail("rows of the CSV file", qs.len(), rows.len()); }
        for (row, q) in rows.iter().zip(qs) {
            if row.len() != ms.len() + 1 || &row[0] != q { return fail("a row of the CSV file", q, format!("{row:?}")); }
            for (i, e) in evs.iter().enumerate() { let w = e.scores()[q]; match row[i + 1].parse::<f64>() { Ok(x) if close(x, w) => {} _ => return fail(format!("score of {q} for {}", name(&ms[i])), w, row[i + 1].clone()) } }
        }
    }
    Ok(())
}
fn metric(i: usize, k: usize) -> Metric {
    use Metric::*;
    match i { 0 => Hits { k }, 1 => Success { k }, 2 => Precision { k }, 3 => Recall { k }, 4 => F1 { k }, 5 => AP { k }, 6 => RR { k }, 7 => NDCG { k }, 8 => DCG { k }, 9 => NDCGBurges { k }, 10 => DCGBurges { k }, 11 => Bpref, _ => RPrecision }
}
fn name(m: &Metric) -> String {
    use Metric::*;
    let (n, k) = match *m { Hits { k } => ("hits", k), Success { k } => ("success", k), Precision { k } => ("precision", k), Recall { k } => ("recall", k), F1 { k } => ("f1", k), AP { k } => ("ap", k), RR { k } => ("rr", k), NDCG { k } => ("ndcg", k), DCG { k } => ("dcg", k),
        NDCGBurges { k } => ("ndcg_burges", k), DCGBurges { k } => ("dcg_burges", k), Bpref => ("bpref", 0), RPrecision => ("r_precision", 0) };
    if k == 0 { n.into() } else { format!("{n}@{k}") }
}
/// a cell of a printed table: text, a number with four decimals, or a p-value of a randomized test with that many rounds
enum C { S(String), F(f64), P(f64, usize) }
enum L { Text(String), Row(Vec<C>) }
fn cs(v: &[&str]) -> Vec<C> { v.iter().map(|s| C::S(s.to_string())).collect() }
fn cell_ok(c: &C, g: &str, trim: bool) -> bool {
    let num = |x: f64, tol: f64| if x.is_nan() { g.is_empty() } else if x.is_infinite() { g.parse::<f64>() == Ok(x) } else { g.split_once('.').map_or(false, |(_, d)| d.len() == 4) && g.parse::<f64>().map_or(false, |y| (x - y).abs() <= tol) };
    match c {
        C::S(s) => if trim { s.trim() == g } else { s == g },
        C::F(x) => num(*x, 6e-5 + 1e-9 * x.abs()),
        C::P(x, n) => {
            let step = |y: f64| { let z = y * *n as f64; (z - z.round()).abs() < 1e-3 * *n as f64 };
            let Ok(y) = g.parse::<f64>() else { return false };
            num(*x, if *n >= 1000 { 0.1 } else { 1.0 }) && (0.0..=1.0).contains(&y) && (*n > 50 || !step(*x) || step(y))
        }
    }
}
pub fn compare(r: &mut Rng) -> Res {
    use elinor::statistical_tests::{bootstrap_test::BootstrapTester, randomized_tukey_hsd_test::RandomizedTukeyHsdTester, *};
    let n = match r.below(24) { 0 => 0, 1..=4 => 1, 5..=12 => 2, 13..=19 => 3, 20..=22 => 4, _ => 5 };
    let most = if r.chance(1, 12) { 120 } else { 9 }; let nt = if r.chance(1, 25) { 1 } else { 2 + r.below(most) };
    let ints = r.chance(1, 5);
    let topics: Vec<String> = (0..nt).map(|i| if ints { format!("{}", 3 * i + 1) } else { format!("q{i}") }).collect();
    let names = ["ap", "ndcg@5", "rr", "precision@10", "bpref", "x y", "\u{e9}"];
    let head = (*r.pick(&["query_id", "topic", "id"])).to_string();
    let bad = r.below(30);          // 0: a first header differs, 1: no common metric, 2: a file is absent
    let sep = if r.chance(1, 3) { "\t" } else { "," };
    let mut common: Vec<usize> = (0..names.len()).filter(|_| r.chance(1, 3)).collect(); if common.is_empty() { common.push(r.below(names.len())); }
    if bad == 1 { common.clear(); }
    let mut tables: Vec<(Vec<String>, Vec<String>, Vec<Vec<f64>>)> = vec![]; let mut texts = vec![]; let mut paths = vec![];
    for t in 0..n {
        let mut ms: Vec<String> = (0..names.len()).filter(|i| common.contains(i) || if bad == 1 { i % n == t } else { r.chance(1, 4) }).map(|i| names[i].to_string()).collect();
        if ms.is_empty() { ms.push(format!("own{t}")); }
        r.shuffle(&mut ms);
        let mut tp = topics.clone(); r.shuffle(&mut tp);
        let same = r.chance(1, 15);
        let vals: Vec<Vec<f64>> = tp.iter().map(|_| ms.iter().map(|_| if same { 0.5 } else { (r.below(1001) as f64) / 1000.0 }).collect()).collect();
        let h = if bad == 0 && t > 0 && t + 1 == n { "other".to_string() } else { head.clone() };
        let mut s = h + sep + &ms.join(sep) + "\n";
        for (q, v) in tp.iter().zip(&vals) { s += q; for x in v { s += sep; s += &format!("{x:.3}"); } s.push('\n'); }
        paths.push(if bad == 2 && t + 1 == n { file("absent.csv").to_string_lossy().into_owned() } else { put(&format!("sys {t}.csv"), s.as_bytes()) });
        texts.push(s); tables.push((tp, ms, vals));
    }
    let pretty = r.chance(1, 3);
    let rounds = |r: &mut Rng| match r.below(6) { 0 => None, 1 | 2 => Some(1 + r.below(8)), _ => Some(1500 + r.below(700)) };
    let (nr, ni) = (rounds(r), rounds(r));
    let mut args: Vec<String> = vec![];
    if n > 0 { args.push("--input-csvs".into()); args.extend(paths.iter().cloned()); }
    if sep == "\t" { args.push("--tab-separator".into()); }
    if !pretty || r.chance(1, 2) { args.extend(["--print-mode".into(), if pretty { "pretty" } else { "raw" }.to_string()]); }
    if let Some(x) = nr { args.extend(["--n-resamples".into(), x.to_string()]); } if let Some(x) = ni { args.extend(["--n-iters".into(), x.to_string()]); }
    let (nr, ni) = (nr.unwrap_or(10000), ni.unwrap_or(10000));
    input(format!("elinor-compare {} with the tables {texts:?}", args.join(" ")));
    // what is expected: None if the tool has to fail
    let score = |t: usize, m: &str, q: &str| { let (tp, ms, v) = &tables[t]; v[tp.iter().position(|x| x == q).unwrap()][ms.iter().position(|x| x == m).unwrap()] };
    let mean = |t: usize, m: &str| tables[t].0.iter().map(|q| score(t, m, q)).sum::<f64>() / nt as f64;
    let mut degenerate = false;
    let want: Option<Vec<L>> = (|| {
        use L::*;
        if n == 0 || bad == 2 || (bad == 0 && n > 1) { return None; }
        let ms: Vec<String> = tables[0].1.iter().filter(|m| tables.iter().all(|t| t.1.contains(m))).cloned().collect();
        if ms.is_empty() { return None; }
        let sys = |i: usize| C::S(format!("System_{}", i + 1));
        let mut w = vec![Text("# Basic statistics".into()), Row(cs(&["Key", "Value"])), Row(cs(&["n_systems", &n.to_string()])), Row(cs(&["n_topics", &nt.to_string()])), Row(cs(&["n_metrics", &tables[0].1.len().to_string()])), Text("".into())];
        if n == 1 {
            w.extend([Text("# Means".into()), Row(cs(&["Metric", "Score"]))]);
            for m in &ms { w.push(Row(vec![C::S(m.clone()), C::F(mean(0, m))])); }
            return Some(w);
        }
        w.extend([Text("# Alias".into()), Row(cs(&["Alias", "Path"]))]);
        for (i, p) in paths.iter().enumerate() { w.push(Row(vec![sys(i), C::S(p.clone())])); }
        if n == 2 {
            w.extend([Text("".into()), Text("# Means".into()), Row(cs(&["Metric", "System_1", "System_2"]))]);
            for m in &ms { w.push(Row(vec![C::S(m.clone()), C::F(mean(0, m)), C::F(mean(1, m))])); }
            let pairs = |m: &str| tables[0].0.iter().map(|q| (score(0, m, q), score(1, m, q))).collect::<Vec<_>>();
            w.extend([Text("".into()), Text("# Two-sided paired Student's t-test for (System_1 - System_2)".into()), Row(cs(&["Metric", "Mean", "Var", "ES", "t-stat", "p-value", "95% MOE"]))]);
            for m in &ms {
                let t = StudentTTest::from_paired_samples(pairs(m)).ok()?; if t.variance() < 1e-9 { degenerate = true; }
                w.push(Row(vec![C::S(m.clone()), C::F(t.mean()), C::F(t.variance()), C::F(t.effect_size()), C::F(t.t_stat()), C::F(t.p_value()), C::F(t.margin_of_error(0.05).ok()?)]));
            }
            w.extend([Text("".into()), Text(format!("# Two-sided paired Bootstrap test (n_resamples = {nr})")), Row(cs(&["Metric", "p-value"]))]);
            for m in &ms { w.push(Row(vec![C::S(m.clone()), C::P(BootstrapTester::new().with_n_resamples(nr).test(pairs(m)).ok()?.p_value(), nr)])); }
            w.extend([Text("".into()), Text(format!("# Fisher's randomized test (n_iters = {ni})")), Row(cs(&["Metric", "p-value"]))]);
            for m in &ms { w.push(Row(vec![C::S(m.clone()), C::P(RandomizedTukeyHsdTester::new(2).with_n_iters(ni).test(pairs(m).into_iter().map(|(a, b)| [a, b])).ok()?.p_values()[0][1], ni)])); }
            return Some(w);
        }
        for m in &ms {
            let rows: Vec<Vec<f64>> = tables[0].0.iter().map(|q| (0..n).map(|t| score(t, m, q)).collect()).collect();
            let a = TwoWayAnovaWithoutReplication::from_tupled_samples(rows.iter(), n).ok()?; let moe = a.margin_of_error(0.05).ok()?;
            if a.residual_variance() < 1e-9 || !a.residual_variance().is_finite() { degenerate = true; }
            w.extend([Text("".into()), Text(format!("# {m}")), Text("## System means".into()), Row(cs(&["System", "Mean", "95% MOE"]))]);
            for i in 0..n { w.push(Row(vec![sys(i), C::F(mean(i, m)), C::F(moe)])); }
            w.extend([Text("## Two-way ANOVA without replication".into()), Row(cs(&["Factor", "Variation ", "DF", "Variance", "F-stat", "p-value"]))]);
            let df = |x: usize| C::S(x.to_string());
            w.push(Row(vec![C::S("Between-systems".into()), C::F(a.between_system_variation()), df(n - 1), C::F(a.between_system_variance()), C::F(a.between_system_f_stat()), C::F(a.between_system_p_value())]));
            w.push(Row(vec![C::S("Between-topics".into()), C::F(a.between_topic_variation()), df(nt - 1), C::F(a.between_topic_variance()), C::F(a.between_topic_f_stat()), C::F(a.between_topic_p_value())]));
            w.push(Row(vec![C::S("Residual".into()), C::F(a.residual_variation()), df((n - 1) * (nt - 1)), C::F(a.residual_variance()), C::S("".into()), C::S("".into())]));
            let pairs = |w: &mut Vec<L>, title: &str, f: &dyn Fn(usize, usize) -> C| {
                let mut h = vec![C::S(title.into())]; h.extend((0..n).map(sys)); w.push(Row(h));
                for i in 0..n { let mut x = vec![sys(i)]; x.extend((0..n).map(|j| f(i, j))); w.push(Row(x)); }
            };
            let es = TukeyHsdTest::from_tupled_samples(rows.iter(), n).ok()?.effect_sizes();
            w.push(Text("## Effect sizes for Tukey HSD test".into())); pairs(&mut w, "ES", &|i, j| C::F(es[i][j]));
            let ps = RandomizedTukeyHsdTester::new(n).with_n_iters(ni).test(rows.clone()).ok()?.p_values();
            w.push(Text(format!("## p-values for randomized Tukey HSD test (n_iters = {ni})"))); pairs(&mut w, "p-value", &|i, j| C::P(ps[i][j], ni));
        }
        Some(w)
    })();
    if degenerate { return Ok(()); }
    let o = tool("elinor-compare", &args)?;
    let Some(want) = want else { return if o.status.success() { fail("exit status for tables that cannot be compared", "failure", show(&o)) } else { Ok(()) } };
    if !o.status.success() { return fail("exit status", "success", show(&o)); }
    let got = String::from_utf8_lossy(&o.stdout).into_owned();
    let lines: Vec<&str> = got.lines().filter(|l| !(pretty && l.starts_with('+'))).collect();
    for (i, w) in want.iter().enumerate() {
        let Some(g) = lines.get(i) else { return fail("number of lines printed", want.len(), lines.len()) };
        match w {
            L::Text(s) => if s != g { return fail(format!("line {i} of the output"), format!("{s:?}"), format!("{g:?}")); },
            L::Row(cells) => {
                let parts: Vec<&str> = if pretty { g.trim().trim_start_matches('|').trim_end_matches('|').split('|').map(|x| x.trim()).collect() } else { g.split('\t').collect() };
                if parts.len() != cells.len() || !cells.iter().zip(&parts).all(|(c, p)| cell_ok(c, p, pretty)) {
                    return fail(format!("line {i} of the output"), cells.iter().map(|c| match c { C::S(s) => s.clone(), C::F(x) => format!("{x:.6}"), C::P(x, n) => format!("about {x} ({n} rounds)") }).collect::<Vec<_>>().join(" | "), g);
                }
            }
        }
    }
    if lines.len() != want.len() { return fail("number of lines printed", want.len(), lines.len()); }
    Ok(())
}
