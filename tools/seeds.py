"""Planted bugs (definitions; mkseed.py turns them into /verif/seeded)."""
SEEDS = {}
PRE = '''use elinor::*;
#[allow(unused_imports)]
use std::collections::BTreeMap;
#[allow(dead_code)]
fn store(t: &[(&str, &str, u32)], p: &[(&str, &str, f64)]) -> (TrueRelStore<String>, PredRelStore<String>) {
    (TrueRelStore::from_records(t.iter().map(|&(q, d, s)| Record { query_id: q.to_string(), doc_id: d.to_string(), score: s })).unwrap(),
     PredRelStore::from_records(p.iter().map(|&(q, d, s)| Record { query_id: q.to_string(), doc_id: d.to_string(), score: s.into() })).unwrap())
}
#[allow(dead_code)]
fn close(a: f64, b: f64) { assert!((a - b).abs() < 1e-9, "got {a}, expected {b}"); }
fn main() {
'''
def seed(i, prop, edits, needs, breaks, main=None, sh=None):
    SEEDS[i] = {'property': prop, 'edits': edits, 'needs': needs, 'breaks': breaks}
    if sh: SEEDS[i]['sh'] = sh
    else: SEEDS[i]['main'] = PRE + main + '}\n'

seed('hits-u8', 'C01', [('src/metrics/hits.rs', 'let mut hits = 0;', 'let mut hits = 0_u8;'), ('src/metrics/hits.rs', 'hits += 1;', 'hits = hits.saturating_add(1);')],
     'more than 255 relevant documents in the top k', 'Hits@k stops counting at 255.', '''
    let docs: Vec<String> = (0..300).map(|i| format!("d{i}")).collect();
    let t: Vec<_> = docs.iter().map(|d| ("q", d.as_str(), 1)).collect();
    let p: Vec<_> = docs.iter().enumerate().map(|(i, d)| ("q", d.as_str(), i as f64)).collect();
    let (t, p) = store(&t, &p);
    close(evaluate(&t, &p, Metric::Hits { k: 0 }).unwrap().mean(), 300.0);
''')
seed('rprec-short', 'C02', [('src/metrics/r_precision.rs', 'compute_precision(trues, sorted_preds, n_rels, rel_lvl)', 'compute_precision(trues, sorted_preds, n_rels.min(sorted_preds.len()), rel_lvl)')],
     'fewer documents retrieved than there are relevant ones', 'R-Precision divides by the number of retrieved documents instead of R.', '''
    let (t, p) = store(&[("q", "a", 1), ("q", "b", 1), ("q", "c", 1)], &[("q", "a", 1.0)]);
    close(evaluate(&t, &p, Metric::RPrecision).unwrap().mean(), 1.0 / 3.0);
''')
seed('ap-short', 'C04', [('src/metrics/average_precision.rs', 'sum / n_rels as f64', 'sum / n_rels.min(sorted_preds.len()) as f64')],
     'fewer documents retrieved than there are relevant ones', 'AP is normalised by the number of retrieved documents.', '''
    let (t, p) = store(&[("q", "a", 1), ("q", "b", 1), ("q", "c", 1)], &[("q", "a", 1.0)]);
    close(evaluate(&t, &p, Metric::AP { k: 0 }).unwrap().mean(), 1.0 / 3.0);
''')
seed('burges-shift', 'C07', [('src/metrics/ndcg.rs', '2.0_f64.powi(rel as i32) - 1.0', '((1_u64 << rel.min(63)) - 1) as f64')],
     'a judged score of 64 or more', 'The Burges gain is capped at 2^63 - 1.', '''
    let (t, p) = store(&[("q", "a", 70)], &[("q", "a", 1.0)]);
    let s = evaluate(&t, &p, Metric::DCGBurges { k: 1 }).unwrap().mean();
    assert!((s / 2f64.powi(70) - 1.0).abs() < 1e-9, "got {s}");
''')
seed('ndcg-k0', 'C08', [('src/metrics/ndcg.rs', '    let dcg = compute_dcg(trues, sorted_preds, k, weighting);', '    let k = if k == 0 { sorted_preds.len() } else { k };\n    let dcg = compute_dcg(trues, sorted_preds, k, weighting);')],
     'k = 0 and more judged than retrieved documents', 'With k = 0 the ideal ranking is cut at the number of retrieved documents.', '''
    let (t, p) = store(&[("q", "a", 1), ("q", "b", 1)], &[("q", "a", 1.0)]);
    close(evaluate(&t, &p, Metric::NDCG { k: 0 }).unwrap().mean(), 1.0 / (1.0 + 1.0 / 3f64.log2()));
''')
seed('skip-unjudged', 'C09', [('src/metrics.rs', '''    for query_id in pred_rels.query_ids() {
        if true_rels.get_map(query_id).is_none() {''', '''    for query_id in pred_rels.query_ids().take(true_rels.n_queries().max(1)) {
        if true_rels.get_map(query_id).is_none() {'''), ('src/metrics.rs', '        let trues = true_rels.get_map(query_id).unwrap();', '        let Some(trues) = true_rels.get_map(query_id) else {\n            continue;\n        };')],
     'more predicted than judged queries, the missing one sorting last', 'A predicted query without judgments is silently skipped.', '''
    let (t, p) = store(&[("a", "x", 1)], &[("a", "x", 1.0), ("b", "x", 1.0)]);
    assert!(matches!(evaluate(&t, &p, Metric::Hits { k: 0 }), Err(ElinorError::MissingEntry(_))));
''')
seed('mean-over-judged', 'C11', [('src/lib.rs', 'let mean = scores.values().sum::<f64>() / scores.len() as f64;', 'let mean = scores.values().sum::<f64>() / true_rels.n_queries() as f64;')],
     'judged queries without predictions', 'The mean divides by the number of judged queries.', '''
    let (t, p) = store(&[("a", "x", 1), ("b", "x", 1)], &[("a", "x", 1.0)]);
    close(evaluate(&t, &p, Metric::Hits { k: 0 }).unwrap().mean(), 1.0);
''')
seed('dup-overwrites', 'C12', [('src/relevance.rs', '        if rels.contains_key(&doc_id) {', '        if rels.insert(doc_id.clone(), score).is_some() {'), ('src/relevance.rs', '        rels.insert(doc_id, score);\n', '')],
     'a rejected addition followed by further use of the builder', 'A rejected duplicate still overwrites the stored score.', '''
    let mut b = TrueRelStoreBuilder::new();
    b.add_record("q".to_string(), "d".to_string(), 1).unwrap();
    assert!(b.add_record("q".to_string(), "d".to_string(), 2).is_err());
    assert_eq!(b.build().get_score("q", "d"), Some(&1));
''')
seed('tie-order', 'C13', [('src/relevance.rs', 'sorted.sort_by(|a, b| b.score.cmp(&a.score).then(a.doc_id.cmp(&b.doc_id)));', 'sorted.sort_by(|a, b| b.score.cmp(&a.score).then(b.doc_id.cmp(&a.doc_id)));')],
     'documents with equal scores', 'Ties are broken by descending document id.', '''
    let (_, p) = store(&[("q", "a", 1)], &[("q", "a", 1.0), ("q", "b", 1.0)]);
    assert_eq!(p.get_sorted("q").unwrap()[0].doc_id, "a");
''')
seed('records-by-id', 'C15', [('src/relevance.rs', '''                data.sorted.iter().map(move |rel| Record {
                    query_id: query_id.clone(),
                    doc_id: rel.doc_id.clone(),
                    score: rel.score.clone(),
                })''', '''                data.map.iter().map(move |(doc_id, score)| Record {
                    query_id: query_id.clone(),
                    doc_id: doc_id.clone(),
                    score: score.clone(),
                })''')],
     'scores not descending in document-id order', 'records() lists documents by id instead of in ranking order.', '''
    let (t, _) = store(&[("a", "x", 1), ("a", "y", 2)], &[("a", "x", 1.0)]);
    assert_eq!(t.records()[0].doc_id, "y");
''')
seed('name-k32', 'C16', [('src/metrics.rs', '.map(|m| m.as_str().parse::<usize>())', '.map(|m| m.as_str().parse::<u32>().map(|k| k as usize))')],
     'a cutoff above 2^32', 'Names with a large k no longer parse.', '''
    let m = Metric::AP { k: 5_000_000_000 };
    assert_eq!(m.to_string().parse::<Metric>().unwrap(), m);
''')
seed('name-unanchored', 'C16', [('src/metrics.rs', 'r"^(?<metric>[a-z1-9_]+)(@(?<k>\\d+))?$"', 'r"(?<metric>[a-z1-9_]+)(@(?<k>\\d+))?$"')],
     'a name preceded by other characters', 'Text before a metric name is ignored.', '''
    assert!("X ap@5".parse::<Metric>().is_err());
''')
seed('qrels-abs', 'C17', [('src/trec.rs', 'TrueScore::try_from(score.max(0)).unwrap()', 'TrueScore::from(score.unsigned_abs())')],
     'a negative judgment', 'Negative scores become positive.', '''
    let t = trec::parse_true_rels_in_trec(["q 0 d -1"]).unwrap();
    assert_eq!(t.get_score("q", "d"), Some(&0));
''')
seed('run-column', 'C18', [('src/trec.rs', 'rows[4].parse::<PredScore>()', 'rows[rows.len() - 2].parse::<PredScore>()')],
     'a line without exactly six columns', 'The score is taken from the last but one column.', '''
    let t = trec::parse_pred_rels_in_trec(["q Q0 d 1 2.5"]).unwrap();
    assert_eq!(t.get_score("q", "d").unwrap().into_inner(), 2.5);
''')
seed('tuples-superset', 'C19', [('src/statistical_tests.rs', 'if maps[0].len() != maps[i].len() {', 'if maps[0].len() > maps[i].len() {'), ('src/statistical_tests.rs', 'if maps[0].keys().ne(maps[i].keys()) {', 'if !maps[0].keys().all(|k| maps[i].contains_key(k)) {')],
     'a later map with additional keys', 'Maps with more keys than the first are accepted.', '''
    let a: BTreeMap<&str, f64> = [("a", 1.0)].into();
    let b: BTreeMap<&str, f64> = [("a", 1.0), ("b", 2.0)].into();
    assert!(statistical_tests::tuples_from_maps([&a, &b]).is_err());
    assert!(statistical_tests::pairs_from_maps(&a, &b).is_err());
''')
seed('convert-zero', 'C30', [('elinor-cli/src/bin/convert.rs', 'let true_records = true_rels.into_records();', 'let true_records = true_rels.into_records().into_iter().filter(|r| r.score > 0);')],
     'a judged document with score 0', 'elinor-convert drops non-relevant judgments.', sh='''
printf 'q 0 a 1\\nq 0 b 0\\n' > "$D/in"
"$B/elinor-convert" -i "$D/in" -o "$D/out" -r true || exit 3
[ "$(wc -l < "$D/out")" = 2 ]
''')
seed('f1-deep', 'C03', [('src/metrics/f1.rs', 'let precision = hits / k as f64;', 'let precision = hits / k.min(1000) as f64;')],
     'a cutoff (or ranking) beyond 1000', 'The precision inside F1@k divides by at most 1000.', '''
    let (t, p) = store(&[("q", "a", 1), ("q", "b", 1)], &[("q", "a", 1.0)]);
    close(evaluate(&t, &p, Metric::F1 { k: 2000 }).unwrap().mean(), 2.0 * 0.0005 * 0.5 / 0.5005);
''')
seed('rr-deep', 'C05', [('src/metrics/reciprocal_rank.rs', 'return 1.0 / (i as f64 + 1.0);', 'return 1.0 / (f64::from(i as u8) + 1.0);')],
     'a first relevant document below rank 256', 'The rank wraps around at 256.', '''
    let docs: Vec<String> = (0..300).map(|i| format!("d{i:03}")).collect();
    let p: Vec<_> = docs.iter().map(|d| ("q", d.as_str(), 1.0)).collect();
    let (t, p) = store(&[("q", "d280", 1)], &p);
    close(evaluate(&t, &p, Metric::RR { k: 0 }).unwrap().mean(), 1.0 / 281.0);
''')
seed('bpref-cap', 'C06', [('src/metrics/bpref.rs', 'n_non_rels_so_far += 1.0;', 'n_non_rels_so_far = (n_non_rels_so_far + 1.0).min(1000.0);')],
     'more than 1000 relevant documents below more than 1000 judged non-relevant ones', 'Bpref stops counting non-relevant documents at 1000.', '''
    let docs: Vec<String> = (0..2400).map(|i| format!("d{i:04}")).collect();
    let t: Vec<_> = docs.iter().enumerate().map(|(i, d)| ("q", d.as_str(), u32::from(i >= 1200))).collect();
    let p: Vec<_> = docs.iter().map(|d| ("q", d.as_str(), 1.0)).collect();
    let (t, p) = store(&t, &p);
    close(evaluate(&t, &p, Metric::Bpref).unwrap().mean(), 0.0);
''')
seed('ndcg-burges-k', 'C08', [('src/metrics.rs', '''                    sorted_preds,
                    k,
                    ndcg::DcgWeighting::Burges,''', '''                    sorted_preds,
                    k.min(1000),
                    ndcg::DcgWeighting::Burges,''')],
     'a cutoff above 1000 and a relevant document between', 'NDCG-Burges ignores ranks beyond 1000.', '''
    let docs: Vec<String> = (0..1100).map(|i| format!("d{i:04}")).collect();
    let p: Vec<_> = docs.iter().map(|d| ("q", d.as_str(), 1.0)).collect();
    let (t, p) = store(&[("q", "d1050", 1)], &p);
    assert!(evaluate(&t, &p, Metric::NDCGBurges { k: 1100 }).unwrap().mean() > 0.0);
''')
seed('recall-graded', 'C10', [('src/metrics/recall.rs', '.filter(|&&rel| rel >= rel_lvl)', '.filter(|&&rel| rel.min(3) == rel_lvl || rel > rel_lvl && rel < 9)')],
     'judgments of nine or more', 'Recall does not count high grades as relevant in its denominator, so it can exceed 1.', '''
    let (t, p) = store(&[("q", "a", 9), ("q", "b", 1)], &[("q", "a", 2.0), ("q", "b", 1.0)]);
    assert!(evaluate(&t, &p, Metric::Recall { k: 0 }).unwrap().mean() <= 1.0);
''')
seed('mean-large', 'C11', [('src/lib.rs', '/ scores.len() as f64;\n    Ok', '/ (scores.len() - scores.len() / 1000) as f64;\n    Ok')],
     'a thousand queries or more', 'The variance is divided by a smaller number.', '''
    let docs: Vec<String> = (0..2000).map(|i| format!("q{i}")).collect();
    let t: Vec<_> = docs.iter().map(|q| (q.as_str(), "d", 1)).collect();
    let p: Vec<_> = docs.iter().enumerate().map(|(i, q)| (q.as_str(), if i < 1000 { "d" } else { "x" }, 1.0)).collect();
    let (t, p) = store(&t, &p);
    close(evaluate(&t, &p, Metric::Hits { k: 0 }).unwrap().variance(), 0.25);
''')
seed('ranking-limit', 'C14', [('src/relevance.rs', 'map.insert(query_id, RelevanceData { sorted, map: rels });', 'sorted.truncate(65536);\n            map.insert(query_id, RelevanceData { sorted, map: rels });')],
     'a query with more than 65536 documents', 'The sorted list is cut while the map and the counts are not.', '''
    let docs: Vec<String> = (0..65540).map(|i| format!("d{i}")).collect();
    let p: Vec<_> = docs.iter().map(|d| ("q", d.as_str(), 1.0)).collect();
    let (_, p) = store(&[], &p);
    assert_eq!(p.get_sorted("q").unwrap().len(), p.get_map("q").unwrap().len());
''')
seed('qrels-i16', 'C17', [('src/trec.rs', 'TrueScore::try_from(score.max(0)).unwrap()', 'TrueScore::try_from(score.clamp(0, i32::from(i16::MAX))).unwrap()')],
     'a judgment above 32767', 'Large judgments are capped.', '''
    let t = trec::parse_true_rels_in_trec(["q 0 d 40000"]).unwrap();
    assert_eq!(t.get_score("q", "d"), Some(&40000));
''')
seed('run-ascii', 'C18', [('src/trec.rs', '''let rows = line.split_whitespace().collect::<Vec<_>>();
        if rows.len() < 5''', '''let rows = line.split_ascii_whitespace().collect::<Vec<_>>();
        if rows.len() < 5''')],
     'columns separated by a non-ASCII space', 'Only ASCII white space separates columns.', '''
    let t = trec::parse_pred_rels_in_trec(["q Q0\\u{a0}d 1 2.5 tag"]).unwrap();
    assert_eq!(t.get_score("q", "d").unwrap().into_inner(), 2.5);
''')
seed('tuples-ninth', 'C19', [('src/statistical_tests.rs', 'for i in 1..maps.len() {\n        if maps[0].len()', 'for i in 1..maps.len().min(8) {\n        if maps[0].len()')],
     'nine or more maps, of which a late one differs', 'Only the first eight maps are checked.', '''
    let a: BTreeMap<&str, f64> = [("a", 1.0)].into();
    let b: BTreeMap<&str, f64> = [("a", 1.0), ("b", 2.0)].into();
    let mut maps = vec![&a; 8];
    maps.push(&b);
    assert!(statistical_tests::tuples_from_maps(maps).is_err());
''')
seed('score-default', 'C29', [('src/relevance.rs', '    /// Relevance score.\n    pub score: T,\n}\n\n/// Data to store', '    /// Relevance score.\n    #[cfg_attr(feature = "serde", serde(default))]\n    pub score: T,\n}\n\n/// Data to store')],
     'an object without score', 'A missing score reads as 0.', '''
    assert!(serde_json::from_str::<TrueRecord<String>>(r#"{"query_id":"q","doc_id":"d","score":1}"#).is_ok());
    assert!(serde_json::from_str::<TrueRecord<String>>(r#"{"query_id":"q","doc_id":"d"}"#).is_err());
''')
seed('lines-utf8', 'C30', [('elinor-cli/src/lib.rs', 'reader.lines().collect::<Result<Vec<_>, _>>()?', 'reader.lines().map_while(Result::ok).collect::<Vec<_>>()')],
     'a line that is not valid UTF-8', 'Everything from an unreadable line on is silently dropped.', sh='''
printf 'q 0 a 1\\nq 0 \\377 1\\nq 0 c 1\\n' > "$D/in"
! "$B/elinor-convert" -i "$D/in" -o "$D/out" -r true
''')
seed('evaluate-skip', 'C31', [('elinor-cli/src/bin/evaluate.rs', '.map(|line| serde_json::from_str::<TrueRecord<String>>(&line).unwrap());', '.filter_map(|line| serde_json::from_str::<TrueRecord<String>>(&line).ok());')],
     'a line of the judgments that is not a record', 'Unreadable judgments are ignored.', sh='''
printf '{"query_id":"q","doc_id":"a","score":1}\\n{"query_id":"q","doc_id":"b","score":-1}\\n' > "$D/t"
printf '{"query_id":"q","doc_id":"a","score":0.5}\\n' > "$D/p"
! "$B/elinor-evaluate" -t "$D/t" -p "$D/p" -m rr > "$D/out" 2>&1
''')
seed('evaluate-swallow', 'C31', [('elinor-cli/src/bin/evaluate.rs', '.finish(&mut df)?;', '.finish(&mut df)\n            .ok();')],
     'an output file that cannot be written', 'The tool succeeds although the table was not written.', sh='''
printf '{"query_id":"q","doc_id":"a","score":1}\\n' > "$D/t"
printf '{"query_id":"q","doc_id":"a","score":0.5}\\n' > "$D/p"
"$B/elinor-evaluate" -t "$D/t" -p "$D/p" -m rr -o "$D/ok" > "$D/out" || exit 3
! "$B/elinor-evaluate" -t "$D/t" -p "$D/p" -m rr -o /dev/full > "$D/out" 2>&1
''')
seed('compare-fastpath', 'C32', [('elinor-cli/src/bin/compare.rs', """        let joined = system_1
            .clone()""", """        if system_1.get_columns()[0].get(0)? == system_2.get_columns()[0].get(0)? {
            df_metrics.push(system_1.hstack(&[system_2.column("system_2")?.clone()])?);
            continue;
        }
        let joined = system_1
            .clone()""")],
     'two tables that start with the same topic but list the others in different orders', 'Tables that seem to be in the same order are paired by position.', sh="""
printf 'topic,m\\na,0.5\\nb,0.75\\nc,0.25\\n' > "$D/x.csv"
printf 'topic,m\\na,0.25\\nc,0.25\\nb,0.5\\n' > "$D/y.csv"
"$B/elinor-compare" -i "$D/x.csv" "$D/y.csv" -p raw --n-iters 10 --n-resamples 10 > "$D/out" || exit 3
grep -q "^m	0.1667	0.0208	" "$D/out"
""")
seed('compare-common', 'C32', [('elinor-cli/src/bin/compare.rs', 'metrics.contains(metric));', 'metrics.contains(metric) || metrics.len() == 1);')],
     'tables of which one has a single metric that the first lacks', 'Metrics that are not common count as common.', sh='''
printf 'topic,m\\na,0.5\\nb,0.25\\n' > "$D/x.csv"
printf 'topic,n\\na,0.5\\nb,0.5\\n' > "$D/y.csv"
printf 'topic,m,n\\na,0.5,0.25\\nb,0.25,0.5\\n' > "$D/z.csv"
"$B/elinor-compare" -i "$D/x.csv" "$D/z.csv" -p raw --n-iters 10 --n-resamples 10 > "$D/o1" 2> /dev/null
"$B/elinor-compare" -i "$D/z.csv" "$D/y.csv" -p raw --n-iters 10 --n-resamples 10 > "$D/out" || exit 3
! grep -q "^m	" "$D/out"
''')
seed('compare-inf', 'C32', [('elinor-cli/src/bin/compare.rs', '''                        if value.is_nan() {
                            ""''', '''                        if !value.is_finite() {
                            ""''')],
     'an infinite statistic, printed in raw mode', 'Infinite values are printed as empty cells.', sh='''
printf 'topic,m\\na,0.5\\nb,inf\\n' > "$D/x.csv"
"$B/elinor-compare" -i "$D/x.csv" -p raw > "$D/out" || exit 3
grep -q "^m	inf$" "$D/out"
''')
