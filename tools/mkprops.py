#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

RANK = ("the ranking of a query is its predicted documents by descending predicted score, ties by ascending "
        "document id; a document is relevant when it is judged with a true score of at least 1")
INP = "all judged stores, all predicted stores (any ids, finite scores, ties, unjudged documents) and all k, k = 0 meaning the whole ranking"
T1 = "The tests evaluate one 4-document ranking with 3 judgments for k in 0..5, plus trec_eval rows at a few cutoffs; "

p("C01", "Hits and Success count the relevant documents in the top k",
  "For every evaluated query, Hits@k equals the number of relevant documents among the first k documents of the ranking (all of them when k is 0, and no more than exist when k exceeds the ranking), and Success@k is 1 exactly when that number is positive and 0 otherwise. Here " + RANK + ".",
  ["inputs"], INP, T1 + "no test covers arbitrary rankings, ties or k beyond the list.",
  ["src/metrics/hits.rs", "src/metrics/success.rs", "src/metrics.rs"],
  [("compute_hits loop over the first k predictions", "src/metrics/hits.rs"), ("compute_success early exit", "src/metrics/success.rs")],
  observe=["elinor::metrics::compute_metric", "elinor::evaluate"])
p("C02", "Precision, Recall and R-Precision are the documented ratios",
  "For every evaluated query, Precision@k is Hits@k / k with k fixed even when fewer documents are retrieved (Hits / ranking length when k is 0, and 0 for an empty ranking), Recall@k is Hits@k divided by the number of relevant judged documents of the query, and R-Precision is Precision at that number. Recall and R-Precision are 0 when the query has no relevant document.",
  ["inputs"], INP, T1 + "the no-relevant-document and k-larger-than-ranking cases are not sampled.",
  ["src/metrics/precision.rs", "src/metrics/recall.rs", "src/metrics/r_precision.rs"],
  [("compute_precision", "src/metrics/precision.rs"), ("compute_recall", "src/metrics/recall.rs"), ("compute_r_precision", "src/metrics/r_precision.rs")],
  observe=["elinor::metrics::compute_metric"])
p("C03", "F1 is the harmonic mean of Precision and Recall and always a number",
  "For every evaluated query, F1@k is 2PR/(P+R) for P = Precision@k and R = Recall@k of the same query, and 0 when both are 0. In particular it is a finite number also for queries without relevant documents or with an empty ranking.",
  ["inputs"], INP, T1 + "no sampled query lacks relevant documents, so division by zero is never exercised.",
  ["src/metrics/f1.rs"], [("compute_f1", "src/metrics/f1.rs")], observe=["elinor::metrics::compute_metric"])
p("C04", "Average precision is the mean precision at the relevant ranks",
  "For every evaluated query, AP@k is the sum, over each rank i <= k (every rank when k is 0) that holds a relevant document, of the precision at i, divided by the total number of relevant judged documents of the query. It is 0 when the query has no relevant document or no prediction.",
  ["inputs"], INP, T1 + "sums over arbitrary rankings are not reached.",
  ["src/metrics/average_precision.rs"], [("compute_average_precision", "src/metrics/average_precision.rs")], observe=["elinor::metrics::compute_metric"])
p("C05", "Reciprocal rank is 1 over the rank of the first relevant document",
  "For every evaluated query, RR@k is 1/r where r is the 1-based rank of the first relevant document if r <= k (any rank when k is 0), and 0 if there is no such document.",
  ["inputs"], INP, T1 + "the only sampled query has its first relevant document at rank 1.",
  ["src/metrics/reciprocal_rank.rs"], [("compute_reciprocal_rank", "src/metrics/reciprocal_rank.rs")], observe=["elinor::metrics::compute_metric"])
p("C06", "Bpref follows its definition and always is a number",
  "For every evaluated query with R relevant and N judged non-relevant documents, Bpref is (1/R) times the sum over retrieved relevant documents r of 1 - min(R, N_r)/min(R, N), where N_r is the number of judged non-relevant documents ranked above r and unjudged documents are ignored. A retrieved relevant document with no judged non-relevant document above it contributes exactly 1 (also when N = 0), and the score is 0 when R = 0.",
  ["inputs"], "all judged and predicted stores", "One 4-document query and trec_eval's aggregate; a query whose judgments are all relevant is not sampled.",
  ["src/metrics/bpref.rs"], [("compute_bpref single pass with a running count of non-relevant documents", "src/metrics/bpref.rs")], observe=["elinor::metrics::compute_metric"])
p("C07", "DCG discounts the gain at rank i by log2(i+1)",
  "For every evaluated query, DCG@k is the sum over ranks i = 1..k (the whole ranking when k is 0) of gain_i / log2(i+1), where the gain of a judged document is its true score (2^score - 1 for the Burges variant) and an unjudged document contributes 0.",
  ["inputs"], INP + "; true scores up to 1023, so that every gain is a finite f64", T1 + "ranks beyond 3 and gains beyond 3 are never checked.",
  ["src/metrics/ndcg.rs"], [("compute_dcg, weighted_score", "src/metrics/ndcg.rs")], observe=["elinor::metrics::compute_metric"])
p("C08", "NDCG is DCG divided by the DCG of the ideal ranking",
  "For every evaluated query, NDCG@k is DCG@k of the ranking divided by DCG@k of the query's judged documents ordered by descending true score, with the same k and the same gain function. It is 1 when that ideal DCG is 0.",
  ["inputs"], INP + "; true scores up to 1023. With k = 0 each of the two rankings is taken whole", T1 + "only one judged list and one ranking are tried.",
  ["src/metrics/ndcg.rs", "src/relevance.rs"], [("compute_ndcg", "src/metrics/ndcg.rs"), ("RelevanceStoreBuilder::build sorts the judged documents", "src/relevance.rs")], observe=["elinor::metrics::compute_metric"])
p("C09", "Evaluation yields exactly one score per predicted query, of the asked metric",
  "Evaluating succeeds exactly when every predicted query has judgments, and otherwise fails with MissingEntry. On success the result has exactly one score for each predicted query and none for any other query, each score depends only on that query's own judgments and ranking, and it is the score of the metric and k that were asked for.",
  ["inputs"], "all pairs of stores, all 13 metrics and all k", "Every test has a single query that is both judged and predicted; the missing-query branch has no test.",
  ["src/metrics.rs", "src/lib.rs"], [("compute_metric: subset check, per-query loop, dispatch on the metric", "src/metrics.rs")], observe=["elinor::metrics::compute_metric", "elinor::evaluate"])
p("C10", "Normalised metrics are always finite and within [0, 1]",
  "For every query with a score, Success, Precision, Recall, F1, R-Precision, AP, RR, Bpref, NDCG and NDCG-Burges are finite numbers between 0 and 1 inclusive (NDCG up to floating-point rounding), and Hits, DCG and DCG-Burges are finite and not negative, as long as the sums of gains do not overflow.",
  ["inputs"], "all pairs of stores, all metrics, all k; true scores for which no sum of Burges gains overflows (up to 960, say)", "The tests compare a handful of values and never state the range; the NaN-producing inputs are not sampled.",
  ["src/metrics.rs", "src/metrics/f1.rs", "src/metrics/bpref.rs", "src/metrics/ndcg.rs", "src/relevance.rs"],
  [("zero guards before each division", "src/metrics/*.rs"), ("documents are unique per query", "src/relevance.rs")], observe=["elinor::metrics::compute_metric"])
p("C11", "Evaluation summarises the scores by their mean and population variance",
  "The result of an evaluation of at least one query reports the metric it was asked for, the per-query scores, their arithmetic mean over all scored queries, the population variance (mean of squared deviations from that mean), and the standard deviation that is the square root of that variance.",
  ["inputs"], "all pairs of stores with at least one predicted query, all metrics", "One two-query example.",
  ["src/lib.rs"], [("evaluate", "src/lib.rs"), ("Evaluation accessors", "src/lib.rs")], observe=["elinor::evaluate", "elinor::Evaluation"])
p("C12", "A store holds exactly the records added, and duplicates are rejected",
  "After any sequence of accepted additions, a store has exactly the added (query, document, score) triples. Adding a (query, document) pair that is already present fails with DuplicateEntry and changes nothing, every other addition succeeds, and building a store from a sequence of records fails exactly when some pair occurs twice.",
  ["inputs", "histories"], "all sequences of additions with any keys and scores", "Tests add at most four records and one duplicate.",
  ["src/relevance.rs"], [("RelevanceStoreBuilder::add_record", "src/relevance.rs"), ("RelevanceStore::from_records", "src/relevance.rs"), ("RelevanceStoreBuilder::build", "src/relevance.rs")],
  state=[("map", "query id -> document id -> score", "src/relevance.rs")], observe=["RelevanceStore::get_map", "RelevanceStore::get_score"])
p("C13", "Rankings are complete and totally ordered by score then document id",
  "For every query, the sorted list of a built store contains each of the query's documents exactly once with its own score, in descending score order with equal scores in ascending document-id order. The order therefore depends only on the set of records and never on the order in which they were added.",
  ["inputs", "histories"], "all stores, all insertion orders, any number of ties", "One two-document query without ties.",
  ["src/relevance.rs"], [("sort_by in RelevanceStoreBuilder::build", "src/relevance.rs")], observe=["RelevanceStore::get_sorted"])
p("C14", "All views of a store agree with each other",
  "For every built store and any ids, the score lookup, the per-query map, the sorted list, the query listing and the counts describe the same records: the lookup returns a score exactly when the query's map holds that document with that score, the number of queries equals the number of listed queries, and the number of documents equals the total number of (query, document) pairs. Lookups of unknown queries or documents return nothing.",
  ["inputs"], "all built stores and all lookup keys", "Fixed stores of at most four records.",
  ["src/relevance.rs"], [("get_score / get_map / get_sorted / n_queries / n_docs / query_ids", "src/relevance.rs")], observe=["RelevanceStore"])
p("C15", "Exporting records and rebuilding gives the same store",
  "Both ways of exporting a built store as records yield, query by query in ascending query order and in ranking order within a query, exactly one record per (query, document) pair with its score. Building a store from the exported records therefore succeeds and reproduces the store.",
  ["inputs"], "all built stores", "One four-record store, compared after sorting.",
  ["src/relevance.rs"], [("records / into_records", "src/relevance.rs")], observe=["RelevanceStore::records", "RelevanceStore::into_records"])
p("C16", "Metric names round-trip and everything else is rejected",
  "For every metric and every k, parsing the metric's textual form gives back the same metric (with its k), and a metric's text is its base name alone when k is 0 and name@k otherwise. Parsing accepts exactly a known base name optionally followed by @ and a decimal k that fits the machine word, and fails with InvalidFormat on every other text.",
  ["inputs"], "all 13 metrics, all k, all strings", "44 sampled names with k in {0, 1, 100}; no rejection is tested and Display is only doc-tested for hits.",
  ["src/metrics.rs"], [("Display for Metric, format_metric", "src/metrics.rs"), ("FromStr for Metric", "src/metrics.rs")], observe=["Metric::from_str", "Metric::to_string"])
p("C17", "TREC qrels are parsed line by line into exactly the judged store",
  "Parsing qrels lines succeeds exactly when every line has at least four whitespace-separated columns, the fourth is a 32-bit integer, and no (first column, third column) pair repeats. The store then holds for each line its first column as query, third as document and fourth as score, negative scores becoming 0; a malformed line gives InvalidFormat and a repeated pair DuplicateEntry, whichever comes first.",
  ["inputs"], "all sequences of lines", "One five-line doc-test and one qrels file; no malformed line, negative score or repetition is tested.",
  ["src/trec.rs"], [("parse_true_rels_in_trec", "src/trec.rs")], observe=["elinor::trec::parse_true_rels_in_trec"])
p("C18", "TREC runs are parsed line by line into exactly the predicted store",
  "Parsing run lines succeeds exactly when every line has at least five whitespace-separated columns, the fifth is a floating-point number, and no (first column, third column) pair repeats. The store then holds for each line its first column as query, third as document and fifth as score, ignoring the rank and every other column; a malformed line gives InvalidFormat and a repeated pair DuplicateEntry, whichever comes first.",
  ["inputs"], "all sequences of lines", "One six-line doc-test and one run file; no malformed line or repetition is tested.",
  ["src/trec.rs"], [("parse_pred_rels_in_trec", "src/trec.rs")], observe=["elinor::trec::parse_pred_rels_in_trec"])
p("C19", "Score maps are aligned by key, or rejected",
  "Turning m score maps into tuples succeeds exactly when there is at least one map and all maps have the same key set, and otherwise fails with InvalidArgument. The result has one tuple per key in ascending key order, whose j-th component is that key's score in the j-th map, and pairing two maps gives the same tuples as pairs.",
  ["inputs"], "all finite sequences of maps", "Three-key maps only; differing sizes and no maps at all are not tested.",
  ["src/statistical_tests.rs"], [("tuples_from_maps, pairs_from_maps", "src/statistical_tests.rs")], observe=["elinor::statistical_tests::tuples_from_maps", "elinor::statistical_tests::pairs_from_maps"])
p("C20", "The paired t-test reports the documented statistics of the differences",
  "For any n >= 2 paired samples whose differences are not all equal, the t-test reports the mean and the unbiased variance of the differences first minus second, the effect size mean/sqrt(variance), the t statistic mean/sqrt(variance/n), the number of topics n, and the two-sided p-value of |t| under Student's t with n-1 degrees of freedom.",
  ["inputs"], "all finite sequences of finite pairs", "One textbook sample to 3-4 digits.",
  ["src/statistical_tests/student_t_test.rs"], [("StudentTTest::from_paired_samples, compute_t_stat", "src/statistical_tests/student_t_test.rs")], observe=["StudentTTest"])
p("C21", "The t-test rejects unusable input; its interval is mean plus or minus the MOE",
  "Fewer than two pairs give InvalidArgument and differences without variance give Uncomputable; every other finite input (whose statistics do not overflow) gives a test. The margin of error at level alpha is the 1 - alpha/2 quantile of Student's t with n-1 degrees of freedom times sqrt(variance/n), the confidence interval is mean minus and plus that margin, and both fail with InvalidArgument exactly when alpha is not in (0, 1] (NaN included).",
  ["inputs"], "all sequences of finite pairs, all f64 significance levels", "Levels 0, 0.05 and 1 on two samples.",
  ["src/statistical_tests/student_t_test.rs"], [("margin_of_error, confidence_interval", "src/statistical_tests/student_t_test.rs")], observe=["StudentTTest"])
p("C22", "The bootstrap p-value is the share of resamples at least as extreme",
  "The bootstrap test's p-value is the fraction, among exactly the requested number of resamples, of resamples drawn with replacement at the original size from the mean-centred differences whose |t| is at least the observed |t| (a resample without variance counting as t = 0), so it lies in [0, 1]. Fewer than two pairs give InvalidArgument, differences without variance give Uncomputable, and a requested number of resamples below 1 is raised to 1.",
  ["inputs"], "all finite sequences of finite pairs, all resample counts, all seeds", "Only one three-pair sample is tried and no p-value is checked.",
  ["src/statistical_tests/bootstrap_test.rs"], [("BootstrapTester::test", "src/statistical_tests/bootstrap_test.rs"), ("with_n_resamples", "src/statistical_tests/bootstrap_test.rs")], observe=["BootstrapTest::p_value"])
p("C23", "Seeded tests are reproducible and report the seed they used",
  "When a random state is given, the outcome of the bootstrap test and of the randomized Tukey HSD test is a function of the samples, the parameters and that state alone, and the result reports that state and the number of resamples or iterations actually used. When none is given, running again with the reported state gives the same outcome.",
  ["inputs", "histories"], "all samples, parameters and seeds; all repetitions", "One three-pair sample repeated ten times; the randomized Tukey test's seeding is not tested at all.",
  ["src/statistical_tests/bootstrap_test.rs", "src/statistical_tests/randomized_tukey_hsd_test.rs"],
  [("seeding of StdRng from random_state", "src/statistical_tests/bootstrap_test.rs"), ("seeding of StdRng from random_state", "src/statistical_tests/randomized_tukey_hsd_test.rs")], observe=["BootstrapTest::random_state", "RandomizedTukeyHsdTest::random_state"])
p("C24", "Two-way ANOVA reports the documented means, variations and variances",
  "For m >= 2 systems and n >= 2 topics, the ANOVA reports the per-system and per-topic means, the between-system, between-topic and residual variations S_A, S_B, S_E of the documented formulas, and the variances S_A/(m-1), S_B/(n-1), S_E/((m-1)(n-1)), together with m and n.",
  ["inputs"], "all n x m matrices of finite samples with a positive residual variation", "One 20x3 textbook sample and one 2x3 doc example.",
  ["src/statistical_tests/two_way_anova_without_replication.rs"], [("TwoWayAnovaWithoutReplication::from_tupled_samples", "src/statistical_tests/two_way_anova_without_replication.rs")], observe=["TwoWayAnovaWithoutReplication"])
p("C25", "ANOVA inference uses the right ratios and degrees of freedom",
  "For m >= 2 systems and n >= 2 topics, the between-system and between-topic F statistics are the ratios of their variances to the residual variance, their p-values are the upper tails of F with (m-1, (m-1)(n-1)) and (n-1, (m-1)(n-1)) degrees of freedom, and the margin of error at alpha is the 1 - alpha/2 quantile of Student's t with (m-1)(n-1) degrees of freedom times sqrt(V_E/n). The margin of error fails with InvalidArgument exactly when alpha is not in (0, 1] (NaN included).",
  ["inputs"], "all n x m matrices of finite samples with a positive residual variation, all f64 levels", "One textbook sample, at one level; no invalid level is tested.",
  ["src/statistical_tests/two_way_anova_without_replication.rs"], [("F distributions and system_t_dist", "src/statistical_tests/two_way_anova_without_replication.rs"), ("margin_of_error", "src/statistical_tests/two_way_anova_without_replication.rs")], observe=["TwoWayAnovaWithoutReplication"])
p("C26", "ANOVA and Tukey HSD reject malformed input with an error, never a panic",
  "Building the ANOVA or the Tukey HSD test fails with InvalidArgument when a record's length differs from the number of systems, when there are fewer than two records, or when there are fewer than two systems, and with Uncomputable when the computed residual variation is zero, as it is whenever all systems or all topics have the same scores. Every other finite input whose statistics do not overflow gives a test; none of them panics.",
  ["inputs"], "all finite sequences of finite records of any lengths, all numbers of systems", "Three error inputs; identical systems and fewer than two systems are never tried.",
  ["src/statistical_tests/two_way_anova_without_replication.rs", "src/statistical_tests/tukey_hsd_test.rs"], [("validation in from_tupled_samples", "src/statistical_tests/two_way_anova_without_replication.rs")], observe=["TwoWayAnovaWithoutReplication::from_tupled_samples", "TukeyHsdTest::from_tupled_samples"])
p("C27", "Tukey HSD effect sizes form the antisymmetric matrix of scaled differences",
  "For m systems the effect sizes form an m x m matrix whose (i, j) element is the difference of the i-th and j-th system means divided by the square root of the residual variance; its diagonal is zero and element (j, i) is the negation of element (i, j).",
  ["inputs"], "all n x m matrices of finite samples with a positive residual variation", "One 3-system sample.",
  ["src/statistical_tests/tukey_hsd_test.rs"], [("TukeyHsdTest::effect_sizes", "src/statistical_tests/tukey_hsd_test.rs")], observe=["TukeyHsdTest::effect_sizes"])
p("C28", "Randomized Tukey HSD p-values are shares of permutations, in a symmetric matrix",
  "For m systems the p-values form a symmetric m x m matrix with ones on the diagonal, whose (i, j) element is the fraction, among exactly the requested number of iterations, of iterations in which independently permuting every topic's scores gives a range (largest minus smallest system mean) of at least the observed absolute difference of the means of i and j; so every element is in [0, 1]. A record of the wrong length or an empty input gives InvalidArgument, and a requested number of iterations below 1 is raised to 1.",
  ["inputs"], "all sequences of finite records, numbers of systems, iteration counts and seeds", "Three inputs, none of whose p-values is checked.",
  ["src/statistical_tests/randomized_tukey_hsd_test.rs"], [("RandomizedTukeyHsdTester::test", "src/statistical_tests/randomized_tukey_hsd_test.rs")], observe=["RandomizedTukeyHsdTest::p_values"])
p("C29", "Records survive serialisation to JSON and back",
  "With the serde feature, serialising a judged or predicted record produces an object with exactly the fields query_id, doc_id and score, holding the record's values; deserialising an object with exactly those fields, in any order, yields the record with those values, and an object that lacks one of them is rejected.",
  ["inputs"], "all records with string ids and finite scores", "Sample files only.",
  ["src/relevance.rs"], [("derive(Serialize, Deserialize) on Record", "src/relevance.rs")], observe=["serde_json::to_string", "serde_json::from_str"])
p("C30", "elinor-convert writes every parsed record as one JSON line, or fails",
  "When elinor-convert exits successfully, its output file consists of one JSON line for each record of the parsed TREC input in the store's export order, for the requested relevance type; if the input cannot be parsed, or the output cannot be completely written, it exits with an error. When the input parses and no file operation fails, it exits successfully.",
  ["inputs", "fault_sequences"], "all input files, both relevance types, all write failures", "CI only checks the exit code on one qrels and one run file.",
  ["elinor-cli/src/bin/convert.rs", "elinor-cli/src/lib.rs"], [("main", "elinor-cli/src/bin/convert.rs")], observe=["process exit code and output file"])
p("C31", "elinor-evaluate prints and saves the scores the library computes",
  "When elinor-evaluate exits successfully it has printed the numbers of queries and documents of the two stores and the number of judged records with a positive score, then, for each requested metric in order (by default success@1,5,10, recall@5,10,15,20, precision@5,10,15,20, ap@5,10,15,20, ap, rr and ndcg@5,10,15,20), its name and the mean the library computes for it to four decimals; with an output path, that file is a table, separated by commas or on request by tabs, whose first column query_id lists the query ids in the library's order and which has one column per metric, under the metric's name, holding the library's per-query scores in the same order. It exits with a failure when an input file cannot be read, a line is not a record, a record repeats, a metric cannot be evaluated or the table cannot be written, and succeeds otherwise.",
  ["inputs", "configurations"], "all inputs and option combinations", "CI compares means on two qrels files to three decimals and ignores the CSV.",
  ["elinor-cli/src/bin/evaluate.rs"], [("main, default_metrics, n_relevant_docs", "elinor-cli/src/bin/evaluate.rs")], observe=["stdout and the CSV file"])
p("C32", "elinor-compare reports the tests on the scores joined by topic",
  "Given readable tables (comma- or, on request, tab-separated) whose first columns carry the same header and list the same topics once each, and whose other columns are numbers, elinor-compare prints the numbers of systems, of topics and of metric columns of the first table. With one table it prints the mean of every metric. With more it lists System_i with the i-th path. With two tables it prints, for each metric common to both in the first table's order: both systems' means; the mean, variance, effect size, t statistic, p-value and 95% margin of error of the library's paired t-test of System_1 against System_2 on the scores joined by topic; the library's bootstrap p-value with the requested resamples; and its randomized-test p-value with the requested iterations. With more tables it prints, for each metric common to all, in that order: the system means with the 95% margin of error, the two-way ANOVA table, and the effect sizes and randomized Tukey p-values of every pair as a square of row system against column system. Each statistic stands under its own row and column header, floats to four decimals and NaN as an empty cell, tab-separated in raw mode. It exits with a failure when no table is given or one cannot be read, the first headers differ, there is no common metric among several tables, or a test cannot be computed.",
  ["inputs", "configurations"], "all input tables and options", "CI only checks exit codes.",
  ["elinor-cli/src/bin/compare.rs"], [("main, compare_two_systems, compare_multiple_systems, extract_common_metrics, get_means, print_df_in_tsv, df_to_prettytable", "elinor-cli/src/bin/compare.rs")], observe=["stdout and process exit code"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
