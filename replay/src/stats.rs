//! C19-C28
use crate::util::*;
use crate::{class, fail, input, Fail, Res};
use elinor::statistical_tests::bootstrap_test::BootstrapTester;
use elinor::statistical_tests::randomized_tukey_hsd_test::RandomizedTukeyHsdTester;
use elinor::statistical_tests::*;
use elinor::ElinorError;
use statrs::distribution::{ContinuousCDF, FisherSnedecor, StudentsT};
use std::collections::{BTreeMap, BTreeSet};

fn kind(e: &ElinorError) -> &'static str {
    match e { ElinorError::DuplicateEntry(_) => "DuplicateEntry", ElinorError::MissingEntry(_) => "MissingEntry", ElinorError::Uncomputable(_) => "Uncomputable", ElinorError::InvalidArgument(_) => "InvalidArgument", ElinorError::InvalidFormat(_) => "InvalidFormat" }
}
fn cut(s: String) -> String { if s.len() > 6000 { format!("{}... ({} bytes)", s.chars().take(6000).collect::<String>(), s.len()) } else { s } }
fn want<T: std::fmt::Debug>(what: &str, e: Result<(), &str>, g: &Result<T, ElinorError>) -> Result<bool, Fail> {
    match (e, g) {
        (Ok(()), Ok(_)) => Ok(true),
        (Err(k), Err(x)) if kind(x) == k => Ok(false),
        _ => Err(Fail::new(what, e.map_or_else(|k| format!("Err({k})"), |_| "Ok".into()), cut(format!("{g:?}")))),
    }
}
// ------------------------------------------------------------------ C19
pub fn tuples(r: &mut Rng) -> Res {
    let m = r.size(0, 4, 300); let n = if m > 10 { 1 + r.below(4) } else { r.size(0, 7, 4200) };
    let mut keys: BTreeSet<String> = (0..n).map(|_| r.id("k", 2 * n)).collect();
    if n > 20 { keys = (0..n).map(|i| format!("k{i}")).collect(); }
    let keys: Vec<String> = keys.into_iter().collect();
    let mut maps: Vec<BTreeMap<String, f64>> = vec![];
    let spoil = r.chance(2, 5); let at = r.below(m.max(1));
    for j in 0..m {
        let mut mp: BTreeMap<String, f64> = keys.iter().map(|k| (k.clone(), r.range(-4, 9) as f64 / 8.0)).collect();
        if spoil && j == at {
            match r.below(3) {
                0 => { if !keys.is_empty() { let k = &keys[r.below(keys.len())]; mp.remove(k); } }
                1 => { mp.insert(r.id("z", 9), 1.0); }
                _ => { if !keys.is_empty() { let k = &keys[r.below(keys.len())]; let v = mp.remove(k).unwrap(); mp.insert(format!("{k}x"), v); } }
            }
        }
        maps.push(mp);
    }
    input(cut(format!("maps {maps:?}")));
    let ok = m > 0 && maps.iter().all(|x| x.keys().eq(maps[0].keys()));
    let g = tuples_from_maps(maps.iter());
    if want("tuples_from_maps", if ok { Ok(()) } else { Err("InvalidArgument") }, &g)? {
        let e: Vec<Vec<f64>> = maps[0].keys().map(|k| maps.iter().map(|x| x[k]).collect()).collect();
        if g.as_ref().unwrap() != &e { return fail("the tuples", cut(format!("{e:?}")), cut(format!("{g:?}"))); }
    }
    if m >= 2 {
        let ok = maps[0].keys().eq(maps[1].keys());
        let g = pairs_from_maps(&maps[0], &maps[1]);
        if want("pairs_from_maps", if ok { Ok(()) } else { Err("InvalidArgument") }, &g)? {
            let e: Vec<(f64, f64)> = maps[0].keys().map(|k| (maps[0][k], maps[1][k])).collect();
            if g.as_ref().unwrap() != &e { return fail("the pairs", cut(format!("{e:?}")), cut(format!("{g:?}"))); }
        }
    }
    Ok(())
}
// ------------------------------------------------------------------ samples
fn value(r: &mut Rng, scale: f64) -> f64 {
    if r.chance(1, 40) { if let Some(c) = r.fconst() { if c.abs() < 1e6 { return c; } } }
    r.range(-40, 40) as f64 / 16.0 * scale
}
fn pairs(r: &mut Rng, cap: usize, small: usize) -> Vec<(f64, f64)> {
    let n = r.size(0, small, cap);
    let scale = [1.0, 1.0, 1.0, 1024.0, 1.0 / 1024.0][r.below(5)];
    match r.below(8) {
        0 if r.chance(1, 3) => { let c = value(r, 0.1); (0..n).map(|_| (c, 0.0)).collect() }
        0 => { let c = r.range(-3, 3) as f64 * scale; (0..n).map(|_| { let x = r.range(-8, 8) as f64 * scale; (x + c, x) }).collect() }
        1 => { let c = r.range(-3, 3) as f64; let mut v: Vec<(f64, f64)> = (0..n).map(|_| { let x = r.range(-8, 8) as f64; (x + c, x) }).collect(); if n > 0 { let i = r.below(n); v[i].0 += if r.chance(1, 2) { 1.0 } else { 1.0 / 1024.0 }; } v }
        _ => (0..n).map(|_| (value(r, scale), value(r, scale))).collect(),
    }
}
struct D { n: f64, mean: f64, var: f64, t: f64 }
fn dstat(d: &[f64]) -> D {
    let n = d.len() as f64; let mean = d.iter().sum::<f64>() / n;
    let var = d.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / (n - 1.0);
    D { n, mean, var, t: mean / (var / n).sqrt() }
}
fn expect_t(p: &[(f64, f64)]) -> Option<Result<(), &'static str>> {
    if p.len() < 2 { return Some(Err("InvalidArgument")); }
    let d: Vec<f64> = p.iter().map(|(a, b)| a - b).collect();
    if d.iter().all(|x| *x == d[0]) { return Some(Err("Uncomputable")); }
    let s = dstat(&d); let mx = d.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    if s.var < 1e-16 * mx * mx { None } else { Some(Ok(())) }
}
/// sums of a few thousand copies are exact
fn exact_sum(d: f64) -> bool { (d * 1048576.0).fract() == 0.0 && d.abs() < 65536.0 }
fn num(what: &str, e: f64, g: f64, tol: f64) -> Res { if relclose(e, g, tol) || (e - g).abs() < 1e-12 { Ok(()) } else { fail(what, e, g) } }
fn alphas(r: &mut Rng) -> Vec<f64> {
    let mut v = vec![0.05, 1.0, 0.5, 0.0, -0.05, 1.0 + f64::EPSILON, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 2.0, -0.0, 1e-3, 0.9];
    v.push(r.unit()); if let Some(c) = r.fconst() { v.push(c); }
    let i = r.below(v.len()); vec![v[i], v[0], v[r.below(v.len())]]
}
fn alpha_ok(a: f64) -> bool { a > 0.0 && a <= 1.0 }
pub fn ttest(prop: &str, r: &mut Rng) -> Res {
    let p = pairs(r, 4200, 9);
    input(cut(format!("pairs {p:?}")));
    let Some(e) = expect_t(&p) else { return Ok(()) };
    if e.is_err() && prop == "C20" { return Ok(()); }
    if e.is_err() && p.len() >= 2 && !exact_sum(p[0].0 - p[0].1) { class("C21-rounding"); }
    let g = StudentTTest::from_paired_samples(p.clone());
    if !want("from_paired_samples", e, &g)? { return Ok(()); }
    let g = g.unwrap();
    let d: Vec<f64> = p.iter().map(|(a, b)| a - b).collect(); let s = dstat(&d);
    let mx = d.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    let tol = 1e-7; let atol = |a: f64, b: f64| (a - b).abs() <= 1e-10 * mx;
    if prop == "C20" {
        if g.n_topics() != p.len() { return fail("n_topics", p.len(), g.n_topics()); }
        if !atol(g.mean(), s.mean) { return fail("mean", s.mean, g.mean()); }
        num("variance", s.var, g.variance(), tol)?;
        let small = s.mean.abs() < 1e-9 * mx;
        if !small { num("effect_size", s.mean / s.var.sqrt(), g.effect_size(), 1e-5)?; num("t_stat", s.t, g.t_stat(), 1e-5)?; } else if g.t_stat().abs() > 1e-6 || g.effect_size().abs() > 1e-6 { return fail("t_stat", s.t, g.t_stat()); }
        let pv = 2.0 * StudentsT::new(0.0, 1.0, s.n - 1.0).unwrap().sf(s.t.abs());
        if (pv - g.p_value()).abs() > 1e-6 + 1e-4 * pv || g.p_value().is_nan() { return fail("p_value", pv, g.p_value()); }
        return Ok(());
    }
    for a in alphas(r) {
        input(cut(format!("alpha {a:?} pairs {p:?}"))); class(if a.is_nan() { "C21-nan-alpha" } else { "" });
        let m = g.margin_of_error(a); let c = g.confidence_interval(a);
        let e = if alpha_ok(a) { Ok(()) } else { Err("InvalidArgument") };
        let (x, y) = (want("margin_of_error", e, &m)?, want("confidence_interval", e, &c)?);
        if x && y && a > 1e-6 {
            let (m, c) = (m.unwrap(), c.unwrap());
            // the quantile is judged through the distribution function: P(|T| > moe/scale) = alpha
            let t = StudentsT::new(0.0, 1.0, s.n - 1.0).unwrap(); let back = 2.0 * t.sf(m / (s.var / s.n).sqrt());
            if (back - a).abs() > 1e-4 { return fail("two-sided tail at the margin of error", a, back); }
            if !((c.0 - (g.mean() - m)).abs() <= 1e-9 * (mx + m.abs()) && (c.1 - (g.mean() + m)).abs() <= 1e-9 * (mx + m.abs())) { return fail("confidence interval", format!("({}, {})", g.mean() - m, g.mean() + m), format!("{c:?}")); }
        }
    }
    Ok(())
}
// ------------------------------------------------------------------ C22
fn tabs(d: &[f64]) -> f64 { if d.iter().all(|x| *x == d[0]) { return 0.0; } let s = dstat(d); if s.var <= 0.0 { 0.0 } else { s.t.abs() } }
/// probability that a resample is at least as extreme: exact bounds for small n (ties within rounding make an interval), otherwise own simulation
fn boot_prob(r: &mut Rng, d: &[f64]) -> (f64, f64, f64, f64) {
    let n = d.len(); let s = dstat(d); let t0 = s.t.abs(); let c: Vec<f64> = d.iter().map(|x| x - s.mean).collect();
    let (lo_t, hi_t) = (t0 * (1.0 + 1e-9) + 1e-9, t0 * (1.0 - 1e-9) - 1e-9);
    let (mut lo, mut hi, mut tot, mut flat) = (0u64, 0u64, 0u64, 0u64);
    let exact = n <= 5; let total = if exact { (n as u64).pow(n as u32) } else { (2_000_000 / n as u64).clamp(200, 30000) };
    let mut v = vec![0.0; n];
    for x in 0..total {
        let mut y = x;
        for e in v.iter_mut() { if exact { *e = c[(y % n as u64) as usize]; y /= n as u64; } else { *e = c[r.below(n)]; } }
        // equal entries may be an exact tie or not: a resample without variance counts as 0
        let t = tabs(&v); if v.iter().all(|x| *x == v[0]) { flat += 1; }
        tot += 1; if t >= lo_t { lo += 1; } if t >= hi_t { hi += 1; }
    }
    (lo as f64 / tot as f64, hi as f64 / tot as f64, flat as f64 / tot as f64, if exact { f64::INFINITY } else { tot as f64 })
}
fn within(lo: f64, hi: f64, own: f64, b: f64, p: f64) -> bool {
    let sd = |q: f64| { let q = q.clamp(1.0 / b.min(own).min(1e6), 1.0 - 1.0 / b.min(own).min(1e6)); (q * (1.0 - q) * (1.0 / b + 1.0 / own)).sqrt() };
    p >= lo - 6.5 * sd(lo) - 3.0 / b && p <= hi + 6.5 * sd(hi) + 3.0 / b
}
pub fn bootstrap(r: &mut Rng) -> Res {
    let small = if r.chance(1, 3) { 12 } else { 4 };
    let p = pairs(r, 1500, small);
    let b = if p.len() > 20 { 300 } else { match r.below(6) { 0 => 0, 1 => 1, 2 => r.int(0, 20000, 50) as usize, _ => 2000 } };
    let seed = r.int(0, u64::MAX as i128, 100) as u64;
    input(cut(format!("pairs {p:?} n_resamples {b} state {seed}")));
    let Some(e) = expect_t(&p) else { return Ok(()) };
    if e.is_err() && p.len() >= 2 && !exact_sum(p[0].0 - p[0].1) { class("C22-rounding"); }
    let g = BootstrapTester::new().with_n_resamples(b).with_random_state(seed).test(p.clone());
    if !want("bootstrap test", e, &g)? { return Ok(()); }
    class(""); let g = g.unwrap(); let b = b.max(1);
    if g.n_resamples() != b { return fail("n_resamples", b, g.n_resamples()); }
    if g.n_topics() != p.len() { return fail("n_topics", p.len(), g.n_topics()); }
    let x = g.p_value() * b as f64;
    if !(g.p_value() >= 0.0 && g.p_value() <= 1.0) || (x - x.round()).abs() > 1e-6 { return fail("the p-value is a multiple of 1/n_resamples in [0, 1]", format!("k/{b}"), g.p_value()); }
    let d: Vec<f64> = p.iter().map(|(a, b)| a - b).collect();
    let (lo, hi, flat, own) = boot_prob(r, &d);
    // resamples of equal non-dyadic values may be left with a tiny variance by rounding
    let rounding = |p: f64, b: f64| if within(lo, hi + flat, own, b, p) { class("C22-rounding") };
    if b >= 200 && !within(lo, hi, own, b as f64, g.p_value()) { rounding(g.p_value(), b as f64); return fail(format!("the share of extreme resamples out of {b} (bounds of its expectation)"), format!("[{lo}, {hi}]"), g.p_value()); }
    if r.chance(1, 12) {
        let t = BootstrapTest::from_paired_samples(p.clone());
        match t { Ok(t) => { if !within(lo, hi, own, t.n_resamples() as f64, t.p_value()) { rounding(t.p_value(), t.n_resamples() as f64); return fail("the share of extreme resamples (default tester)", format!("[{lo}, {hi}]"), t.p_value()); } } Err(e) => return fail("default bootstrap test", "Ok", e) }
    }
    Ok(())
}
// ------------------------------------------------------------------ C23
pub fn seeds(r: &mut Rng) -> Res {
    let p = pairs(r, 300, 8); let seed = r.int(0, u64::MAX as i128, 100) as u64; let b = 1 + r.int(0, 3000, 400) as usize;
    if expect_t(&p) == Some(Ok(())) {
        input(cut(format!("bootstrap pairs {p:?} n_resamples {b} state {seed}")));
        let h = r.below(4); let b2 = 1 + r.below(50); let s2 = r.below(1000) as u64;
        input(cut(format!("bootstrap pairs {p:?} n_resamples {b} state {seed}, set {}", ["count first", "state first", "count, state, count", "state, count, state"][h])));
        let f = |s: Option<u64>| { let t = BootstrapTester::new(); match s {
            Some(s) => match h { 0 => t.with_n_resamples(b).with_random_state(s), 1 => t.with_random_state(s).with_n_resamples(b), 2 => t.with_n_resamples(b2).with_random_state(s).with_n_resamples(b), _ => t.with_random_state(s2).with_n_resamples(b).with_random_state(s) }.test(p.clone()),
            None => t.with_n_resamples(b2).with_n_resamples(b).test(p.clone()) } };
        if p.len() < 10 && r.chance(1, 8) {
            for (w, t) in [("new", BootstrapTester::new()), ("default", BootstrapTester::default())] { if let Ok(g) = t.test(p.clone()) { if g.n_resamples() != 10000 { return fail(format!("the resamples of the {w} tester"), 10000, g.n_resamples()); } } }
        }
        let (x, y, z) = (f(Some(seed)), f(Some(seed)), f(None));
        if let (Ok(x), Ok(y), Ok(z)) = (x, y, z) {
            if x.random_state() != seed { return fail("the reported state is the given one", seed, x.random_state()); }
            if x.n_resamples() != b { return fail("the reported number of resamples is the used one", b, x.n_resamples()); }
            if x.p_value() != y.p_value() || y.random_state() != seed { return fail("two runs with the same state agree", x.p_value(), y.p_value()); }
            match f(Some(z.random_state())) { Ok(w) => if w.p_value() != z.p_value() { return fail("running again with the reported state gives the same p-value", z.p_value(), w.p_value()); }, Err(e) => return fail("running again with the reported state", "Ok", e) }
        }
    }
    let (rows, m) = rows(r, 40, 6);
    let it = 1 + r.below(60);
    if m >= 1 && !rows.is_empty() && rows.iter().all(|x| x.len() == m) {
        input(cut(format!("randomized Tukey rows {rows:?} systems {m} iterations {it} state {seed}")));
        let h = r.below(4); let b2 = 1 + r.below(50); let s2 = r.below(1000) as u64;
        input(cut(format!("randomized Tukey rows {rows:?} systems {m} iterations {it} state {seed}, set {}", ["count first", "state first", "count, state, count", "state, count, state"][h])));
        let f = |s: Option<u64>| { let t = RandomizedTukeyHsdTester::new(m); match s {
            Some(s) => match h { 0 => t.with_n_iters(it).with_random_state(s), 1 => t.with_random_state(s).with_n_iters(it), 2 => t.with_n_iters(b2).with_random_state(s).with_n_iters(it), _ => t.with_random_state(s2).with_n_iters(it).with_random_state(s) }.test(rows.clone()),
            None => t.with_n_iters(b2).with_n_iters(it).test(rows.clone()) } };
        let (x, y, z) = (f(Some(seed)), f(Some(seed)), f(None));
        if let (Ok(x), Ok(y), Ok(z)) = (x, y, z) {
            if x.random_state() != seed { return fail("the reported state is the given one", seed, x.random_state()); }
            if x.n_iters() != it { return fail("the reported number of iterations is the used one", it, x.n_iters()); }
            if x.p_values() != y.p_values() { return fail("two runs with the same state agree", format!("{:?}", x.p_values()), format!("{:?}", y.p_values())); }
            match f(Some(z.random_state())) { Ok(w) => if w.p_values() != z.p_values() { return fail("running again with the reported state gives the same p-values", format!("{:?}", z.p_values()), format!("{:?}", w.p_values())); }, Err(e) => return fail("running again with the reported state", "Ok", e) }
        }
    }
    Ok(())
}
// ------------------------------------------------------------------ C24-C28
fn rows(r: &mut Rng, cap: usize, small: usize) -> (Vec<Vec<f64>>, usize) {
    let m = if r.chance(1, 30) { r.below(2) } else { r.size(2, 5, cap.min(300)) };
    let n = if r.chance(1, 20) { r.below(2) } else if m > 20 { 2 + r.below(3) } else { r.size(2, small, cap) };
    let mut v: Vec<Vec<f64>> = match r.below(8) {
        0 => { let (m2, n2) = (m, n); let a: Vec<f64> = (0..m2).map(|_| r.range(-4, 4) as f64).collect(); (0..n2).map(|_| { let b = r.range(-4, 4) as f64; a.iter().map(|x| x + b).collect() }).collect() }
        1 => (0..n).map(|_| (0..m).map(|_| r.range(0, 1) as f64).collect()).collect(),
        2 if r.chance(1, 2) => { let t: Vec<f64> = (0..m).map(|_| value(r, 1.0) / 10.0).collect(); (0..n).map(|_| t.clone()).collect() }
        2 => (0..n).map(|_| { let b = value(r, 1.0) / 10.0; vec![b; m] }).collect(),
        _ => (0..n).map(|_| (0..m).map(|_| value(r, 1.0)).collect()).collect(),
    };
    if r.chance(1, 8) && n > 0 { let i = r.below(n); if r.chance(1, 2) { v[i].push(0.5); } else { v[i].pop(); } }
    (v, m)
}
struct A { sm: Vec<f64>, tm: Vec<f64>, sa: f64, sb: f64, se: f64, va: f64, vb: f64, ve: f64 }
fn anova_oracle(x: &[Vec<f64>], m: usize) -> A {
    let n = x.len(); let (nf, mf) = (n as f64, m as f64);
    let sm: Vec<f64> = (0..m).map(|i| x.iter().map(|t| t[i]).sum::<f64>() / nf).collect();
    let tm: Vec<f64> = x.iter().map(|t| t.iter().sum::<f64>() / mf).collect();
    let om = x.iter().flatten().sum::<f64>() / (nf * mf);
    let sa = nf * sm.iter().map(|a| (a - om).powi(2)).sum::<f64>(); let sb = mf * tm.iter().map(|a| (a - om).powi(2)).sum::<f64>();
    let mut se = 0.0; for (j, t) in x.iter().enumerate() { for (i, v) in t.iter().enumerate() { se += (v - sm[i] - tm[j] + om).powi(2); } }
    A { sm, tm, sa, sb, se, va: sa / (mf - 1.0), vb: sb / (nf - 1.0), ve: se / ((mf - 1.0) * (nf - 1.0)) }
}
fn anova_expect(x: &[Vec<f64>], m: usize) -> Option<Result<(), &'static str>> {
    if x.iter().any(|t| t.len() != m) || x.len() < 2 || m < 2 { return Some(Err("InvalidArgument")); }
    let a = anova_oracle(x, m); let mx = x.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    // the residual variation is zero in real arithmetic iff every 2x2 interaction vanishes; it must be found so when all systems or all topics are equal
    let additive = x.iter().all(|t| t.iter().enumerate().all(|(i, v)| v - t[0] == x[0][i] - x[0][0]));
    let plain = x.iter().all(|t| t == &x[0]) || x.iter().all(|t| t.iter().all(|v| *v == t[0]));
    if plain { return Some(Err("Uncomputable")); }
    if additive { return None; }
    if a.se < 1e-12 * mx * mx { None } else { Some(Ok(())) }
}
pub fn anova(prop: &str, r: &mut Rng) -> Res {
    let (x, m) = rows(r, 4200, 7);
    input(cut(format!("rows {x:?} systems {m}")));
    let e = anova_expect(&x, m);
    if x.len() >= 2 && x.iter().all(|t| t.len() == m) { if m < 2 { class("C26-one-system"); } else if e != Some(Ok(())) { class("C26-zero-residual"); } }
    if prop != "C26" && e != Some(Ok(())) { return Ok(()); }
    let Some(e) = e else {
        // no panic
        let _ = TwoWayAnovaWithoutReplication::from_tupled_samples(x.clone(), m).is_ok(); let _ = TukeyHsdTest::from_tupled_samples(x.clone(), m).is_ok();
        return Ok(());
    };
    let g = TwoWayAnovaWithoutReplication::from_tupled_samples(x.clone(), m); let h = TukeyHsdTest::from_tupled_samples(x.clone(), m);
    let (gk, hk) = (want("ANOVA", e, &g)?, want("Tukey HSD", e, &h)?);
    if !gk || !hk || prop == "C26" { return Ok(()); }
    let (g, h) = (g.unwrap(), h.unwrap()); let o = anova_oracle(&x, m); let n = x.len();
    let mx = x.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs())); let at = 1e-9 * (1.0 + mx) * (1.0 + mx) * (m * n) as f64;
    let near = |what: &str, e: f64, g: f64| -> Res { if (e - g).abs() <= at && !g.is_nan() { Ok(()) } else { fail(what, e, g) } };
    if prop == "C24" {
        if g.n_systems() != m { return fail("n_systems", m, g.n_systems()); }
        if g.n_topics() != n { return fail("n_topics", n, g.n_topics()); }
        let (sm, tm) = (g.system_means(), g.topic_means());
        if sm.len() != m || sm.iter().zip(&o.sm).any(|(a, b)| !close(*a, *b)) { return fail("system means", cut(format!("{:?}", o.sm)), cut(format!("{sm:?}"))); }
        if tm.len() != n || tm.iter().zip(&o.tm).any(|(a, b)| !close(*a, *b)) { return fail("topic means", cut(format!("{:?}", o.tm)), cut(format!("{tm:?}"))); }
        near("between_system_variation", o.sa, g.between_system_variation())?; near("between_topic_variation", o.sb, g.between_topic_variation())?; near("residual_variation", o.se, g.residual_variation())?;
        near("between_system_variance", o.va, g.between_system_variance())?; near("between_topic_variance", o.vb, g.between_topic_variance())?; near("residual_variance", o.ve, g.residual_variance())?;
    }
    if prop == "C25" {
        let (fa, fb) = (o.va / o.ve, o.vb / o.ve); let dr = ((m - 1) * (n - 1)) as f64;
        if !((fa - g.between_system_f_stat()).abs() <= 1e-6 * (1.0 + fa)) { return fail("between-system F", fa, g.between_system_f_stat()); }
        if !((fb - g.between_topic_f_stat()).abs() <= 1e-6 * (1.0 + fb)) { return fail("between-topic F", fb, g.between_topic_f_stat()); }
        let pa = FisherSnedecor::new(m as f64 - 1.0, dr).unwrap().sf(fa); let pb = FisherSnedecor::new(n as f64 - 1.0, dr).unwrap().sf(fb);
        if !((pa - g.between_system_p_value()).abs() <= 1e-5) { return fail("between-system p-value", pa, g.between_system_p_value()); }
        if !((pb - g.between_topic_p_value()).abs() <= 1e-5) { return fail("between-topic p-value", pb, g.between_topic_p_value()); }
        for a in alphas(r) {
            input(cut(format!("alpha {a:?} rows {x:?} systems {m}"))); class(if a.is_nan() { "C25-nan-alpha" } else { "" });
            let moe = g.margin_of_error(a);
            if want("margin_of_error", if alpha_ok(a) { Ok(()) } else { Err("InvalidArgument") }, &moe)? && a > 1e-6 {
                let back = 2.0 * StudentsT::new(0.0, 1.0, dr).unwrap().sf(moe.unwrap() / (o.ve / n as f64).sqrt());
                if !((back - a).abs() <= 1e-4) { return fail("two-sided tail at the margin of error", a, back); }
            }
        }
    }
    if prop == "C27" {
        if h.n_systems() != m || h.n_topics() != n { return fail("the sizes", format!("{m} systems, {n} topics"), format!("{} systems, {} topics", h.n_systems(), h.n_topics())); }
        let es = h.effect_sizes();
        if es.len() != m || es.iter().any(|x| x.len() != m) { return fail("the effect sizes are an m x m matrix", m, es.len()); }
        for i in 0..m { for j in 0..m {
            let e = (o.sm[i] - o.sm[j]) / o.ve.sqrt();
            if !((e - es[i][j]).abs() <= 1e-6 * (1.0 + e.abs())) || (i == j && es[i][j] != 0.0) || es[i][j] != -es[j][i] { return fail(format!("effect size ({i}, {j})"), e, es[i][j]); }
        } }
    }
    Ok(())
}
// ------------------------------------------------------------------ C28
fn perms(m: usize) -> Vec<Vec<usize>> { if m == 0 { return vec![vec![]]; } let mut v = vec![]; for p in perms(m - 1) { for i in 0..=p.len() { let mut q = p.clone(); q.insert(i, m - 1); v.push(q); } } v }
pub fn randomized(r: &mut Rng) -> Res {
    let shape = r.below(10);
    let (x, m) = if shape < 6 {
        let (m, n) = [(2, 2), (2, 4), (3, 2), (3, 4), (4, 2), (2, 8)][shape];
        ((0..n).map(|_| (0..m).map(|_| r.range(0, 7) as f64 / 4.0).collect()).collect::<Vec<Vec<f64>>>(), m)
    } else { rows(r, 40, 6) };
    let exact = x.len().is_power_of_two() && x.iter().flatten().all(|v| (v * 1024.0).fract() == 0.0 && v.abs() < 1e5);
    let it = match r.below(6) { 0 => 0, 1 => 1, 2 => r.int(0, 9000, 30) as usize, _ => 1500 };
    let it = if x.len() * m > 200 { it.min(50) } else { it };
    let seed = r.int(0, u64::MAX as i128, 100) as u64;
    input(cut(format!("rows {x:?} systems {m} iterations {it} state {seed}")));
    if m == 0 { return Ok(()); }
    let e = if x.is_empty() || x.iter().any(|t| t.len() != m) { Err("InvalidArgument") } else { Ok(()) };
    let g = RandomizedTukeyHsdTester::new(m).with_n_iters(it).with_random_state(seed).test(x.clone());
    if !want("randomized Tukey HSD test", e, &g)? { return Ok(()); }
    let g = g.unwrap(); let it = it.max(1); let n = x.len();
    if g.n_iters() != it { return fail("n_iters", it, g.n_iters()); }
    if g.n_systems() != m || g.n_topics() != n { return fail("the sizes", format!("{m} systems, {n} topics"), format!("{} systems, {} topics", g.n_systems(), g.n_topics())); }
    let p = g.p_values();
    if p.len() != m || p.iter().any(|x| x.len() != m) { return fail("the p-values are an m x m matrix", m, p.len()); }
    for i in 0..m { for j in 0..m {
        let k = p[i][j] * it as f64;
        if p[i][j] != p[j][i] || (i == j && p[i][j] != 1.0) || !(p[i][j] >= 0.0 && p[i][j] <= 1.0) || (i != j && (k - k.round()).abs() > 1e-6) { return fail(format!("p-value ({i}, {j}) is a multiple of 1/iterations, symmetric, 1 on the diagonal"), format!("k/{it}"), format!("{} and {}", p[i][j], p[j][i])); }
    } }
    if m == 1 || !exact { return Ok(()); }
    // distribution of the range of the shuffled system means
    let nf = n as f64; let mean: Vec<f64> = (0..m).map(|i| x.iter().map(|t| t[i]).sum::<f64>() / nf).collect();
    let ps = if m <= 4 { perms(m) } else { vec![] };
    let tot = (ps.len() as f64).powi(n as i32);
    let ex = !ps.is_empty() && tot <= 20000.0;
    let draws = if ex { tot as u64 } else { (400_000 / (m * n) as u64).clamp(100, 4000) };
    let mut cnt = vec![vec![0u64; m]; m];
    for c in 0..draws {
        let mut y = c; let mut s = vec![0.0; m];
        for t in &x {
            if ex { let q = &ps[(y % ps.len() as u64) as usize]; y /= ps.len() as u64; for i in 0..m { s[i] += t[q[i]]; } }
            else { let mut u = t.clone(); r.shuffle(&mut u); for i in 0..m { s[i] += u[i]; } }
        }
        let range = (s.iter().cloned().fold(f64::MIN, f64::max) - s.iter().cloned().fold(f64::MAX, f64::min)) / nf;
        for i in 0..m { for j in 0..m { if range >= (mean[i] - mean[j]).abs() { cnt[i][j] += 1; } } }
    }
    if it >= 200 { for i in 0..m { for j in (i + 1)..m {
        let q = cnt[i][j] as f64 / draws as f64;
        if !within(q, q, if ex { f64::INFINITY } else { draws as f64 }, it as f64, p[i][j]) { return fail(format!("the share of extreme permutations for systems {i} and {j} (its expectation)"), q, p[i][j]); }
        if ex && q == 1.0 && p[i][j] != 1.0 { return fail(format!("every permutation is extreme for systems {i} and {j}"), 1.0, p[i][j]); }
    } } }
    Ok(())
}
