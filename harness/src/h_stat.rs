//! Summaries and exported distributions.
use crate::h_hist::H;
use crate::nd;
use moledyn::prelude::*;

fn words(s: &str) -> Vec<f64> { s.split_whitespace().map(|x| x.parse::<f64>().unwrap()).collect() }

/// number, then mean and deviation of each variable
pub trait S: H {
    fn summary(&self, prec: usize) -> Vec<f64>;
    /// what the two numbers recorded together contribute to each variable
    fn vars(x: f64, y: f64) -> Vec<f64>;
    fn timed() -> bool { false }
}
impl S for TimeAnalysis {
    fn summary(&self, prec: usize) -> Vec<f64> { let w = words(&self.export_mean_stddev(prec).unwrap()); vec![w[2], w[0], w[1]] }
    fn vars(x: f64, _y: f64) -> Vec<f64> { vec![x] }
}
impl S for TimeVecAnalysis {
    fn summary(&self, prec: usize) -> Vec<f64> { words(&self.export_mean_stddev(prec).unwrap())[..5].to_vec() }
    fn vars(x: f64, y: f64) -> Vec<f64> { vec![x, y] }
}
impl S for ProcessAnalysis {
    fn summary(&self, prec: usize) -> Vec<f64> { let w = words(&self.export_mean_stddev(prec).unwrap()); vec![w[2], w[0], w[1]] }
    fn vars(_x: f64, y: f64) -> Vec<f64> { vec![y] }
    fn timed() -> bool { true }
}
fn prec() -> usize { [0, 25][nd::choose(2)] }

/// no bin is in reach of the values
fn far<T: H>() -> T {
    let mut a = T::default();
    a.update_from_bin_size(1e7, 2e7, 5e7, 1e3).unwrap();
    a.allocate_vectors();
    a
}
fn summary_law<T: S>(n: usize) {
    let mut a = far::<T>();
    let v: Vec<(f64, f64)> = (0..n).map(|_| (nd::f(-1e3, 1e3), nd::f(-1e3, 1e3))).collect();
    for &(x, y) in v.iter() { a.add(x, y) }
    a.finish();
    let s = a.summary(prec());
    nd::check(s[0] == n as f64, "the number of ensembles");
    let k = T::vars(0.0, 0.0).len();
    nd::check(s.len() == 1 + 2 * k, "a mean and a deviation for each variable");
    for i in 0..k {
        let mut m = 0.0;
        for &(x, y) in v.iter() { m += T::vars(x, y)[i] }
        m /= n as f64;
        nd::check(nd::close(s[1 + 2 * i], m, 1e-9, 1e-9), "the mean of what was recorded");
        let mut d = 0.0;
        for &(x, y) in v.iter() { let z = T::vars(x, y)[i] - m; d += z * z }
        let sd = s[2 + 2 * i];
        nd::check(nd::close(sd * sd, d / n as f64, 1e-9, 1e-5), "the deviation of what was recorded");
        nd::check(sd >= 0.0, "a deviation is not negative");
    }
    nd::cover("end");
}
fn summary_1<T: S>() { summary_law::<T>(1) }
fn summary_2<T: S>() { summary_law::<T>(2) }
fn summary_3<T: S>() { summary_law::<T>(3) }
/// equal values never give an undefined deviation
fn summary_equal<T: S>() {
    let n = 1 + nd::choose(6);
    let mut a = far::<T>();
    let x = nd::f(1e-3, 1e3);
    for _ in 0..n { a.add(x, x) }
    a.finish();
    let s = a.summary(0);
    for i in 0..T::vars(0.0, 0.0).len() {
        nd::check(nd::close(s[1 + 2 * i], x, 1e-9, 0.0), "the mean of equal values");
        nd::check((s[2 + 2 * i] >= 0.0) & (s[2 + 2 * i] <= 1e-6 * x), "equal values do not deviate");
    }
    nd::cover("end");
}
/// rounding: nothing undefined comes out of equal values (a value equals itself unless it is undefined)
fn summary_rounding<T: S + PartialEq>() {
    let n = [3, 5, 6][nd::choose(3)];
    // one bin, all of a process in it
    let mut a = far::<T>();
    let k = nd::us(0, 255);
    let x = (k + 1) as f64 / 10.0;
    for _ in 0..n { if T::timed() { a.add(1.5e7, x) } else { a.add(x, x) } }
    a.finish();
    nd::check(a == a, "nothing undefined");
    nd::cover("end");
}
/// cleared data leave no trace
fn summary_clear<T: S>() {
    let (mut a, mut b) = (small::<T>(), small::<T>());
    let (p, q) = ((nd::f(2.0, 3.0), nd::f(2.0, 3.0)), (nd::f(2.0, 3.0), nd::f(2.0, 3.0)));
    for _ in 0..nd::choose(3) { a.add(p.0, p.1) }
    if nd::b() { a.finish() }
    a.clear();
    a.add(q.0, q.1);
    b.add(q.0, q.1);
    a.finish();
    b.finish();
    let (s, t) = (a.summary(0), b.summary(0));
    for i in 0..s.len() { nd::check(s[i] == t[i], "cleared data leave no trace in the summary") }
    let mut same = true;
    for log in [false, true] {
        let (mut u, mut w) = (Vec::new(), Vec::new());
        if log { a.export_log_scaled_distribution(0, &mut u).unwrap(); b.export_log_scaled_distribution(0, &mut w).unwrap() }
        else { a.export_distribution(0, &mut u).unwrap(); b.export_distribution(0, &mut w).unwrap() }
        let (r, t) = (table(&u), table(&w));
        same &= r.len() == t.len();
        for i in 0..r.len().min(t.len()) { for k in 0..r[i].len() { same &= r[i][k] == t[i][k] } }
    }
    nd::check(same, "cleared data leave no trace in the distribution");
    nd::cover("end");
}
fn small<T: H>() -> T {
    let mut a = T::default();
    a.update_from_bin_size(1.0, 4.0, 1.5, 2.0).unwrap();
    a.allocate_vectors();
    a
}

// ------------------------------------------------------------------ distributions
fn table(b: &[u8]) -> Vec<Vec<f64>> { std::str::from_utf8(b).unwrap().lines().map(words).collect() }

/// the row expected for a bin: everything after its centre
pub trait D: S { fn row(n: usize, width: f64, pos: &[(Option<usize>, Option<usize>)], v: &[(f64, f64)], i: usize) -> Vec<f64>; fn second() -> bool { false }
    /// the variance in a bin
    fn var(_p: &[(Option<usize>, Option<usize>)], _v: &[(f64, f64)], _i: usize) -> Option<f64> { None }
}
fn count(p: impl Iterator<Item = Option<usize>>, i: usize) -> f64 { p.filter(|x| *x == Some(i)).count() as f64 }
impl D for TimeAnalysis {
    fn row(n: usize, w: f64, p: &[(Option<usize>, Option<usize>)], _v: &[(f64, f64)], i: usize) -> Vec<f64> {
        let c = count(p.iter().map(|x| x.0), i);
        vec![c, c / (n as f64 * w)]
    }
}
impl D for TimeVecAnalysis {
    fn row(n: usize, w: f64, p: &[(Option<usize>, Option<usize>)], _v: &[(f64, f64)], i: usize) -> Vec<f64> {
        let (c, d) = (count(p.iter().map(|x| x.0), i), count(p.iter().map(|x| x.1), i));
        vec![c, c / (n as f64 * w), d, d / (n as f64 * w)]
    }
    fn second() -> bool { true }
}
impl D for ProcessAnalysis {
    fn row(_n: usize, _w: f64, p: &[(Option<usize>, Option<usize>)], v: &[(f64, f64)], i: usize) -> Vec<f64> {
        let c = count(p.iter().map(|x| x.0), i);
        let mut m = 0.0;
        for k in 0..v.len() { if p[k].0 == Some(i) { m += v[k].1 } }
        m /= c;
        vec![c, m]
    }
    fn var(p: &[(Option<usize>, Option<usize>)], v: &[(f64, f64)], i: usize) -> Option<f64> {
        let w: Vec<f64> = (0..v.len()).filter(|&k| p[k].0 == Some(i)).map(|k| v[k].1).collect();
        let n = w.len() as f64;
        let m = w.iter().sum::<f64>() / n;
        Some(w.iter().map(|y| (y - m) * (y - m)).sum::<f64>() / n)
    }
}
fn expect<T: D>(text: &[u8], v: &[(f64, f64)], p: &[(Option<usize>, Option<usize>)], bins: usize, centre: impl Fn(usize) -> f64, width: impl Fn(usize) -> f64) {
    let t = table(text);
    let mut k = 0;
    for i in 0..bins {
        let mut hit = false;
        for &(x, y) in p { hit |= x == Some(i) || (T::second() && y == Some(i)) }
        if !hit { continue }
        nd::check(k < t.len(), "every bin with data is listed");
        if k >= t.len() { return }
        nd::check(nd::close(t[k][0], centre(i), 1e-7, 0.0), "the centre of the bin");
        let r = T::row(v.len(), width(i), p, v, i);
        for j in 0..r.len() { nd::check(nd::close(t[k][1 + j], r[j], 1e-7, 1e-12), "what was recorded in the bin") }
        if let Some(d) = T::var(p, v, i) {
            let sd = t[k][3];
            nd::check((sd >= 0.0) & nd::close(sd * sd, d, 1e-9, 1e-5), "the deviation in the bin");
        }
        k += 1;
    }
    nd::check(k == t.len(), "no other bin is listed");
}
/// y chosen so that the mean of a bin may be negative or zero
fn values(n: usize, hi: f64, second: bool) -> Vec<(f64, f64)> {
    (0..n).map(|_| { let x = nd::f(0.5, hi); (x, if second { nd::f(0.5, hi) } else { nd::f(-1e3, 1e3) }) }).collect()
}
/// two variables in each record: two records for the histogram with few bins only
fn records<T: D>(few: bool) -> usize { if !T::second() { 1 + nd::choose(2) } else if few { 2 } else { 1 } }
fn distribution<T: D>() {
    let c = nd::choose(4);
    let (lo, hi, w) = [(1.0, 4.0, 1.0), (1.0, 9.0, 6.0), (2.0, 6.0, 3.5), (1.0, 2.0, 5.0)][c];
    let mut a = T::default();
    a.update_from_bin_size(lo, hi, w, 1e3).unwrap();
    a.allocate_vectors();
    let v = values(records::<T>(c == 1), hi + 1.0, T::second());
    let mut p = Vec::new();
    for &(x, y) in v.iter() { a.add(x, y); p.push((a.bin_pos(x), if T::second() { a.bin_pos(y) } else { None })) }
    a.finish();
    let mut text = Vec::new();
    nd::check(!nd::panics(|| { a.export_distribution(20, &mut text).unwrap(); }), "a distribution can be exported");
    expect::<T>(&text, &v, &p, 8, |i| lo + w * (i as f64 + 0.5), |_| w);
    nd::cover("end");
}
fn log_distribution<T: D>() {
    let c = nd::choose(3);
    let (lo, hi, w) = [(1.0, 8.0, 2.0), (0.5, 9.0, 10.0), (2.0, 20.0, 3.5)][c];
    let mut a = T::default();
    a.update_from_bin_size(lo, hi, 1e3, w).unwrap();
    a.allocate_vectors();
    let v = values(records::<T>(c == 1), hi + 1.0, T::second());
    let mut p = Vec::new();
    for &(x, y) in v.iter() { a.add(x, y); p.push((a.lbin_pos(x), if T::second() { a.lbin_pos(y) } else { None })) }
    a.finish();
    let mut text = Vec::new();
    nd::check(!nd::panics(|| { a.export_log_scaled_distribution(20, &mut text).unwrap(); }), "a distribution can be exported");
    expect::<T>(&text, &v, &p, 8, |i| lo * w.sqrt() * w.powi(i as i32), |i| lo * w.powi(i as i32) * (w - 1.0));
    nd::cover("end");
}
/// a bin may be wide and hold little: its density is tiny
fn sparse<T: D>() {
    let mut a = T::default();
    let m = nd::choose(2) * 9;
    let w = [1e3, 1e14, 1e15, 1e17][nd::choose(4)];
    a.update_from_bin_size(1.0, 2.0 * w, w, 4.0 * w).unwrap();
    a.allocate_vectors();
    let x = nd::f(2.0, 1e3);
    // values out of range make the one in range rare
    for _ in 0..m { a.add(-1.0, -1.0) }
    a.add(x, x);
    a.finish();
    let (mut t, mut l) = (Vec::new(), Vec::new());
    a.export_distribution(0, &mut t).unwrap();
    a.export_log_scaled_distribution(0, &mut l).unwrap();
    nd::check(table(&t).len() == 1 && table(&l).len() == 1, "rare data are listed");
    nd::check(table(&t)[0][1] == 1.0 && table(&l)[0][1] == 1.0, "and counted");
    nd::cover("end");
}

macro_rules! kinds {
    ($($f:ident: $($n:ident $t:ty),*;)*) => { harnesses! { $($(fn $n() { $f::<$t>() })*)* } };
}
kinds! {
    summary_1: stat_1_time TimeAnalysis, stat_1_vec TimeVecAnalysis, stat_1_proc ProcessAnalysis;
    summary_2: stat_2_time TimeAnalysis, stat_2_vec TimeVecAnalysis, stat_2_proc ProcessAnalysis;
    summary_3: stat_3_time TimeAnalysis, stat_3_vec TimeVecAnalysis, stat_3_proc ProcessAnalysis;
    summary_equal: stat_eq_time TimeAnalysis, stat_eq_vec TimeVecAnalysis, stat_eq_proc ProcessAnalysis;
    summary_rounding: stat_round_time TimeAnalysis, stat_round_vec TimeVecAnalysis, stat_round_proc ProcessAnalysis;
    summary_clear: stat_clear_time TimeAnalysis, stat_clear_vec TimeVecAnalysis, stat_clear_proc ProcessAnalysis;
    distribution: dist_lin_time TimeAnalysis, dist_lin_vec TimeVecAnalysis, dist_lin_proc ProcessAnalysis;
    log_distribution: dist_log_time TimeAnalysis, dist_log_vec TimeVecAnalysis, dist_log_proc ProcessAnalysis;
    sparse: dist_rare_time TimeAnalysis, dist_rare_vec TimeVecAnalysis, dist_rare_proc ProcessAnalysis;
}
