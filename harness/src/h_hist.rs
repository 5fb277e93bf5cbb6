//! Histograms and their summaries.
use crate::nd;
use moledyn::analysis::{Pair, VarN, VarTime};
use moledyn::prelude::*;

/// what the three analyses have in common; a value is recorded together with the number that decides its bin
pub trait H: Bin + Analysis + Default + Clone + PartialEq {
    fn add(&mut self, x: f64, y: f64);
    fn finish(&mut self);
}
impl H for TimeAnalysis {
    fn add(&mut self, x: f64, _y: f64) { self.add_ensemble(x) }
    fn finish(&mut self) { self.draw() }
}
/// ten times in each ensemble by default
impl H for TimeVecAnalysis {
    fn add(&mut self, x: f64, y: f64) { let mut v = vec![x; 10]; v[1] = y; self.add_ensemble(v) }
    fn finish(&mut self) { self.draw() }
}
fn pair(x: f64, y: f64) -> Pair<f64> { format!("({},{})", x, y).parse().unwrap() }
impl H for ProcessAnalysis {
    fn add(&mut self, x: f64, y: f64) { self.add_pair(pair(x, y)); VarTime::add_ensemble(self) }
    fn finish(&mut self) { self.draw() }
}

const LB: [f64; 3] = [2.0, 1.5, 10.0];

/// the place of v among bins [lo + i w, lo + (i+1) w], the edges belonging to either side
fn in_linear(v: f64, lo: f64, w: f64, i: usize) -> bool {
    // tolerance for rounding: the values are below 1e4
    (lo + w * i as f64 <= v + 1e-6) & (v <= lo + w * (i + 1) as f64 + 1e-6)
}
fn in_log(v: f64, lo: f64, w: f64, i: usize) -> bool {
    (lo * w.powi(i as i32) <= v * (1.0 + 1e-9)) & (v <= lo * w.powi(i as i32 + 1) * (1.0 + 1e-9))
}

fn places<T: H>(a: &mut T, lo: f64, hi: f64, w: f64, lw: f64, v: f64) {
    let inside = nd::split((v >= lo) & (v <= hi));
    match a.bin_pos(v) {
        None => nd::check(!inside, "a value in range has a bin"),
        Some(i) => { nd::check(inside, "a value out of range has no bin"); nd::check(in_linear(v, lo, w, i), "the linear bin contains the value") }
    }
    if lw > 0.0 {
        match a.lbin_pos(v) {
            None => nd::check(!inside, "a value in range has a logarithmic bin"),
            Some(i) => { nd::check(inside, "a value out of range has no logarithmic bin"); nd::check(in_log(v, lo, lw, i), "the logarithmic bin contains the value") }
        }
    }
    nd::check(!nd::panics(|| a.add(v, v)), "every value can be recorded");
    if inside { nd::cover("inside") } else { nd::cover("outside") }
}

/// bins of given sizes
fn by_size<T: H>() {
    let mut a = T::default();
    let (lo, w) = (nd::f(1.0, 10.0), nd::f(0.1, 10.0));
    let hi = nd::f(1.0, 20.0);
    nd::assume((hi > lo) & (hi - lo <= 4.0 * w));
    nd::check(a.update_from_bin_size(lo, hi, w, 1e3).is_ok(), "valid sizes are accepted");
    a.allocate_vectors();
    places(&mut a, lo, hi, w, 0.0, nd::f(-1.0, 30.0));
}
/// logarithmic bins of a given ratio
fn by_ratio<T: H>() {
    let mut a = T::default();
    let (lo, lw) = ([1.0, 0.25, 3.0][nd::choose(3)], LB[nd::choose(3)]);
    let hi = nd::f(1.0, 16.0) * lo;
    nd::check(a.update_from_bin_size(lo, hi, 1e3, lw).is_ok(), "valid sizes are accepted");
    a.allocate_vectors();
    places(&mut a, lo, hi, 1e3, lw, nd::f(-1.0, 20.0) * lo);
}
/// a given number of bins
fn by_number<T: H>() {
    let mut a = T::default();
    let n = 10 + nd::choose(2);
    let (lo, hi) = ([1.0, 0.1, 7.0][nd::choose(3)], nd::f(8.0, 20.0));
    nd::check(a.update_from_num_bin(lo, hi, n).is_ok(), "a valid number of bins is accepted");
    a.allocate_vectors();
    let v = match nd::choose(3) { 0 => nd::f(-1.0, 30.0), 1 => lo, _ => hi };
    let inside = nd::split((v >= lo) & (v <= hi));
    match a.bin_pos(v) {
        None => nd::check(!inside, "a value in range has a bin"),
        Some(i) => { nd::check(inside & (i < n), "a value has a bin only in range"); nd::check(in_linear(v, lo, (hi - lo) / n as f64, i), "the linear bin contains the value") }
    }
    if inside { nd::cover("inside") } else { nd::cover("outside") }
}
/// any number of bins
fn by_many<T: H>() {
    let n = [10, 13, 100, 999, 1000, 1001, 4097, 65537, 1_000_003][nd::choose(9)];
    if nd::split(nd::b()) {
        let (lo, hi) = (nd::f(1e-3, 10.0), nd::f(10.0, 1e6));
        let (w, r) = T::convert_num_bin_to_bin_size(lo, hi, n).unwrap();
        nd::check(nd::close(w * n as f64, hi - lo, 1e-9, 1e-9), "the linear bins span the range");
        nd::check(nd::close(r, (hi / lo).powf(1.0 / n as f64), 1e-9, 0.0), "the logarithmic bins span the range");
        nd::cover("sizes");
    } else {
        let (lo, hi) = [(0.5, 2.0), (1.0, 1e6)][nd::choose(2)];
        let mut a = T::default();
        nd::check(a.update_from_num_bin(lo, hi, n).is_ok(), "a valid number of bins is accepted");
        // the middle of a bin
        let k = [0, 7, n / 2, n - 1][nd::choose(4)];
        let x = nd::f(0.1, 0.9);
        let w = (hi - lo) / n as f64;
        nd::check(a.bin_pos(lo + (k as f64 + x) * w) == Some(k), "a value has the bin it lies in");
        nd::check(a.bin_pos(hi) == Some(n - 1), "the greatest value has the last bin");
        match a.lbin_pos(hi) { Some(i) => nd::check(i < n, "the greatest value has a logarithmic bin"), None => nd::check(false, "the greatest value has a logarithmic bin") }
        nd::check(a.bin_pos(nd::f(2.0, 10.0) * hi).is_none() & a.bin_pos(nd::f(0.0, 0.9) * lo).is_none(), "a value out of range has no bin");
        nd::cover("bin");
    }
}
/// a range with logarithmic bins of known ratio
fn by_number_log<T: H>() {
    let mut a = T::default();
    let (lo, lw) = ([1.0, 0.01][nd::choose(2)], LB[nd::choose(2)]);
    let hi = lo * lw.powi(10);
    let (w, r) = T::convert_num_bin_to_bin_size(lo, hi, 10).unwrap();
    nd::check(nd::close(w, (hi - lo) / 10.0, 1e-9, 0.0) & nd::close(r, lw, 1e-9, 0.0), "ten equal bins span the range");
    nd::check(a.update_from_num_bin(lo, hi, 10).is_ok(), "a valid number of bins is accepted");
    a.allocate_vectors();
    let v = match nd::choose(3) { 0 => nd::f(-1.0, 2.0) * hi, 1 => lo, _ => hi };
    places(&mut a, lo, hi, w, r, v);
}
/// a range from zero starts at the least time kept
fn from_zero<T: H>() {
    let mut a = T::default();
    let hi = nd::f(1.0, 10.0);
    nd::check(a.update_from_bin_size(0.0, hi, 5.0, 10.0).is_ok(), "a range from zero is accepted");
    a.allocate_vectors();
    let v = nd::f(1e-14, 20.0);
    nd::check(a.bin_pos(v).is_some() == (v <= hi), "times from almost zero have a bin");
    nd::check(!nd::panics(|| a.add(v, v)), "every value can be recorded");
    nd::cover("end");
}
fn refused<T: H>() {
    let mut a = T::default();
    let b = a.clone();
    let (lo, hi, w, lw) = (nd::any_f(), nd::any_f(), nd::any_f(), nd::any_f());
    let ok = (lo >= 0.0) & (hi >= lo) & (w > 0.0) & (lw > 1.0);
    nd::assume(!ok);
    nd::check(a.update_from_bin_size(lo, hi, w, lw).is_err(), "no bins that cannot cover the range");
    nd::check(a == b, "a refusal changes nothing");
    nd::cover("end");
}
fn refused_number<T: H>() {
    let mut a = T::default();
    let b = a.clone();
    let (lo, hi, n) = (nd::any_f(), nd::any_f(), nd::choose(12));
    let ok = (lo >= 0.0) & (hi >= lo) & (n >= 10);
    nd::assume(!ok);
    nd::check(T::convert_num_bin_to_bin_size(lo, hi, n).is_err(), "no sizes for a range or number that is not valid");
    nd::check(a.update_from_num_bin(lo, hi, n).is_err(), "no bins for a range or number that is not valid");
    nd::check(a == b, "a refusal changes nothing");
    nd::cover("end");
}
/// the default range, any double
fn any_value<T: H>() {
    let a = T::default();
    let v = nd::any_f();
    nd::check(a.bin_pos(v).is_some() == (v >= 1e-15 && v <= 1e13), "exactly the values in range have a bin");
    nd::check(a.lbin_pos(v).is_some() == (v >= 1e-15 && v <= 1e13), "exactly the values in range have a logarithmic bin");
    nd::cover("end");
}

macro_rules! kinds {
    ($($f:ident: $($n:ident $t:ty),*;)*) => { harnesses! { $($(fn $n() { $f::<$t>() })*)* } };
}
kinds! {
    by_size: hist_size_time TimeAnalysis, hist_size_vec TimeVecAnalysis, hist_size_proc ProcessAnalysis;
    by_ratio: hist_ratio_time TimeAnalysis, hist_ratio_vec TimeVecAnalysis, hist_ratio_proc ProcessAnalysis;
    by_number: hist_num_time TimeAnalysis, hist_num_vec TimeVecAnalysis, hist_num_proc ProcessAnalysis;
    by_many: hist_many_time TimeAnalysis, hist_many_vec TimeVecAnalysis, hist_many_proc ProcessAnalysis;
    by_number_log: hist_nlog_time TimeAnalysis, hist_nlog_vec TimeVecAnalysis, hist_nlog_proc ProcessAnalysis;
    from_zero: hist_zero_time TimeAnalysis, hist_zero_vec TimeVecAnalysis, hist_zero_proc ProcessAnalysis;
    refused: hist_ref_time TimeAnalysis, hist_ref_vec TimeVecAnalysis, hist_ref_proc ProcessAnalysis;
    refused_number: hist_refn_time TimeAnalysis, hist_refn_vec TimeVecAnalysis, hist_refn_proc ProcessAnalysis;
    any_value: hist_any_time TimeAnalysis, hist_any_vec TimeVecAnalysis, hist_any_proc ProcessAnalysis;
}
