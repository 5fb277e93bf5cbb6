//! Time iterators.
use crate::nd;
use moledyn::prelude::*;

/// an end time: unlimited when it is (almost) zero
fn limit(small: f64) -> (f64, bool) {
    if nd::b() { return (0.0, true); }
    let t = nd::f(small, 1e9);
    (t, false)
}
fn const_step(dt: f64, tmax: f64) -> ConstStep {
    if nd::b() {
        let mut t = ConstStep::new(dt).unwrap();
        t.set_tmax(tmax).unwrap();
        t
    } else {
        ConstStep::convert_from(&ConstStepArguments { dt, tmax })
    }
}

/// the first steps of a constant iterator
fn run_const(steps: usize) {
    let dt = nd::f(1e-12, 1e6);
    let (tmax, inf) = limit(1e-9);
    let mut it = const_step(dt, tmax);
    if nd::b() {
        // after some use
        it.next();
        it.next();
        it.renew();
    }
    let mut diff = it.into_diff();
    nd::check(it.current_time() == 0.0 && it.dt() == dt, "starts at time zero with the given step");
    let mut t = 0.0;
    for _ in 0..steps {
        let d = diff.next();
        if let Some((a, b)) = d { nd::check(a == t && b == dt, "pairs of time and step agree with the times"); }
        match it.next() {
            Some(x) => {
                nd::check(x == t && d.is_some(), "times are the sums of the steps");
                nd::check(inf || x <= tmax, "no time beyond the end");
                t += dt;
                nd::check(it.current_time() == t, "the current time is the next one");
                nd::cover("stepped");
            }
            None => {
                nd::check(!inf && t > tmax && d.is_none(), "ends only beyond the end time");
                nd::check(it.next().is_none(), "stays at the end");
                nd::cover("ended");
                break;
            }
        }
    }
}
fn exp_step(lo: f64, hi: f64, len: usize, tmax: f64, args: bool) -> ExponentialStep {
    if args {
        ExponentialStep::convert_from(&ExponentialStepArguments { dt_min: lo, dt_max: hi, length: len, tmax })
    } else {
        let mut t = ExponentialStep::new(lo, hi, len).unwrap();
        t.set_tmax(tmax).unwrap();
        t
    }
}
fn run_exp(len: usize, args: bool, rounds: usize) {
    let lo = nd::f(1e-9, 1e3);
    let hi = nd::f(1e-9, 1e6);
    nd::assume(lo <= hi);
    let (tmax, inf) = limit(1e-9);
    let mut it = exp_step(lo, hi, len, tmax, args);
    if nd::b() {
        let x = nd::f(1.0 + 1e-6, 100.0);
        nd::check(it.set_inc(x).is_ok(), "a growth ratio above one is accepted");
        nd::check(it.inc <= x && it.inc >= 1.0, "the growth ratio is at most the requested one and no shrinking");
    }
    let inc = it.inc;
    nd::check(inc >= 1.0, "steps do not shrink");
    if nd::b() {
        for _ in 0..len + 1 { it.next(); }
        it.renew();
    }
    let mut diff = it.into_diff();
    nd::check(it.current_time() == 0.0 && it.dt() == lo, "starts at time zero with the smallest step");
    let (mut t, mut step) = (0.0, lo);
    for k in 0..len * rounds + 1 {
        if k > 0 && k % len == 0 && step < hi {
            let s = step * inc;
            step = if nd::split(s > hi) { hi } else { s };
            nd::cover("grown");
        }
        let d = diff.next();
        match it.next() {
            Some(x) => {
                nd::check(x == t, "times are the sums of the steps");
                nd::check(d == Some((t, step)), "pairs of time and step agree with the times");
                nd::check(it.dt() == step, "the step grows by the ratio after each run of steps, up to the largest");
                nd::check(step >= lo && step <= hi, "the step stays within its limits");
                nd::check(inf || x <= tmax, "no time beyond the end");
                t += step;
                nd::cover("stepped");
            }
            None => {
                nd::check(!inf && t > tmax && d.is_none(), "ends only beyond the end time");
                nd::check(it.next().is_none(), "stays at the end");
                nd::cover("ended");
                break;
            }
        }
    }
}

harnesses! {
    fn time_const() { run_const(5) }
    fn time_exp_1() { run_exp(1, false, 3) }
    fn time_exp_2() { run_exp(2, false, 2) }
    fn time_exp_3() { run_exp(3, false, 2) }
    fn time_exp_10() { run_exp(10, nd::b(), 1) }
    fn time_exp_args_11() { run_exp(11, true, 1) }
    fn time_const_build() {
        let (dt, tmax) = (nd::any_f(), nd::any_f());
        nd::assume(dt == dt && tmax == tmax);
        let mut ok = true;
        match ConstStep::new(dt) {
            Ok(mut t) => {
                let r = t.set_tmax(tmax);
                nd::check(r.is_ok() == (tmax >= 0.0), "an end time is refused exactly when negative");
                ok = r.is_ok();
                nd::check(t.dt == dt && t.titype == TimeType::Constant(dt), "the step is kept");
                if ok { nd::check(if tmax < 1e-10 { t.tmax == f64::MAX } else { t.tmax == tmax }, "the end time is kept, zero means none"); }
                else { nd::check(t.tmax == f64::MAX, "a refused end time changes nothing"); }
                nd::check(dt >= 1e-15, "no time step of zero");
            }
            Err(_) => { nd::check(dt < 1e-15, "a positive step is accepted"); ok = false; }
        }
        let mut a = 0.0;
        let mut b = 0.0;
        let p = nd::panics(|| { let t = ConstStep::convert_from(&ConstStepArguments { dt, tmax }); a = t.dt; b = t.tmax; });
        nd::check(p == !ok, "both routes accept the same parameters");
        if !p {
            nd::check(a == dt && b == if tmax < 1e-10 { f64::MAX } else { tmax }, "both routes keep the same parameters");
            nd::cover("built");
        } else {
            nd::cover("refused");
        }
    }
    fn time_exp_build() {
        let (lo, hi, tmax) = (nd::any_f(), nd::any_f(), nd::any_f());
        nd::assume(lo == lo && hi == hi && tmax == tmax);
        let len = nd::choose(13);
        let good = lo >= 1e-15 && lo <= hi;
        match ExponentialStep::new(lo, hi, len) {
            Ok(mut t) => {
                nd::check(good && len > 0, "built only from a positive step, growing limits and a positive length");
                nd::check(t.dt == lo && t.titype == TimeType::Exponential(lo, hi, len) && t.inc >= 1.0, "the parameters are kept");
                let r = t.set_tmax(tmax);
                nd::check(r.is_ok() == (tmax >= 0.0), "an end time is refused exactly when negative");
                nd::check(t.tmax == if tmax >= 1e-15 { tmax } else { f64::MAX }, "the end time is kept, zero means none");
                nd::cover("built");
            }
            Err(_) => nd::check(!(good && len > 0), "a positive step, growing limits and a positive length are accepted"),
        }
        let mut a = (0.0, 0.0, 0.0);
        let p = nd::panics(|| { let t = ExponentialStep::convert_from(&ExponentialStepArguments { dt_min: lo, dt_max: hi, length: len, tmax }); a = (t.dt, t.tmax, t.inc); });
        nd::check(p == !(good && len >= 10 && tmax >= 0.0), "from arguments the same, with a length of at least ten");
        if !p {
            nd::check(a.0 == lo && a.1 == (if tmax >= 1e-15 { tmax } else { f64::MAX }) && a.2 > 1.0, "the parameters from arguments are kept");
            nd::cover("built from arguments");
        }
    }
    fn time_set_inc() {
        let len = 1 + nd::choose(12);
        let mut t = ExponentialStep::new(1.0, 10.0, len).unwrap();
        let old = t.inc;
        let x = nd::any_f();
        nd::assume(x == x);
        let r = t.set_inc(x);
        nd::check(r.is_ok() == (x > 1.0), "exactly growth ratios above one are accepted");
        if r.is_ok() {
            nd::check(t.inc >= 1.0 && t.inc <= x, "the ratio is capped, not below one");
            nd::cover("set");
        } else {
            nd::check(t.inc == old, "a refused ratio changes nothing");
        }
    }
}
