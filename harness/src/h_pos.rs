//! Vectors and random numbers.
use crate::nd;
use moledyn::prelude::*;
use moledyn::random_mod::*;

fn vecf(n: usize, m: f64) -> Vec<f64> { (0..n).map(|_| nd::f(-m, m)).collect() }
fn vecany(n: usize) -> Vec<f64> { (0..n).map(|_| nd::any_f()).collect() }
fn nn(x: f64) -> bool { x == x }
/// equal, or both undefined
fn same(a: f64, b: f64) -> bool { (a == b) | ((a != a) & (b != b)) }

fn linear(n: usize) {
    let (x, y, s) = (vecany(n), vecany(n), nd::any_f());
    let (mut p, mut q) = (Position::new(x.clone()), Position::new(y.clone()));
    let a = &p + &q;
    let d = &p - &q;
    let am = &mut p + &mut q;
    let dm = &mut p - &mut q;
    let m = p.scalar_mul(s);
    let (mut pa, mut ps, mut pm) = (p.clone(), p.clone(), p.clone());
    pa.mut_add(&q);
    ps.mut_sub(&q);
    pm.mut_scalar_mul(s);
    let mut e = p.clone();
    e.extend(y.clone());
    e.push(s);
    nd::check([a.dim(), d.dim(), am.dim(), dm.dim(), m.dim(), pa.dim(), ps.dim(), pm.dim()].iter().all(|&k| k == n) && e.dim() == 2 * n + 1, "dimensions of the results");
    let mut ok = [true; 5];
    for i in 0..n {
        ok[0] &= same(a[i], x[i] + y[i]) & same(am[i], x[i] + y[i]) & same(pa[i], x[i] + y[i]);
        ok[1] &= same(d[i], x[i] - y[i]) & same(dm[i], x[i] - y[i]) & same(ps[i], x[i] - y[i]);
        ok[2] &= same(m[i], x[i] * s) & same(pm[i], x[i] * s);
        ok[3] &= same(p[i], x[i]) & same(q[i], y[i]);
        ok[4] &= same(e[i], x[i]) & same(e[n + i], y[i]) & same(e[2 * n], s);
    }
    nd::check(ok[0], "addition is by coordinate");
    nd::check(ok[1], "subtraction is by coordinate");
    nd::check(ok[2], "scaling is by coordinate");
    nd::check(ok[3], "the operands are untouched");
    nd::check(ok[4], "appending keeps the order");
    let mut z = p.clone();
    z.clear();
    nd::check(z.dim() == n && z.iter().all(|&v| v == 0.0), "clearing zeroes every coordinate");
    nd::cover("end");
}
fn metric(n: usize) {
    let (x, y) = (vecf(n, 1e6), vecf(n, 1e6));
    let (p, q) = (Position::new(x.clone()), Position::new(y.clone()));
    let (mut xx, mut dd, mut xy) = (0.0, 0.0, 0.0);
    for i in 0..n {
        xx += x[i] * x[i];
        dd += (x[i] - y[i]) * (x[i] - y[i]);
        xy += x[i] * y[i];
    }
    let (nx, r, r2, ip, ip2) = (p.norm(), p.distance(&q).unwrap(), q.distance(&p).unwrap(), p.inner_product(&q).unwrap(), q.inner_product(&p).unwrap());
    nd::check(nx >= 0.0 && r >= 0.0 && r2 >= 0.0, "norm and distance are not negative");
    nd::check(nd::close(nx * nx, xx, 1e-9, 1e-12), "the norm is Euclidean");
    nd::check(nd::close(r * r, dd, 1e-9, 1e-12), "the distance is Euclidean");
    nd::check(nd::close(r2 * r2, dd, 1e-9, 1e-12), "the distance is symmetric");
    let mut big = 0.0;
    for i in 0..n { big += (x[i] * y[i]).abs(); }
    nd::check((ip - xy).abs() <= 1e-9 * big + 1e-12 && (ip2 - xy).abs() <= 1e-9 * big + 1e-12, "the inner product is the sum of products");
    nd::check(p.distance(&p) == Ok(0.0), "a position is at no distance from itself");
    nd::cover("end");
}
fn int_metric(n: usize) {
    let x: Vec<i32> = (0..n).map(|_| nd::u(0, u32::MAX as u64) as u32 as i32).collect();
    let y: Vec<i32> = (0..n).map(|_| nd::u(0, u32::MAX as u64) as u32 as i32).collect();
    let (p, q) = (Position::new(x.clone()), Position::new(y.clone()));
    let (mut nx, mut r, mut r2) = (-1.0, -1.0, -1.0);
    let bad = nd::panics(|| {
        nx = p.norm();
        r = p.distance(&q).unwrap();
        r2 = q.distance(&p).unwrap();
    });
    nd::check(!bad, "norm and distance exist for all integer positions");
    let (mut xx, mut dd) = (0.0, 0.0);
    for i in 0..n {
        let (a, b) = (x[i] as f64, y[i] as f64);
        xx += a * a;
        dd += (a - b) * (a - b);
    }
    nd::check(nx >= 0.0 && nd::close(nx * nx, xx, 1e-9, 1e-12), "the norm of an integer position is Euclidean");
    nd::check(r >= 0.0 && nd::close(r * r, dd, 1e-9, 1e-12) && r2 >= 0.0 && nd::close(r2 * r2, dd, 1e-9, 1e-12), "the distance of integer positions is Euclidean and symmetric");
    nd::cover("end");
}

harnesses! {
    fn pos_linear_1() { linear(1) }
    fn pos_linear_2() { linear(2) }
    fn pos_linear_3() { linear(3) }
    fn pos_metric_1() { metric(1) }
    fn pos_metric_2() { metric(2) }
    fn pos_metric_3() { metric(3) }
    fn pos_int_1() { int_metric(1) }
    fn pos_int_2() { int_metric(2) }
    fn pos_int_linear() {
        let n = 1 + nd::choose(2);
        let (x, y): (Vec<i32>, Vec<i32>) = ((0..n).map(|_| nd::u(0, 2000) as i32 - 1000).collect(), (0..n).map(|_| nd::u(0, 2000) as i32 - 1000).collect());
        let s = nd::u(0, 200) as i32 - 100;
        let (p, q) = (Position::new(x.clone()), Position::new(y.clone()));
        let (a, d, m) = (&p + &q, &p - &q, p.scalar_mul(s));
        let (mut pa, mut ps, mut pm) = (p.clone(), p.clone(), p.clone());
        pa.mut_add(&q);
        ps.mut_sub(&q);
        pm.mut_scalar_mul(s);
        let mut t = 0;
        for i in 0..n {
            nd::check(a[i] == x[i] + y[i] && pa[i] == a[i] && d[i] == x[i] - y[i] && ps[i] == d[i] && m[i] == x[i] * s && pm[i] == m[i], "integer arithmetic is by coordinate");
            t += (x[i] - y[i]).abs();
        }
        nd::check(p.taxi_distance(&q) == Ok(t) && q.taxi_distance(&p) == Ok(t), "the taxi distance is the sum of the coordinate distances");
        nd::cover("end");
    }
    fn pos_mismatch() {
        let (n, m) = (1 + nd::choose(4), 1 + nd::choose(4));
        let (mut p, mut q) = (Position::new(vec![0.5; n]), Position::new(vec![0.25; m]));
        let (pi, qi) = (Position::new(vec![1i32; n]), Position::new(vec![2i32; m]));
        let bad = n != m;
        nd::check(p.distance(&q).is_err() == bad && p.inner_product(&q).is_err() == bad, "distance and inner product of different dimensions are errors");
        nd::check(pi.distance(&qi).is_err() == bad && pi.taxi_distance(&qi).is_err() == bad, "integer distances of different dimensions are errors");
        nd::check(nd::panics(|| { let _ = &p + &q; }) == bad && nd::panics(|| { let _ = &p - &q; }) == bad, "sums of different dimensions are refused");
        nd::check(nd::panics(|| { let _ = &mut p + &mut q; }) == bad && nd::panics(|| { let _ = &mut p - &mut q; }) == bad, "sums of different dimensions are refused (mutable)");
        nd::cover("end");
    }
    fn pos_undefined() {
        // an undefined coordinate never gives a defined norm or distance
        let (x, y) = (vecany(2), vecany(2));
        let (p, q) = (Position::new(x.clone()), Position::new(y.clone()));
        let bad = !nn(x[0]) || !nn(x[1]);
        if bad {
            nd::check(!nn(p.norm()) && !nn(p.distance(&q).unwrap()) && !nn(q.distance(&p).unwrap()) && !nn(p.inner_product(&q).unwrap()), "an undefined coordinate is not hidden");
            nd::cover("undefined");
        }
    }

    // ------------------------------------------------------------ random numbers
    fn uniform_range() {
        let mut rng = rng_seed(nd::u(0, u64::MAX) as u128);
        let n = 1 + nd::choose(3);
        nd::rng_cap(1 + 2 * n as u64);
        let x = get_uniform(&mut rng);
        nd::check(x > 0.0 && x < 1.0, "a uniform number is in the open unit interval");
        let v = get_uniform_vec(&mut rng, n);
        let mut w = Position::new(vecany(n));
        get_uniform_to_vec(&mut rng, &mut w);
        nd::check(v.dim() == n && w.dim() == n, "dimension of a uniform vector");
        for i in 0..n {
            nd::check(v[i] > 0.0 && v[i] < 1.0, "coordinates are in the open unit interval");
            nd::check(w[i] > 0.0 && w[i] < 1.0, "coordinates filled in are in the open unit interval");
        }
        nd::cover("end");
    }
    fn uniform_spread() {
        // each coordinate has a number of its own
        let mut rng = rng_seed(1);
        nd::rng_cap(2);
        let v = match nd::choose(3) {
            0 => get_uniform_vec(&mut rng, 2),
            1 => { let mut w = Position::new(vec![0.7; 2]); get_uniform_to_vec(&mut rng, &mut w); w },
            _ => { let mut w = Position::new(vec![0.25; 2]); get_uniform_to_vec_nonstandard(&mut rng, &mut w, -0.25, 0.75); w },
        };
        nd::check(v.dim() == 2, "dimension of the vector");
        if v[0] < 1e-3 && v[1] > 0.999 { nd::cover("!low high"); }
        if v[0] > 0.999 && v[1] < 1e-3 { nd::cover("!high low"); }
    }
    fn uniform_nonstandard() {
        let mut rng = rng_seed(1);
        let n = 1 + nd::choose(2);
        nd::rng_cap(n as u64);
        let (x, lo, w) = (vecf(n, 1e3), nd::f(-1e3, 1e3), nd::f(1e-3, 1e3));
        let hi = lo + w;
        let mut v = Position::new(x.clone());
        get_uniform_to_vec_nonstandard(&mut rng, &mut v, lo, hi);
        nd::check(v.dim() == n, "dimension kept");
        for i in 0..n {
            let d = v[i] - x[i];
            nd::check(d >= lo - 1e-9 && d <= hi + 1e-9, "a number in the given range is added");
            if i == n - 1 && d < lo + 0.01 * w { nd::cover("!low"); }
            if i == n - 1 && d > hi - 0.01 * w { nd::cover("!high"); }
        }
    }
    fn gauss_vec() {
        let mut rng = rng_seed(1);
        let n = 1 + nd::choose(3);
        let x = get_gaussian(&mut rng);
        nd::check(nd::gauss_count() == 1 && x == nd::gauss_at(0), "one deviate per number");
        let v = get_gaussian_vec(&mut rng, n);
        let mut w = Position::new(vecf(n, 1e3));
        get_gaussian_to_vec(&mut rng, &mut w);
        nd::check(nd::gauss_count() == 1 + 2 * n && v.dim() == n && w.dim() == n, "one deviate per coordinate");
        for i in 0..n {
            nd::check(v[i] == nd::gauss_at(1 + i) && w[i] == nd::gauss_at(1 + n + i), "coordinates are the standard deviates");
        }
        nd::cover("end");
    }
    fn gauss_nonstandard() {
        let mut rng = rng_seed(1);
        let n = 1 + nd::choose(3);
        let (x, m, s) = (vecf(n, 1e3), nd::f(-1e3, 1e3), nd::f(-1e3, 1e3));
        let mut w = Position::new(x.clone());
        get_gaussian_to_vec_nonstandard(&mut rng, &mut w, m, s);
        nd::check(nd::gauss_count() == n && w.dim() == n, "one deviate per coordinate");
        for i in 0..n {
            nd::check(nd::close(w[i], x[i] + m + s * nd::gauss_at(i), 1e-9, 1e-9), "mean plus deviation times deviate is added");
        }
        nd::cover("end");
    }
    fn seed_injective() {
        // another seed is another generator, on the same stream
        let s = (nd::u(0, u64::MAX) as u128) << 64 | nd::u(0, u64::MAX) as u128;
        let t = (nd::u(0, u64::MAX) as u128) << 64 | nd::u(0, u64::MAX) as u128;
        let (a, b) = (rng_seed(s).nd_state(), rng_seed(t).nd_state());
        nd::check(a.1 == b.1, "the stream does not depend on the seed");
        nd::check(s != t || a.0 == b.0, "a seed determines the generator");
        nd::check(s == t || a.0 != b.0, "different seeds give different generators");
        nd::cover("end");
    }
}
