//! Circular (spherical) systems.
use crate::nd;
use moledyn::prelude::*;
use moledyn::system_mod::cont_circ::{check_bc_exact, check_bc_first_order, ContCircSystem, ContCircSystemArguments};

fn norm2(v: &[f64]) -> f64 {
    let mut s = 0.0;
    for x in v { s += x * x; }
    s
}

fn start(dim: usize) -> (f64, Vec<f64>, Vec<f64>) {
    let r = nd::f(1e-6, 1e6);
    let x: Vec<f64> = (0..dim).map(|_| nd::f(-1e6, 1e6)).collect();
    let d: Vec<f64> = (0..dim).map(|_| nd::f(-1e8, 1e8)).collect();
    nd::assume(norm2(&x) <= r * r);
    (r, x, d)
}

/// safety with rounding: an accepted move ends in the ball
fn safe(dim: usize, which: usize) {
    let (r, x, d) = start(dim);
    let sys = ContCircSystem::new(r, dim);
    let mut p = Position::new(x);
    let mut dp = Position::new(d);
    let ok = match which {
        0 => sys.check_bc(&mut p, &mut dp),
        1 => check_bc_exact(sys, &mut p, &mut dp),
        _ => check_bc_first_order(sys, &mut p, &mut dp),
    }.is_ok();
    nd::check(p.coordinate.len() == dim, "dimension kept");
    if ok {
        nd::check(norm2(&p.coordinate) <= r * r * (1.0 + 1e-9), "accepted move ends inside");
        nd::cover("accepted");
    } else {
        nd::cover("refused");
    }
}

/// the reflection law (reals)
fn law(dim: usize) {
    let (r, x, d) = start(dim);
    let y: Vec<f64> = (0..dim).map(|i| x[i] + d[i]).collect();
    let sys = ContCircSystem::new(r, dim);
    let mut p = Position::new(x);
    let mut dp = Position::new(d);
    let ok = sys.check_bc(&mut p, &mut dp).is_ok();
    let s2 = norm2(&y);
    if s2 <= r * r {
        nd::check(ok, "a move that stays inside is accepted");
        for i in 0..dim { nd::check(nd::close(p.coordinate[i], y[i], 1e-9, 0.0), "a move that stays inside is the plain sum"); }
        nd::cover("inside");
    } else {
        let s = s2.sqrt();
        if ok {
            for i in 0..dim {
                nd::check(nd::close(p.coordinate[i] * s, y[i] * (2.0 * r - s), 1e-9, 1e-9 * r * s), "reflected along the radius to distance 2R - s");
            }
            nd::cover("reflected");
        } else {
            nd::check(s >= 2.9999999 * r || s <= r * (1.0 + 1e-6), "refused only beyond one reflection");
            nd::cover("refused");
        }
    }
}

harnesses! {
    fn circ_safe_1() { safe(1, 0) }
    fn circ_safe_2() { safe(2, 0) }
    fn circ_safe_3() { safe(3, 0) }
    fn circ_safe_4() { safe(4, 0) }
    fn circ_exact_safe_2() { safe(2, 1) }
    fn circ_first_safe_2() { safe(2, 2) }
    fn circ_law_1() { law(1) }
    fn circ_law_2() { law(2) }
    fn circ_law_3() { law(3) }
    fn circ_law_4() { law(4) }
    fn circ_exact_law_1() {
        let (r, x, d) = start(1);
        let (x, d) = (x[0], d[0]);
        let mut p = Position::new(vec![x]);
        let mut dp = Position::new(vec![d]);
        let ok = check_bc_exact(ContCircSystem::new(r, 1), &mut p, &mut dp).is_ok();
        let y = x + d;
        if y.abs() <= r {
            nd::check(ok && p.coordinate[0] == y, "a move that stays inside is the plain sum");
            nd::cover("inside");
        } else if ok {
            let e = if y > 0.0 { 2.0 * r - y } else { -2.0 * r - y };
            nd::check(nd::close(p.coordinate[0], e, 1e-6, 1e-6 * r), "mirror image in the end point");
            nd::cover("reflected");
        } else {
            nd::check(y.abs() > 2.999 * r || y.abs() <= r * (1.0 + 1e-6), "refused only beyond one reflection");
            nd::cover("refused");
        }
    }
    fn circ_any_double() {
        let r = nd::f(1e-100, 1e100);
        let dim = 1 + nd::choose(2);
        let sys = ContCircSystem::new(r, dim);
        let mut p = Position::new((0..dim).map(|_| nd::any_f()).collect());
        let mut dp = Position::new((0..dim).map(|_| nd::any_f()).collect());
        if sys.check_bc(&mut p, &mut dp).is_ok() {
            for x in p.iter() { nd::check(x == x, "an accepted move never yields NaN"); }
            nd::cover("accepted");
        } else {
            nd::cover("refused");
        }
    }
    fn circ_free_any_double() {
        // the free functions: an accepted move never yields NaN
        let r = nd::f(1e-100, 1e100);
        let sys = ContCircSystem::new(r, 2);
        let x: Vec<f64> = (0..2).map(|_| nd::f(-1e100, 1e100)).collect();
        let mut p = Position::new(x);
        let mut dp = Position::new((0..2).map(|_| nd::any_f()).collect());
        let ok = if nd::b() { check_bc_exact(sys, &mut p, &mut dp).is_ok() } else { check_bc_first_order(sys, &mut p, &mut dp).is_ok() };
        if ok {
            for x in p.iter() { nd::check(x == x, "an accepted move never yields NaN"); }
            nd::cover("accepted");
        } else {
            nd::cover("refused");
        }
    }
    fn circ_inclusion() {
        let r = nd::f(1e-6, 1e6);
        let dim = 1 + nd::choose(4);
        let sys = ContCircSystem::new(r, dim);
        let n = 1 + nd::choose(5);
        let x: Vec<f64> = (0..n).map(|_| nd::f(-1e8, 1e8)).collect();
        let q = norm2(&x);
        match sys.check_inclusion(&Position::new(x)) {
            Ok(b) => {
                nd::check(n == dim, "dimension mismatch is an error");
                if b {
                    nd::check(q <= r * r * (1.0 + 1e-9), "inside only within the radius");
                } else {
                    nd::check(q >= r * r * (1.0 - 1e-9), "outside only beyond the radius");
                }
                nd::cover("ok");
            }
            Err(e) => {
                nd::check(n != dim, "only a dimension mismatch is an error");
                nd::check(e.is_syntax(), "error kind");
                nd::cover("err");
            }
        }
    }
    fn circ_boundary_closed() {
        // points exactly on the axis at distance R belong to the ball
        let r = nd::f(1e-6, 1e6);
        let sys = ContCircSystem::new(r, 1);
        nd::check(sys.check_inclusion(&Position::new(vec![r])) == Ok(true), "the ball is closed");
        nd::check(sys.check_inclusion(&Position::new(vec![-r])) == Ok(true), "the ball is closed");
        nd::cover("end");
    }
    fn circ_random() {
        nd::rng_cap(7);
        let r = nd::f(1e-6, 1e6);
        let dim = 1 + nd::choose(3);
        let sys = ContCircSystem::new(r, dim);
        let mut rng = rng_seed(1);
        let p = if nd::b() {
            sys.random_pos(&mut rng).unwrap()
        } else {
            let mut v = Position::new((0..dim).map(|_| nd::f(-1e9, 1e9)).collect());
            nd::check(sys.random_pos_to_vec(&mut rng, &mut v).is_ok(), "fills a vector of the right dimension");
            v
        };
        nd::check(p.coordinate.len() == dim, "dimension of a random position");
        nd::check(norm2(&p.coordinate) <= r * r * (1.0 + 1e-9), "random position inside");
        nd::cover("end");
    }
    fn circ_random_mismatch() {
        let r = nd::f(1e-6, 1e6);
        let dim = 1 + nd::choose(4);
        let n = 1 + nd::choose(5);
        nd::assume(n != dim);
        let sys = ContCircSystem::new(r, dim);
        let mut rng = rng_seed(1);
        let mut v = Position::new(vec![0.0; n]);
        nd::check(sys.random_pos_to_vec(&mut rng, &mut v).is_err(), "dimension mismatch refused");
        nd::cover("end");
    }
    fn circ_random_reaches_all() {
        nd::rng_cap(4);
        let r = nd::f(1.0, 2.0);
        let sys = ContCircSystem::new(r, 2);
        let mut rng = rng_seed(1);
        let p = if nd::b() {
            sys.random_pos(&mut rng).unwrap()
        } else {
            let mut v = Position::new(vec![nd::f(-9.0, 9.0), nd::f(-9.0, 9.0)]);
            sys.random_pos_to_vec(&mut rng, &mut v).unwrap();
            v
        };
        let c = &p.coordinate;
        nd::check(c.len() == 2, "dim");
        if c[0] < -0.9 * r { nd::cover("!left"); }
        if c[0] > 0.9 * r { nd::cover("!right"); }
        if c[1] < -0.9 * r { nd::cover("!down"); }
        if c[1] > 0.9 * r { nd::cover("!up"); }
    }
    fn circ_outside() {
        let r = nd::f(1e-6, 1e6);
        let dim = 1 + nd::choose(4);
        let sys = ContCircSystem::new(r, dim);
        let p = sys.position_out_of_system();
        nd::check(sys.check_inclusion(&p) == Ok(false), "position out of the system is outside");
        let n = 1 + nd::choose(5);
        let mut v = Position::new((0..n).map(|_| nd::f(-1.0, 1.0)).collect());
        let ok = sys.position_out_of_system_to_vec(&mut v).is_ok();
        nd::check(ok == (n == dim), "fails exactly on a dimension mismatch");
        if ok {
            nd::check(sys.check_inclusion(&v) == Ok(false), "vector form is outside");
            nd::cover("end");
        }
    }
    fn circ_construct() {
        let r = nd::any_f();
        nd::assume(r == r);
        let dim = nd::us(0, 4);
        let bad = r <= 0.0 || dim == 0;
        let mut s1 = None;
        let p1 = nd::panics(|| { s1 = Some(ContCircSystem::new(r, dim)); });
        let mut s2 = None;
        let p2 = nd::panics(|| {
            let a = ContCircSystemArguments { sys_type: SystemType::ContinuousCircular, bctype: BoundaryCond::Reflection, sys_size: r, dim };
            s2 = Some(ContCircSystem::convert_from(&a));
        });
        nd::check(p1 == bad, "constructor refuses exactly the invalid parameters");
        nd::check(p2 == bad, "conversion refuses exactly the invalid parameters");
        if let (Some(a), Some(c)) = (s1, s2) {
            nd::check(a == c, "both constructions agree");
            nd::check(a.sys_size == r && a.dim == dim && a.bctype == BoundaryCond::Reflection && a.sys_type == SystemType::ContinuousCircular, "parameters kept");
            nd::cover("built");
        } else {
            nd::cover("refused");
        }
    }
}
