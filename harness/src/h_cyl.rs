//! Cylindrical systems: the first c coordinates form a ball, the others a periodic box.
use crate::nd;
use moledyn::prelude::*;
use moledyn::system_mod::cont_cyl::{ContCylindricalSystem, ContCylindricalSystemArguments};

fn norm2(v: &[f64]) -> f64 {
    let mut s = 0.0;
    for x in v { s += x * x; }
    s
}

fn shape() -> (usize, usize) {
    [(1, 2), (2, 3), (2, 2), (0, 2), (1, 3), (3, 3), (0, 3), (3, 4), (1, 4)][nd::choose(9)]
}

fn inside(c: usize, x: &[f64], r: f64, l: f64, slack: f64) -> bool {
    let mut b = norm2(&x[..c]) <= r * r * (1.0 + slack);
    for v in &x[c..] { b = b & (v.abs() <= l * (1.0 + slack)); }
    b
}

fn start(c: usize, dim: usize) -> (f64, f64, Vec<f64>, Vec<f64>) {
    let (r, l) = (nd::f(1e-6, 1e6), nd::f(1e-6, 1e6));
    let x: Vec<f64> = (0..dim).map(|_| nd::f(-1e6, 1e6)).collect();
    let d: Vec<f64> = (0..dim).map(|_| nd::f(-1e8, 1e8)).collect();
    nd::assume(inside(c, &x, r, l, 0.0));
    (r, l, x, d)
}

fn safe(c: usize, dim: usize) {
    let (r, l, x, d) = start(c, dim);
    let sys = ContCylindricalSystem::new(c, r, l, dim);
    let mut p = Position::new(x);
    let mut dp = Position::new(d);
    if sys.check_bc(&mut p, &mut dp).is_ok() {
        nd::check(p.coordinate.len() == dim, "dimension kept");
        nd::check(inside(c, &p.coordinate, r, l, 1e-9), "accepted move ends inside");
        nd::cover("accepted");
    } else {
        nd::check(true, "refused");
        nd::cover("refused");
    }
}

fn law(c: usize, dim: usize) {
    let (r, l, x, d) = start(c, dim);
    let y: Vec<f64> = (0..dim).map(|i| x[i] + d[i]).collect();
    let sys = ContCylindricalSystem::new(c, r, l, dim);
    let mut p = Position::new(x);
    let mut dp = Position::new(d);
    let ok = sys.check_bc(&mut p, &mut dp).is_ok();
    let s = norm2(&y[..c]).sqrt();
    if ok {
        if s <= r {
            for i in 0..c { nd::check(nd::close(p.coordinate[i], y[i], 0.0, 1e-9 * r), "plain sum inside the radius"); }
        } else {
            for i in 0..c { nd::check(nd::close(p.coordinate[i] * s, y[i] * (2.0 * r - s), 1e-9, 1e-9 * r * s), "reflected along the radius to distance 2R - s"); }
            nd::cover("reflected");
        }
        for i in c..dim {
            let e = if y[i] > l { y[i] - 2.0 * l } else if y[i] < -l { y[i] + 2.0 * l } else { y[i] };
            nd::check((p.coordinate[i] - e).abs() <= 1e-9 * l, "periodic along the axis");
        }
        nd::cover("accepted");
    } else {
        let mut far = s >= 2.9999999 * r || (s > r && s <= r * (1.0 + 1e-6));
        for i in c..dim { far = far | (y[i].abs() >= 2.9999999 * l); }
        nd::check(far, "refused only beyond one reflection or period");
        nd::cover("refused");
    }
}

harnesses! {
    fn cyl_safe_1_2() { safe(1, 2) }
    fn cyl_safe_2_3() { safe(2, 3) }
    fn cyl_safe_2_2() { safe(2, 2) }
    fn cyl_safe_0_2() { safe(0, 2) }
    fn cyl_safe_1_3() { safe(1, 3) }
    fn cyl_safe_0_3() { safe(0, 3) }
    fn cyl_safe_3_3() { safe(3, 3) }
    fn cyl_safe_3_4() { safe(3, 4) }
    fn cyl_safe_1_4() { safe(1, 4) }
    fn cyl_law_1_2() { law(1, 2) }
    fn cyl_law_2_3() { law(2, 3) }
    fn cyl_law_2_2() { law(2, 2) }
    fn cyl_law_0_2() { law(0, 2) }
    fn cyl_law_1_3() { law(1, 3) }
    fn cyl_law_0_3() { law(0, 3) }
    fn cyl_law_3_3() { law(3, 3) }
    fn cyl_law_3_4() { law(3, 4) }
    fn cyl_law_1_4() { law(1, 4) }
    fn cyl_any_double() {
        let (r, l) = (nd::f(1e-100, 1e100), nd::f(1e-100, 1e100));
        let sys = ContCylindricalSystem::new(1, r, l, 2);
        let mut p = Position::new(vec![nd::any_f(), nd::any_f()]);
        let mut dp = Position::new(vec![nd::any_f(), nd::any_f()]);
        if sys.check_bc(&mut p, &mut dp).is_ok() {
            let c = &p.coordinate;
            nd::check(c[0] == c[0], "an accepted move never yields NaN");
            nd::check(c[1] >= -l && c[1] <= l, "an accepted move ends inside the box");
            nd::cover("accepted");
        } else {
            nd::cover("refused");
        }
    }
    fn cyl_inclusion() {
        let (c, dim) = shape();
        let (r, l) = (nd::f(1e-6, 1e6), nd::f(1e-6, 1e6));
        let sys = ContCylindricalSystem::new(c, r, l, dim);
        let n = 1 + nd::choose(5);
        let x: Vec<f64> = (0..n).map(|_| nd::f(-1e8, 1e8)).collect();
        match sys.check_inclusion(&Position::new(x.clone())) {
            Ok(b) => {
                nd::check(n == dim, "dimension mismatch is an error");
                if b {
                    nd::check(inside(c, &x, r, l, 1e-9), "inside only within radius and length");
                    nd::cover("in");
                } else {
                    nd::check(!inside(c, &x, r, l, -1e-9), "outside only beyond radius or length");
                    nd::cover("out");
                }
            }
            Err(e) => {
                nd::check(n != dim, "only a dimension mismatch is an error");
                nd::check(e.is_syntax(), "error kind");
                nd::cover("err");
            }
        }
    }
    fn cyl_boundary_closed() {
        let (r, l) = (nd::f(1e-6, 1e6), nd::f(1e-6, 1e6));
        let sys = ContCylindricalSystem::new(1, r, l, 2);
        let x = if nd::b() { r } else { -r };
        let y = if nd::b() { l } else { -l };
        nd::check(sys.check_inclusion(&Position::new(vec![x, y])) == Ok(true), "the cylinder is closed");
        nd::cover("end");
    }
    fn cyl_random() {
        nd::rng_cap(6);
        let (c, dim) = shape();
        let (r, l) = (nd::f(1e-6, 1e6), nd::f(1e-6, 1e6));
        let sys = ContCylindricalSystem::new(c, r, l, dim);
        let mut rng = rng_seed(1);
        let p = if nd::b() {
            sys.random_pos(&mut rng).unwrap()
        } else {
            let mut v = Position::new((0..dim).map(|_| nd::f(-1e9, 1e9)).collect());
            nd::check(sys.random_pos_to_vec(&mut rng, &mut v).is_ok(), "fills a vector of the right dimension");
            v
        };
        nd::check(p.coordinate.len() == dim, "dimension of a random position");
        nd::check(norm2(&p.coordinate[..c]) <= r * r * (1.0 + 1e-9), "random position within the radius");
        for i in c..dim { nd::check(p.coordinate[i].abs() <= l, "random position within the length"); }
        nd::cover("end");
    }
    fn cyl_random_mismatch() {
        let (c, dim) = shape();
        let n = 1 + nd::choose(5);
        nd::assume(n != dim);
        let sys = ContCylindricalSystem::new(c, 1.0, 2.0, dim);
        let mut rng = rng_seed(1);
        let mut v = Position::new(vec![0.0; n]);
        nd::check(sys.random_pos_to_vec(&mut rng, &mut v).is_err(), "dimension mismatch refused");
        nd::cover("end");
    }
    fn cyl_random_reaches_all() {
        nd::rng_cap(4);
        let (r, l) = (nd::f(1.0, 2.0), nd::f(3.0, 4.0));
        let sys = ContCylindricalSystem::new(1, r, l, 2);
        let mut rng = rng_seed(1);
        let p = if nd::b() {
            sys.random_pos(&mut rng).unwrap()
        } else {
            let mut v = Position::new(vec![nd::f(-9.0, 9.0), nd::f(-9.0, 9.0)]);
            sys.random_pos_to_vec(&mut rng, &mut v).unwrap();
            v
        };
        let c = &p.coordinate;
        nd::check(c.len() == 2, "dim");
        if c[0] < -0.9 * r { nd::cover("!left"); }
        if c[0] > 0.9 * r { nd::cover("!right"); }
        if c[1] < -0.9 * l { nd::cover("!down"); }
        if c[1] > 0.9 * l { nd::cover("!up"); }
    }
    fn cyl_outside() {
        let (c, dim) = shape();
        let (r, l) = (nd::f(1e-6, 1e6), nd::f(1e-6, 1e6));
        let sys = ContCylindricalSystem::new(c, r, l, dim);
        let p = sys.position_out_of_system();
        nd::check(sys.check_inclusion(&p) == Ok(false), "position out of the system is outside");
        let n = 1 + nd::choose(5);
        let mut v = Position::new((0..n).map(|_| nd::f(-1.0, 1.0)).collect());
        let ok = sys.position_out_of_system_to_vec(&mut v).is_ok();
        nd::check(ok == (n == dim), "fails exactly on a dimension mismatch");
        if ok {
            nd::check(sys.check_inclusion(&v) == Ok(false), "vector form is outside");
            nd::cover("end");
        }
    }
    fn cyl_construct() {
        let (r, l) = (nd::any_f(), nd::any_f());
        nd::assume(r == r && l == l);
        let c = nd::us(0, 5);
        let dim = nd::us(0, 4);
        let bad = r <= 0.0 || l <= 0.0 || dim == 0 || c > dim;
        let mut s1 = None;
        let p1 = nd::panics(|| { s1 = Some(ContCylindricalSystem::new(c, r, l, dim)); });
        let mut s2 = None;
        let p2 = nd::panics(|| {
            let a = ContCylindricalSystemArguments { sys_type: SystemType::ContinuousCylindrical(c), bctype: BoundaryCond::Mixed(c), sys_radius: r, sys_length: l, dim };
            s2 = Some(ContCylindricalSystem::convert_from(&a));
        });
        nd::check(p1 == bad, "constructor refuses exactly the invalid parameters");
        nd::check(p2 == bad, "conversion refuses exactly the invalid parameters");
        if let (Some(a), Some(b)) = (s1, s2) {
            nd::check(a == b, "both constructions agree");
            nd::check(a.sys_radius == r && a.sys_length == l && a.dim == dim && a.bctype == BoundaryCond::Mixed(c) && a.sys_type == SystemType::ContinuousCylindrical(c), "parameters kept");
            nd::cover("built");
        } else {
            nd::cover("refused");
        }
    }
    fn cyl_construct_inconsistent() {
        // system type and boundary condition must agree
        let (c1, c2) = (nd::us(0, 3), nd::us(0, 3));
        let t = match nd::choose(3) { 0 => SystemType::ContinuousCylindrical(c1), 1 => SystemType::ContinuousCircular, _ => SystemType::Lattice };
        let b = match nd::choose(3) { 0 => BoundaryCond::Mixed(c2), 1 => BoundaryCond::Periodic, _ => BoundaryCond::Reflection };
        let ok = t == SystemType::ContinuousCylindrical(c1) && b == BoundaryCond::Mixed(c2) && c1 == c2;
        let p = nd::panics(|| {
            let a = ContCylindricalSystemArguments { sys_type: t, bctype: b, sys_radius: 1.0, sys_length: 1.0, dim: 3 };
            let _ = ContCylindricalSystem::convert_from(&a);
        });
        nd::check(p != ok, "conversion refuses an inconsistent shape");
        nd::cover("end");
    }
}
