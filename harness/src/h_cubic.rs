//! Rectangular systems.
use crate::nd;
use moledyn::prelude::*;
use moledyn::system_mod::cont_cubic::{ContCubicSystem, ContCubicSystemArguments};

fn bc(dim: usize) -> (BoundaryCond, usize) {
    // (condition, first periodic coordinate)
    match nd::choose(dim + 3) {
        0 => (BoundaryCond::Periodic, 0),
        1 => (BoundaryCond::Reflection, dim),
        k => (BoundaryCond::Mixed(k - 2), k - 2),
    }
}

/// where the boundary condition puts a coordinate that moved to y
fn image(y: f64, l: f64, periodic: bool) -> f64 {
    if y.abs() <= l { return y; }
    let s = if y < 0.0 { -1.0 } else { 1.0 };
    if periodic { y - s * 2.0 * l } else { s * 2.0 * l - y }
}

fn step(dim: usize, moderate: bool) {
    let l = nd::f(1e-100, 1e100);
    let (b, per) = bc(dim);
    let sys = ContCubicSystem::new(b, l, dim);
    let (mut x, mut d) = ([0.0; 4], [0.0; 4]);
    for i in 0..dim {
        x[i] = nd::f(-1e100, 1e100);
        d[i] = nd::f(-1e110, 1e110);
        nd::assume(x[i].abs() <= l);
        if moderate { nd::assume(d[i].abs() <= l); }
    }
    let mut p = Position::new(x[..dim].to_vec());
    let mut dp = Position::new(d[..dim].to_vec());
    let r = sys.check_bc(&mut p, &mut dp);
    if moderate {
        nd::check(r.is_ok(), "a displacement of at most the half width per coordinate is accepted");
    }
    nd::check(p.coordinate.len() == dim, "dimension kept");
    if r.is_ok() {
        let mut all = true;
        for i in 0..dim {
            let e = image(x[i] + d[i], l, i >= per);
            all = all & (p.coordinate[i].abs() <= l);
            nd::check((p.coordinate[i] - e).abs() <= 1e-9 * l, "coordinate is the image prescribed by the boundary condition");
        }
        nd::check(all, "accepted move ends inside");
        nd::cover("accepted");
    } else {
        // a move may be refused only when a single image is not enough
        let mut far = false;
        for i in 0..dim { far = far | ((x[i] + d[i]).abs() >= 2.9999999 * l); }
        nd::check(far, "refused only beyond one reflection or period");
        nd::cover("refused");
    }
}

harnesses! {
    fn cubic_step_1() { step(1, false) }
    fn cubic_step_2() { step(2, false) }
    fn cubic_step_3() { step(3, false) }
    fn cubic_step_4() { step(4, false) }
    fn cubic_moderate_1() { step(1, true) }
    fn cubic_moderate_2() { step(2, true) }
    fn cubic_moderate_3() { step(3, true) }
    fn cubic_moderate_4() { step(4, true) }
    fn cubic_any_double() {
        // exact doubles, infinities and NaN included
        let l = nd::f(1e-100, 1e100);
        let dim = 1 + nd::choose(2);
        let (b, _) = bc(dim);
        let sys = ContCubicSystem::new(b, l, dim);
        let (mut x, mut d) = ([0.0; 2], [0.0; 2]);
        for i in 0..dim { x[i] = nd::any_f(); d[i] = nd::any_f(); }
        let mut p = Position::new(x[..dim].to_vec());
        let mut dp = Position::new(d[..dim].to_vec());
        if sys.check_bc(&mut p, &mut dp).is_ok() {
            let mut all = true;
            for i in 0..dim { all = all & (p.coordinate[i].abs() <= l); }
            nd::check(all, "accepted move ends inside, whatever the displacement");
            nd::cover("accepted");
        } else {
            nd::cover("refused");
        }
    }
    fn cubic_inclusion() {
        let l = nd::f(1e-100, 1e100);
        let dim = 1 + nd::choose(4);
        let (b, _) = bc(dim);
        let sys = ContCubicSystem::new(b, l, dim);
        let n = 1 + nd::choose(5);
        let mut x = Vec::new();
        let mut inside = true;
        for _ in 0..n {
            let v = nd::any_f();
            inside = inside & (v >= -l) & (v <= l);
            x.push(v);
        }
        match sys.check_inclusion(&Position::new(x)) {
            Ok(r) => {
                nd::check(n == dim, "dimension mismatch is an error");
                nd::check(r == inside, "inclusion is the closed box");
                nd::cover("ok");
            }
            Err(e) => {
                nd::check(n != dim, "only a dimension mismatch is an error");
                nd::check(e.is_syntax(), "error kind");
                nd::cover("err");
            }
        }
    }
    fn cubic_random() {
        let l = nd::f(1e-100, 1e100);
        let dim = 1 + nd::choose(3);
        let sys = ContCubicSystem::new(bc(dim).0, l, dim);
        let mut rng = rng_seed(1);
        let p = if nd::b() {
            sys.random_pos(&mut rng).unwrap()
        } else {
            let mut v = Position::new((0..dim).map(|_| nd::f(-1e100, 1e100)).collect());
            nd::check(sys.random_pos_to_vec(&mut rng, &mut v).is_ok(), "fills a vector of the right dimension");
            v
        };
        nd::check(p.coordinate.len() == dim, "dimension of a random position");
        for i in 0..dim {
            nd::check(p.coordinate[i].abs() <= l, "random position inside");
        }
        let mut w = Position::new(vec![0.0; dim + 1]);
        nd::check(sys.random_pos_to_vec(&mut rng, &mut w).is_err(), "dimension mismatch refused");
        nd::cover("end");
    }
    fn cubic_random_reaches_all() {
        // the two samplers are onto: they give both signs and both halves of every coordinate
        let l = nd::f(1.0, 2.0);
        let sys = ContCubicSystem::new(BoundaryCond::Periodic, l, 2);
        let mut rng = rng_seed(1);
        let p = if nd::b() {
            sys.random_pos(&mut rng).unwrap()
        } else {
            let mut v = Position::new(vec![nd::f(-9.0, 9.0), nd::f(-9.0, 9.0)]);
            sys.random_pos_to_vec(&mut rng, &mut v).unwrap();
            v
        };
        let c = &p.coordinate;
        if c[0] < -0.9 * l && c[1] > 0.9 * l { nd::cover("!-+"); }
        if c[0] > 0.9 * l && c[1] < -0.9 * l { nd::cover("!+-"); }
        nd::check(c.len() == 2, "dim");
    }
    fn cubic_outside() {
        let l = nd::f(1e-100, 1e100);
        let dim = 1 + nd::choose(4);
        let sys = ContCubicSystem::new(bc(dim).0, l, dim);
        let p = sys.position_out_of_system();
        nd::check(sys.check_inclusion(&p).unwrap() == false, "position out of the system is outside");
        let n = 1 + nd::choose(5);
        let mut v = Position::new((0..n).map(|_| nd::f(-1.0, 1.0)).collect());
        let r = sys.position_out_of_system_to_vec(&mut v);
        nd::check(r.is_ok() == (n == dim), "fails exactly on a dimension mismatch");
        if r.is_ok() {
            nd::check(sys.check_inclusion(&v).unwrap() == false, "vector form is outside");
            nd::cover("end");
        }
    }
    fn cubic_construct() {
        let l = nd::any_f();
        nd::assume(l == l);
        let dim = nd::us(0, 4);
        let m = nd::us(0, 6);
        let b = match nd::choose(3) { 0 => BoundaryCond::Periodic, 1 => BoundaryCond::Reflection, _ => BoundaryCond::Mixed(m) };
        let bad = l <= 0.0 || dim == 0 || match b { BoundaryCond::Mixed(k) => k > dim, _ => false };
        let mut s1 = None;
        let p1 = nd::panics(|| { s1 = Some(ContCubicSystem::new(b, l, dim)); });
        let mut s2 = None;
        let p2 = nd::panics(|| {
            let a = ContCubicSystemArguments { sys_type: SystemType::ContinuousRectangular, bctype: b, sys_size: l, dim };
            s2 = Some(ContCubicSystem::convert_from(&a));
        });
        nd::check(p1 == bad, "constructor refuses exactly the invalid parameters");
        nd::check(p2 == bad, "conversion refuses exactly the invalid parameters");
        if let (Some(a), Some(c)) = (s1, s2) {
            nd::check(a.sys_size == l && a.dim == dim && a.bctype == b && a.sys_type == SystemType::ContinuousRectangular, "constructor keeps the parameters");
            nd::check(c.sys_size == l && c.dim == dim && c.bctype == b && c.sys_type == SystemType::ContinuousRectangular, "conversion keeps the parameters");
            nd::cover("built");
        } else {
            nd::cover("refused");
        }
    }
}
