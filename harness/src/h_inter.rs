//! Targets, interactions, clusters.
use crate::nd;
use moledyn::prelude::*;

fn vecf(n: usize, m: f64) -> Vec<f64> { (0..n).map(|_| nd::f(-m, m)).collect() }
fn norm2(v: &[f64]) -> f64 { let mut s = 0.0; for x in v { s += x * x; } s }
fn a_target(p: Vec<f64>, s: f64) -> ContBulkTarget {
    if nd::b() {
        ContBulkTarget::new(Position::new(p), s)
    } else {
        ContBulkTarget::convert_from(&ContBulkTargetArguments { target_type: TargetType::ContinuousInBulk, target_pos: Position::new(p), target_size: s })
    }
}
fn found(n: usize) {
    let c = vecf(n, 1e6);
    let s = nd::f(1e-3, 1e6);
    let t = a_target(c.clone(), s);
    let x = vecf(n, 1e7);
    let d: Vec<f64> = (0..n).map(|i| x[i] - c[i]).collect();
    let q = norm2(&d);
    let r = t.check_find(&Position::new(x)).unwrap();
    if r {
        nd::check(q <= s * s * (1.0 + 1e-9), "found only within the target size");
        nd::cover("found");
    } else {
        nd::check(q >= s * s * (1.0 - 1e-9), "missed only beyond the target size");
        nd::cover("missed");
    }
}
fn two(s: &dyn Fn() -> (f64, f64)) -> (f64, f64) { s() }

harnesses! {
    fn target_find_1() { found(1) }
    fn target_find_2() { found(2) }
    fn target_find_3() { found(3) }
    fn target_edge() {
        // a searcher exactly at the target size has not found it
        let s = nd::f(1e-3, 1e3);
        let t = a_target(vec![0.0], s);
        nd::check(t.check_find(&Position::new(vec![s])) == Ok(false) && t.check_find(&Position::new(vec![-s])) == Ok(false), "the boundary of the target is not found");
        nd::check(t.check_find(&Position::new(vec![0.0])) == Ok(true), "the centre is found");
        nd::check(t.target_type() == TargetType::ContinuousInBulk && t.target_size == s, "parameters kept");
        nd::cover("end");
    }
    fn target_mismatch() {
        let (n, m) = (1 + nd::choose(3), 1 + nd::choose(4));
        let t = a_target(vec![0.0; n], 1.0);
        let p = Position::new(vec![0.1; m]);
        nd::check(t.check_find(&p).is_ok() == (n == m), "detection fails exactly on a dimension mismatch");
        nd::check(t.distance(&p).is_ok() == (n == m), "distance fails exactly on a dimension mismatch");
        nd::cover("end");
    }
    fn target_any_double() {
        // a searcher with an undefined coordinate has not found anything
        let t = a_target(vec![0.5, 0.5], nd::f(1e-3, 1e3));
        let (x, y) = (nd::any_f(), nd::any_f());
        if let Ok(true) = t.check_find(&Position::new(vec![x, y])) {
            nd::check(x == x && y == y, "an undefined position finds nothing");
            nd::cover("found");
        } else {
            nd::cover("missed");
        }
    }

    // ------------------------------------------------------------ interactions
    fn lj_law() {
        let (sg, ep, r) = (nd::f(0.5, 2.0), nd::f(-10.0, 10.0), nd::f(0.5, 4.0));
        let p = vec![0.0, 0.0];
        let a = match nd::choose(2) {
            0 => ContPassiveLJAgent::new(InteractType::LennardJones(sg), MoveType::Brownian(1.0), Position::new(p), ep),
            _ => ContPassiveLJAgent::convert_from(&ContPassiveLJAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, mtype: MoveType::Brownian(1.0),
                    itype: InitType::SpecificPosition(Position::new(p)), ptl_size: sg, strength: ep, num_agent: 1 }).pop().unwrap(),
        };
        let x = sg / r;
        let x6 = x.powi(6);
        nd::check(nd::close(a.potential(r), 4.0 * ep * x6 * (x6 - 1.0), 1e-9, 1e-9), "the potential is 4 e ((s/r)^12 - (s/r)^6)");
        nd::check(nd::close(a.force(r), 24.0 * ep / sg * x6 * x * (2.0 * x6 - 1.0), 1e-9, 1e-9), "the force is the negative slope of the potential");
        nd::cover("end");
    }
    fn exp_law() {
        let (g, st, r) = (nd::f(0.1, 10.0), nd::f(-10.0, 10.0), nd::f(0.0, 10.0));
        let p = vec![0.0, 0.0];
        let a = match nd::choose(2) {
            0 => ContPassiveExpAgent::new(InteractType::Exponential(2, g), MoveType::Brownian(1.0), Position::new(p), st),
            _ => ContPassiveExpAgent::convert_from(&ContPassiveExpAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, mtype: MoveType::Brownian(1.0),
                    itype: InitType::SpecificPosition(Position::new(p)), gamma: g, exp_dim: 2, strength: st, num_agent: 1 }).pop().unwrap(),
        };
        let e = (-r / g).exp();
        nd::check(nd::close(a.potential(r), st * e, 1e-9, 1e-12), "the potential is c exp(-r/g)");
        nd::check(nd::close(a.force(r), st / g * e, 1e-9, 1e-12), "the force is the negative slope of the potential");
        nd::cover("end");
    }
    fn inter_renewed() {
        // placement does not change the interaction
        nd::rng_cap(4);
        let sys = ContCubicSystem::new(BoundaryCond::Reflection, 1.0, 1 + nd::choose(2));
        let dim = sys.dim;
        let t = ContBulkTarget::new(Position::new(vec![0.0; dim]), 0.1);
        let mut rng = rng_seed(1);
        let (sg, ep, r) = (nd::f(0.5, 2.0), nd::f(-10.0, 10.0), nd::f(0.5, 4.0));
        let n = 1 + nd::choose(2);
        let (k, lj) = (nd::b(), nd::b());
        let ((v0, f0), (v1, f1)) = if lj {
            let i = InteractType::LennardJones(sg);
            let mut a = ContPassiveLJAgent::new(i, MoveType::Brownian(1.0), Position::new(vec![0.3; n]), ep);
            let x = two(&|| (a.potential(r), a.force(r)));
            if k { a.renew_uniform(&sys, &t, &mut rng).unwrap(); } else { a = ContPassiveLJAgent::new_uniform(&sys, &t, &mut rng, i, MoveType::Brownian(1.0), ep).unwrap(); }
            (x, (a.potential(r), a.force(r)))
        } else {
            let mut a = ContPassiveExpAgent::new(InteractType::Exponential(n, sg), MoveType::Brownian(1.0), Position::new(vec![0.3; n]), ep);
            let x = two(&|| (a.potential(r), a.force(r)));
            if k { a.renew_uniform(&sys, &t, &mut rng).unwrap(); } else { a = ContPassiveExpAgent::new_uniform(&sys, &t, &mut rng, InteractType::Exponential(dim, sg), MoveType::Brownian(1.0), ep).unwrap(); }
            (x, (a.potential(r), a.force(r)))
        };
        nd::check(nd::close(v0, v1, 1e-9, 1e-12), "placement keeps the potential");
        nd::check(nd::close(f0, f1, 1e-9, 1e-12), "placement keeps the force");
        if lj { nd::cover("lj") } else { nd::cover("exp") }
    }
    fn inter_refused() {
        // an agent of one interaction cannot be built with another one's type or dimension
        let sys = ContCubicSystem::new(BoundaryCond::Reflection, 1.0, 1);
        let t = ContBulkTarget::new(Position::new(vec![2.0]), 0.1);
        let mut rng = rng_seed(1);
        let (k, d) = (nd::choose(4), nd::choose(4));
        let i = match k { 0 => InteractType::Coulomb2D, 1 => InteractType::Coulomb3D, 2 => InteractType::Exponential(d, 0.5), _ => InteractType::LennardJones(0.5) };
        let (isx, islj) = (k == 2 && d == 1, k == 3);
        let m = MoveType::Brownian(1.0);
        nd::check(nd::panics(|| { ContPassiveExpAgent::new(i, m, Position::new(vec![0.0]), 1.0); }) != isx, "direct construction refuses another interaction");
        nd::check(ContPassiveExpAgent::new_uniform(&sys, &t, &mut rng, i, m, 1.0).is_ok() == isx, "uniform construction refuses another interaction");
        nd::check(nd::panics(|| { ContPassiveLJAgent::new(i, m, Position::new(vec![0.0]), 1.0); }) != islj, "direct construction refuses another interaction");
        nd::check(ContPassiveLJAgent::new_uniform(&sys, &t, &mut rng, i, m, 1.0).is_ok() == islj, "uniform construction refuses another interaction");
        let n = 1 + nd::choose(3);
        nd::check(nd::panics(|| { ContPassiveExpAgent::convert_from(&ContPassiveExpAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, mtype: m,
                    itype: InitType::SpecificPosition(Position::new(vec![0.0; 2])), gamma: 0.5, exp_dim: n, strength: 1.0, num_agent: 1 }); }) != (n == 2), "conversion refuses another dimension");
        nd::cover("end");
    }

    // ------------------------------------------------------------ clusters
    fn merge_sizes() {
        let al = nd::f(-3.0, 3.0);
        let d0 = nd::f(0.1, 10.0);
        let mut a = ContPassiveMergeAgent::new(MoveType::Brownian(d0), Position::new(vec![0.0]), 0.1, al);
        let mut b = ContPassiveMergeAgent::new(MoveType::Brownian(d0), Position::new(vec![1.0]), 0.1, al);
        nd::check(a.size() == 1 && b.size() == 1, "a new agent is a single particle");
        nd::check(a.mtype == MoveType::Brownian(d0), "a new agent has the given diffusion coefficient");
        let (m, n) = (nd::us(1, 1000000), nd::us(1, 1000000));
        a.add_size(m).unwrap();
        nd::check(a.size() == m + 1, "size grows by what is added");
        coef(&a, al);
        b.add_size(n).unwrap();
        let b0 = b.clone();
        nd::check(a.merge(&b).is_ok(), "clusters merge");
        nd::check(a.size() == m + n + 2, "merging adds the sizes");
        coef(&a, al);
        nd::check(b == b0, "the merged cluster is not touched");
        nd::check(a.pos.coordinate == [0.0], "merging does not move the cluster");
        nd::cover("merged");
    }
    fn merge_renew() {
        // re-used as a single particle
        nd::rng_cap(3);
        let sys = ContCubicSystem::new(BoundaryCond::Reflection, 1.0, 1);
        let t = ContBulkTarget::new(Position::new(vec![0.0]), 0.1);
        let mut rng = rng_seed(1);
        let al = nd::f(-3.0, 3.0);
        let mut a = ContPassiveMergeAgent::new(MoveType::Brownian(nd::f(0.1, 10.0)), Position::new(vec![0.0; 1 + nd::choose(2)]), 0.1, al);
        a.add_size(nd::us(0, 1000000)).unwrap();
        a.renew_uniform(&sys, &t, &mut rng).unwrap();
        nd::check(a.size() == 1, "a renewed cluster is a single particle");
        coef(&a, al);
        nd::check(a.ptl_radius == 0.1 && a.alpha == al, "renewal keeps the parameters");
        nd::cover("end");
    }
    fn merge_levy() {
        let mut a = ContPassiveMergeAgent::new(MoveType::Levy, Position::new(vec![0.0]), 0.1, 1.0);
        let b = ContPassiveMergeAgent::new(MoveType::Brownian(1.0), Position::new(vec![0.0]), 0.1, 1.0);
        nd::check(a.merge(&b).is_err() && a.add_size(nd::us(0, 9)).is_err(), "growth of a Levy walker is refused");
        nd::check(a.size() == 1 && a.mtype == MoveType::Levy && b.size() == 1, "a refused growth changes nothing");
        nd::cover("end");
    }
}
fn coef(a: &ContPassiveMergeAgent, al: f64) {
    let d = (a.size() as f64).powf(-al);
    match a.mtype {
        MoveType::Brownian(c) => nd::check(nd::close(c, d, 1e-9, 0.0), "the diffusion coefficient is size^-alpha"),
        _ => nd::check(false, "a cluster keeps diffusing"),
    }
}
