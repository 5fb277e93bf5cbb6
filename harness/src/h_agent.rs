//! Targets and agents: detection, placement, relative geometry, thermal moves, interactions, clusters.
use crate::nd;
use moledyn::prelude::*;

fn vecf(n: usize, m: f64) -> Vec<f64> { (0..n).map(|_| nd::f(-m, m)).collect() }
fn dist2(a: &[f64], b: &[f64]) -> f64 {
    let mut s = 0.0;
    for i in 0..a.len() { s += (a[i] - b[i]) * (a[i] - b[i]); }
    s
}
fn mt(d: f64) -> MoveType { MoveType::Brownian(d) }

/// uniform access to the four agents
pub trait A: AgentCore<f64> + Passive<f64, f64> + Sized + PartialEq + Clone {
    fn make(m: MoveType, p: Vec<f64>) -> Self;
    fn uniform(s: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<Self, Error>;
    fn renew(&mut self, s: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<(), Error>;
    fn adim(&self) -> usize;
    fn fromargs(i: InitType<f64>, d: usize, n: usize) -> Vec<Self>;
}
const UDIM: usize = 1;
impl A for ContPassiveIndepAgent {
    fn make(m: MoveType, p: Vec<f64>) -> Self { Self::new(m, Position::new(p)) }
    fn uniform(s: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<Self, Error> { Self::new_uniform(s, t, rng, mt(1.0)) }
    fn renew(&mut self, s: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<(), Error> { self.renew_uniform(s, t, rng) }
    fn adim(&self) -> usize { self.dim }
    fn fromargs(i: InitType<f64>, _d: usize, n: usize) -> Vec<Self> {
        Self::convert_from(&ContPassiveIndepAgentArguments { agent_type: AgentType::ContinuousPassiveIndependent, mtype: mt(1.5), itype: i, num_agent: n })
    }
}
impl A for ContPassiveMergeAgent {
    fn make(m: MoveType, p: Vec<f64>) -> Self { Self::new(m, Position::new(p), 0.1, 1.0) }
    fn uniform(s: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<Self, Error> { Self::new_uniform(s, t, rng, mt(1.0), 0.1, 1.0) }
    fn renew(&mut self, s: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<(), Error> { self.renew_uniform(s, t, rng) }
    fn adim(&self) -> usize { self.dim }
    fn fromargs(i: InitType<f64>, _d: usize, n: usize) -> Vec<Self> {
        Self::convert_from(&ContPassiveMergeAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, size: 1, mtype: mt(1.5), itype: i, ptl_radius: 0.1, alpha: 1.0, num_agent: n })
    }
}
impl A for ContPassiveExpAgent {
    fn make(m: MoveType, p: Vec<f64>) -> Self { Self::new(InteractType::Exponential(p.len(), 0.5), m, Position::new(p), 2.0) }
    fn uniform(s: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<Self, Error> {
        Self::new_uniform(s, t, rng, InteractType::Exponential(UDIM, 0.5), mt(1.0), 2.0)
    }
    fn renew(&mut self, s: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<(), Error> { self.renew_uniform(s, t, rng) }
    fn adim(&self) -> usize { self.exp_dim }
    fn fromargs(i: InitType<f64>, d: usize, n: usize) -> Vec<Self> {
        Self::convert_from(&ContPassiveExpAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, mtype: mt(1.5), itype: i, gamma: 0.5, exp_dim: d, strength: 2.0, num_agent: n })
    }
}
impl A for ContPassiveLJAgent {
    fn make(m: MoveType, p: Vec<f64>) -> Self { Self::new(InteractType::LennardJones(0.5), m, Position::new(p), 2.0) }
    fn uniform(s: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<Self, Error> {
        Self::new_uniform(s, t, rng, InteractType::LennardJones(0.5), mt(1.0), 2.0)
    }
    fn renew(&mut self, s: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, rng: &mut Pcg64) -> Result<(), Error> { self.renew_uniform(s, t, rng) }
    fn adim(&self) -> usize { self.dim }
    fn fromargs(i: InitType<f64>, _d: usize, n: usize) -> Vec<Self> {
        Self::convert_from(&ContPassiveLJAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, mtype: mt(1.5), itype: i, ptl_size: 0.5, strength: 2.0, num_agent: n })
    }
}

/// a one-dimensional box with a target in it: the agent ends in the box, outside of the target, on either side of it
fn placed(p: &[f64], l: f64, c: f64, s: f64) {
    nd::check(p.len() == 1, "an agent has the dimension of the system");
    nd::check(p[0].abs() <= l, "an agent starts inside the system");
    nd::check((p[0] - c).abs() >= s * 0.999999, "an agent does not start on the target");
    if p[0] < c { nd::cover("!left of the target"); } else { nd::cover("!right of the target"); }
}

fn place<T: A>() {
    nd::rng_cap(3);
    let l = nd::f(1.0, 100.0);
    let c = nd::f(-0.5, 0.5);
    let s = nd::f(0.01, 0.3);
    let sys = ContCubicSystem::new(BoundaryCond::Reflection, l, 1);
    let tgt = ContBulkTarget::new(Position::new(vec![c]), s);
    let mut rng = rng_seed(1);
    match nd::choose(3) {
        0 => {
            let a = T::uniform(&sys, &tgt, &mut rng).unwrap();
            nd::check(a.adim() == 1, "an agent knows its dimension");
            placed(&a.pos().coordinate, l, c, s);
        }
        1 => {
            // re-used: same dimension or another one
            let n = 1 + nd::choose(2);
            let mut a = T::make(mt(1.0), vecf(n, 1e3));
            nd::check(a.renew(&sys, &tgt, &mut rng).is_ok(), "an agent can be placed again");
            nd::check(a.adim() == 1, "an agent knows its dimension");
            placed(&a.pos().coordinate, l, c, s);
        }
        _ => {
            // made from arguments with uniform placement, then placed
            let mut v = T::fromargs(InitType::Uniform, 1, 2);
            nd::check(v.len() == 2, "as many agents as asked for");
            nd::check(v[1].renew(&sys, &tgt, &mut rng).is_ok(), "an agent made from arguments can be placed");
            nd::check(v[1].adim() == 1, "an agent knows its dimension");
            placed(&v[1].pos().coordinate, l, c, s);
        }
    }
}

/// the same in the plane and in a cylinder
fn place2<T: A>() {
    nd::rng_cap(4);
    let c = vecf(2, 0.5);
    let s = nd::f(0.01, 0.3);
    let tgt = ContBulkTarget::new(Position::new(c.clone()), s);
    let mut rng = rng_seed(1);
    let mut a = T::make(mt(1.0), vec![9.0, 9.0]);
    let ok = match nd::choose(3) {
        0 => {
            let l = nd::f(1.0, 3.0);
            let ok = a.renew(&ContCubicSystem::new(BoundaryCond::Periodic, l, 2), &tgt, &mut rng).is_ok();
            nd::check(a.pos().coordinate[0].abs() <= l && a.pos().coordinate[1].abs() <= l, "an agent starts inside the system");
            ok
        }
        1 => {
            let r = nd::f(1.0, 3.0);
            let ok = a.renew(&ContCircSystem::new(r, 2), &tgt, &mut rng).is_ok();
            let x = &a.pos().coordinate;
            nd::check(x[0] * x[0] + x[1] * x[1] <= r * r * (1.0 + 1e-9), "an agent starts inside the system");
            ok
        }
        _ => {
            let (r, l) = (nd::f(1.0, 3.0), nd::f(1.0, 3.0));
            let ok = a.renew(&ContCylindricalSystem::new(1, r, l, 2), &tgt, &mut rng).is_ok();
            nd::check(a.pos().coordinate[0].abs() <= r * (1.0 + 1e-9) && a.pos().coordinate[1].abs() <= l, "an agent starts inside the system");
            ok
        }
    };
    nd::check(ok && a.pos().coordinate.len() == 2, "an agent can be placed again");
    nd::check(dist2(&a.pos().coordinate, &c) >= s * s * 0.999999, "an agent does not start on the target");
    nd::cover("end");
}

/// agents made from arguments at a given place
fn from_args<T: A>() {
    let n = 1 + nd::choose(3);
    let p = vecf(n, 1e6);
    let k = nd::us(0, 3);
    let v = T::fromargs(InitType::SpecificPosition(Position::new(p.clone())), n, k);
    nd::check(v.len() == k, "as many agents as asked for");
    for a in v.iter() {
        nd::check(a.pos().coordinate == p, "every agent at the given place");
        nd::check(a.adim() == n, "every agent of the right dimension");
        nd::cover("some");
    }
    if k == 0 { nd::cover("none"); }
}

/// direction and distance between two agents
fn relative<T: A>(n: usize) {
    let (x, y) = (vecf(n, 1e6), vecf(n, 1e6));
    let a = T::make(mt(1.0), x.clone());
    let b = T::make(mt(1.0), y.clone());
    let d = a.mutual_distance(&b).unwrap();
    nd::assume(d > 1e-3);
    nd::check(b.mutual_distance(&a) == Ok(d), "distance is symmetric");
    let (u, e) = a.mutual_displacement(&b).unwrap();
    let mut w = Position::new(vecf(n, 1e6));
    let g = a.mutual_displacement_to_vec(&b, &mut w).unwrap();
    nd::check(nd::close(e, d, 1e-9, 0.0) && nd::close(g, d, 1e-9, 0.0), "displacement and distance agree");
    nd::check(u.coordinate.len() == n && w.coordinate.len() == n, "the direction has the right dimension");
    for i in 0..n {
        nd::check(nd::close(u.coordinate[i] * d, y[i] - x[i], 1e-9, 1e-9), "the direction points from the first to the second");
        nd::check(nd::close(w.coordinate[i] * d, y[i] - x[i], 1e-9, 1e-9), "the direction points from the first to the second, written to a vector");
    }
    nd::cover("end");
}
/// the law of the distance, over the reals
fn relative_law<T: A>() {
    let n = 1 + nd::choose(3);
    let (x, y) = (vecf(n, 1e6), vecf(n, 1e6));
    let a = T::make(mt(1.0), x.clone());
    let b = T::make(mt(1.0), y.clone());
    let d = a.mutual_distance(&b).unwrap();
    nd::check(d >= 0.0, "a distance is not negative");
    nd::check(nd::close(d * d, dist2(&x, &y), 1e-9, 1e-9), "distance is Euclidean");
    nd::cover("end");
}
fn relative_mismatch<T: A>() {
    let (n, m, k) = (1 + nd::choose(3), 1 + nd::choose(3), 1 + nd::choose(3));
    let a = T::make(mt(1.0), vec![0.0; n]);
    let b = T::make(mt(1.0), vec![1.0; m]);
    let mut v = Position::new(vec![5.0; k]);
    nd::check(a.mutual_displacement(&b).is_ok() == (n == m), "displacement fails exactly on a dimension mismatch");
    nd::check(a.mutual_distance(&b).is_ok() == (n == m), "distance fails exactly on a dimension mismatch");
    nd::check(a.mutual_displacement_to_vec(&b, &mut v).is_ok() == (n == m && n == k), "displacement to a vector fails exactly on a dimension mismatch");
    nd::cover("end");
}

/// thermal displacement: sqrt(2 D dt) times an own standard normal deviate per coordinate
fn same(x: f64, y: f64) -> bool { nd::close(x, y, 1e-9, 1e-6) }
fn deviates(x: &[f64], len: f64, g0: usize, id: &'static str) {
    let n = x.len();
    nd::check(nd::gauss_count() == g0 + n, "one normal deviate per coordinate");
    if n == 1 {
        nd::check(same(x[0], len * nd::gauss_at(g0)), id);
    } else {
        let (a, b) = (len * nd::gauss_at(g0), len * nd::gauss_at(g0 + 1));
        nd::check((same(x[0], a) & same(x[1], b)) | (same(x[0], b) & same(x[1], a)), id);
    }
}
fn thermal<T: A>(n: usize) {
    let (c, dt) = (nd::f(0.0, 1e3), nd::f(0.0, 1e3));
    let a = T::make(mt(c), vecf(n, 1.0));
    let mut rng = rng_seed(3);
    let len = (2.0 * c * dt).sqrt();
    if nd::b() {
        let mv = a.random_move(&mut rng, dt).unwrap();
        nd::check(mv.coordinate.len() == n, "a move has the dimension of the agent");
        deviates(&mv.coordinate, len, 0, "a move is sqrt(2 D dt) times normal deviates");
        nd::cover("returned");
    } else {
        let v0 = vecf(n, 1.0);
        let mut v = Position::new(v0.clone());
        nd::check(a.random_move_to_vec(&mut rng, dt, &mut v).is_ok(), "a move can be added to a vector");
        let d: Vec<f64> = (0..n).map(|i| v.coordinate[i] - v0[i]).collect();
        deviates(&d, len, 0, "an added move is sqrt(2 D dt) times normal deviates");
        nd::cover("added");
    }
}
fn thermal_refusals<T: A>() {
    let (n, k) = (1 + nd::choose(3), 1 + nd::choose(3));
    let a = T::make(mt(1.0), vec![0.0; n]);
    let l = T::make(MoveType::Levy, vec![0.0; n]);
    let mut rng = rng_seed(3);
    let v0 = vecf(k, 1.0);
    let mut v = Position::new(v0.clone());
    nd::check(a.random_move_to_vec(&mut rng, 1.0, &mut v).is_ok() == (n == k), "a move is added only to a vector of the right dimension");
    if n != k { nd::check(v.coordinate == v0, "a refused move leaves the vector alone"); }
    let mut w = Position::new(v0.clone());
    nd::check(l.random_move(&mut rng, 1.0).is_err() && l.random_move_to_vec(&mut rng, 1.0, &mut w).is_err(), "a Levy walk is refused, not replaced");
    nd::check(w.coordinate == v0, "a refused move leaves the vector alone");
    nd::cover("end");
}

macro_rules! per_agent {
    ($($g:ident: $($n:ident $t:ty),*;)*) => { harnesses! { $($( fn $n() { $g::<$t>() } )*)* } };
}
per_agent! {
        place: place_indep ContPassiveIndepAgent, place_merge ContPassiveMergeAgent, place_exp ContPassiveExpAgent, place_lj ContPassiveLJAgent;
        place2: place2_indep ContPassiveIndepAgent, place2_merge ContPassiveMergeAgent, place2_exp ContPassiveExpAgent, place2_lj ContPassiveLJAgent;
        from_args: args_indep ContPassiveIndepAgent, args_merge ContPassiveMergeAgent, args_exp ContPassiveExpAgent, args_lj ContPassiveLJAgent;
        relative1: rel1_indep ContPassiveIndepAgent, rel1_merge ContPassiveMergeAgent, rel1_exp ContPassiveExpAgent, rel1_lj ContPassiveLJAgent;
        relative2: rel2_indep ContPassiveIndepAgent, rel2_merge ContPassiveMergeAgent, rel2_exp ContPassiveExpAgent, rel2_lj ContPassiveLJAgent;
        relative3: rel3_indep ContPassiveIndepAgent, rel3_merge ContPassiveMergeAgent, rel3_exp ContPassiveExpAgent, rel3_lj ContPassiveLJAgent;
        relative_law: rlaw_indep ContPassiveIndepAgent, rlaw_merge ContPassiveMergeAgent, rlaw_exp ContPassiveExpAgent, rlaw_lj ContPassiveLJAgent;
        relative_mismatch: relmis_indep ContPassiveIndepAgent, relmis_merge ContPassiveMergeAgent, relmis_exp ContPassiveExpAgent, relmis_lj ContPassiveLJAgent;
        thermal1: therm1_indep ContPassiveIndepAgent, therm1_merge ContPassiveMergeAgent, therm1_exp ContPassiveExpAgent, therm1_lj ContPassiveLJAgent;
        thermal2: therm2_indep ContPassiveIndepAgent, therm2_merge ContPassiveMergeAgent, therm2_exp ContPassiveExpAgent, therm2_lj ContPassiveLJAgent;
        thermal_refusals: thref_indep ContPassiveIndepAgent, thref_merge ContPassiveMergeAgent, thref_exp ContPassiveExpAgent, thref_lj ContPassiveLJAgent;
    }
    fn relative1<T: A>() { relative::<T>(1) }
    fn relative2<T: A>() { relative::<T>(2) }
    fn relative3<T: A>() { relative::<T>(3) }
    fn thermal1<T: A>() { thermal::<T>(1) }
    fn thermal2<T: A>() { thermal::<T>(2) }
