//! Text forms of parameters, configuration headers, argument words.
use crate::nd;
use moledyn::prelude::*;
use std::fmt::Debug;

fn read<T: FromStr>(s: &str) -> Option<T> {
    let mut r = None;
    let p = nd::panics(|| { r = s.parse::<T>().ok(); });
    nd::check(!p, "reading a text does not panic");
    r
}

fn is<T: FromStr + PartialEq>(s: String, t: T) {
    match read::<T>(&s) {
        Some(x) => nd::check(x == t, "the text reads as the value"),
        None => nd::check(false, "the text is read"),
    }
}

fn back<T: FromStr + Display + PartialEq>(t: T) { is(format!("{}", t), t); nd::cover("end"); }

/// one character of the text replaced by another visible one
fn corrupt(s: &str, n: usize) -> String {
    let i = nd::choose(n);
    let c = nd::u(0x21, 0x7e) as u8;
    let mut v = s.as_bytes().to_vec();
    nd::assume(c != v[i]);
    v[i] = c;
    unsafe { String::from_utf8_unchecked(v) }
}

fn refused<T: FromStr>(s: &str) {
    nd::check(read::<T>(s).is_none(), "refused");
    nd::cover("end");
}

const POS: f64 = 1e-6;
fn pos(dim: usize) -> Position<f64> { Position::new((0..dim).map(|_| nd::f(-1e6, 1e6)).collect()) }

fn agent_type(k: usize) -> AgentType {
    [AgentType::ContinuousPassiveIndependent, AgentType::ContinuousPassiveInteracting, AgentType::ContinuousActiveIndependent,
     AgentType::ContinuousActiveInteracting, AgentType::LatticePassiveIndependent, AgentType::LatticePassiveInteracting,
     AgentType::LatticeActiveIndependent, AgentType::LatticeActiveInteracting, AgentType::NetworkPassiveIndependent,
     AgentType::NetworkPassiveInteracting, AgentType::NetworkActiveIndependent, AgentType::NetworkActiveInteracting][k]
}
fn target_type(k: usize) -> TargetType {
    [TargetType::ContinuousInBulk, TargetType::ContinuousAtBoundary, TargetType::LatticeInBulk, TargetType::LatticeAtBoundary,
     TargetType::NetworkSingleNode][k]
}
fn mtype() -> MoveType { if nd::choose(2) == 0 { MoveType::Brownian(nd::f(POS, 1e6)) } else { MoveType::Levy } }
fn itype(dims: usize) -> InitType<f64> {
    match nd::choose(dims + 1) { 0 => InitType::Uniform, d => InitType::SpecificPosition(pos(d)) }
}
fn bc() -> BoundaryCond {
    match nd::choose(3) { 0 => BoundaryCond::Periodic, 1 => BoundaryCond::Reflection, _ => BoundaryCond::Mixed(nd::us(1, 99)) }
}

// ------------------------------------------------------------------ headers
fn header<S: Argument<A>, A: PartialEq>(text: String, a: A) {
    let dir = nd::scratch();
    let path = format!("{}/conf", dir.path);
    std::fs::write(&path, text + "data\n").unwrap();
    let mut lines = BufReader::new(File::open(&path).unwrap()).lines();
    let mut ok = false;
    let p = nd::panics(|| { ok = match S::read_args_from_lines(&mut lines) { Ok(b) => b == a, Err(_) => false }; });
    nd::check(!p && ok, "the header reads back as the arguments");
    nd::check(match lines.next() { Some(Ok(s)) => s == "data", _ => false }, "what follows the header is left");
    nd::cover("end");
}
fn width() -> usize { [0, 12, 30][nd::choose(3)] }

// ------------------------------------------------------------------ words
fn words<S: Argument<A>, A: PartialEq>(w: Vec<String>, a: A) {
    nd::check(S::NUM_ARGS == w.len(), "one word for each argument");
    let mut ok = false;
    let p = nd::panics(|| { ok = match S::read_args_from_vec(&w) { Ok(b) => b == a, Err(_) => false }; });
    nd::check(!p && ok, "the words are read as the arguments, in order");
    // surrounded by blanks
    let v: Vec<String> = w.iter().map(|x| format!(" {}\t", x)).collect();
    let p = nd::panics(|| { ok = match S::read_args_from_vec(&v) { Ok(b) => b == a, Err(_) => false }; });
    nd::check(!p && ok, "blanks around the words do not matter");
    // any other number of words
    let k = nd::choose(3);
    let mut v = w.clone();
    match k { 0 => { v.pop(); }, 1 => { let x = v[v.len() - 1].clone(); v.push(x); }, _ => v.clear() }
    let mut err = false;
    let p = nd::panics(|| { err = S::read_args_from_vec(&v).is_err(); });
    nd::check(!p && err, "any other number of words is an error");
    nd::cover("end");
}

macro_rules! s { ($($x:expr),*) => { vec![$(format!("{}", $x)),*] } }

harnesses! {
    // ---------------------------------------------------------------- text forms
    fn text_system() {
        back(match nd::choose(5) {
            0 => SystemType::ContinuousCircular, 1 => SystemType::ContinuousRectangular,
            2 => SystemType::ContinuousCylindrical(nd::us(1, 999)), 3 => SystemType::Lattice, _ => SystemType::Network })
    }
    fn text_bc() {
        back(match nd::choose(3) { 0 => BoundaryCond::Periodic, 1 => BoundaryCond::Reflection, _ => BoundaryCond::Mixed(nd::us(1, 999)) })
    }
    fn text_target() { back(target_type(nd::choose(5))) }
    fn text_agent() { back(agent_type(nd::choose(12))) }
    fn text_move() { back(mtype()) }
    fn text_init() { back(itype(3)) }
    fn text_pos() {
        let p = pos(1 + nd::choose(3));
        let (s, q) = (format!("{}", p), p.clone());
        let t = match nd::choose(4) { 0 => s, 1 => format!("({})", s), 2 => s.replace(",", ":"), _ => format!(" {} ", s) };
        is(t, q);
        nd::cover("end");
    }
    fn text_inter() {
        back(match nd::choose(4) {
            0 => InteractType::Exponential(nd::us(1, 99), nd::f(POS, 1e6)), 1 => InteractType::Coulomb2D, 2 => InteractType::Coulomb3D,
            _ => InteractType::LennardJones(nd::f(POS, 1e6)) })
    }
    fn text_time() {
        let (a, b, n) = (nd::f(POS, 1e6), nd::f(POS, 1e6), nd::us(1, 999));
        if nd::choose(2) == 0 {
            match read::<TimeType>(&format!("{}", TimeType::Exponential(a, b, n))) {
                Some(TimeType::Exponential(x, y, m)) => nd::check(nd::close(a, x, 1e-5, 0.0) & nd::close(b, y, 1e-5, 0.0) & (n == m), "reads back to the digits shown"),
                _ => nd::check(false, "the kind is kept"),
            }
        } else {
            match read::<TimeType>(&format!("{}", TimeType::Constant(a))) {
                Some(TimeType::Constant(x)) => nd::check(nd::close(a, x, 1e-5, 0.0), "reads back to the digits shown"),
                _ => nd::check(false, "the kind is kept"),
            }
        }
        nd::cover("end");
    }
    /// the short forms a user may give on the command line
    fn text_short() {
        let (x, y, n) = (nd::f(POS, 1e6), nd::f(POS, 1e6), nd::us(1, 999));
        match nd::choose(15) {
            0 => is(format!("{}", n), BoundaryCond::Mixed(n)),
            1 => is("Periodic".to_string(), BoundaryCond::Periodic),
            2 => is("Reflective".to_string(), BoundaryCond::Reflection),
            3 => is(format!("{}", n), SystemType::ContinuousCylindrical(n)),
            4 => is("Circular".to_string(), SystemType::ContinuousCircular),
            5 => is("Rectangular".to_string(), SystemType::ContinuousRectangular),
            6 => is(format!("{}", x), MoveType::Brownian(x)),
            7 => is("Levy".to_string(), MoveType::Levy),
            8 => is("Uniform".to_string(), InitType::<f64>::Uniform),
            9 => is(format!("{},{}", x, y), InitType::SpecificPosition(Position::new(vec![x, y]))),
            10 => is(format!("Exponential({},{})", n, x), InteractType::Exponential(n, x)),
            11 => { is("Coulomb2D".to_string(), InteractType::Coulomb2D); is("Coulomb3D".to_string(), InteractType::Coulomb3D) }
            12 => is(format!("LennardJones({})", x), InteractType::LennardJones(x)),
            13 => is(format!("{}", x), TimeType::Constant(x)),
            _ => is(format!("{} {} {}", x, y, n), TimeType::Exponential(x, y, n)),
        }
        nd::cover("end");
    }
    fn text_wrong_type() {
        let w = ["Target at Boundary of Continous System.", "Passive Interacting Agent in Network.", "Passive Independent Agent in Continous system."][nd::choose(3)];
        let t = corrupt(w, w.len());
        nd::check(read::<TargetType>(&t).is_none() && read::<AgentType>(&t).is_none(), "refused");
        nd::cover("end");
    }
    fn text_wrong_bc() {
        match nd::choose(3) {
            0 => refused::<BoundaryCond>(&corrupt("Periodic", 8)),
            1 => refused::<BoundaryCond>(&corrupt("Reflective", 10)),
            _ => refused::<BoundaryCond>(["0", "-1", "1.5", "Mixed", ""][nd::choose(5)]),
        }
    }
    fn text_wrong_system() {
        match nd::choose(4) {
            0 => refused::<SystemType>(&corrupt("Circular", 8)),
            1 => refused::<SystemType>(&corrupt("Lattice", 7)),
            2 => refused::<SystemType>(&corrupt("Continuous Circular system.", 19)),
            _ => refused::<SystemType>(["0", "-1", "1.5", "Continuous", ""][nd::choose(5)]),
        }
    }
    fn text_wrong_move() {
        match nd::choose(3) {
            0 => refused::<MoveType>(&corrupt("Brownian with diffusion coefficient 1", 8)),
            1 => refused::<MoveType>(&corrupt("Levy", 4)),
            _ => refused::<MoveType>(["Brownian", "1 2", "Brownian with diffusion coefficient x", ""][nd::choose(4)]),
        }
    }
    fn text_wrong_inter() {
        match nd::choose(4) {
            0 => refused::<InteractType>(&corrupt("Coulomb2D", 9).replace("Coulomb3D", "x")),
            1 => refused::<InteractType>(&corrupt("LennardJones(1)", 12)),
            2 => refused::<InteractType>(&corrupt("Exponential(2,1)", 11)),
            _ => refused::<InteractType>(["Exponential(2)", "Exponential(2,1,1)", "Exponential(1.5,1)", "Lennard Jones", "Coulomb potential in 4 D", "Coulomb(1,1.0)", "Exponential form interaction in 2 D with typical length x", ""][nd::choose(8)]),
        }
    }
    fn text_wrong_time() {
        match nd::choose(3) {
            0 => refused::<TimeType>(&corrupt("Constant Time step with size 1", 8)),
            1 => refused::<TimeType>(&corrupt("Exponential time step increase from 1 to 2 Each increase occurs in every 3 step", 11)),
            _ => refused::<TimeType>(["1 2", "1 2 x", "1 2 3 4", "x", "Constant Time step with size x", ""][nd::choose(6)]),
        }
    }

    fn text_wrong_pos() {
        let c = nd::u(0x20, 0x7e) as u8;
        let mut v = b"1.5,-2".to_vec();
        let i = nd::choose(v.len());
        // nothing that a coordinate may have, nor a separator, or a bracket at the end
        nd::assume(!((c >= b'0') & (c <= b'9') | (c == b'.') | (c == b'-') | (c == b'+') | (c == b'e') | (c == b'E') | (c == b',') | (c == b':') | (c == b' ') & ((i == 0) | (i == 2) | (i == 4) | (i == 5)) | ((c == b'(') | (c == b')')) & ((i == 0) | (i == 5))));
        match nd::choose(3) {
            0 => { v[i] = c; refused::<Position<f64>>(&unsafe { String::from_utf8_unchecked(v) }) }
            1 => refused::<Position<f64>>(["", "()", ",", "1,", ",1", "1,,2", "1,x", "1 2", "1;2", "1(,)2"][nd::choose(10)]),
            _ => refused::<Position<i32>>(["", "1,", "1.5,2", "x", "1,2147483648"][nd::choose(5)]),
        }
    }
    fn text_wrong_init() {
        match nd::choose(3) {
            0 => refused::<InitType<f64>>(&corrupt("Uniform", 7)),
            1 => refused::<InitType<f64>>(["", " ", "x", "1,x", "Agents", "Agents all", "Agents all are at", "Uniform Uniform", "1 2"][nd::choose(9)]),
            _ => refused::<InitType<f64>>(&corrupt("Agents all", 10)),
        }
    }
    /// printed forms cut short are never a panic, nor another kind
    fn text_cut() {
        fn cut(s: String) -> (String, String) {
            let mut c: Vec<usize> = (0..s.len()).filter(|&i| s.as_bytes()[i] == b' ').collect();
            c.push(0);
            let k = c[nd::choose(c.len())];
            (s[..k].to_string(), s[k..].to_string())
        }
        fn none<T: FromStr>(s: (String, String)) { read::<T>(&s.0); read::<T>(&s.1); nd::cover("end") }
        match nd::choose(9) {
            0 => none::<SystemType>(cut(format!("{}", SystemType::ContinuousCylindrical(2)))),
            1 => none::<BoundaryCond>(cut(format!("{}", BoundaryCond::Mixed(2)))),
            2 => none::<TargetType>(cut(format!("{}", TargetType::ContinuousInBulk))),
            3 => none::<AgentType>(cut(format!("{}", AgentType::ContinuousPassiveInteracting))),
            4 => none::<MoveType>(cut(format!("{}", MoveType::Brownian(nd::f(POS, 1e6))))),
            5 => none::<InitType<f64>>(cut(format!("{}", InitType::SpecificPosition(pos(2))))),
            6 => none::<InitType<f64>>(cut(format!("{}", InitType::<f64>::Uniform))),
            7 => none::<InteractType>(cut(format!("{}", InteractType::Exponential(2, nd::f(POS, 1e6))))),
            _ => none::<TimeType>(cut(format!("{}", TimeType::Exponential(nd::f(POS, 1e6), nd::f(POS, 1e6), 3)))),
        }
    }

    // ---------------------------------------------------------------- headers
    fn cfg_cubic() { let a = ContCubicSystemArguments::new(bc(), nd::f(POS, 1e6), nd::us(1, 9)); header::<ContCubicSystem, _>(a.print_configuration(width()), a) }
    fn cfg_circ() { let a = ContCircSystemArguments::new(nd::f(POS, 1e6), nd::us(1, 9)); header::<ContCircSystem, _>(a.print_configuration(width()), a) }
    fn cfg_cyl() {
        let a = ContCylindricalSystemArguments::new(SystemType::ContinuousCylindrical(nd::us(1, 99)), bc(), nd::f(POS, 1e6), nd::f(POS, 1e6), nd::us(1, 9));
        header::<ContCylindricalSystem, _>(a.print_configuration(20), a)
    }
    fn cfg_target() { let a = ContBulkTargetArguments::new(pos(1 + nd::choose(3)), nd::f(POS, 1e6)); header::<ContBulkTarget, _>(a.print_configuration(width()), a) }
    fn cfg_indep() { let a = ContPassiveIndepAgentArguments::new(mtype(), itype(2), nd::us(1, 99)); header::<ContPassiveIndepAgent, _>(a.print_configuration(width()), a) }
    fn cfg_merge() { let a = ContPassiveMergeAgentArguments::new(mtype(), itype(2), nd::f(POS, 1e6), nd::f(-10.0, 10.0), nd::us(1, 99)); header::<ContPassiveMergeAgent, _>(a.print_configuration(20), a) }
    fn cfg_exp() { let a = ContPassiveExpAgentArguments::new(mtype(), itype(2), nd::f(POS, 1e6), nd::us(1, 9), nd::f(-10.0, 10.0), nd::us(1, 99)); header::<ContPassiveExpAgent, _>(a.print_configuration(20), a) }
    fn cfg_lj() { let a = ContPassiveLJAgentArguments::new(mtype(), itype(2), nd::f(POS, 1e6), nd::f(-10.0, 10.0), nd::us(1, 99)); header::<ContPassiveLJAgent, _>(a.print_configuration(20), a) }
    fn cfg_const() { let a = ConstStepArguments::new(nd::f(POS, 1e6), nd::f(0.0, 1e6)); header::<ConstStep, _>(a.print_configuration(width()), a) }
    fn cfg_growing() { let a = ExponentialStepArguments::new(nd::f(POS, 1e6), nd::f(POS, 1e6), nd::us(1, 999), nd::f(0.0, 1e6)); header::<ExponentialStep, _>(a.print_configuration(20), a) }
    fn cfg_sim() {
        let seed = [0u128, 1, 12341234123412341234, u128::MAX][nd::choose(4)];
        let dir = ["datas", "/a b/c", "c:/x:y"][nd::choose(3)].to_string();
        match nd::choose(3) {
            0 => { let a = VariableSimulationArguments::new(nd::us(1, 999), nd::us(0, 99), seed, dir); header::<VariableSimulation, _>(a.print_configuration(20), a) }
            1 => { let a = ParVariableSimulationArguments::new(nd::us(1, 999), seed, nd::us(1, 99), dir); header::<ParVariableSimulation, _>(a.print_configuration(20), a) }
            _ => { let a = ProcessSimulationArguments::new(nd::us(1, 99), nd::f(POS, 1e6), nd::us(0, 99), seed, dir); header::<ProcessSimulation, _>(a.print_configuration(20), a) }
        }
    }
    /// a whole header: several parts one after the other
    fn cfg_whole() {
        let a = ContCylindricalSystemArguments::new(SystemType::ContinuousCylindrical(2), BoundaryCond::Mixed(1), nd::f(POS, 1e6), nd::f(POS, 1e6), 3);
        let t = ContBulkTargetArguments::new(pos(3), nd::f(POS, 1e6));
        let g = ContPassiveIndepAgentArguments::new(mtype(), InitType::Uniform, 5);
        let c = ConstStepArguments::new(nd::f(POS, 1e6), nd::f(0.0, 1e6));
        let dir = nd::scratch();
        let path = format!("{}/conf", dir.path);
        let w = width();
        std::fs::write(&path, a.print_configuration(w) + &t.print_configuration(w) + &g.print_configuration(w) + &c.print_configuration(w)).unwrap();
        let mut lines = BufReader::new(File::open(&path).unwrap()).lines();
        let mut ok = false;
        let p = nd::panics(|| {
            ok = ContCylindricalSystem::read_args_from_lines(&mut lines).map(|x| x == a).unwrap_or(false)
                && ContBulkTarget::read_args_from_lines(&mut lines).map(|x| x == t).unwrap_or(false)
                && ContPassiveIndepAgent::read_args_from_lines(&mut lines).map(|x| x == g).unwrap_or(false)
                && ConstStep::read_args_from_lines(&mut lines).map(|x| x == c).unwrap_or(false);
        });
        nd::check(!p && ok, "every part reads back");
        nd::check(lines.next().is_none(), "nothing is left over");
        nd::cover("end");
    }
    fn cfg_broken() {
        let a = ContCubicSystemArguments::new(BoundaryCond::Periodic, 1.5, 2);
        let full = a.print_configuration(12);
        let l: Vec<&str> = full.lines().collect();
        let k = nd::choose(l.len());
        let text = match nd::choose(3) {
            // cut short
            0 => l[..k].join("\n"),
            // a value that is none
            2 => l.iter().enumerate().map(|(i, x)| if i == k { x[..x.find(':').unwrap() + 1].to_string() + ["", " x", " ,"][nd::choose(3)] } else { x.to_string() }).collect::<Vec<_>>().join("\n"),
            // a line without a colon
            _ => l.iter().enumerate().map(|(i, x)| if i == k { x.replace(":", "=") } else { x.to_string() }).collect::<Vec<_>>().join("\n"),
        };
        let dir = nd::scratch();
        let path = format!("{}/conf", dir.path);
        std::fs::write(&path, text).unwrap();
        let mut lines = BufReader::new(File::open(&path).unwrap()).lines();
        let mut err = false;
        let p = nd::panics(|| { err = ContCubicSystem::read_args_from_lines(&mut lines).is_err(); });
        nd::check(!p && err, "a header cut short or without a colon is an error");
        nd::cover("end");
    }

    // ---------------------------------------------------------------- words
    fn words_cubic() { let (b, x, d) = (bc(), nd::f(POS, 1e6), nd::us(1, 9)); words::<ContCubicSystem, _>(s![b, x, d], ContCubicSystemArguments { sys_type: SystemType::ContinuousRectangular, bctype: b, sys_size: x, dim: d }) }
    fn words_circ() { let (x, d) = (nd::f(POS, 1e6), nd::us(1, 9)); words::<ContCircSystem, _>(s![x, d], ContCircSystemArguments { sys_type: SystemType::ContinuousCircular, bctype: BoundaryCond::Reflection, sys_size: x, dim: d }) }
    fn words_cyl() {
        let (k, b, r, l, d) = (nd::us(1, 99), bc(), nd::f(POS, 1e6), nd::f(POS, 1e6), nd::us(1, 9));
        words::<ContCylindricalSystem, _>(s![k, b, r, l, d], ContCylindricalSystemArguments { sys_type: SystemType::ContinuousCylindrical(k), bctype: b, sys_radius: r, sys_length: l, dim: d })
    }
    fn words_target() { let (p, x) = (pos(1 + nd::choose(3)), nd::f(POS, 1e6)); words::<ContBulkTarget, _>(s![p, x], ContBulkTargetArguments { target_type: TargetType::ContinuousInBulk, target_pos: p, target_size: x }) }
    fn words_indep() { let (m, i, n) = (mtype(), itype(2), nd::us(1, 99)); words::<ContPassiveIndepAgent, _>(s![m, i, n], ContPassiveIndepAgentArguments { agent_type: AgentType::ContinuousPassiveIndependent, mtype: m, itype: i, num_agent: n }) }
    fn words_merge() {
        let (m, i, r, a, n) = (mtype(), itype(2), nd::f(POS, 1e6), nd::f(-10.0, 10.0), nd::us(1, 99));
        words::<ContPassiveMergeAgent, _>(s![m, i, r, a, n], ContPassiveMergeAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, size: 1, mtype: m, itype: i, ptl_radius: r, alpha: a, num_agent: n })
    }
    fn words_exp() {
        let (m, i, g, d, c, n) = (mtype(), itype(2), nd::f(POS, 1e6), nd::us(1, 9), nd::f(-10.0, 10.0), nd::us(1, 99));
        words::<ContPassiveExpAgent, _>(s![m, i, g, d, c, n], ContPassiveExpAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, mtype: m, itype: i, gamma: g, exp_dim: d, strength: c, num_agent: n })
    }
    fn words_lj() {
        let (m, i, g, c, n) = (mtype(), itype(2), nd::f(POS, 1e6), nd::f(-10.0, 10.0), nd::us(1, 99));
        words::<ContPassiveLJAgent, _>(s![m, i, g, c, n], ContPassiveLJAgentArguments { agent_type: AgentType::ContinuousPassiveInteracting, mtype: m, itype: i, ptl_size: g, strength: c, num_agent: n })
    }
    fn words_const() { let (x, t) = (nd::f(POS, 1e6), nd::f(0.0, 1e6)); words::<ConstStep, _>(s![x, t], ConstStepArguments { dt: x, tmax: t }) }
    fn words_growing() {
        let (x, y, n, t) = (nd::f(POS, 1e6), nd::f(POS, 1e6), nd::us(1, 999), nd::f(0.0, 1e6));
        words::<ExponentialStep, _>(s![x, y, n, t], ExponentialStepArguments { dt_min: x, dt_max: y, length: n, tmax: t })
    }
    fn words_sim() {
        let seed = [0u128, 12341234123412341234, u128::MAX][nd::choose(3)];
        let (n, k, x, dir) = (nd::us(1, 999), nd::us(0, 99), nd::f(POS, 1e6), "c:/x".to_string());
        match nd::choose(3) {
            0 => words::<VariableSimulation, _>(s![n, k, seed, dir], VariableSimulationArguments { num_ensemble: n, idx_set: k, seed, output_dir: dir }),
            1 => words::<ParVariableSimulation, _>(s![n, seed, k, dir], ParVariableSimulationArguments { num_ensemble: n, seed, n_thrd: k, output_dir: dir }),
            _ => words::<ProcessSimulation, _>(s![n, x, k, seed, dir], ProcessSimulationArguments { num_ensemble: n, period: x, idx_set: k, seed, output_dir: dir }),
        }
    }
    fn words_wrong() {
        // the first word is no number: never read as one
        let mut some = false;
        let c = nd::u(0x21, 0x7e) as u8;
        nd::assume(!(c >= b'0' && c <= b'9'));
        let mut b = b"1.5".to_vec();
        b[nd::choose(3)] = c;
        let w = vec![unsafe { String::from_utf8_unchecked(b) }, "2".to_string()];
        nd::assume(c != b'.' && c != b'e' && c != b'E' && c != b'-' && c != b'+');
        let p = nd::panics(|| { some = ContCircSystem::read_args_from_vec(&w).is_ok(); });
        nd::check(!p & !some, "a word that is no number is refused");
        nd::cover("end");
    }
    /// words that are no value of their argument, in every component
    fn words_no_value() {
        fn bad<S: Argument<A>, A>(w: Vec<String>) {
            let k = nd::choose(w.len());
            let mut v = w.clone();
            v[k] = ["", " ", "x", "x 1", ")", "1;2"][nd::choose(6)].to_string();
            let mut err = None;
            let p = nd::panics(|| { err = S::read_args_from_vec(&v).err(); });
            nd::check(!p && match err { Some(e) => e.is_syntax(), None => false }, "a word that is no value is an error");
            nd::cover("end");
        }
        let x = nd::f(POS, 1e6);
        match nd::choose(9) {
            0 => bad::<ContCubicSystem, _>(s!["Periodic", x, 2]),
            1 => bad::<ContCylindricalSystem, _>(s![1, 1, x, 2, 3]),
            2 => bad::<ContBulkTarget, _>(s!["0:1", x]),
            3 => bad::<ContPassiveIndepAgent, _>(s![x, "Uniform", 3]),
            4 => bad::<ContPassiveMergeAgent, _>(s!["Levy", "1:2", x, x, 3]),
            5 => bad::<ContPassiveExpAgent, _>(s![x, "Uniform", x, 2, x, 3]),
            6 => bad::<ContPassiveLJAgent, _>(s![x, "Uniform", x, x, 3]),
            7 => bad::<ConstStep, _>(s![x, 1]),
            _ => bad::<ExponentialStep, _>(s![x, 1, 10, 100]),
        }
    }
    /// the description of the words names the arguments in the order of the header
    fn words_usage() {
        fn names(s: &str) -> Vec<String> { s.lines().map(|l| l.split(':').next().unwrap_or("").trim().to_string()).collect() }
        fn usage<S: Argument<A>, A>(header: String, w: usize) {
            let h = names(&header);
            nd::check(h.len() >= S::NUM_ARGS, "a line of the header for each word");
            let n = h[h.len() - S::NUM_ARGS.min(h.len())..].to_vec();
            nd::check(names(&S::info(w)) == n, "the description names the arguments in order");
            let b = S::brief_info();
            let list: Vec<String> = b.split('(').skip(1).map(|x| x.split(')').next().unwrap_or("").to_string()).collect();
            nd::check(list == n, "the overview names the arguments in order");
            nd::cover("end");
        }
        let (w, x, m, i) = (width(), nd::f(POS, 1e6), MoveType::Levy, InitType::Uniform);
        match nd::choose(12) {
            0 => usage::<ContCubicSystem, _>(ContCubicSystemArguments::new(BoundaryCond::Periodic, x, 2).print_configuration(w), w),
            1 => usage::<ContCircSystem, _>(ContCircSystemArguments::new(x, 2).print_configuration(w), w),
            2 => usage::<ContCylindricalSystem, _>(ContCylindricalSystemArguments::new(SystemType::ContinuousCylindrical(1), BoundaryCond::Mixed(1), x, x, 2).print_configuration(w), w),
            3 => usage::<ContBulkTarget, _>(ContBulkTargetArguments::new(Position::new(vec![x]), x).print_configuration(w), w),
            4 => usage::<ContPassiveIndepAgent, _>(ContPassiveIndepAgentArguments::new(m, i, 2).print_configuration(w), w),
            5 => usage::<ContPassiveMergeAgent, _>(ContPassiveMergeAgentArguments::new(m, i, x, x, 2).print_configuration(w), w),
            6 => usage::<ContPassiveExpAgent, _>(ContPassiveExpAgentArguments::new(m, i, x, 2, x, 2).print_configuration(w), w),
            7 => usage::<ContPassiveLJAgent, _>(ContPassiveLJAgentArguments::new(m, i, x, x, 2).print_configuration(w), w),
            8 => usage::<ConstStep, _>(ConstStepArguments::new(x, x).print_configuration(w), w),
            9 => usage::<ExponentialStep, _>(ExponentialStepArguments::new(x, x, 10, x).print_configuration(w), w),
            10 => usage::<ProcessSimulation, _>(ProcessSimulationArguments::new(1, x, 2, 3, "d".to_string()).print_configuration(w), w),
            _ => match nd::choose(2) {
                0 => usage::<VariableSimulation, _>(VariableSimulationArguments::new(1, 2, 3, "d".to_string()).print_configuration(w), w),
                _ => usage::<ParVariableSimulation, _>(ParVariableSimulationArguments::new(1, 2, 3, "d".to_string()).print_configuration(w), w),
            },
        }
    }
}
