//! Simulation programs from end to end: words of the command line, output file, analysis.
use crate::nd;
use moledyn::prelude::*;

pub type Seen = Vec<f64>;
macro_rules! seen { ($s:ident: $($x:expr),*) => { *$s = vec![$(f64::from($x)),*] } }
fn n(x: usize) -> f64 { x as f64 }
fn m(x: MoveType) -> f64 { match x { MoveType::Brownian(d) => d, MoveType::Levy => -1.0 } }
/// the coordinates of a position, -1 for none
fn i(x: &InitType<f64>) -> f64 { match x { InitType::Uniform => -1.0, InitType::SpecificPosition(p) => p[0] + 100.0 * p[1] } }
fn p(x: &Position<f64>) -> f64 { x[0] + 100.0 * x[1] }
fn bc(x: BoundaryCond) -> f64 { match x { BoundaryCond::Periodic => 0.0, BoundaryCond::Reflection => -1.0, BoundaryCond::Mixed(k) => k as f64 } }

// programs: what they were given, and one record written as data
fn prog_circ(rec: &str, s: &mut Seen) -> Result<(), Error> {
    simulation!("CIRC", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    seen!(s: sys_size, n(dim), p(&target_pos), target_size, m(mtype), i(&itype), n(num_agent), dt, tmax, n(num_ensemble), n(idx_set), n(seed as usize),
        sys.sys_size, n(sys.dim), p(&target.target_pos), target.target_size, n(vec_agents.len()), timeiter.dt, timeiter.tmax, n(simulation.num_ensemble), n(simulation.idx_set), n(simulation.seed as usize));
    nd::check(output_dir == simulation.output_dir && dataset == SimulationData::new(&sys_arg, &target_arg, &agent_arg, &time_arg, &sim_arg), "the output directory and the data set are those of the words");
    write!(&mut writer, "{}", rec).map_err(Error::make_error_io)?;
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}
fn prog_cubic(rec: &str, s: &mut Seen) -> Result<(), Error> {
    simulation!("CUBIC", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    seen!(s: sys_size, n(dim), p(&target_pos), target_size, m(mtype), i(&itype), gamma, n(exp_dim), strength, n(num_agent), dt_min, dt_max, n(length), tmax, n(num_ensemble), n(idx_set), n(seed as usize),
        bc(sys.bctype), sys.sys_size, n(sys.dim), p(&target.target_pos), target.target_size, n(vec_agents.len()), timeiter.dt, timeiter.tmax, n(simulation.num_ensemble), n(simulation.idx_set), n(simulation.seed as usize));
    nd::check(output_dir == simulation.output_dir && dataset == SimulationData::new(&sys_arg, &target_arg, &agent_arg, &time_arg, &sim_arg), "the output directory and the data set are those of the words");
    write!(&mut writer, "{}", rec).map_err(Error::make_error_io)?;
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}
fn prog_cyl(rec: &str, s: &mut Seen) -> Result<(), Error> {
    simulation!("CYL", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    seen!(s: sys_radius, sys_length, n(dim), p(&target_pos), target_size, m(mtype), i(&itype), ptl_radius, alpha, n(num_agent), dt, tmax, n(num_ensemble), n(seed as usize), n(n_thrd),
        bc(sys.bctype), sys.sys_radius, sys.sys_length, n(sys.dim), p(&target.target_pos), target.target_size, n(vec_agents.len()), timeiter.dt, timeiter.tmax, n(simulation.num_ensemble), n(simulation.seed as usize), n(simulation.n_thrd));
    nd::check(output_dir == simulation.output_dir && dataset == SimulationData::new(&sys_arg, &target_arg, &agent_arg, &time_arg, &sim_arg), "the output directory and the data set are those of the words");
    write!(&mut writer, "{}", rec).map_err(Error::make_error_io)?;
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}
fn prog_lj(rec: &str, s: &mut Seen) -> Result<(), Error> {
    simulation!("LJ_", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    seen!(s: sys_size, n(dim), p(&target_pos), target_size, m(mtype), i(&itype), ptl_size, strength, n(num_agent), dt_min, dt_max, n(length), tmax, n(num_ensemble), period, n(idx_set), n(seed as usize),
        bc(sys.bctype), sys.sys_size, n(sys.dim), p(&target.target_pos), target.target_size, n(vec_agents.len()), timeiter.dt, timeiter.tmax, n(simulation.num_ensemble), simulation.period, n(simulation.idx_set), n(simulation.seed as usize));
    nd::check(output_dir == simulation.output_dir && dataset == SimulationData::new(&sys_arg, &target_arg, &agent_arg, &time_arg, &sim_arg), "the output directory and the data set are those of the words");
    write!(&mut writer, "{}", rec).map_err(Error::make_error_io)?;
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}
construct_dataset!(Fixed, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize];
    ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];
    {VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
/// a program with words of its own, the first two for something else
fn prog_fixed(args: Vec<String>, rec: &str, s: &mut Seen) -> Result<(), Error> {
    setup_simulation_fixed!(args, 20, 2, TimeAnalysis, "FIXED", dataset, Fixed, sys_arg, ContCircSystem, time_arg, ConstStep, sim_arg, VariableSimulation);
    let dir = sim_arg.output_dir.clone();
    export_simulation_info!(dataset, dir, writer, WIDTH, "FIXED", ContCircSystem, sys, sys_arg, ConstStep, timeiter, time_arg, VariableSimulation, simulation, sim_arg);
    seen!(s: sys.sys_size, n(sys.dim), timeiter.dt, timeiter.tmax, n(simulation.num_ensemble), n(simulation.idx_set), n(simulation.seed as usize));
    write!(&mut writer, "{}", rec).map_err(Error::make_error_io)?;
    writer.flush().map_err(Error::make_error_io)?;
    Ok(())
}

/// words, what a program finds in them, the parameters in the name of its file
pub struct Plan { pub words: Vec<String>, seen: Seen, parts: Vec<(&'static str, String)> }
macro_rules! s { ($($x:expr),*) => { vec![$(format!("{}", $x)),*] } }
macro_rules! parts { ($($x:ident),*) => { vec![$((stringify!($x), format!("{}", $x))),*] } }

#[derive(Clone, Copy)]
pub struct V { x: [f64; 5], d: usize, k: usize, seed: usize, place: bool }
fn vars() -> V {
    let (d, k, seed) = [(2, 1, 7), (3, 40, 123456789012345)][nd::choose(2)];
    V { x: [nd::f(0.01, 100.0), nd::f(0.01, 100.0), nd::f(0.01, 100.0), nd::f(0.01, 100.0), nd::f(0.01, 100.0)], d, k, seed, place: nd::choose(2) == 1 }
}
pub const FIX: V = V { x: [1.5, 0.25, 2.5, 3.5, 0.125], d: 2, k: 3, seed: 11, place: true };
/// words and meanings of a target, a place to start and a kind of move
fn target(v: &V) -> (String, f64) { (if v.d == 2 { "0.5:-1" } else { "0.5:-1:2" }.to_string(), 0.5 - 100.0) }
fn start(v: &V) -> (String, f64) { if v.place { (if v.d == 2 { "3:4" } else { "3:4:5" }.to_string(), 403.0) } else { ("Uniform".to_string(), -1.0) } }

fn circ(v: V, dir: &str) -> Plan {
    let [sys_size, target_size, coeff, dt, tmax] = v.x;
    let (dim, num_agent, num_ensemble, idx_set, seed, t, i) = (v.d, 1 + v.d, 5 + v.k, v.k, v.seed, target(&v), start(&v));
    Plan { words: s![sys_size, dim, t.0, target_size, coeff, i.0, num_agent, dt, tmax, num_ensemble, idx_set, seed, dir],
        seen: vec![sys_size, n(dim), t.1, target_size, coeff, i.1, n(num_agent), dt, tmax, n(num_ensemble), n(idx_set), n(seed),
            sys_size, n(dim), t.1, target_size, n(num_agent), dt, tmax, n(num_ensemble), n(idx_set), n(seed)],
        parts: parts![sys_size, dim, target_size, num_agent, dt, tmax, idx_set] }
}
fn cubic(v: V, dir: &str) -> Plan {
    let [sys_size, target_size, gamma, strength, dt_min] = v.x;
    let (dt_max, length, tmax, dim, exp_dim, num_agent, num_ensemble, idx_set, seed, t, i) = (1e3, 12, 1500.5, v.d, v.d, 1 + v.d, 5 + v.k, v.k, v.seed, target(&v), start(&v));
    Plan { words: s!["Periodic", sys_size, dim, t.0, target_size, "Levy", i.0, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, dir],
        seen: vec![sys_size, n(dim), t.1, target_size, -1.0, i.1, gamma, n(exp_dim), strength, n(num_agent), dt_min, dt_max, n(length), tmax, n(num_ensemble), n(idx_set), n(seed),
            0.0, sys_size, n(dim), t.1, target_size, n(num_agent), dt_min, tmax, n(num_ensemble), n(idx_set), n(seed)],
        parts: parts![sys_size, dim, target_size, gamma, strength, num_agent, dt_min, dt_max, length, tmax, idx_set] }
}
fn cyl(v: V, dir: &str) -> Plan {
    let [sys_radius, sys_length, target_size, ptl_radius, dt] = v.x;
    let (alpha, tmax, dim, num_agent, num_ensemble, n_thrd, seed, t, i) = (-0.75, 20.5, v.d, 1 + v.d, 5 + v.k, v.k, v.seed, target(&v), start(&v));
    Plan { words: s!["1", "1", sys_radius, sys_length, dim, t.0, target_size, "0.5", i.0, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, seed, n_thrd, dir],
        seen: vec![sys_radius, sys_length, n(dim), t.1, target_size, 0.5, i.1, ptl_radius, alpha, n(num_agent), dt, tmax, n(num_ensemble), n(seed), n(n_thrd),
            1.0, sys_radius, sys_length, n(dim), t.1, target_size, n(num_agent), dt, tmax, n(num_ensemble), n(seed), n(n_thrd)],
        parts: parts![sys_radius, sys_length, dim, target_size, ptl_radius, alpha, num_agent, dt, tmax, n_thrd] }
}
fn lj(v: V, dir: &str) -> Plan {
    let [sys_size, target_size, ptl_size, strength, period] = v.x;
    let (dt_min, dt_max, length, tmax, dim, num_agent, num_ensemble, idx_set, seed, t, i) = (0.25, 1e3, 12, 1500.5, v.d, 1 + v.d, 5 + v.k, v.k, v.seed, target(&v), start(&v));
    Plan { words: s!["Reflective", sys_size, dim, t.0, target_size, "0.5", i.0, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, dir],
        seen: vec![sys_size, n(dim), t.1, target_size, 0.5, i.1, ptl_size, strength, n(num_agent), dt_min, dt_max, n(length), tmax, n(num_ensemble), period, n(idx_set), n(seed),
            -1.0, sys_size, n(dim), t.1, target_size, n(num_agent), dt_min, tmax, n(num_ensemble), period, n(idx_set), n(seed)],
        parts: parts![sys_size, dim, target_size, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, period, idx_set] }
}
fn fixed(v: V, dir: &str) -> Plan {
    let [sys_size, dt, tmax, _, _] = v.x;
    let (dim, num_ensemble, idx_set, seed) = (v.d, 5 + v.k, v.k, v.seed);
    Plan { words: s![sys_size, dim, dt, tmax, num_ensemble, idx_set, seed, dir],
        seen: vec![sys_size, n(dim), dt, tmax, n(num_ensemble), n(idx_set), n(seed)],
        parts: parts![sys_size, dim, dt, tmax, idx_set] }
}

/// a simulation program
pub struct Prog {
    prefix: &'static str,
    pub plan: fn(V, &str) -> Plan,
    run: fn(&[String], &str, &mut Seen) -> Result<(), Error>,
    /// the parts of a header read from the lines of a file give the words again
    head: fn(&mut Lines<BufReader<File>>, &[String]) -> bool,
    /// words of an analysis before the limits, line of a record, name of the summary
    first: &'static [&'static str],
    line: fn(f64, f64) -> String,
    brief: &'static str,
}
fn with(w: &[String]) { let mut v = vec!["program".to_string()]; v.extend_from_slice(w); nd::set_args(&v) }
/// the arguments read from the lines are those of the next words
fn part<S: Argument<A>, A: PartialEq>(lines: &mut Lines<BufReader<File>>, w: &[String], k: &mut usize) -> bool {
    let a = S::read_args_from_lines(lines);
    let b = S::read_args_from_vec(&w[*k..*k + S::NUM_ARGS]);
    *k += S::NUM_ARGS;
    match (a, b) { (Ok(a), Ok(b)) => a == b, _ => false }
}
macro_rules! head {
    ($($t:ty),*) => { |l, w| { let mut k = 0; let mut ok = true; $(ok &= part::<$t, _>(l, w, &mut k);)* ok & (k == w.len()) } };
}
fn one(x: f64, _y: f64) -> String { format!("{:e}\n", x) }
fn ten(x: f64, y: f64) -> String { let mut s = format!("{:e}", x); for k in 1..10 { s += &format!(" {:e}", if k == 1 { y } else { x }) } s + "\n" }
fn pair(x: f64, y: f64) -> String { format!("({:e},{:e})\n", x, y) }

pub const CIRC: Prog = Prog { prefix: "CIRC", plan: circ, run: |w, r, s| { with(w); prog_circ(r, s) }, first: &[], line: one, brief: "brief_result.dat",
    head: head!(ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation) };
pub const CUBIC: Prog = Prog { prefix: "CUBIC", plan: cubic, run: |w, r, s| { with(w); prog_cubic(r, s) }, first: &["10"], line: ten, brief: "brief_result.dat",
    head: head!(ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation) };
pub const CYL: Prog = Prog { prefix: "CYL", plan: cyl, run: |w, r, s| { with(w); prog_cyl(r, s) }, first: &[], line: one, brief: "brief_result.dat",
    head: head!(ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation) };
pub const LJ: Prog = Prog { prefix: "LJ_", plan: lj, run: |w, r, s| { with(w); prog_lj(r, s) }, first: &[], line: pair, brief: "brief_data.dat",
    head: head!(ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation) };
pub const FIXED: Prog = Prog { prefix: "FIXED", plan: fixed, run: |w, r, s| { let mut v = vec!["a".to_string(), "b".to_string()]; v.extend_from_slice(w); prog_fixed(v, r, s) }, first: &[], line: one, brief: "brief_result.dat",
    head: head!(ContCircSystem, ConstStep, VariableSimulation) };

fn names(dir: &str) -> Vec<String> { std::fs::read_dir(dir).map(|d| d.map(|e| e.unwrap().file_name().into_string().unwrap()).collect()).unwrap_or_default() }
pub fn go(g: &Prog, w: &[String], rec: &str, s: &mut Seen) -> Option<Error> {
    let mut r = None;
    let p = nd::panics(|| r = (g.run)(w, rec, s).err());
    nd::check(!p, "the program does not panic");
    r
}

/// a run with all its words
fn run(g: &Prog) {
    let s = nd::scratch();
    let dir = match nd::choose(3) { 0 => s.path.clone(), 1 => format!("{}/new", s.path), _ => format!("{}/new/er", s.path) };
    let v = vars();
    let p = (g.plan)(v, &dir);
    let mut seen = vec![];
    // a run of the same parameters replaces the file
    let runs = if v.place { 2 } else { 1 };
    for k in 0..runs {
        nd::check(go(g, &p.words, if k == 0 && runs == 2 { "old data\nmuch of it\n" } else { "data\nto the end" }, &mut seen).is_none(), "the program runs");
    }
    let mut ok = seen.len() == p.seen.len();
    if ok { for i in 0..seen.len() { ok &= seen[i] == p.seen[i] } }
    nd::check(ok, "every variable has the value of its word");
    let mut name = g.prefix.to_string();
    for (n, x) in &p.parts { name += &format!("_{}_{}", n, x) }
    name += ".dat";
    let all = names(&dir);
    nd::check(all.len() == 1 && all[0] == name, "one file is written, named after the parameters");
    if all.len() != 1 { return }
    let mut lines = BufReader::new(File::open(format!("{}/{}", dir, all[0])).unwrap()).lines();
    lines.next();
    nd::check((g.head)(&mut lines, &p.words), "its header reads back as the arguments");
    lines.next();
    let rest: Vec<String> = lines.map(|x| x.unwrap()).collect();
    nd::check(rest == ["data", "to the end"], "the data follow the separator");
    nd::cover("end");
}
/// runs and then their analysis, by the program itself
fn analysis(g: &Prog) {
    let s = nd::scratch();
    let (x, y) = (nd::f(1.1, 1.9), nd::f(2.6, 2.9));
    let mut seen = vec![];
    for k in 0..2 {
        let w = (g.plan)(V { k: 3 + k, ..FIX }, &s.path).words;
        nd::check(go(g, &w, &(g.line)(x, y), &mut seen).is_none(), "the program runs");
    }
    // the parallel simulation has no index: the number of threads is in its place
    let mut w: Vec<String> = g.first.iter().map(|x| x.to_string()).collect();
    w.extend(if nd::choose(2) == 0 { s!["1", "4", "1.5", "2", s.path] } else { s!["1", "3", "12", s.path] });
    nd::check(go(g, &w, "", &mut seen).is_none(), "the analysis runs");
    let r: Vec<String> = names(&s.path).into_iter().filter(|x| x.starts_with("analysis_")).collect();
    nd::check(r.len() == 1 && names(&s.path).len() == 3, "one directory of results and nothing else");
    if r.len() != 1 { return }
    let text = std::fs::read_to_string(format!("{}/{}/{}", s.path, r[0], g.brief)).unwrap();
    let mut l = text.lines();
    let head: Vec<&str> = l.next().unwrap_or("").split_whitespace().collect();
    let rows: Vec<Vec<f64>> = l.map(|l| l.split_whitespace().map(|x| x.parse::<f64>().unwrap()).collect()).collect();
    nd::check(rows.len() == 1, "the runs of the same parameters are one row");
    if rows.len() != 1 { return }
    let mut ok = rows[0].len() == head.len() || g.first.len() == 1 && rows[0].len() == head.len() + 18;
    nd::check(ok, "every column has a name");
    if !ok { return }
    let parts: Vec<_> = (g.plan)(FIX, "").parts.into_iter().filter(|x| !["idx_set", "n_thrd", "period"].contains(&x.0)).collect();
    let mut num = 0;
    for (i, h) in head.iter().enumerate() {
        let mut found = false;
        for (n, v) in &parts { if n == h { found = true; num += 1; ok &= rows[0][i] == v.parse::<f64>().unwrap() } }
        if !found && h.contains("ensemble") { ok &= rows[0][i] == 2.0 }
        if !found && h.contains("mean") { ok &= nd::close(rows[0][i], x, 1e-4, 0.0) | nd::close(rows[0][i], y, 1e-4, 0.0) }
    }
    nd::check(ok && num == parts.len(), "the row shows the parameters of the runs, their number and mean");
    nd::check(names(&format!("{}/{}/linear_distribution", s.path, r[0])).iter().all(|x| x.starts_with(g.prefix)), "and its files are named after the program");
    nd::cover("end");
}
/// any other number of words, or words that are no values
fn refused(g: &Prog) {
    let s = nd::scratch();
    let p = (g.plan)(FIX, &format!("{}/new", s.path));
    let n = p.words.len();
    let w: Vec<String> = match nd::choose(3) {
        0 => {
            let k = nd::choose(n + 2);
            let a = g.first.len() + 4;
            if k == n || k == a || k == a + 1 { return }
            (0..k).map(|i| p.words[i % n].clone()).collect()
        }
        1 => { let mut w = p.words; let i = nd::choose(n - 1); w[i] = ["", "x y"][nd::choose(2)].to_string(); w }
        // an output directory that cannot be
        _ => {
            std::fs::write(format!("{}/new", s.path), "f").unwrap();
            p.words
        }
    };
    let io = names(&s.path).len();
    let mut seen = vec![];
    let e = go(g, &w, "", &mut seen);
    nd::check(match e { Some(e) => e.is_io() == (io == 1) && e.is_syntax() == (io == 0), None => false }, "wrong words are errors");
    nd::check(names(&s.path).len() == io, "and nothing is written");
    nd::cover("end");
}

macro_rules! programs {
    ($($f:ident: $($n:ident $t:ident),*;)*) => { harnesses! { $($(fn $n() { $f(&$t) })*)* } };
}
programs! {
    run: prog_run_circ CIRC, prog_run_cubic CUBIC, prog_run_cyl CYL, prog_run_lj LJ, prog_run_fixed FIXED;
    analysis: prog_analysis_circ CIRC, prog_analysis_cubic CUBIC, prog_analysis_cyl CYL, prog_analysis_lj LJ, prog_analysis_fixed FIXED;
    refused: prog_refused_circ CIRC, prog_refused_cubic CUBIC, prog_refused_cyl CYL, prog_refused_lj LJ, prog_refused_fixed FIXED;
}
