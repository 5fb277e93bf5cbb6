//! Data sets: when two are the same, file names, headings and columns, reading a data file.
use crate::h_hist::H;
use crate::nd;
use moledyn::prelude::*;

construct_dataset!(Circ, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize];
    ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64];
    ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize];
    ConstStep, time_arg, ConstStepArguments, [dt, f64, tmax, f64];
    {VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});

construct_dataset!(Merging, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize];
    ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [ptl_radius, f64, alpha, f64, num_agent, usize];
    ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize];
    {ProcessSimulation, sim_arg, ProcessSimulationArguments, [period, f64, idx_set, usize]});

construct_dataset!(Plain, ContCubicSystem, sys_arg, ContCubicSystemArguments, [sys_size, f64, dim, usize];
    ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64]);

/// the words of a hash, whatever the hasher makes of them
struct Words(Vec<u64>);
impl Hasher for Words {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0.push(*x as u64) } }
    fn write_u64(&mut self, x: u64) { self.0.push(x) }
    fn write_usize(&mut self, x: usize) { self.0.push(x as u64) }
    fn write_u32(&mut self, x: u32) { self.0.push(x as u64) }
    fn write_i64(&mut self, x: i64) { self.0.push(x as u64) }
}
fn same_hash<T: Hash>(a: &T, b: &T) -> bool {
    let (mut u, mut v) = (Words(Vec::new()), Words(Vec::new()));
    a.hash(&mut u);
    b.hash(&mut v);
    let mut same = u.0.len() == v.0.len();
    for i in 0..u.0.len().min(v.0.len()) { same &= u.0[i] == v.0[i] }
    same
}
fn key<T: Hash + Eq + Copy>(a: T, b: T, same: bool) {
    let same = nd::split(same);
    nd::check((a == b) == same, "data sets are the same exactly when their parameters are");
    nd::check((b == a) == same, "in either order");
    if same {
        nd::check(same_hash(&a, &b), "equal data sets have the same hash");
        nd::cover("same")
    } else { nd::cover("different") }
}
fn real() -> f64 { let x = nd::any_f(); nd::assume(!x.is_nan()); x }
fn num() -> usize { nd::us(0, 1 << 53) }

fn circ_args(x: f64, d: usize, t: f64, n: usize, dt: f64, tmax: f64, k: usize) -> (ContCircSystemArguments, ContBulkTargetArguments, ContPassiveIndepAgentArguments, ConstStepArguments, VariableSimulationArguments) {
    (ContCircSystemArguments::new(x, d), ContBulkTargetArguments::new(Position::new(vec![0.5, -1.0]), t), ContPassiveIndepAgentArguments::new(MoveType::Brownian(1.0), InitType::Uniform, n),
     ConstStepArguments::new(dt, tmax), VariableSimulationArguments::new(10, k, 1234, "a:b".to_string()))
}
fn circ(x: f64, d: usize, t: f64, n: usize, dt: f64, tmax: f64, k: usize) -> Circ {
    let a = circ_args(x, d, t, n, dt, tmax, k);
    Circ::new(&a.0, &a.1, &a.2, &a.3, &a.4)
}
fn merging(r: f64, l: f64, d: usize, p: f64, al: f64, n: usize, lo: f64, hi: f64, len: usize, per: f64, k: usize) -> Merging {
    Merging::new(&ContCylindricalSystemArguments::new(SystemType::ContinuousCylindrical(1), BoundaryCond::Periodic, r, l, d),
        &ContPassiveMergeAgentArguments::new(MoveType::Levy, InitType::Uniform, p, al, n), &ExponentialStepArguments::new(lo, hi, len, 1.0),
        &ProcessSimulationArguments::new(3, per, k, 5, "d".to_string()))
}
fn plain(x: f64, d: usize, p: f64, s: f64) -> Plain {
    Plain::new(&ContCubicSystemArguments::new(BoundaryCond::Periodic, x, d), &ContPassiveLJAgentArguments::new(MoveType::Levy, InitType::Uniform, p, s, 4))
}

/// the values of the columns are found under their names
fn columns<T: DataSet>(a: &T, names: &[&str], values: &[f64]) {
    let w = [0, 5, 25][nd::choose(3)];
    let head = T::export_form(w);
    let row = a.export_data(w).unwrap();
    let (h, r): (Vec<&str>, Vec<&str>) = (head.split_whitespace().collect(), row.split_whitespace().collect());
    nd::check(h.len() == names.len() && r.len() == names.len(), "as many columns as parameters");
    if h.len() != names.len() || r.len() != names.len() { return }
    for i in 0..names.len() {
        nd::check(h[i] == names[i], "each column has its name");
        nd::check(match r[i].parse::<f64>() { Ok(x) => x == values[i], Err(_) => false }, "and shows the value of that parameter");
    }
}
fn name(prefix: &str, parts: &[(&str, String)]) -> String {
    let mut s = prefix.to_string();
    for (n, v) in parts { s += &format!("_{}_{}", n, v) }
    s + ".dat"
}
const P: f64 = 1e-6;
fn r() -> f64 { nd::f(P, 1e6) }
/// one of them any small integer, the others small, or all of them large
fn ints<const N: usize>(top: [usize; N]) -> [usize; N] {
    let mut v = [0; N];
    let k = nd::choose(N + 3);
    for i in 0..N { v[i] = if i == k { nd::us(1, top[i]) } else if k >= N { [300, 70_001, 5_000_000_017][k - N] + i } else { 3 + i } }
    v
}
/// beginning of a data file
fn start() -> String { "========================    DESCRIPTIONS    ==========================\n".to_string() }
const SEP: &str = "========================     DATA STARTS    ==========================";

/// number, mean and deviation are found under their names
fn heading<T: H>() {
    let mut a = T::default();
    a.update_from_bin_size(1e7, 2e7, 5e7, 1e3).unwrap();
    a.allocate_vectors();
    // deviation 1 about the mean
    let x = nd::f(100.0, 1e3);
    a.add(x - 1.0, x - 1.0);
    a.add(x + 1.0, x + 1.0);
    a.finish();
    let w = [0, 25][nd::choose(2)];
    let head = T::export_form(w);
    let row = a.export_mean_stddev(w).unwrap();
    let r: Vec<f64> = row.split_whitespace().map(|x| x.parse().unwrap()).collect();
    let mut seen = (0, 0, 0);
    for (i, h) in head.split_whitespace().enumerate() {
        let v = r[i];
        if h.contains("stddev") { seen.1 += 1; nd::check(nd::close(v, 1.0, 1e-6, 1e-6), "the deviation is under its name") }
        else if h.contains("mean") { seen.0 += 1; nd::check(nd::close(v, x, 1e-9, 1e-9), "the mean is under its name") }
        else if h.contains("ensemble") { seen.2 += 1; nd::check(v == 2.0, "the number of records is under its name") }
        else { nd::check(false, "no other column") }
    }
    nd::check(seen == (1, 1, 1), "mean, deviation and number have a name each");
    nd::cover("end");
}

harnesses! {
    fn ds_key_circ() {
        let v: Vec<f64> = (0..8).map(|_| real()).collect();
        let n: Vec<usize> = (0..6).map(|_| num()).collect();
        let a = circ(v[0], n[0], v[1], n[1], v[2], v[3], n[2]);
        let b = circ(v[4], n[3], v[5], n[4], v[6], v[7], n[5]);
        key(a, b, (v[0] == v[4]) & (n[0] == n[3]) & (v[1] == v[5]) & (n[1] == n[4]) & (v[2] == v[6]) & (v[3] == v[7]))
    }
    /// one parameter differs
    fn ds_key_merging() {
        let (r, l, p, al, lo, hi) = (real(), real(), real(), real(), real(), real());
        let (d, n, len) = (num(), num(), num());
        let a = merging(r, l, d, p, al, n, lo, hi, len, real(), num());
        let i = nd::choose(10);
        let (x, k) = (real(), num());
        let f = |j: usize, v: f64| if i == j { x } else { v };
        let g = |j: usize, v: usize| if i == j { k } else { v };
        let b = merging(f(0, r), f(1, l), g(2, d), f(3, p), f(4, al), g(5, n), f(6, lo), f(7, hi), g(8, len), real(), num());
        let same = match i { 0 => x == r, 1 => x == l, 2 => k == d, 3 => x == p, 4 => x == al, 5 => k == n, 6 => x == lo, 7 => x == hi, 8 => k == len, _ => true };
        key(a, b, same)
    }
    fn ds_key_plain() {
        let v: Vec<f64> = (0..6).map(|_| real()).collect();
        let (d, e) = (num(), num());
        key(plain(v[0], d, v[1], v[2]), plain(v[3], e, v[4], v[5]), (v[0] == v[3]) & (d == e) & (v[1] == v[4]) & (v[2] == v[5]))
    }
    fn ds_name_circ() {
        let (x, t, dt, tmax) = (r(), r(), r(), r());
        let [d, n, k] = ints([9, 99, 99]);
        let a = circ(x, d, t, n, dt, tmax, k);
        let mut parts = vec![("sys_size", x.to_string()), ("dim", d.to_string()), ("target_size", t.to_string()), ("num_agent", n.to_string()), ("dt", dt.to_string()), ("tmax", tmax.to_string())];
        let p = ["RTS", "", "a b_c"][nd::choose(3)];
        nd::check(a.export_file_removed_idx(p) == name(p, &parts), "the common name has every parameter");
        parts.push(("idx_set", k.to_string()));
        nd::check(a.export_file(p) == name(p, &parts), "the name of a file has every parameter and the index");
        columns(&a, &["sys_size", "dim", "target_size", "num_agent", "dt", "tmax"], &[x, d as f64, t, n as f64, dt, tmax]);
        nd::cover("end");
    }
    fn ds_name_merging() {
        let (rr, l, p, al, lo, hi, per) = (r(), r(), r(), nd::f(-10.0, 10.0), r(), r(), r());
        let [d, n, len, k] = ints([9, 99, 99, 99]);
        let a = merging(rr, l, d, p, al, n, lo, hi, len, per, k);
        let mut parts = vec![("sys_radius", rr.to_string()), ("sys_length", l.to_string()), ("dim", d.to_string()), ("ptl_radius", p.to_string()), ("alpha", al.to_string()), ("num_agent", n.to_string()),
            ("dt_min", lo.to_string()), ("dt_max", hi.to_string()), ("length", len.to_string())];
        nd::check(a.export_file_removed_idx("x") == name("x", &parts), "the common name has every parameter");
        parts.push(("period", per.to_string()));
        parts.push(("idx_set", k.to_string()));
        nd::check(a.export_file("x") == name("x", &parts), "the name of a file has every parameter and the index");
        columns(&a, &["sys_radius", "sys_length", "dim", "ptl_radius", "alpha", "num_agent", "dt_min", "dt_max", "length"], &[rr, l, d as f64, p, al, n as f64, lo, hi, len as f64]);
        nd::cover("end");
    }
    fn ds_name_plain() {
        let (x, p, s, d) = (r(), r(), nd::f(-10.0, 10.0), nd::us(1, 9));
        let a = plain(x, d, p, s);
        let n = name("x", &[("sys_size", x.to_string()), ("dim", d.to_string()), ("ptl_size", p.to_string()), ("strength", s.to_string())]);
        nd::check(a.export_file("x") == n && a.export_file_removed_idx("x") == n, "without index both names are the same");
        columns(&a, &["sys_size", "dim", "ptl_size", "strength"], &[x, d as f64, p, s]);
        nd::cover("end");
    }
    /// a data file reads back as the data set that wrote it, up to the line before the data
    fn ds_file() {
        let (x, t, dt, tmax) = (r(), r(), r(), r());
        let [d, n, k] = ints([9, 99, 99]);
        let a = circ_args(x, d, t, n, dt, tmax, k);
        let w = [0, 15][nd::choose(2)];
        let head = a.0.print_configuration(w) + &a.1.print_configuration(w) + &a.2.print_configuration(w) + &a.3.print_configuration(w) + &a.4.print_configuration(w);
        let dir = nd::scratch();
        let path = format!("{}/data", dir.path);
        std::fs::write(&path, start() + &head + SEP + "\n1.5\n").unwrap();
        let mut ok = false;
        let p = nd::panics(|| {
            if let Ok((b, mut lines)) = Circ::from_file(&path) {
                ok = (b.sys_size == x) & (b.dim == d) & (b.target_size == t) & (b.num_agent == n) & (b.dt == dt) & (b.tmax == tmax) & (b.idx_set == k) && lines.next().map(|l| l.unwrap() == SEP).unwrap_or(false) && lines.next().map(|l| l.unwrap() == "1.5").unwrap_or(false) && lines.next().is_none();
            }
        });
        nd::check(!p && ok, "a data file reads back as its data set, then the data");
        nd::cover("end");
    }
    /// what is no data file is an error
    fn ds_no_file() {
        let a = circ_args(1.5, 2, 0.5, 3, 0.25, 10.0, 1);
        let full = start() + &a.0.print_configuration(12) + &a.1.print_configuration(12) + &a.2.print_configuration(12) + &a.3.print_configuration(12) + &a.4.print_configuration(12);
        let l: Vec<String> = full.lines().map(|x| x.to_string()).collect();
        let k = nd::choose(l.len());
        let bad = |f: &dyn Fn(&str) -> String| l.iter().enumerate().map(|(i, x)| if i == k { f(x) } else { x.clone() }).collect::<Vec<_>>().join("\n");
        let dir = nd::scratch();
        let path = format!("{}/data", dir.path);
        let mut missing = false;
        let heading = k == 0;
        match nd::choose(5) {
            0 => missing = true,
            1 => { std::fs::write(&path, l[..k].join("\n")).unwrap() }
            2 if !heading => { std::fs::write(&path, bad(&|x| x.replace(":", "="))).unwrap() }
            // a value that is none
            3 if !heading => { let v = ["?", ""][nd::choose(2)]; if l[k].starts_with("output_dir") { return } std::fs::write(&path, bad(&|x| format!("{}: {}", x.split(':').next().unwrap(), v))).unwrap() }
            4 if !heading => { let mut m = l.clone(); m.remove(k); std::fs::write(&path, m.join("\n")).unwrap() }
            _ => std::fs::write(&path, "a: 1\nnothing\n").unwrap(),
        }
        let mut err = None;
        let p = nd::panics(|| { err = Circ::from_file(&path).err(); });
        nd::check(!p, "no panic on what is no data file");
        nd::check(match err { Some(e) => e.is_io() == missing && e.is_syntax() != missing, None => false }, "what is no data file is an error");
        nd::cover("end");
    }
    fn ds_head_time() { heading::<TimeAnalysis>() }
    fn ds_head_vec() { heading::<TimeVecAnalysis>() }
    fn ds_head_proc() { heading::<ProcessAnalysis>() }
}
