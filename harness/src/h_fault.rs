//! Files and directories that cannot be written.
use crate::h_dir::{file, words, BINS, W};
use crate::h_prog::{go, Prog, CIRC, CUBIC, CYL, FIX, FIXED, LJ};
use crate::nd;
use moledyn::prelude::*;

/// an analysis during which one operation on its files fails
fn analysis<T: W>(most: usize) {
    let s = nd::scratch();
    let v = vec![(nd::f(1.1, 1.9), nd::f(2.6, 2.9))];
    file::<T>(&s.path, "a", (1.5, 2), 1, &v);
    let w = words::<T>(BINS, &s.path);
    let path = format!("{}/a", s.path);
    let before = std::fs::read_to_string(&path).unwrap();
    let k = 1 + nd::choose(most);
    nd::fault(k);
    let mut ok = false;
    let p = nd::panics(|| ok = T::analyze::<crate::h_dir::Run>(&w, 1, "X").is_ok());
    let failed = nd::fault(0);
    nd::check(!p, "an analysis that cannot write does not panic");
    nd::check(ok != failed, "an analysis that could not write all its results reports an error, any other does not");
    nd::check(std::fs::read_to_string(&path).unwrap() == before, "and leaves the data as they were");
    if failed { nd::cover("failed") } else { nd::cover("written") }
}
/// a run of a program during which one operation on its files fails
fn program(g: &Prog) {
    let s = nd::scratch();
    let p = (g.plan)(FIX, &format!("{}/new", s.path));
    let k = 1 + nd::choose(12);
    nd::fault(k);
    let mut seen = vec![];
    let e = go(g, &p.words, "1.5\n", &mut seen);
    let failed = nd::fault(0);
    nd::check(match &e { Some(e) => failed && e.is_io(), None => !failed }, "a run that could not write its file reports it, any other does not");
    if failed { nd::cover("failed") } else { nd::cover("written") }
}
/// a writer that takes a few bytes at a time
struct Slow(Vec<u8>, usize);
impl std::io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(self.1); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// results are written whole, however little a writer takes at once
fn whole<T: W>() {
    let v = vec![(nd::f(1.1, 1.9), nd::f(2.6, 2.9)), (nd::f(2.1, 3.9), nd::f(2.6, 2.9))];
    let a = T::of(&v, BINS.0, BINS.1, BINS.2, BINS.3);
    let s = nd::scratch();
    for d in ["linear_distribution", "logarithmic_distribution"] { std::fs::create_dir(format!("{}/{}", s.path, d)).unwrap() }
    let mut w = [Slow(vec![], 1 + nd::choose(3)), Slow(vec![], 1 << 20)];
    for x in &mut w {
        let mut ok = false;
        let p = nd::panics(|| ok = a.export(12, x, &s.path, &"f".to_string()).is_ok());
        nd::check(!p && ok, "results are exported");
        nd::check(a.export_distribution(12, x).is_ok() && a.export_log_scaled_distribution(12, x).is_ok(), "distributions are exported");
    }
    nd::check(w[0].0 == w[1].0, "what is written does not depend on how much is taken at once");
    nd::cover("end");
}

harnesses! {
    fn fault_analysis_time() { analysis::<TimeAnalysis>(60) }
    fn fault_analysis_vec() { analysis::<TimeVecAnalysis>(60) }
    fn fault_analysis_proc() { analysis::<ProcessAnalysis>(60) }
    fn fault_program_circ() { program(&CIRC) }
    fn fault_program_cubic() { program(&CUBIC) }
    fn fault_program_cyl() { program(&CYL) }
    fn fault_program_lj() { program(&LJ) }
    fn fault_program_fixed() { program(&FIXED) }
    fn fault_whole_time() { whole::<TimeAnalysis>() }
    fn fault_whole_vec() { whole::<TimeVecAnalysis>() }
    fn fault_whole_proc() { whole::<ProcessAnalysis>() }
}
