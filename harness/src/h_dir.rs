//! Analysis of a directory of data files.
use crate::h_hist::H;
use crate::nd;
use moledyn::prelude::*;

construct_dataset!(Run, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize];
    {VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});

/// how the records of an analysis are written to a data file
pub trait W: H {
    const BRIEF: &'static str;
    fn line(x: f64, y: f64) -> String;
    /// the words that come before the limits
    fn first() -> Vec<String> { vec![] }
    /// an analysis of the records of a file
    fn of(v: &[(f64, f64)], lo: f64, hi: f64, w: f64, lw: f64) -> Self;
}
fn fresh<T: H>(lo: f64, hi: f64, w: f64, lw: f64) -> T {
    let mut a = T::default();
    a.update_from_bin_size(lo, hi, w, lw).unwrap();
    a.allocate_vectors();
    a
}
impl W for TimeAnalysis {
    const BRIEF: &'static str = "brief_result.dat";
    fn line(x: f64, _y: f64) -> String { format!("{:e}\n", x) }
    fn of(v: &[(f64, f64)], lo: f64, hi: f64, w: f64, lw: f64) -> Self {
        let mut a: Self = fresh(lo, hi, w, lw);
        for &(x, y) in v { a.add(x, y) }
        a.finish();
        a
    }
}
/// ten times in each record, the number an analysis has by default
impl W for TimeVecAnalysis {
    const BRIEF: &'static str = "brief_result.dat";
    fn line(x: f64, y: f64) -> String { let mut s = format!("{:e}", x); for k in 1..10 { s += &format!(" {:e}", if k == 1 { y } else { x }) } s + "\n" }
    fn first() -> Vec<String> { vec![["10", "0"][nd::choose(2)].to_string()] }
    fn of(v: &[(f64, f64)], lo: f64, hi: f64, w: f64, lw: f64) -> Self {
        let mut a: Self = fresh(lo, hi, w, lw);
        for &(x, y) in v { a.add(x, y) }
        a.finish();
        a
    }
}
impl W for ProcessAnalysis {
    const BRIEF: &'static str = "brief_data.dat";
    fn line(x: f64, y: f64) -> String { format!("({:e},{:e})\n", x, y) }
    fn of(v: &[(f64, f64)], lo: f64, hi: f64, w: f64, lw: f64) -> Self {
        let mut a: Self = fresh(lo, hi, w, lw);
        for &(x, y) in v { a.add(x, y) }
        a.finish();
        a
    }
}

type Key = (f64, usize);
fn args(k: Key, idx: usize) -> (ContCircSystemArguments, VariableSimulationArguments) {
    (ContCircSystemArguments::new(k.0, k.1), VariableSimulationArguments::new(1, idx, 1, "d".to_string()))
}
fn run(k: Key, idx: usize) -> Run { let a = args(k, idx); Run::new(&a.0, &a.1) }
pub fn file<T: W>(dir: &str, name: &str, k: Key, idx: usize, v: &[(f64, f64)]) {
    let a = args(k, idx);
    let mut s = "========================    DESCRIPTIONS    ==========================\n".to_string() + &a.0.print_configuration(15) + &a.1.print_configuration(15)
        + "========================     DATA STARTS    ==========================\n";
    for &(x, y) in v { s += &T::line(x, y) }
    std::fs::write(format!("{}/{}", dir, name), s).unwrap();
}
/// the directories and files of a directory
fn names(dir: &str) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
    v.sort();
    v
}
fn results(dir: &str) -> Vec<String> { names(dir).into_iter().filter(|n| n.starts_with("analysis_")).collect() }
fn text(path: &str) -> String { std::fs::read_to_string(path).unwrap_or_else(|_| "?".to_string()) }
fn table(s: &str) -> Vec<Vec<f64>> { s.lines().map(|l| l.split_whitespace().map(|x| x.parse::<f64>().unwrap()).collect()).collect() }
fn same(a: &[Vec<f64>], b: &[Vec<f64>]) -> bool {
    if a.len() != b.len() { return false }
    let mut ok = true;
    for (r, s) in a.iter().zip(b) {
        if r.len() != s.len() { return false }
        // rounding depends on the order of the files
        for (x, y) in r.iter().zip(s) { ok &= nd::close(*x, *y, 1e-9, 1e-4) }
    }
    ok
}
/// the results in a directory are those of the groups
fn verify<T: W>(dir: &str, groups: &[(Key, Vec<(f64, f64)>)], b: (f64, f64, f64, f64), prefix: &str) {
    let brief = text(&format!("{}/{}", dir, T::BRIEF));
    let mut lines = brief.lines();
    let head: Vec<&str> = lines.next().unwrap_or("").split_whitespace().collect();
    let (h, i) = (Run::export_form(15), T::export_form(15));
    let want: Vec<&str> = h.split_whitespace().chain(i.split_whitespace()).collect();
    nd::check(head == want, "the summary begins with the names of its columns");
    let rows = lines.map(|l| l.split_whitespace().map(|x| x.parse::<f64>().unwrap()).collect::<Vec<f64>>()).collect::<Vec<_>>();
    nd::check(rows.len() == groups.len(), "the summary has a row for each set of parameters that has data");
    let mut expected = Vec::new();
    for (k, v) in groups {
        let a = T::of(v, b.0, b.1, b.2, b.3);
        let row: Vec<&Vec<f64>> = rows.iter().filter(|r| r[0] == k.0 && r[1] == k.1 as f64).collect();
        nd::check(row.len() == 1, "one row has these parameters");
        if row.len() != 1 { return }
        let s = table(&a.export_mean_stddev(15).unwrap());
        nd::check(same(&[row[0][2..].to_vec()], &s), "and the summary of all records of these parameters");
        let (mut lin, mut log) = (Vec::new(), Vec::new());
        a.export_distribution(15, &mut lin).unwrap();
        a.export_log_scaled_distribution(15, &mut log).unwrap();
        let name = run(*k, 0).export_file_removed_idx(prefix);
        nd::check(same(&table(&text(&format!("{}/linear_distribution/{}", dir, name))), &table(std::str::from_utf8(&lin).unwrap())), "the linear distribution is that of all records of these parameters");
        nd::check(same(&table(&text(&format!("{}/logarithmic_distribution/{}", dir, name))), &table(std::str::from_utf8(&log).unwrap())), "the logarithmic distribution is that of all records of these parameters");
        expected.push(name);
    }
    expected.sort();
    nd::check(names(&format!("{}/linear_distribution", dir)) == expected && names(&format!("{}/logarithmic_distribution", dir)) == expected, "a file for each set of parameters and no other");
}
pub fn words<T: W>(b: (f64, f64, f64, f64), dir: &str) -> Vec<String> {
    let mut w = T::first();
    w.extend(vec![b.0.to_string(), b.1.to_string(), b.2.to_string(), b.3.to_string(), dir.to_string()]);
    w
}
fn analyze<T: W>(w: &[String], prefix: &str) -> bool {
    let mut ok = false;
    let p = nd::panics(|| { ok = T::analyze::<Run>(w, 15, prefix).is_ok() });
    nd::check(!p, "analysis does not panic");
    ok
}
/// pairs of parameters that differ, some of them very little
const KEYS: [(Key, Key); 5] = [((1.5, 2), (1.5, 3)), ((1e-12, 2), (2e-12, 2)), ((2e9, 2), (4e9, 2)), ((1.0, 2), (2.0, 1)), ((1.0, 2), (1.0 + 1e-15, 2))];
pub const BINS: (f64, f64, f64, f64) = (1.0, 4.0, 1.5, 2.0);

/// files of two sets of parameters, one of them in two parts
fn groups<T: W>() {
    let (a, b) = KEYS[nd::choose(KEYS.len())];
    let s = nd::scratch();
    let v: Vec<(f64, f64)> = (0..4).map(|i| if i == 0 { let x = nd::f(0.5, 4.5); (x, nd::f(2.6, 2.9)) } else { (nd::f(1.1, 1.9), nd::f(2.6, 2.9)) }).collect();
    // the files come in any order
    let n = [["a", "b", "c"], ["b", "c", "a"], ["a", "c", "b"]][nd::choose(3)];
    file::<T>(&s.path, n[0], a, 1, &v[..2]);
    file::<T>(&s.path, n[1], a, 2, &v[2..3]);
    file::<T>(&s.path, n[2], b, 1, &v[3..]);
    nd::check(analyze::<T>(&words::<T>(BINS, &s.path), "X"), "the directory is analysed");
    let r = results(&s.path);
    nd::check(r.len() == 1, "one directory of results");
    if r.len() != 1 { return }
    verify::<T>(&format!("{}/{}", s.path, r[0]), &[(a, v[..3].to_vec()), (b, v[3..].to_vec())], BINS, "X");
    nd::cover("end");
}
/// a number of bins instead of their sizes
fn number<T: W>() {
    let s = nd::scratch();
    let v = vec![(nd::f(1.1, 1.9), nd::f(2.6, 2.9))];
    file::<T>(&s.path, "a", (1.5, 2), 1, &v);
    let (lo, hi, n) = [(1.0, 1024.0, 10), (1.0, 3.0, 12)][nd::choose(2)];
    let mut w = T::first();
    w.extend(vec![lo.to_string(), hi.to_string(), n.to_string(), s.path.clone()]);
    nd::check(w.len() == T::NUM_ARGS, "the number of words is announced");
    nd::check(analyze::<T>(&w, "X"), "the directory is analysed");
    let r = results(&s.path);
    nd::check(r.len() == 1, "one directory of results");
    if r.len() != 1 { return }
    let (bw, lw) = T::convert_num_bin_to_bin_size(lo, hi, n).unwrap();
    verify::<T>(&format!("{}/{}", s.path, r[0]), &[((1.5, 2), v)], (lo, hi, bw, lw), "X");
    nd::cover("end");
}
/// files without data, files that are no data files, and directories
fn others<T: W>() {
    let s = nd::scratch();
    let v = vec![(nd::f(1.1, 1.9), nd::f(2.6, 2.9))];
    file::<T>(&s.path, "m", (1.5, 2), 1, &v);
    let c = nd::choose(7);
    let n = ["a", "z"][nd::choose(2)];
    let path = format!("{}/{}", s.path, n);
    match c {
        0 => file::<T>(&s.path, n, (2.5, 2), 1, &[]),
        1 => file::<T>(&s.path, n, (1.5, 2), 2, &[]),
        2 => std::fs::write(&path, "").unwrap(),
        3 => std::fs::write(&path, "some text\nwith: words\n").unwrap(),
        4 => std::fs::create_dir(&path).unwrap(),
        5 => { std::fs::create_dir(&path).unwrap(); file::<T>(&path, "m", (1.5, 2), 1, &v) }
        _ => {
            let a = args((1.5, 2), 1);
            std::fs::write(&path, "====\n".to_string() + &a.0.print_configuration(15).replace("1.5", "much")).unwrap()
        }
    }
    let before = text(&path);
    nd::check(analyze::<T>(&words::<T>(BINS, &s.path), "X"), "the directory is analysed");
    let r = results(&s.path);
    nd::check(r.len() == 1, "one directory of results");
    if r.len() != 1 { return }
    verify::<T>(&format!("{}/{}", s.path, r[0]), &[((1.5, 2), v)], BINS, "X");
    nd::check(text(&path) == before, "files are left as they were");
    nd::cover("end");
}
/// further analyses leave the results of earlier ones
fn again<T: W>() {
    let s = nd::scratch();
    let (x, y) = (nd::f(1.1, 1.9), nd::f(2.6, 2.9));
    let v = vec![(x, y)];
    file::<T>(&s.path, "a", (1.5, 2), 1, &v);
    let mut w = T::first();
    w.extend(vec!["1".to_string(), "4".to_string(), "1.5".to_string(), "2".to_string(), s.path.clone()]);
    let runs = [2, 3, 4, 11][nd::choose(4)];
    for k in 0..runs {
        nd::check(analyze::<T>(&w, "X"), "the directory is analysed");
        if k + 1 < runs { file::<T>(&s.path, &format!("b{}", k), (1.5, 2), 2 + k, &v) }
    }
    let r = results(&s.path);
    nd::check(r.len() == runs, "each analysis has its own directory of results");
    if r.len() != runs { return }
    let mut r = r;
    // shorter names are earlier
    r.sort_by_key(|n| (n.len(), n.clone()));
    for (k, n) in r.iter().enumerate() {
        let all = vec![(x, y); k + 1];
        verify::<T>(&format!("{}/{}", s.path, n), &[((1.5, 2), all)], BINS, "X");
    }
    nd::cover("end");
}
fn refused<T: W>() {
    let s = nd::scratch();
    let v = vec![(nd::f(1.1, 1.9), nd::f(2.6, 2.9))];
    file::<T>(&s.path, "a", (1.5, 2), 1, &v);
    let full = words::<T>(BINS, &s.path);
    let n = full.len();
    let c = nd::choose(6);
    let w: Vec<String> = match c {
        // any other number of words
        0 => full[2..].to_vec(),
        1 => { let mut w = full; w.push("x".to_string()); w }
        2 => vec![],
        // words that are no numbers
        3 => { let mut w = full; let i = nd::choose(n - 1); w[i] = ["", "x", "1,5"][nd::choose(3)].to_string(); w }
        // limits that cannot be
        4 => { let mut w = full; let (i, t) = [(5, "-1"), (4, "0.5"), (3, "0"), (2, "1"), (5, "NaN")][nd::choose(5)]; w[n - i] = t.to_string(); w }
        // data that is none
        _ => {
            let path = format!("{}/a", s.path);
            let bad = ["1 2 x", "x", "(1,2", "1e", "(1,2,3)"][nd::choose(5)];
            let bad = if bad == "(1,2" { "(,)" } else { bad };
            std::fs::write(&path, text(&path) + bad + "\n").unwrap();
            full
        }
    };
    nd::check(!analyze::<T>(&w, "X"), "wrong words and wrong data are errors");
    if c < 4 { nd::check(results(&s.path).is_empty(), "wrong words leave no results") }
    nd::cover("end");
}

/// records of one to three times, whose number is given or that of the first record
fn run_vars<T>() {
    let m = 1 + nd::choose(3);
    let s = nd::scratch();
    let v: Vec<Vec<f64>> = (0..2).map(|k| (0..m).map(|i| if i == 1 { nd::f(2.6, 2.9) } else if i == 2 && k == 1 { nd::f(-5.0, 0.9) } else { nd::f(1.1, 1.9) }).collect()).collect();
    let a = args((1.5, 2), 1);
    let mut t = "====\n".to_string() + &a.0.print_configuration(15) + &a.1.print_configuration(15) + "====\n";
    for r in &v { t += &(r.iter().map(|x| format!("{:e}", x)).collect::<Vec<_>>().join(" ") + "\n") }
    // a record of another length
    let bad = nd::b();
    if bad { t += &["1.5 1.5 1.5 1.5\n", "1.5 1.5 1.5\n", "1.5 1.5\n", "1.5\n"][(5 - m + nd::choose(3)) % 4] }
    std::fs::write(format!("{}/a", s.path), t).unwrap();
    let n = [m, 0][nd::choose(2)];
    let w: Vec<String> = vec![n.to_string(), "1".to_string(), "4".to_string(), "1.5".to_string(), "2".to_string(), s.path.clone()];
    let ok = analyze::<TimeVecAnalysis>(&w, "X");
    nd::check(ok != bad, "records of one length are analysed, others are an error");
    if !bad {
        let r = results(&s.path);
        nd::check(r.len() == 1, "one directory of results");
        if r.len() != 1 { return }
        let dir = format!("{}/{}", s.path, r[0]);
        let rows: Vec<Vec<f64>> = table(&text(&format!("{}/brief_result.dat", dir)).lines().skip(1).collect::<Vec<_>>().join("\n"));
        nd::check(rows.len() == 1 && rows[0].len() == 3 + 2 * m, "the summary has a mean and a deviation for each time");
        if rows.len() != 1 || rows[0].len() != 3 + 2 * m { return }
        nd::check(rows[0][2] == 2.0, "the number of records");
        for i in 0..m {
            let (x, y) = (v[0][i], v[1][i]);
            let (q, d) = (0.5 * (x + y), 0.25 * (x - y) * (x - y));
            nd::check(nd::close(rows[0][3 + 2 * i], q, 1e-9, 1e-9), "the mean of each time");
            let sd = rows[0][4 + 2 * i];
            nd::check((sd >= 0.0) & nd::close(sd * sd, d, 1e-9, 1e-5), "the deviation of each time");
        }
        let name = run((1.5, 2), 0).export_file_removed_idx("X");
        for (log, p) in [(false, "linear"), (true, "logarithmic")] {
            let t = table(&text(&format!("{}/{}_distribution/{}", dir, p, name)));
            // the times lie in the first bin, the second in the one after it; the third of the second record in none
            nd::check(t.len() == if m == 1 { 1 } else { 2 }, "the bins that have data");
            if t.len() != if m == 1 { 1 } else { 2 } { return }
            for (k, r) in t.iter().enumerate() {
                nd::check(r.len() == 1 + 2 * m, "a number and a density for each time");
                if r.len() != 1 + 2 * m { return }
                let width = if log { (k + 1) as f64 } else { 1.5 };
                for i in 0..m {
                    let c = if (i == 1) != (k == 1) { 0.0 } else if i == 2 { 1.0 } else { 2.0 };
                    nd::check((r[1 + 2 * i] == c) & nd::close(r[2 + 2 * i], c / (2.0 * width), 1e-9, 0.0), "what each time has in a bin");
                }
            }
        }
        nd::cover("whole");
    } else { nd::cover("refused") }
}

macro_rules! kinds {
    ($($f:ident: $($n:ident $t:ty),*;)*) => { harnesses! { $($(fn $n() { $f::<$t>() })*)* } };
}
kinds! {
    groups: dir_groups_time TimeAnalysis, dir_groups_vec TimeVecAnalysis, dir_groups_proc ProcessAnalysis;
    number: dir_number_time TimeAnalysis, dir_number_vec TimeVecAnalysis, dir_number_proc ProcessAnalysis;
    others: dir_others_time TimeAnalysis, dir_others_vec TimeVecAnalysis, dir_others_proc ProcessAnalysis;
    again: dir_again_time TimeAnalysis, dir_again_vec TimeVecAnalysis, dir_again_proc ProcessAnalysis;
    run_vars: dir_vars Vec<f64>;
    refused: dir_refused_time TimeAnalysis, dir_refused_vec TimeVecAnalysis, dir_refused_proc ProcessAnalysis;
}
