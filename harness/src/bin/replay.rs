//! replay <harness> <values file>: runs one harness natively on the values of
//! a solver model.  Exit 0: all checks hold; 1: a check failed; 77: an
//! assumption is not met by the values; 78: the run needs more values.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 40 {
        // room for the words a harness gives itself
        use std::os::unix::process::CommandExt;
        let mut v: Vec<String> = a[1..].to_vec();
        v.resize(60, String::from("-"));
        let e = std::process::Command::new(std::env::current_exe().unwrap()).args(v).exec();
        println!("{}", e);
        std::process::exit(79)
    }
    let t = mdverif::table();
    let h = match t.iter().find(|x| x.0 == a[1]) {
        Some(h) => h.1,
        None => { println!("no harness {}", a[1]); std::process::exit(79) }
    };
    if a[2] == "--sample" {
        // which coverage points do random inputs reach?
        use mdverif::nd::native as n;
        std::panic::set_hook(Box::new(|_| {}));
        for k in 0..a[3].parse::<u64>().unwrap() {
            n::SAMPLE.with(|s| s.set(1 + k * 7919));
            n::LEFT.with(|l| l.set(u64::MAX));
            n::GAUSS.with(|g| g.borrow_mut().clear());
            let _ = std::panic::catch_unwind(|| h());
        }
        n::FAILED.with(|f| { let l = f.borrow(); let mut u: Vec<_> = l.iter().collect(); u.sort(); u.dedup(); for x in u { println!("SAMPLE FAILED: {} ({} times)", x, l.iter().filter(|y| *y == x).count()); } });
        n::COVERED.with(|c| for x in c.borrow().iter() { println!("COVERED: {}", x); });
        return;
    }
    let txt = std::fs::read_to_string(&a[2]).unwrap();
    mdverif::nd::native::Q.with(|q| {
        for l in txt.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') { continue; }
            q.borrow_mut().push_back(u64::from_str_radix(l.split_whitespace().next().unwrap(), 16).unwrap());
        }
    });
    let r = std::panic::catch_unwind(|| h());
    mdverif::nd::native::cleanup();
    if mdverif::nd::native::failed() { std::process::exit(1); }
    if r.is_err() { println!("PANIC outside nd::panics"); std::process::exit(1); }
    println!("REPLAY: all checks hold ({})", mdverif::nd::native::COUNT.with(|c| c.get()));
}
