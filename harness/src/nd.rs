//! Nondeterminism interface.  Under the symbolic executor (cfg llsym) every
//! function is provided by the engine; natively the values come from a file
//! written by the engine, in the same order.
extern "C-unwind" {
    fn nd_f64(lo: f64, hi: f64) -> f64;
    fn nd_f64_any() -> f64;
    fn nd_u64(lo: u64, hi: u64) -> u64;
    fn nd_choose(n: u64) -> u64;
    fn nd_split(c: bool) -> bool;
    fn nd_assume(c: bool);
    fn nd_check(c: bool, p: *const u8, n: usize);
    fn nd_cover(p: *const u8, n: usize);
    fn nd_rngcap(n: u64);
    fn nd_gauss_count() -> u64;
    fn nd_gauss_at(i: u64) -> f64;
    fn nd_catch(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> bool;
    fn nd_set_args(n: u64, p: *const *const u8);
    fn nd_fault(k: u64) -> u64;
}

/// any finite double in [lo, hi]
pub fn f(lo: f64, hi: f64) -> f64 { unsafe { nd_f64(lo, hi) } }
/// any double at all, infinities and NaN included
pub fn any_f() -> f64 { unsafe { nd_f64_any() } }
/// any integer in [lo, hi]
pub fn u(lo: u64, hi: u64) -> u64 { unsafe { nd_u64(lo, hi) } }
pub fn us(lo: usize, hi: usize) -> usize { u(lo as u64, hi as u64) as usize }
pub fn b() -> bool { u(0, 1) == 1 }
pub fn assume(c: bool) { unsafe { nd_assume(c) } }
#[inline(always)]
pub fn check(c: bool, id: &'static str) { unsafe { nd_check(c, id.as_ptr(), id.len()) } }
/// reachability witness: some feasible path must get here
#[inline(always)]
pub fn cover(id: &'static str) { unsafe { nd_cover(id.as_ptr(), id.len()) } }
/// at most n further random words are drawn on a path (longer rejection
/// sequences are cut, a stated bound)
pub fn rng_cap(n: u64) { unsafe { nd_rngcap(n) } }
/// normal deviates handed out so far
pub fn gauss_count() -> usize { unsafe { nd_gauss_count() as usize } }
/// the i-th of them
pub fn gauss_at(i: usize) -> f64 { unsafe { nd_gauss_at(i as u64) } }
/// index in 0..n, concrete after the call (the executor forks)
pub fn choose(n: usize) -> usize { unsafe { nd_choose(n as u64) as usize } }
/// c, concrete after the call
pub fn split(c: bool) -> bool { unsafe { nd_split(c) } }

extern "C-unwind" fn tramp<F: FnMut()>(d: *mut u8) {
    let f = unsafe { &mut *(d as *mut F) };
    f();
}
/// true when f panics
pub fn panics<F: FnMut()>(mut f: F) -> bool {
    unsafe { nd_catch(tramp::<F>, &mut f as *mut F as *mut u8) }
}

/// The words of the command line, from now on.
pub fn set_args(w: &[String]) {
    let v: Vec<*const u8> = w.iter().map(|x| std::ffi::CString::new(x.as_str()).unwrap().into_raw() as *const u8).chain([std::ptr::null()]).collect();
    unsafe { nd_set_args(w.len() as u64, v.leak().as_ptr()) }
}

/// The k-th operation from now on that creates or writes a file or directory
/// fails for lack of space (0: none).  True when an earlier one has failed so.
pub fn fault(k: usize) -> bool { unsafe { nd_fault(k as u64) != 0 } }

/// An empty directory of the run's own.  Under the symbolic executor it is a
/// directory of an in-memory file system; natively a fresh temporary one,
/// removed at the end.
pub struct Scratch { pub path: String }
#[cfg(llsym)]
pub fn scratch() -> Scratch { Scratch { path: String::from("/nd") } }
#[cfg(not(llsym))]
pub fn scratch() -> Scratch {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let path = format!("/tmp/mdverif.{}.{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst));
    std::fs::create_dir(&path).unwrap();
    native::DIRS.with(|d| d.borrow_mut().push(path.clone()));
    Scratch { path }
}
#[cfg(not(llsym))]
impl Drop for Scratch {
    fn drop(&mut self) { native::cleanup() }
}

/// |a-b| <= tol * (|a| + |b|) + abs
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    let d = a - b;
    let t = rel * (a.abs() + b.abs()) + abs;
    d <= t && -d <= t
}

#[cfg(not(llsym))]
pub mod native {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! {
        pub static Q: RefCell<VecDeque<u64>> = RefCell::new(VecDeque::new());
        pub static COUNT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
        pub static FAILED: RefCell<Vec<String>> = RefCell::new(Vec::new());
    }
    thread_local! {
        /// sampling mode: values come from this generator instead of the file
        pub static SAMPLE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
        pub static COVERED: RefCell<std::collections::BTreeSet<String>> = RefCell::new(Default::default());
        pub static GAUSS: RefCell<Vec<f64>> = RefCell::new(Vec::new());
        pub static LEFT: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
    }
    thread_local! { pub static DIRS: RefCell<Vec<String>> = RefCell::new(Vec::new()); }
    pub fn cleanup() {
        DIRS.with(|d| for p in d.borrow_mut().drain(..) {
            if p.starts_with("/tmp/mdverif.") { let _ = std::fs::remove_dir_all(p); }
        })
    }
    // where the words of the command line are, as the C library tells
    static mut ARGV: (usize, *mut *const u8) = (0, std::ptr::null_mut());
    extern "C" fn init(argc: i32, argv: *mut *const u8, _env: *const *const u8) { unsafe { ARGV = (argc as usize, argv) } }
    #[used]
    #[link_section = ".init_array.00200"]
    static INIT: extern "C" fn(i32, *mut *const u8, *const *const u8) = init;
    #[no_mangle] pub extern "C-unwind" fn nd_set_args(n: u64, p: *const *const u8) {
        unsafe {
            // the list ends at the first null
            assert!(n as usize <= ARGV.0);
            for i in 0..ARGV.0 { *ARGV.1.add(i) = if i < n as usize { *p.add(i) } else { std::ptr::null() } }
        }
    }
    // faults: operations on files pass through here
    static FAULT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    const FIRED: u64 = u64::MAX;
    #[no_mangle] pub extern "C-unwind" fn nd_fault(k: u64) -> u64 { (FAULT.swap(k, std::sync::atomic::Ordering::SeqCst) == FIRED) as u64 }
    extern "C" { fn syscall(n: i64, ...) -> i64; fn __errno_location() -> *mut i32; }
    fn faulty() -> bool {
        let k = FAULT.load(std::sync::atomic::Ordering::SeqCst);
        if k == 0 || k == FIRED { return false }
        FAULT.store(if k == 1 { FIRED } else { k - 1 }, std::sync::atomic::Ordering::SeqCst);
        if k == 1 { unsafe { *__errno_location() = 28 } }
        k == 1
    }
    #[no_mangle] pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
        if fd != 1 && fd != 2 && faulty() { return -1 }
        syscall(1, fd as i64, p, n) as isize
    }
    #[no_mangle] pub unsafe extern "C" fn writev(fd: i32, p: *const u8, n: i32) -> isize {
        if fd != 1 && fd != 2 && faulty() { return -1 }
        syscall(20, fd as i64, p, n as i64) as isize
    }
    #[no_mangle] pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
        if flags & 3 != 0 && faulty() { return -1 }
        syscall(2, p, flags as i64, mode as i64) as i32
    }
    #[no_mangle] pub unsafe extern "C" fn mkdir(p: *const u8, mode: u32) -> i32 {
        if faulty() { return -1 }
        syscall(83, p, mode as i64) as i32
    }
    // directories are read in the order of the names, as under the executor
    extern "C" { fn dlsym(h: *mut u8, name: *const u8) -> *mut u8; }
    static LISTS: std::sync::Mutex<Vec<(usize, Vec<Box<[u8]>>, usize)>> = std::sync::Mutex::new(Vec::new());
    unsafe fn next(name: &'static [u8]) -> unsafe extern "C" fn(*mut u8) -> *mut u8 { std::mem::transmute(dlsym(-1isize as *mut u8, name.as_ptr())) }
    #[no_mangle] pub unsafe extern "C" fn readdir64(d: *mut u8) -> *mut u8 {
        let mut l = LISTS.lock().unwrap();
        let i = match l.iter().position(|x| x.0 == d as usize) {
            Some(i) => i,
            None => {
                let real = next(b"readdir64\0");
                let mut v: Vec<Box<[u8]>> = Vec::new();
                loop {
                    let e = real(d);
                    if e.is_null() { break }
                    let n = *(e.add(16) as *const u16) as usize;
                    // room for the longest name, readers may look at the whole of it
                    let mut b = std::slice::from_raw_parts(e, n).to_vec();
                    b.resize(280, 0);
                    v.push(b.into_boxed_slice());
                }
                v.sort_by(|a, b| a[19..].cmp(&b[19..]));
                l.push((d as usize, v, 0));
                l.len() - 1
            }
        };
        let x = &mut l[i];
        x.2 += 1;
        match x.1.get_mut(x.2 - 1) { Some(e) => e.as_mut_ptr(), None => std::ptr::null_mut() }
    }
    #[no_mangle] pub unsafe extern "C" fn closedir(d: *mut u8) -> i32 {
        LISTS.lock().unwrap().retain(|x| x.0 != d as usize);
        next(b"closedir\0")(d) as usize as i32
    }
    fn exit(c: i32) -> ! { cleanup(); std::process::exit(c) }
    pub struct Stop;
    fn sampling() -> bool { SAMPLE.with(|s| s.get() != 0) }
    fn word() -> u64 {
        SAMPLE.with(|s| {
            let x = s.get().wrapping_add(0x9e3779b97f4a7c15);
            s.set(if x == 0 { 1 } else { x });
            let z = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            let z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        })
    }
    fn unit() -> f64 { (word() >> 11) as f64 / (1u64 << 53) as f64 }
    fn pop() -> u64 {
        if sampling() { return word(); }
        Q.with(|q| match q.borrow_mut().pop_front() {
            Some(x) => x,
            None => { println!("REPLAY: out of values"); exit(if failed() { 1 } else { 78 }) }
        })
    }
    pub fn failed() -> bool { FAILED.with(|f| !f.borrow().is_empty()) }
    fn bad(why: &str) -> ! {
        if sampling() { std::panic::resume_unwind(Box::new(Stop)) }
        println!("REPLAY: assumption not met: {}", why);
        exit(if failed() { 1 } else { 77 })
    }
    #[no_mangle] pub extern "C-unwind" fn nd_f64(lo: f64, hi: f64) -> f64 {
        if sampling() {
            // uniform, or with a random magnitude
            if word() & 1 == 0 { return lo + (hi - lo) * unit(); }
            let m = lo.abs().max(hi.abs());
            let x = m * (10f64).powf(-12.0 * unit()) * if word() & 1 == 0 { 1.0 } else { -1.0 };
            return if x >= lo && x <= hi { x } else { lo + (hi - lo) * unit() };
        }
        let x = f64::from_bits(pop());
        if !(x >= lo && x <= hi) { bad("f64 range") }
        x
    }
    #[no_mangle] pub extern "C-unwind" fn nd_f64_any() -> f64 { f64::from_bits(pop()) }
    #[no_mangle] pub extern "C-unwind" fn nd_gauss() -> f64 { let x = nd_f64(-16.0, 16.0); GAUSS.with(|g| g.borrow_mut().push(x)); x }
    #[no_mangle] pub extern "C-unwind" fn nd_gauss_count() -> u64 { GAUSS.with(|g| g.borrow().len() as u64) }
    #[no_mangle] pub extern "C-unwind" fn nd_gauss_at(i: u64) -> f64 { GAUSS.with(|g| g.borrow().get(i as usize).copied().unwrap_or(0.0)) }
    #[no_mangle] pub extern "C-unwind" fn nd_u64(lo: u64, hi: u64) -> u64 {
        if sampling() { return if lo == 0 && hi == u64::MAX { word() } else { lo + word() % (hi - lo + 1) }; }
        let x = pop();
        if !(x >= lo && x <= hi) { bad("u64 range") }
        x
    }
    #[no_mangle] pub extern "C-unwind" fn nd_choose(n: u64) -> u64 { nd_u64(0, n - 1) }
    #[no_mangle] pub extern "C-unwind" fn nd_split(c: bool) -> bool { c }
    #[no_mangle] pub extern "C-unwind" fn nd_rng() -> u64 {
        if LEFT.with(|l| { let v = l.get(); l.set(v.saturating_sub(1)); v == 0 }) && sampling() { bad("random words") }
        pop()
    }
    #[no_mangle] pub extern "C-unwind" fn nd_assume(c: bool) { if !c { bad("assume") } }
    #[no_mangle] pub extern "C-unwind" fn nd_check(c: bool, p: *const u8, n: usize) {
        COUNT.with(|k| k.set(k.get() + 1));
        if !c {
            let id = unsafe { std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap() };
            if !sampling() { println!("CHECK FAILED: {}", id); }
            FAILED.with(|f| f.borrow_mut().push(id.to_string()));
        }
    }
    #[no_mangle] pub extern "C-unwind" fn nd_cover(p: *const u8, n: usize) {
        let id = unsafe { std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap() };
        COVERED.with(|c| c.borrow_mut().insert(id.to_string()));
    }
    #[no_mangle] pub extern "C-unwind" fn nd_rngcap(n: u64) { LEFT.with(|l| l.set(n)) }
    #[no_mangle] pub extern "C-unwind" fn nd_catch(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> bool {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(d))) {
            Ok(_) => false,
            Err(e) => { if e.is::<Stop>() { std::panic::resume_unwind(e) } true }
        }
    }
}

/// declares the harnesses of a module and their table for the replay binary
#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $( $(#[$m])* #[no_mangle] pub fn $name() $body )*
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
