//! Work splitting over forked processes. Every process explores its own states;
//! at its end it waits for the processes it started and merges their results.
use std::cell::RefCell;
use std::ffi::c_int;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::Instant;

extern "C" {
    fn fork() -> c_int;
    fn waitpid(p: c_int, st: *mut c_int, o: c_int) -> c_int;
    fn mmap(a: *mut u8, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut u8;
    fn _exit(c: c_int) -> !;
    fn getpid() -> c_int;
}

pub struct Shared {
    pub active: AtomicU32,
    pub stop: AtomicU32,
    pub seq: AtomicU32,
}

struct Local {
    sh: *const Shared,
    jobs: u32,
    dir: PathBuf,
    kids: Vec<(c_int, u32)>,
    me: u32,
    last: Instant,
}

thread_local! {
    static L: RefCell<Option<Local>> = RefCell::new(None);
}

pub fn init(jobs: usize, dir: PathBuf) {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared;
        (*p).active.store(1, Ordering::SeqCst);
        L.with(|l| {
            *l.borrow_mut() = Some(Local { sh: p, jobs: jobs as u32, dir, kids: vec![], me: 0, last: Instant::now() })
        });
    }
}

pub fn stopped() -> bool {
    L.with(|l| match &*l.borrow() {
        Some(x) => unsafe { (*x.sh).stop.load(Ordering::Relaxed) != 0 },
        None => false,
    })
}
pub fn stop_all() {
    L.with(|l| {
        if let Some(x) = &*l.borrow() {
            unsafe { (*x.sh).stop.store(1, Ordering::SeqCst) }
        }
    })
}

pub fn try_fork(f: &mut dyn FnMut(bool)) -> bool {
    L.with(|l| {
        let mut l = l.borrow_mut();
        let x = match l.as_mut() {
            Some(x) => x,
            None => return false,
        };
        if x.last.elapsed().as_millis() < 150 {
            return false;
        }
        unsafe {
            let sh = &*x.sh;
            let a = sh.active.load(Ordering::SeqCst);
            if a >= x.jobs || sh.active.compare_exchange(a, a + 1, Ordering::SeqCst, Ordering::SeqCst).is_err() {
                return false;
            }
            let id = sh.seq.fetch_add(1, Ordering::SeqCst) + 1;
            let p = fork();
            if p < 0 {
                sh.active.fetch_sub(1, Ordering::SeqCst);
                return false;
            }
            x.last = Instant::now();
            if p == 0 {
                x.kids.clear();
                x.me = id;
                f(true);
            } else {
                x.kids.push((p, id));
                f(false);
            }
        }
        true
    })
}

/// Called when this process has nothing left to explore. Returns the results of the
/// processes it started. A started process hands in its result with `hand_in`.
pub fn collect() -> Vec<Result<String, String>> {
    L.with(|l| {
        let mut l = l.borrow_mut();
        let x = match l.as_mut() {
            Some(x) => x,
            None => return vec![],
        };
        unsafe { (*x.sh).active.fetch_sub(1, Ordering::SeqCst) };
        let mut out = vec![];
        for (pid, id) in std::mem::take(&mut x.kids) {
            let mut st = 0;
            let mut note = String::new();
            while unsafe { waitpid(pid, &mut st, 0) } < 0 {
                let e = std::io::Error::last_os_error();
                if e.kind() != std::io::ErrorKind::Interrupted {
                    note = format!(" (waiting: {})", e);
                    break;
                }
            }
            let f = x.dir.join(format!("part{}", id));
            let r = std::fs::read_to_string(&f).map_err(|e| format!("worker {} ended with status {:#x} without a result: {}{}", id, st, e, note));
            let _ = std::fs::remove_file(&f);
            if r.is_err() {
                unsafe { (*x.sh).active.fetch_sub(1, Ordering::SeqCst) };
            }
            out.push(r);
        }
        out
    })
}

pub fn is_child() -> bool {
    L.with(|l| l.borrow().as_ref().map(|x| x.me != 0).unwrap_or(false))
}

pub fn hand_in(s: &str) -> ! {
    let f = L.with(|l| {
        let l = l.borrow();
        let x = l.as_ref().unwrap();
        x.dir.join(format!("part{}", x.me))
    });
    let ok = std::fs::write(&f, s).is_ok();
    unsafe {
        let _ = getpid();
        _exit(if ok { 0 } else { 9 })
    }
}
