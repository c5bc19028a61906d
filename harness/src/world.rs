//! What harnesses can ask of the surrounding world, in both builds.

use crate::sym;

pub const F_READ: u32 = 1;
pub const F_WRITE: u32 = 2;
pub const F_SYNC: u32 = 4;
pub const F_OPEN: u32 = 8;
pub const F_OPENW: u32 = 16;
pub const F_CREATE: u32 = 32;
pub const F_TRUNC: u32 = 64;
pub const F_UNLINK: u32 = 128;
pub const F_MKDIR: u32 = 256;
pub const F_READDIR: u32 = 512;
pub const F_STAT: u32 = 1024;
pub const F_RENAME: u32 = 2048;
pub const F_LOCK: u32 = 4096;
/// writing to the standard output
pub const F_OUT: u32 = 8192;
pub const F_MODIFY: u32 = F_WRITE | F_SYNC | F_OPENW | F_CREATE | F_TRUNC | F_UNLINK | F_MKDIR | F_RENAME;

/// Controls of the nondeterminism (see os.rs).
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Ctl {
    pub on: bool,
    pub shuffle: bool,
    pub short_reads: u32,
    pub short_writes: u32,
    pub eintr: u32,
    pub fault_mask: u32,
    pub fault_budget: u32,
    pub crash_budget: u32,
    /// calls seen
    pub calls: u32,
    /// set when a fault was injected / the process was killed
    pub faulted: u32,
    pub crashed: u32,
    pub scope: &'static str,
    /// what another process holds on the database: 1 a shared, 2 a reserved,
    /// 3 an exclusive lock; until this one has waited so often
    pub other: u32,
    pub patience: u32,
    /// calls that met that lock
    pub met: u32,
    /// another program, which runs from its start to its end before one of the
    /// calls of this one
    pub switch: u32,
    pub cmd: usize,
    /// writes reach the disk no earlier than at the next sync
    pub power: bool,
    /// what directories are said to be large
    pub dir_size: u64,
}

impl Default for Ctl {
    fn default() -> Self {
        Ctl { on: false, shuffle: false, short_reads: 0, short_writes: 0, eintr: 0, fault_mask: 0, fault_budget: 0, crash_budget: 0, calls: 0, faulted: 0, crashed: 0, scope: "/w", other: 0, patience: 0, met: 0, switch: 0, cmd: 0, power: false, dir_size: 4096 }
    }
}

impl Ctl {
    /// decides the fate of one call: 0 = goes ahead, else the error number
    pub fn gate(&mut self, class: u32, path: &[u8]) -> i32 {
        // a choice is named after the call, so that it means the same one when
        // the program runs for real
        let label = |what: &str| {
            let from = path.len().saturating_sub(24);
            format!("{} {} {}", what, class, String::from_utf8_lossy(&path[from..]))
        };
        if class & F_MODIFY != 0 {
            self.calls += 1;
            if self.crash_budget > 0 && sym::flag(&label("crash")) {
                self.crash_budget = 0;
                self.crashed = self.calls;
                if self.power {
                    power_off();
                }
                sym::exit(137);
            }
        }
        if class == F_READ && self.eintr > 0 && sym::flag(&label("eintr")) {
            self.eintr -= 1;
            return 4;
        }
        if self.fault_budget > 0 && class & self.fault_mask != 0 && sym::flag(&label("fault")) {
            self.fault_budget -= 1;
            self.faulted = class;
            return match class {
                F_READ | F_SYNC | F_READDIR | F_STAT => 5,
                _ => 28,
            };
        }
        0
    }
    /// does the other program run now?
    pub fn turn(&mut self, class: u32, path: &str) -> bool {
        if !self.on || self.switch == 0 || !path.starts_with(self.scope) {
            return false;
        }
        let from = (path.len().saturating_sub(24)..path.len()).find(|i| path.is_char_boundary(*i)).unwrap_or(0);
        if !sym::flag(&format!("switch {} {}", class, &path[from..])) {
            return false;
        }
        self.switch -= 1;
        true
    }
    /// is a lock of this kind (0 read, 1 write) on these bytes refused?
    pub fn locked(&mut self, kind: i16, from: i64, len: i64) -> bool {
        const PENDING: i64 = 0x4000_0000;
        let over = |a: i64, n: i64| from < a + n && (len == 0 || a < from + len);
        let hit = (self.other == 1 && kind == 1 && over(PENDING + 2, 510))
            || (self.other == 2 && ((kind == 1 && over(PENDING + 2, 510)) || over(PENDING + 1, 1)))
            || (self.other == 3 && over(PENDING, 512));
        self.met += hit as u32;
        hit
    }
    /// the program waits
    pub fn wait(&mut self) {
        if self.other != 0 {
            if self.patience == 0 {
                self.other = 0;
            } else {
                self.patience -= 1;
            }
        }
    }
    /// how much of k bytes is written, or that the call is interrupted
    pub fn short_write(&mut self, path: &str, k: usize) -> Result<usize, i32> {
        if !self.on || self.short_writes == 0 || k < 2 || !path.starts_with(self.scope) {
            return Ok(k);
        }
        let how = sym::choice("written", 4);
        if how != 0 {
            self.short_writes -= 1;
        }
        match how {
            0 => Ok(k),
            1 => Ok(1),
            2 => Ok(k - 1),
            _ => Err(4),
        }
    }
    pub fn short(&mut self, k: usize) -> usize {
        match sym::choice("short", 3) {
            0 => k,
            1 => {
                self.short_reads -= 1;
                1
            }
            _ => {
                self.short_reads -= 1;
                k - 1
            }
        }
    }
}

/// a change of a file that is not on the disk yet
pub enum Op {
    Write(usize, Vec<u8>),
    Size(usize),
}
struct Dirty {
    path: Vec<u8>,
    base: Vec<u8>,
    ops: Vec<Op>,
}
/// What a loss of power can take: of every file the changes since its last
/// sync, in part or all of them.  Directories are written at once.
#[derive(Default)]
pub struct Power {
    dirty: Vec<Dirty>,
}
impl Power {
    pub fn op(&mut self, path: &[u8], now: &dyn Fn() -> Vec<u8>, op: Op) {
        // memory that is shared by processes, and made anew by the first one
        if path.ends_with(b"-shm") {
            return;
        }
        match self.dirty.iter_mut().find(|d| d.path == path) {
            Some(d) => d.ops.push(op),
            None => self.dirty.push(Dirty { path: path.to_vec(), base: now(), ops: vec![op] }),
        }
    }
    pub fn synced(&mut self, path: &[u8]) {
        self.dirty.retain(|d| d.path != path);
    }
    /// what the files hold when the power is back
    pub fn lost(&mut self) -> Vec<(Vec<u8>, Vec<u8>)> {
        let mut r = vec![];
        for d in std::mem::take(&mut self.dirty) {
            let n = d.ops.len();
            let from = d.path.len().saturating_sub(24);
            let label = format!("lost {}", String::from_utf8_lossy(&d.path[from..]));
            // which changes are there: all, none, all but the last, only the
            // last, the last one by half
            let kind = sym::choice(&label, if n > 1 { 5 } else { 3 });
            if kind == 0 {
                continue;
            }
            sym::note(&format!("{}: of {} changes {}", label, n, ["", "none is", "half of the last and all before it are", "all but the last are", "only the last is"][kind as usize]));
            let mut data = d.base;
            for (i, o) in d.ops.iter().enumerate() {
                let last = i + 1 == n;
                let there = match kind {
                    1 => false,
                    2 => true,
                    3 => !last,
                    _ => last,
                };
                if !there {
                    continue;
                }
                match o {
                    Op::Write(off, b) => {
                        let k = if kind == 2 && last { b.len() / 2 } else { b.len() };
                        if data.len() < off + k {
                            data.resize(off + k, 0);
                        }
                        data[*off..off + k].copy_from_slice(&b[..k]);
                    }
                    Op::Size(k) => {
                        if !(kind == 2 && last) {
                            data.resize(*k, 0);
                        }
                    }
                }
            }
            r.push((d.path, data));
        }
        r
    }
}

pub struct Outcome {
    pub code: i32,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}

impl Outcome {
    pub fn out_str(&self) -> &str {
        unsafe { std::str::from_utf8_unchecked(&self.out) }
    }
}

struct Cmd<'a> {
    args: &'a [&'a str],
}

pub(crate) extern "C" fn child(p: *mut u8) -> i32 {
    let c = unsafe { &*(p as *const Cmd<'_>) };
    let mut store: Vec<Vec<u8>> = vec![b"snapcd\0".to_vec()];
    for a in c.args {
        let mut v = a.as_bytes().to_vec();
        v.push(0);
        store.push(v);
    }
    let mut ptrs: Vec<*const u8> = store.iter().map(|x| x.as_ptr()).collect();
    ptrs.push(std::ptr::null());
    sym::set_args(store.len(), ptrs.as_ptr());
    let code = crate::cli::run_main();
    use std::io::Write;
    let _ = std::io::stdout().flush();
    if ctl().on && ctl().power {
        power_off();
    }
    code
}

#[cfg(not(feature = "native"))]
mod imp {
    use super::*;
    pub fn ctl() -> &'static mut Ctl {
        &mut crate::os::w().ctl
    }
    pub fn run(f: extern "C" fn(*mut u8) -> i32, data: *mut u8) -> Outcome {
        let w = crate::os::w();
        w.start_process();
        let code = sym::run(f, data, true);
        Outcome { code, out: std::mem::take(&mut w.out), err: std::mem::take(&mut w.err) }
    }
    /// A, and B before one of A's calls, or not at all
    pub(super) fn run_both(a: *mut u8, b: *mut u8) -> (Outcome, Option<Outcome>) {
        let w = crate::os::w();
        w.multi = true;
        w.pid = 1;
        w.ctl.cmd = b as usize;
        let x = run(child, a);
        let w = crate::os::w();
        w.multi = false;
        w.locks = vec![];
        w.maps = vec![];
        (x, w.other.take())
    }
    pub(super) fn run_here(f: extern "C" fn(*mut u8) -> i32, data: *mut u8) -> Outcome {
        let w = crate::os::w();
        w.out = vec![];
        w.err = vec![];
        let code = sym::run(f, data, false);
        Outcome { code, out: std::mem::take(&mut w.out), err: std::mem::take(&mut w.err) }
    }
    pub fn init() {
        crate::os::w();
    }
    pub fn power_off() {
        crate::os::power_off();
    }
}
#[cfg(feature = "native")]
pub use crate::native::imp;
pub use imp::*;

extern "C" fn tramp(p: *mut u8) -> i32 {
    let f = unsafe { &mut *(p as *mut &mut dyn FnMut()) };
    f();
    use std::io::Write;
    let _ = std::io::stdout().flush();
    0
}
/// what this prints and how it ends; the caller must not rely on what it
/// changes in memory
pub fn call(mut f: &mut dyn FnMut()) -> Outcome {
    run_here(tramp, &mut f as *mut &mut dyn FnMut() as *mut u8)
}

/// runs the snapcd program with these arguments in the current directory
pub fn snapcd(args: &[&str]) -> Outcome {
    let c = Cmd { args };
    run(child, &c as *const Cmd<'_> as *mut u8)
}

/// runs one command, and another, complete, before one of the calls of the
/// first (those of files in `ctl().scope`); None if it did not get its turn
pub fn snapcd_while(a: &[&str], b: &[&str]) -> (Outcome, Option<Outcome>) {
    let (x, y) = (Cmd { args: a }, Cmd { args: b });
    let c = ctl();
    c.on = true;
    c.switch = 1;
    let r = run_both(&x as *const Cmd<'_> as *mut u8, &y as *const Cmd<'_> as *mut u8);
    let c = ctl();
    c.on = false;
    c.switch = 0;
    r
}

extern "C" {
    fn utimensat(d: i32, p: *const u8, ts: *const [i64; 4], flags: i32) -> i32;
}
/// sets a file's modification time
pub fn set_time(path: &str, sec: i64, nsec: i64) {
    let mut p = path.as_bytes().to_vec();
    p.push(0);
    let r = unsafe { utimensat(-100, p.as_ptr(), &[sec, nsec, sec, nsec], 0) };
    assert!(r == 0);
}

// ---- helpers over std::fs, the same in both builds ----

pub fn write(path: &str, data: &[u8]) {
    use std::io::Write;
    let mut f = std::fs::File::create(path).unwrap();
    f.write_all(data).unwrap();
}
pub fn mkdir(path: &str) {
    std::fs::create_dir(path).unwrap();
}
pub fn chdir(path: &str) {
    std::env::set_current_dir(path).unwrap();
}
pub fn read(path: &str) -> Option<Vec<u8>> {
    std::fs::read(path).ok()
}
/// every entry below `path`: relative path, is-directory, content; sorted
pub fn tree(path: &str) -> Vec<(String, bool, Vec<u8>)> {
    let mut v = vec![];
    walk(path, "", &mut v);
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
fn walk(base: &str, rel: &str, out: &mut Vec<(String, bool, Vec<u8>)>) {
    let p = if rel.is_empty() { base.to_string() } else { format!("{}/{}", base, rel) };
    let rd = match std::fs::read_dir(&p) {
        Ok(r) => r,
        Err(_) => return,
    };
    for e in rd {
        let e = e.unwrap();
        let n = e.file_name().to_str().unwrap().to_string();
        let r = if rel.is_empty() { n } else { format!("{}/{}", rel, n) };
        let ft = e.file_type().unwrap();
        if ft.is_dir() {
            out.push((r.clone(), true, vec![]));
            walk(base, &r, out);
        } else if ft.is_symlink() {
            let t = std::fs::read_link(e.path()).unwrap();
            out.push((r, false, format!("-> {}", t.display()).into_bytes()));
        } else {
            let d = std::fs::read(e.path()).unwrap();
            out.push((r, false, d));
        }
    }
}
/// equality of listings without branching on contents
pub fn same_tree(a: &[(String, bool, Vec<u8>)], b: &[(String, bool, Vec<u8>)]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for (x, y) in a.iter().zip(b.iter()) {
        if x.0 != y.0 || x.1 != y.1 {
            return false;
        }
        ok &= sym::eq(&x.2, &y.2);
    }
    ok
}
