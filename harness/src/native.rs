//! The replay build: the same harness, real blake3, real gearhash, the real
//! kernel.  A counterexample's inputs come from a file; the program under test
//! runs in forked processes inside a scratch directory that is the root of the
//! file system for the whole replay (an unprivileged user namespace), so that
//! nothing outside it can be reached.
//!
//! usage: replay ENTRY INPUTS SCRATCH pad pad pad ...
//! INPUTS: lines "name occurrence hexbytes"

use crate::world::{Ctl, Outcome, *};
use std::collections::HashMap;
use std::ffi::CString;

static mut ARGC: i32 = 0;
static mut ARGV: *mut *const u8 = std::ptr::null_mut();

extern "C" fn grab(argc: i32, argv: *mut *const u8, _env: *const *const u8) {
    unsafe {
        ARGC = argc;
        ARGV = argv;
    }
}
#[used]
#[link_section = ".init_array.00001"]
static GRAB: extern "C" fn(i32, *mut *const u8, *const *const u8) = grab;

/// state shared by the forked processes
#[repr(C)]
pub struct Shared {
    pub ctl: Ctl,
    pub failed: u32,
    /// how the other program ended
    pub other: i32,
    n: usize,
    names: [([u8; 40], u32); 1024],
}

static mut SHARED: *mut Shared = std::ptr::null_mut();
static mut INPUTS: Option<HashMap<(String, u32), Vec<u8>>> = None;

pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SHARED }
}

fn next_occ(name: &str) -> u32 {
    let s = sh();
    let mut k = [0u8; 40];
    let b = name.as_bytes();
    let l = b.len().min(40);
    k[..l].copy_from_slice(&b[..l]);
    for i in 0..s.n {
        if s.names[i].0 == k {
            let o = s.names[i].1;
            s.names[i].1 += 1;
            return o;
        }
    }
    assert!(s.n < 1024);
    s.names[s.n] = (k, 1);
    s.n += 1;
    0
}

fn input(name: &str, n: usize) -> Vec<u8> {
    let o = next_occ(name);
    #[allow(static_mut_refs)]
    let m = unsafe { INPUTS.as_ref().unwrap() };
    let mut v = m.get(&(name.to_string(), o)).cloned().unwrap_or_default();
    v.resize(n, 0);
    v
}

unsafe fn name<'a>(p: *const u8, l: usize) -> &'a str {
    std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, l))
}

#[no_mangle]
unsafe extern "C" fn sym_new(p: *const u8, l: usize, dst: *mut u8, n: usize) {
    let v = input(name(p, l), n);
    std::ptr::copy_nonoverlapping(v.as_ptr(), dst, n);
}
#[no_mangle]
unsafe extern "C" fn sym_choice(p: *const u8, l: usize, n: u32) -> u32 {
    let nm = name(p, l);
    let v = u32::from(input(nm, 1)[0]);
    if std::env::var_os("REPLAY_V").is_some() || VERBOSE {
        eprintln!("choice {} of {} = {}", nm, n, v);
    }
    if v >= n {
        0
    } else {
        v
    }
}
static mut VERBOSE: bool = false;
#[no_mangle]
unsafe extern "C" fn sym_param(p: *const u8, l: usize, d: u64) -> u64 {
    #[allow(static_mut_refs)]
    let m = INPUTS.as_ref().unwrap();
    match m.get(&(format!("param {}", name(p, l)), 0)) {
        Some(v) => {
            let mut b = [0u8; 8];
            b.copy_from_slice(&v[..8]);
            u64::from_le_bytes(b)
        }
        None => d,
    }
}
#[no_mangle]
unsafe extern "C" fn sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
unsafe extern "C" fn sym_is_const(_p: *const u8, _n: usize) -> u32 {
    1
}
#[no_mangle]
unsafe extern "C" fn sym_assume(c: bool) {
    if !c {
        eprintln!("replay: assumption does not hold");
        libc::_exit(3);
    }
}
#[no_mangle]
unsafe extern "C" fn sym_assert(c: bool, p: *const u8, l: usize) {
    if !c {
        println!("REPLAY-FAILED {}", name(p, l));
        use std::io::Write;
        let _ = std::io::stdout().flush();
        sh().failed = 1;
        libc::_exit(1);
    }
}
#[no_mangle]
unsafe extern "C" fn sym_cover(p: *const u8, l: usize) {
    println!("mark: {}", name(p, l));
}
#[no_mangle]
unsafe extern "C" fn sym_note(p: *const u8, l: usize) {
    if l > 0 {
        println!("note: {}", name(p, l));
    }
}
#[no_mangle]
unsafe extern "C" fn sym_merge(_on: u32) -> u32 {
    0
}
static mut REGS: [u64; 16] = [0; 16];
#[no_mangle]
unsafe extern "C" fn sym_reg_get(i: u32) -> u64 {
    REGS[i as usize]
}
#[no_mangle]
unsafe extern "C" fn sym_reg_set(i: u32, v: u64) {
    REGS[i as usize] = v
}
#[no_mangle]
unsafe extern "C" fn sym_exit(code: i32) -> ! {
    libc::_exit(code)
}
#[no_mangle]
unsafe extern "C" fn sym_end() -> ! {
    libc::_exit(0)
}

static mut OUT: Vec<u8> = Vec::new();
static mut ERR: Vec<u8> = Vec::new();

fn memfd() -> i32 {
    let n = CString::new("out").unwrap();
    unsafe { libc::syscall(libc::SYS_memfd_create, n.as_ptr(), 0) as i32 }
}
fn slurp(fd: i32) -> Vec<u8> {
    let mut v = vec![];
    let mut b = [0u8; 4096];
    unsafe {
        libc::lseek(fd, 0, 0);
        loop {
            let k = libc::syscall(libc::SYS_read, fd, b.as_mut_ptr(), b.len());
            if k <= 0 {
                break;
            }
            v.extend_from_slice(&b[..k as usize]);
        }
        libc::syscall(libc::SYS_close, fd);
    }
    v
}

extern "C" {
    fn sqlite3_shutdown() -> i32;
}

#[no_mangle]
unsafe extern "C" fn sym_run(f: extern "C" fn(*mut u8) -> i32, data: *mut u8, reset: u32) -> i32 {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let (o, e) = (memfd(), memfd());
    let pid = libc::fork();
    assert!(pid >= 0);
    if pid == 0 {
        libc::dup2(o, 1);
        libc::dup2(e, 2);
        if reset != 0 {
            sqlite3_shutdown();
        }
        let r = std::panic::catch_unwind(|| f(data));
        // (f has written its output)
        if r.is_err() {
            let _ = std::io::stdout().flush();
        }
        libc::_exit(match r {
            Ok(c) => c,
            Err(_) => 101,
        });
    }
    let mut st = 0;
    libc::waitpid(pid, &mut st, 0);
    OUT = slurp(o);
    ERR = slurp(e);
    #[allow(static_mut_refs)]
    if VERBOSE {
        eprintln!("--- child status {:x}\n{}{}---", st, String::from_utf8_lossy(&OUT), String::from_utf8_lossy(&ERR));
    }
    if sh().failed != 0 {
        #[allow(static_mut_refs)]
        {
            print!("{}", String::from_utf8_lossy(&OUT));
        }
        let _ = std::io::stdout().flush();
        libc::_exit(1);
    }
    if libc::WIFEXITED(st) {
        libc::WEXITSTATUS(st)
    } else {
        134
    }
}

pub fn set_args(argc: usize, argv: *const *const u8) {
    unsafe {
        assert!(argc < ARGC as usize);
        for i in 0..argc {
            *ARGV.add(i) = *argv.add(i);
        }
        *ARGV.add(argc) = std::ptr::null();
    }
}

pub mod imp {
    use super::*;
    pub fn ctl() -> &'static mut Ctl {
        &mut super::sh().ctl
    }
    pub fn run(f: extern "C" fn(*mut u8) -> i32, data: *mut u8) -> Outcome {
        let code = crate::sym::run(f, data, true);
        #[allow(static_mut_refs)]
        unsafe {
            Outcome { code, out: std::mem::take(&mut OUT), err: std::mem::take(&mut ERR) }
        }
    }
    pub(crate) fn run_here(f: extern "C" fn(*mut u8) -> i32, data: *mut u8) -> Outcome {
        run(f, data)
    }
    pub(crate) fn run_both(a: *mut u8, b: *mut u8) -> (Outcome, Option<Outcome>) {
        unsafe {
            // the other program: a process that waits for its turn
            let mut go = [0i32; 2];
            let mut end = [0i32; 2];
            assert!(libc::pipe(go.as_mut_ptr()) == 0 && libc::pipe(end.as_mut_ptr()) == 0);
            let (o, e) = (memfd(), memfd());
            let helper = libc::fork();
            assert!(helper >= 0);
            if helper == 0 {
                let mut c = [0u8; 1];
                if libc::syscall(libc::SYS_read, go[0], c.as_mut_ptr(), 1) != 1 {
                    libc::_exit(0);
                }
                let pid = libc::fork();
                if pid == 0 {
                    libc::dup2(o, 1);
                    libc::dup2(e, 2);
                    sqlite3_shutdown();
                    let r = std::panic::catch_unwind(|| child(b));
                    libc::_exit(r.unwrap_or(101));
                }
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
                let code: i32 = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 134 };
                sh().other = code;
                libc::syscall(libc::SYS_write, end[1], c.as_ptr(), 1);
                libc::_exit(0);
            }
            sh().other = -1;
            PIPES = [go[1], end[0]];
            let x = run(child, a);
            PIPES = [-1, -1];
            libc::kill(helper, libc::SIGKILL);
            let mut st = 0;
            libc::waitpid(helper, &mut st, 0);
            for f in [go[0], go[1], end[0], end[1]].iter() {
                libc::syscall(libc::SYS_close, *f);
            }
            let (out, err) = (slurp(o), slurp(e));
            if VERBOSE {
                eprintln!("--- other {}\n{}{}---", sh().other, String::from_utf8_lossy(&out), String::from_utf8_lossy(&err));
            }
            let y = if sh().other >= 0 { Some(Outcome { code: sh().other, out, err }) } else { None };
            (x, y)
        }
    }
    pub fn init() {}
    pub fn power_off() {
        #[allow(static_mut_refs)]
        unsafe {
            if let Some(p) = POWER.as_mut() {
                sh().ctl.on = false;
                for (path, data) in p.lost() {
                    let path = String::from_utf8_lossy(&path).to_string();
                    if exists(&path) {
                        std::fs::write(&path, &data).expect("what is left of a file");
                    }
                }
                POWER = None;
            }
        }
    }
}
static mut POWER: Option<Power> = None;
unsafe fn unsynced(fd: i32, op: &dyn Fn(&str) -> Op) {
    if !active() || !sh().ctl.power || fd < 3 {
        return;
    }
    #[allow(static_mut_refs)]
    if let Some(Some(p)) = PATHS.get(fd as usize) {
        let p = p.clone();
        if !p.starts_with(sh().ctl.scope) {
            return;
        }
        let now = || {
            sh().ctl.on = false;
            let d = std::fs::read(&p).unwrap_or_default();
            sh().ctl.on = true;
            d
        };
        POWER.get_or_insert_with(Power::default).op(p.as_bytes(), &now, op(&p));
    }
}
unsafe fn synced(p: &str) {
    #[allow(static_mut_refs)]
    if let Some(w) = POWER.as_mut() {
        w.synced(p.as_bytes());
    }
}
static mut PIPES: [i32; 2] = [-1, -1];
unsafe fn run_other() {
    sh().ctl.on = false;
    let mut c = [1u8; 1];
    libc::syscall(libc::SYS_write, PIPES[0], c.as_ptr(), 1);
    libc::syscall(libc::SYS_read, PIPES[1], c.as_mut_ptr(), 1);
    sh().ctl.on = true;
}
unsafe fn turn(class: u32, p: &str) {
    if sh().ctl.turn(class, p) {
        run_other();
    }
}
unsafe fn turn_fd(class: u32, fd: i32) {
    if !active() || sh().ctl.switch == 0 || fd < 3 {
        return;
    }
    #[allow(static_mut_refs)]
    if let Some(Some(p)) = PATHS.get(fd as usize) {
        let p = p.clone();
        turn(class, &p);
    }
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: replay ENTRY INPUTS SCRATCH");
        std::process::exit(2);
    }
    let f = match crate::registry::TABLE.iter().find(|x| x.0 == a[1]) {
        Some(x) => x.1,
        None => {
            eprintln!("no entry {}", a[1]);
            std::process::exit(2);
        }
    };
    let text = std::fs::read_to_string(&a[2]).expect("inputs");
    let mut m = HashMap::new();
    for l in text.lines() {
        let p: Vec<&str> = l.split('\t').collect();
        if p.len() < 3 {
            continue;
        }
        let v: Vec<u8> = (0..p[2].len() / 2).map(|i| u8::from_str_radix(&p[2][2 * i..2 * i + 2], 16).unwrap()).collect();
        m.insert((p[0].to_string(), p[1].parse().unwrap()), v);
    }
    unsafe {
        INPUTS = Some(m);
        VERBOSE = std::env::var_os("REPLAY_V").is_some();
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        SHARED = p as *mut Shared;
        (*SHARED).ctl = Ctl::default();
        // a root directory of our own
        let (uid, gid) = (libc::getuid(), libc::getgid());
        if libc::unshare(libc::CLONE_NEWUSER) != 0 {
            eprintln!("replay: no user namespace");
            libc::_exit(2);
        }
        let put = |p: &str, s: String| std::fs::write(p, s);
        let _ = put("/proc/self/setgroups", "deny".into());
        put("/proc/self/uid_map", format!("{} {} 1", uid, uid)).expect("uid map");
        put("/proc/self/gid_map", format!("{} {} 1", gid, gid)).expect("gid map");
        let root = CString::new(a[3].clone()).unwrap();
        if libc::chroot(root.as_ptr()) != 0 {
            eprintln!("replay: chroot failed");
            libc::_exit(2);
        }
        libc::chdir(b"/\0".as_ptr() as *const _);
        for d in &["/w", "/h", "/tmp"] {
            std::fs::create_dir(d).expect("fresh scratch directory");
        }
        std::env::set_current_dir("/w").unwrap();
        for (k, _) in std::env::vars_os() {
            std::env::remove_var(k);
        }
        std::env::set_var("HOME", "/h");
        libc::umask(0o022);
    }
    f();
    println!("REPLAY-OK");
}

// ---- the calls the model can disturb ----

const NFD: usize = 256;
static mut PATHS: [Option<String>; NFD] = [const { None }; NFD];

unsafe fn absolute(dirfd: i32, p: *const u8) -> String {
    let s = std::ffi::CStr::from_ptr(p as *const _).to_string_lossy().to_string();
    let base = if s.starts_with('/') {
        String::new()
    } else if dirfd == libc::AT_FDCWD {
        let mut b = [0u8; 4096];
        libc::getcwd(b.as_mut_ptr() as *mut _, b.len());
        std::ffi::CStr::from_ptr(b.as_ptr() as *const _).to_string_lossy().to_string()
    } else {
        #[allow(static_mut_refs)]
        PATHS.get(dirfd as usize).and_then(|x| x.clone()).unwrap_or_default()
    };
    let mut out: Vec<&str> = vec![];
    let full = format!("{}/{}", base, s);
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            x => out.push(x),
        }
    }
    format!("/{}", out.join("/"))
}
fn active() -> bool {
    unsafe { !SHARED.is_null() && sh().ctl.on }
}
fn gate_path(class: u32, p: &str) -> i32 {
    let c = &mut sh().ctl;
    if p.starts_with(c.scope) {
        c.gate(class, p.as_bytes())
    } else {
        0
    }
}
unsafe fn gate_fd(class: u32, fd: i32) -> i32 {
    if !active() || fd < 3 {
        return 0;
    }
    #[allow(static_mut_refs)]
    match PATHS.get(fd as usize) {
        Some(Some(p)) => {
            let p = p.clone();
            gate_path(class, &p)
        }
        _ => 0,
    }
}
unsafe fn exists(p: &str) -> bool {
    let c = CString::new(p).unwrap();
    libc::syscall(libc::SYS_access, c.as_ptr(), 0) == 0
}
unsafe fn errno(e: i32) -> i32 {
    *libc::__errno_location() = e;
    -1
}
fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => p[..i].into(),
    }
}

unsafe fn do_open(d: i32, p: *const u8, flags: i32, mode: u32) -> i32 {
    if SHARED.is_null() {
        return libc::syscall(libc::SYS_openat, d, p, flags, mode) as i32;
    }
    let path = absolute(d, p);
    if active() {
        turn(F_OPEN, &path);
        let g = if exists(&path) {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                0
            } else {
                gate_path(if flags & 3 == 0 { F_OPEN } else { F_OPENW }, &path)
            }
        } else if flags & libc::O_CREAT != 0 && exists(&parent(&path)) {
            gate_path(F_CREATE, &parent(&path))
        } else {
            0
        };
        if g != 0 {
            return errno(g);
        }
    }
    let fd = libc::syscall(libc::SYS_openat, d, p, flags, mode) as i32;
    if fd >= 0 && (fd as usize) < NFD {
        PATHS[fd as usize] = Some(path);
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: i32, p: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(d, p, flags, mode)
}
unsafe fn rd(fd: i32, dst: *mut u8, n: usize, off: Option<i64>) -> isize {
    turn_fd(F_READ, fd);
    let g = gate_fd(F_READ, fd);
    if g != 0 {
        return errno(g) as isize;
    }
    let mut k = n;
    if active() && sh().ctl.short_reads > 0 && fd > 2 {
        #[allow(static_mut_refs)]
        let p = PATHS.get(fd as usize).and_then(|x| x.clone()).unwrap_or_default();
        if p.starts_with(sh().ctl.scope) {
            let mut st: libc::stat = std::mem::zeroed();
            libc::fstat(fd, &mut st);
            let at = match off {
                Some(o) => o,
                None => libc::lseek(fd, 0, 1),
            };
            let avail = (st.st_size - at).max(0) as usize;
            k = n.min(avail);
            if k > 1 {
                k = sh().ctl.short(k);
            }
        }
    }
    match off {
        Some(o) => libc::syscall(libc::SYS_pread64, fd, dst, k, o) as isize,
        None => libc::syscall(libc::SYS_read, fd, dst, k) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, dst: *mut u8, n: usize) -> isize {
    rd(fd, dst, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, dst: *mut u8, n: usize, off: i64) -> isize {
    rd(fd, dst, n, Some(off))
}
unsafe fn short_write(fd: i32, n: usize) -> Result<usize, i32> {
    if !active() || fd == 0 || fd == 2 || sh().ctl.short_writes == 0 {
        return Ok(n);
    }
    #[allow(static_mut_refs)]
    let p = if fd == 1 { "/out".to_string() } else { PATHS.get(fd as usize).and_then(|x| x.clone()).unwrap_or_default() };
    sh().ctl.short_write(&p, n)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, src: *const u8, n: usize) -> isize {
    turn_fd(F_WRITE, fd);
    let n = match short_write(fd, n) {
        Ok(n) => n,
        Err(e) => return errno(e) as isize,
    };
    let g = if fd == 1 && active() { gate_path(F_OUT, "/out") } else { gate_fd(F_WRITE, fd) };
    if g != 0 {
        return errno(g) as isize;
    }
    unsynced(fd, &|_| {
        let fl = libc::syscall(libc::SYS_fcntl, fd, libc::F_GETFL, 0) as i32;
        let at = libc::lseek(fd, 0, if fl & libc::O_APPEND != 0 { 2 } else { 1 });
        Op::Write(at as usize, std::slice::from_raw_parts(src, n).to_vec())
    });
    libc::syscall(libc::SYS_write, fd, src, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, src: *const u8, n: usize, off: i64) -> isize {
    turn_fd(F_WRITE, fd);
    let n = match short_write(fd, n) {
        Ok(n) => n,
        Err(e) => return errno(e) as isize,
    };
    let g = gate_fd(F_WRITE, fd);
    if g != 0 {
        return errno(g) as isize;
    }
    unsynced(fd, &|_| Op::Write(off as usize, std::slice::from_raw_parts(src, n).to_vec()));
    libc::syscall(libc::SYS_pwrite64, fd, src, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    turn_fd(F_TRUNC, fd);
    let g = gate_fd(F_TRUNC, fd);
    if g != 0 {
        return errno(g);
    }
    unsynced(fd, &|_| Op::Size(n as usize));
    libc::syscall(libc::SYS_ftruncate, fd, n) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, n: i64) -> i32 {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    turn_fd(F_SYNC, fd);
    let g = gate_fd(F_SYNC, fd);
    if g != 0 {
        return errno(g);
    }
    if active() && fd >= 3 {
        #[allow(static_mut_refs)]
        if let Some(Some(p)) = PATHS.get(fd as usize) {
            let p = p.clone();
            synced(&p);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    fsync(fd)
}
unsafe fn do_fcntl(fd: i32, cmd: i32, a: usize) -> i32 {
    if cmd == 6 && *(a as *const i16) != 2 {
        turn_fd(F_LOCK, fd);
    }
    if active() && sh().ctl.other != 0 && (5..8).contains(&cmd) && fd >= 3 {
        #[allow(static_mut_refs)]
        if let Some(Some(p)) = PATHS.get(fd as usize) {
            let kind = *(a as *mut i16);
            if kind != 2 && p.ends_with(".db") && p.starts_with(sh().ctl.scope) {
                let (from, len) = (*((a + 8) as *mut i64), *((a + 16) as *mut i64));
                if sh().ctl.locked(kind, from, len) {
                    if cmd == 5 {
                        *(a as *mut i16) = 1;
                        return 0;
                    }
                    return errno(11);
                }
            }
        }
    }
    libc::syscall(libc::SYS_fcntl, fd, cmd, a) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, a: usize) -> i32 {
    do_fcntl(fd, cmd, a)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, a: usize) -> i32 {
    do_fcntl(fd, cmd, a)
}
unsafe fn doze() -> i32 {
    if !SHARED.is_null() {
        sh().ctl.wait();
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sleep(_s: u32) -> u32 {
    doze() as u32
}
#[no_mangle]
pub unsafe extern "C" fn usleep(_s: u32) -> i32 {
    doze()
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(_a: *const u8, _b: *mut u8) -> i32 {
    doze()
}
unsafe fn rm(d: i32, p: *const u8, flags: i32) -> i32 {
    if active() {
        let path = absolute(d, p);
        if exists(&path) {
            // only a removal that would go ahead is disturbed
            let isdir = std::fs::symlink_metadata(&path).map(|m| m.is_dir()).unwrap_or(false);
            let want = flags & libc::AT_REMOVEDIR != 0;
            let empty = !isdir || std::fs::read_dir(&path).map(|mut r| r.next().is_none()).unwrap_or(true);
            if isdir == want && empty {
                let g = gate_path(F_UNLINK, &path);
                if g != 0 {
                    return errno(g);
                }
                synced(&path);
            }
        }
    }
    libc::syscall(libc::SYS_unlinkat, d, p, flags) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const u8) -> i32 {
    rm(libc::AT_FDCWD, p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const u8) -> i32 {
    rm(libc::AT_FDCWD, p, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: i32, p: *const u8, flags: i32) -> i32 {
    rm(d, p, flags)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const u8, mode: u32) -> i32 {
    if active() {
        let path = absolute(libc::AT_FDCWD, p);
        if !exists(&path) && exists(&parent(&path)) {
            let g = gate_path(F_MKDIR, &parent(&path));
            if g != 0 {
                return errno(g);
            }
        }
    }
    libc::syscall(libc::SYS_mkdir, p, mode) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
    if active() {
        let path = absolute(libc::AT_FDCWD, a);
        if exists(&path) {
            let g = gate_path(F_RENAME, &path);
            if g != 0 {
                return errno(g);
            }
        }
    }
    libc::syscall(libc::SYS_rename, a, b) as i32
}

// directory listings: sorted, or in the order the counterexample chose
struct Listing {
    d: usize,
    items: Vec<Vec<u8>>,
    cur: [u8; 512],
}
static mut LISTINGS: Vec<Listing> = Vec::new();

unsafe fn list(fd: i32) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    let mut b = vec![0u8; 32768];
    loop {
        let k = libc::syscall(libc::SYS_getdents64, fd, b.as_mut_ptr(), b.len());
        if k <= 0 {
            break;
        }
        let mut at = 0usize;
        while at < k as usize {
            let l = u16::from_le_bytes([b[at + 16], b[at + 17]]) as usize;
            let mut e = b[at..at + l].to_vec();
            let end = 19 + e[19..].iter().position(|c| *c == 0).unwrap();
            e.truncate(end);
            at += l;
            if &e[19..] != b"." && &e[19..] != b".." {
                v.push(e);
            }
        }
    }
    v.sort_by(|a, b| a[19..].cmp(&b[19..]));
    v
}

#[no_mangle]
pub unsafe extern "C" fn statx(d: i32, p: *const u8, flags: i32, mask: u32, b: *mut u8) -> i32 {
    let r = libc::syscall(libc::SYS_statx, d, p, flags, mask, b) as i32;
    if r == 0 && active() && !p.is_null() {
        let g = if *p == 0 { gate_fd(F_STAT, d) } else { gate_path(F_STAT, &absolute(d, p)) };
        if g != 0 {
            return errno(g);
        }
    }
    if r == 0 && !SHARED.is_null() && (b.add(28) as *const u16).read_unaligned() & 0o170000 == 0o040000 {
        (b.add(40) as *mut u64).write_unaligned(sh().ctl.dir_size);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut u8) -> *mut u8 {
    #[allow(static_mut_refs)]
    let ls = &mut LISTINGS;
    let fd = libc::dirfd(d as *mut _);
    turn_fd(F_READDIR, fd);
    let g = gate_fd(F_READDIR, fd);
    if g != 0 {
        errno(g);
        return std::ptr::null_mut();
    }
    let i = match ls.iter().position(|l| l.d == d as usize) {
        Some(i) => i,
        None => {
            let items = list(fd);
            ls.push(Listing { d: d as usize, items, cur: [0; 512] });
            ls.len() - 1
        }
    };
    let l = &mut ls[i];
    if l.items.is_empty() {
        return std::ptr::null_mut();
    }
    let mut path = dir_path(fd);
    let shuffle = active() && sh().ctl.shuffle && path.starts_with(sh().ctl.scope);
    path.clear();
    let k = if shuffle && l.items.len() > 1 { crate::sym::choice("order", l.items.len() as u32) as usize } else { 0 };
    let e = l.items.remove(k);
    l.cur = [0; 512];
    l.cur[..e.len()].copy_from_slice(&e);
    l.cur.as_mut_ptr()
}
unsafe fn dir_path(fd: i32) -> String {
    #[allow(static_mut_refs)]
    PATHS.get(fd as usize).and_then(|x| x.clone()).unwrap_or_default()
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut u8) -> i32 {
    #[allow(static_mut_refs)]
    LISTINGS.retain(|l| l.d != d as usize);
    let fd = libc::dirfd(d as *mut _);
    let r = libc::syscall(libc::SYS_close, fd) as i32;
    // the DIR itself is left to the end of the process
    r
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const u8) -> *mut u8 {
    let fd = do_open(libc::AT_FDCWD, p, libc::O_DIRECTORY | libc::O_CLOEXEC, 0);
    if fd < 0 {
        return std::ptr::null_mut();
    }
    libc::fdopendir(fd) as *mut u8
}
