#![allow(suspicious_runtime_symbol_definitions, invalid_runtime_symbol_definitions)]
//! The operating system as the code under test sees it: an in-memory file
//! system, processes, a clock.  Every libc call std and SQLite make lands here.
//! Contents may be symbolic; names, sizes and offsets are concrete.
//!
//! Nondeterminism offered to the harnesses (all off by default):
//!   * directory listing order  (`shuffle`)
//!   * short and interrupted reads (`short_reads`, `eintr`) and writes (`short_writes`)
//!   * failing calls (`fault_mask`, `fault_budget`)
//!   * death of the process before a modifying call (`crash_budget`)
#![allow(clippy::missing_safety_doc, non_camel_case_types)]

use crate::sym;
use crate::world::*;

pub const K_FILE: u8 = 0;
pub const K_DIR: u8 = 1;
pub const K_LINK: u8 = 2;

pub struct Inode {
    pub kind: u8,
    pub data: Vec<u8>,
    pub kids: Vec<(Vec<u8>, usize)>,
    pub parent: usize,
    pub sec: i64,
    pub nsec: i64,
    pub nlink: u32,
    pub path: Vec<u8>,
}

pub struct Fd {
    ino: usize,
    off: usize,
    append: bool,
    /// may be read, may be written
    can: (bool, bool),
    std: u8,
    list: Vec<(Vec<u8>, usize)>,
    cur: [u8; 280],
}

pub struct World {
    pub ino: Vec<Inode>,
    pub fds: Vec<Option<Box<Fd>>>,
    pub cwd: usize,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub env: Vec<(Vec<u8>, Vec<u8>)>,
    pub errno: i32,
    pub sec: i64,
    pub nsec: i64,
    pub ctl: Ctl,
    pub power: Power,
    /// two processes: locks and shared memory matter
    pub multi: bool,
    pub pid: u32,
    pub locks: Vec<Lock>,
    pub maps: Vec<(usize, i64, usize, *mut u8)>,
    pub other: Option<Outcome>,
}

pub struct Lock {
    ino: usize,
    pid: u32,
    kind: i16,
    from: i64,
    to: i64,
}

#[inline]
pub fn w() -> &'static mut World {
    let p = sym::reg_get(0);
    if p == 0 {
        let mut b = Box::new(World {
            ino: vec![],
            fds: vec![],
            cwd: 0,
            out: vec![],
            err: vec![],
            env: vec![],
            errno: 0,
            sec: 1_600_000_000,
            nsec: 0,
            ctl: Ctl::default(),
            power: Power::default(),
            multi: false,
            pid: 0,
            locks: vec![],
            maps: vec![],
            other: None,
        });
        b.ino.push(Inode { kind: K_DIR, data: vec![], kids: vec![], parent: 0, sec: b.sec, nsec: 0, nlink: 1, path: b"/".to_vec() });
        b.open_std();
        b.mkpath(b"/w");
        b.mkpath(b"/h");
        b.mkpath(b"/tmp");
        b.env.push((b"HOME".to_vec(), b"/h\0".to_vec()));
        let (_, c, _) = b.walk(b"/w", true).unwrap();
        b.cwd = c.unwrap();
        let r = Box::into_raw(b);
        sym::reg_set(0, r as u64);
        return unsafe { &mut *r };
    }
    unsafe { &mut *(p as *mut World) }
}

pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EAGAIN: i32 = 11;
pub const EBADF: i32 = 9;
pub const EEXIST: i32 = 17;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENOTTY: i32 = 25;
pub const ENOSPC: i32 = 28;
pub const ENOTEMPTY: i32 = 39;
pub const ELOOP: i32 = 40;
pub const ENOSYS: i32 = 38;

/// what was not synced is lost, or not
pub fn power_off() {
    for (p, data) in w().power.lost() {
        let x = w();
        if let Ok(i) = x.look(&p, false) {
            x.ino[i].data = data;
        }
    }
}

impl World {
    fn open_std(&mut self) {
        self.fds.clear();
        for k in 0..3 {
            self.fds.push(Some(Box::new(Fd { ino: 0, off: 0, append: false, can: (true, true), std: k + 1, list: vec![], cur: [0; 280] })));
        }
    }
    /// a fresh process: standard streams only
    pub fn start_process(&mut self) {
        self.open_std();
        self.out = vec![];
        self.err = vec![];
        self.errno = 0;
        self.power = Power::default();
    }
    /// a change that is in memory only
    fn unsynced(&mut self, i: usize, op: impl FnOnce() -> Op) {
        if !self.ctl.on || !self.ctl.power || !self.in_scope(i) {
            return;
        }
        let f = &self.ino[i];
        self.power.op(&f.path, &|| f.data.clone(), op());
    }
    /// sets or, kind 2, releases a lock of this process; the kind of the lock that is in the way
    fn lock(&mut self, ino: usize, kind: i16, from: i64, len: i64, set: bool) -> Option<i16> {
        let (pid, to) = (self.pid, if len == 0 { i64::MAX } else { from + len });
        if kind != 2 {
            if let Some(l) = self.locks.iter().find(|l| l.ino == ino && l.pid != pid && l.from < to && from < l.to && (l.kind == 1 || kind == 1)) {
                return Some(l.kind);
            }
        }
        if set {
            let mut rest = vec![];
            for l in std::mem::take(&mut self.locks) {
                if l.ino != ino || l.pid != pid || l.to <= from || to <= l.from {
                    rest.push(l);
                    continue;
                }
                if l.from < from {
                    rest.push(Lock { to: from, ..l });
                }
                if to < l.to {
                    rest.push(Lock { from: to, ..l });
                }
            }
            if kind != 2 {
                rest.push(Lock { ino, pid, kind, from, to });
            }
            self.locks = rest;
        }
        None
    }
    fn mkpath(&mut self, p: &[u8]) {
        let (d, e, n) = self.walk(p, true).unwrap();
        if e.is_none() {
            self.add(d, n, K_DIR);
        }
    }
    fn add(&mut self, dir: usize, name: Vec<u8>, kind: u8) -> usize {
        let i = self.ino.len();
        let mut path = self.ino[dir].path.clone();
        if path.len() > 1 {
            path.push(b'/');
        }
        path.extend_from_slice(&name);
        self.ino.push(Inode { kind, data: vec![], kids: vec![], parent: dir, sec: self.sec, nsec: self.nsec, nlink: 1, path });
        self.ino[dir].kids.push((name, i));
        self.touch(dir);
        i
    }
    fn touch(&mut self, i: usize) {
        self.ino[i].sec = self.sec;
        self.ino[i].nsec = self.nsec;
    }
    fn kid(&self, d: usize, n: &[u8]) -> Option<usize> {
        for (k, i) in &self.ino[d].kids {
            if k.len() == n.len() && sym::eq(k, n) {
                return Some(*i);
            }
        }
        None
    }
    /// (directory, entry if present, last name)
    pub fn walk(&self, p: &[u8], follow: bool) -> Result<(usize, Option<usize>, Vec<u8>), i32> {
        let at = if !p.is_empty() && p[0] == b'/' { 0 } else { self.cwd };
        self.walk_at(at, p, follow, 0)
    }
    fn walk_at(&self, at: usize, p: &[u8], follow: bool, depth: u32) -> Result<(usize, Option<usize>, Vec<u8>), i32> {
        if p.is_empty() {
            return Err(ENOENT);
        }
        if depth > 8 {
            return Err(ELOOP);
        }
        let mut cur = at;
        let parts: Vec<&[u8]> = p.split(|c| *c == b'/').filter(|x| !x.is_empty()).collect();
        if parts.is_empty() {
            return Ok((0, Some(0), vec![]));
        }
        let must_dir = p[p.len() - 1] == b'/';
        for (i, c) in parts.iter().enumerate() {
            let last = i + 1 == parts.len();
            if self.ino[cur].kind != K_DIR {
                return Err(ENOTDIR);
            }
            let next;
            if c.len() == 1 && c[0] == b'.' {
                next = Some(cur);
            } else if c.len() == 2 && c[0] == b'.' && c[1] == b'.' {
                next = Some(self.ino[cur].parent);
            } else {
                next = self.kid(cur, c);
            }
            let next = match next {
                None => {
                    return if last { Ok((cur, None, c.to_vec())) } else { Err(ENOENT) };
                }
                Some(n) => n,
            };
            if self.ino[next].kind == K_LINK && (!last || follow || must_dir) {
                let t = &self.ino[next].data;
                let base = if !t.is_empty() && t[0] == b'/' { 0 } else { cur };
                let (d, e, n) = self.walk_at(base, t, true, depth + 1)?;
                if last {
                    return Ok((d, e, n));
                }
                cur = e.ok_or(ENOENT)?;
            } else {
                if last {
                    if must_dir && self.ino[next].kind != K_DIR {
                        return Err(ENOTDIR);
                    }
                    return Ok((cur, Some(next), c.to_vec()));
                }
                cur = next;
            }
        }
        unreachable!()
    }
    fn look(&self, p: &[u8], follow: bool) -> Result<usize, i32> {
        self.walk(p, follow)?.1.ok_or(ENOENT)
    }
    fn in_scope(&self, i: usize) -> bool {
        let s = self.ctl.scope.as_bytes();
        self.ino[i].path.starts_with(s)
    }
    /// may this call fail or be the last one?
    fn gate(&mut self, class: u32, i: usize) -> i32 {
        if !self.ctl.on || !self.in_scope(i) {
            return 0;
        }
        let r = self.ctl.gate(class, &self.ino[i].path);
        if r != 0 {
            sym::note(&format!("call {} of class {} on {} fails", self.ctl.calls, class, String::from_utf8_lossy(&self.ino[i].path)));
        }
        r
    }
    fn new_fd(&mut self, ino: usize, append: bool, acc: i32) -> i32 {
        let f = Some(Box::new(Fd { ino, off: 0, append, can: (acc != 1, acc != 0), std: 0, list: vec![], cur: [0; 280] }));
        for i in 3..self.fds.len() {
            if self.fds[i].is_none() {
                self.fds[i] = f;
                return i as i32;
            }
        }
        self.fds.push(f);
        self.fds.len() as i32 - 1
    }
    fn fd(&mut self, fd: i32) -> Result<&mut Box<Fd>, i32> {
        match self.fds.get_mut(fd as usize) {
            Some(Some(f)) => Ok(f),
            _ => Err(EBADF),
        }
    }
    fn fd_for(&mut self, fd: i32, write: bool) -> Result<&mut Box<Fd>, i32> {
        let f = self.fd(fd)?;
        if if write { f.can.1 } else { f.can.0 } {
            Ok(f)
        } else {
            Err(EBADF)
        }
    }
    fn open(&mut self, at: usize, p: &[u8], flags: i32) -> Result<i32, i32> {
        let (creat, excl, trunc, append, dir, nofollow) =
            (flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0, flags & 0o200000 != 0, flags & 0o400000 != 0);
        let acc = flags & 3;
        let (d, e, n) = self.walk_at(at, p, !(excl || nofollow), 0)?;
        let i = match e {
            Some(i) => {
                if excl && creat {
                    return Err(EEXIST);
                }
                let k = self.ino[i].kind;
                if k == K_LINK {
                    return Err(if dir { ENOTDIR } else { ELOOP });
                }
                if k == K_DIR && (acc != 0 || creat) {
                    return Err(EISDIR);
                }
                if k != K_DIR && dir {
                    return Err(ENOTDIR);
                }
                let f = self.gate(if acc == 0 { F_OPEN } else { F_OPENW }, i);
                if f != 0 {
                    return Err(f);
                }
                if trunc && acc != 0 {
                    self.unsynced(i, || Op::Size(0));
                    self.ino[i].data = vec![];
                    self.touch(i);
                }
                i
            }
            None => {
                if !creat {
                    return Err(ENOENT);
                }
                let f = self.gate(F_CREATE, d);
                if f != 0 {
                    return Err(f);
                }
                self.add(d, n, K_FILE)
            }
        };
        Ok(self.new_fd(i, append, acc))
    }
    fn read_at(&mut self, i: usize, off: usize, dst: &mut [u8], fd_is_dir: bool) -> Result<usize, i32> {
        if fd_is_dir {
            return Err(EISDIR);
        }
        let f = self.gate(F_READ, i);
        if f != 0 {
            return Err(f);
        }
        let len = self.ino[i].data.len();
        if off >= len {
            return Ok(0);
        }
        let mut k = dst.len().min(len - off);
        if self.ctl.on && self.ctl.short_reads > 0 && k > 1 && self.in_scope(i) {
            k = self.ctl.short(k);
        }
        dst[..k].copy_from_slice(&self.ino[i].data[off..off + k]);
        Ok(k)
    }
    fn write_at(&mut self, i: usize, off: usize, src: &[u8]) -> Result<usize, i32> {
        let f = self.gate(F_WRITE, i);
        if f != 0 {
            return Err(f);
        }
        self.unsynced(i, || Op::Write(off, src.to_vec()));
        let d = &mut self.ino[i].data;
        if d.len() < off + src.len() {
            d.resize(off + src.len(), 0);
        }
        d[off..off + src.len()].copy_from_slice(src);
        self.touch(i);
        Ok(src.len())
    }
    fn unlink(&mut self, at: usize, p: &[u8], dir: bool) -> Result<(), i32> {
        let (d, e, _) = self.walk_at(at, p, false, 0)?;
        let i = e.ok_or(ENOENT)?;
        if dir {
            if self.ino[i].kind != K_DIR {
                return Err(ENOTDIR);
            }
            if !self.ino[i].kids.is_empty() {
                return Err(ENOTEMPTY);
            }
        } else if self.ino[i].kind == K_DIR {
            return Err(EISDIR);
        }
        let f = self.gate(F_UNLINK, i);
        if f != 0 {
            return Err(f);
        }
        self.ino[d].kids.retain(|x| x.1 != i);
        self.ino[i].nlink = 0;
        if self.ctl.power {
            let p = self.ino[i].path.clone();
            self.power.synced(&p);
        }
        self.touch(d);
        Ok(())
    }
    fn mkdir(&mut self, p: &[u8]) -> Result<(), i32> {
        let (d, e, n) = self.walk(p, false)?;
        if e.is_some() {
            return Err(EEXIST);
        }
        let f = self.gate(F_MKDIR, d);
        if f != 0 {
            return Err(f);
        }
        self.add(d, n, K_DIR);
        Ok(())
    }
    /// what is in a directory that is renamed has another path as well
    fn moved(&mut self, i: usize, path: Vec<u8>) {
        if self.ino[i].kind == K_DIR {
            for (name, k) in self.ino[i].kids.clone() {
                let mut p = path.clone();
                p.push(b'/');
                p.extend_from_slice(&name);
                self.moved(k, p);
            }
        }
        self.ino[i].path = path;
    }
    fn stat(&self, i: usize) -> St {
        let n = &self.ino[i];
        St {
            ino: i as u64 + 100,
            mode: match n.kind {
                K_FILE => 0o100644,
                K_DIR => 0o040755,
                _ => 0o120777,
            },
            size: if n.kind == K_DIR { self.ctl.dir_size } else { n.data.len() as u64 },
            sec: n.sec,
            nsec: n.nsec,
            nlink: n.nlink,
        }
    }
}

pub struct St {
    ino: u64,
    mode: u32,
    size: u64,
    sec: i64,
    nsec: i64,
    nlink: u32,
}

unsafe fn cstr<'a>(p: *const u8) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p, n)
}
fn ret<T: Into<i64>>(r: Result<T, i32>) -> i64 {
    match r {
        Ok(v) => v.into(),
        Err(e) => {
            w().errno = e;
            -1
        }
    }
}
fn ret32<T: Into<i64>>(r: Result<T, i32>) -> i32 {
    ret(r) as i32
}
fn at(dirfd: i32, p: &[u8]) -> Result<usize, i32> {
    if !p.is_empty() && p[0] == b'/' {
        Ok(0)
    } else if dirfd == -100 {
        Ok(w().cwd)
    } else {
        Ok(w().fd(dirfd)?.ino)
    }
}

/// the other program may run before this call
#[inline(never)]
unsafe fn turn_fd(class: u32, fd: i32) {
    let x = w();
    if !x.ctl.on || x.ctl.switch == 0 {
        return;
    }
    let path = match x.fd(fd) {
        Ok(f) if f.std == 0 => f.ino,
        _ => return,
    };
    let path = String::from_utf8_lossy(&x.ino[path].path).to_string();
    if x.ctl.turn(class, &path) {
        run_other();
    }
}
#[inline(never)]
unsafe fn turn_path(class: u32, d: i32, p: P) {
    let x = w();
    if !x.ctl.on || x.ctl.switch == 0 {
        return;
    }
    let s = String::from_utf8_lossy(cstr(p)).to_string();
    let base = if s.starts_with('/') {
        String::new()
    } else {
        match at(d, s.as_bytes()) {
            Ok(i) => String::from_utf8_lossy(&x.ino[i].path).to_string(),
            Err(_) => return,
        }
    };
    if x.ctl.turn(class, &lexical(&format!("{}/{}", base, s))) {
        run_other();
    }
}
fn lexical(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            x => out.push(x),
        }
    }
    format!("/{}", out.join("/"))
}
unsafe fn run_other() {
    let x = w();
    let fds = std::mem::take(&mut x.fds);
    let out = std::mem::take(&mut x.out);
    let err = std::mem::take(&mut x.err);
    let (cwd, errno, pid) = (x.cwd, x.errno, x.pid);
    x.ctl.on = false;
    x.pid = 2;
    x.start_process();
    let code = sym::run(child, x.ctl.cmd as *mut u8, true);
    let x = w();
    x.other = Some(Outcome { code, out: std::mem::take(&mut x.out), err: std::mem::take(&mut x.err) });
    x.locks.retain(|l| l.pid != 2);
    x.fds = fds;
    x.out = out;
    x.err = err;
    x.cwd = cwd;
    x.errno = errno;
    x.pid = pid;
    x.ctl.on = true;
}

macro_rules! libc_fn {
    ($(fn $n:ident($($a:ident: $t:ty),*) $(-> $r:ty)? $b:block)*) => {
        $(#[no_mangle] pub unsafe extern "C" fn $n($($a: $t),*) $(-> $r)? $b)*
    };
}

type P = *const u8;
type M = *mut u8;

libc_fn! {
    fn __errno_location() -> *mut i32 { &mut w().errno }
    fn open64(p: P, flags: i32, _mode: u32) -> i32 {
        turn_path(F_OPEN, -100, p);
        let s = cstr(p);
        let a = at(-100, s).unwrap();
        ret32(w().open(a, s, flags))
    }
    fn open(p: P, flags: i32, _mode: u32) -> i32 {
        turn_path(F_OPEN, -100, p);
        let s = cstr(p);
        let a = at(-100, s).unwrap();
        ret32(w().open(a, s, flags))
    }
    fn openat64(d: i32, p: P, flags: i32, _mode: u32) -> i32 {
        turn_path(F_OPEN, d, p);
        let s = cstr(p);
        ret32(at(d, s).and_then(|a| w().open(a, s, flags)))
    }
    fn openat(d: i32, p: P, flags: i32, _mode: u32) -> i32 {
        turn_path(F_OPEN, d, p);
        let s = cstr(p);
        ret32(at(d, s).and_then(|a| w().open(a, s, flags)))
    }
    fn close(fd: i32) -> i32 {
        let x = w();
        if x.fd(fd).is_err() {
            x.errno = EBADF;
            return -1;
        }
        if x.multi {
            let i = x.fd(fd).unwrap().ino;
            let pid = x.pid;
            x.locks.retain(|l| l.ino != i || l.pid != pid);
        }
        x.fds[fd as usize] = None;
        0
    }
    fn read(fd: i32, dst: M, n: usize) -> isize {
        turn_fd(F_READ, fd);
        let x = w();
        ret((|| {
            let f = x.fd_for(fd, false)?;
            if f.std != 0 {
                return Ok(0i64);
            }
            let (i, off) = (f.ino, f.off);
            let dir = x.ino[i].kind == K_DIR;
            let b = std::slice::from_raw_parts_mut(dst, n);
            let k = x.read_at(i, off, b, dir)?;
            x.fd(fd)?.off = off + k;
            Ok(k as i64)
        })()) as isize
    }
    fn pread64(fd: i32, dst: M, n: usize, off: i64) -> isize {
        turn_fd(F_READ, fd);
        let x = w();
        ret((|| {
            let i = x.fd_for(fd, false)?.ino;
            let dir = x.ino[i].kind == K_DIR;
            let b = std::slice::from_raw_parts_mut(dst, n);
            Ok(x.read_at(i, off as usize, b, dir)? as i64)
        })()) as isize
    }
    fn pread(fd: i32, dst: M, n: usize, off: i64) -> isize { pread64(fd, dst, n, off) }
    fn write(fd: i32, src: P, n: usize) -> isize {
        turn_fd(F_WRITE, fd);
        let x = w();
        ret((|| {
            let (std, ino) = x.fd_for(fd, true).map(|f| (f.std, f.ino))?;
            let mut b = std::slice::from_raw_parts(src, n);
            if x.ctl.short_writes > 0 && (std == 0 || std == 2) {
                let p = if std == 2 { b"/out".to_vec() } else { x.ino[ino].path.clone() };
                let k = x.ctl.short_write(std::str::from_utf8(&p).unwrap_or(""), n)?;
                b = &b[..k];
            }
            let f = x.fd_for(fd, true)?;
            match f.std {
                0 => {}
                2 => {
                    if x.ctl.on && "/out".starts_with(x.ctl.scope) {
                        let f = x.ctl.gate(F_OUT, b"/out");
                        if f != 0 {
                            sym::note("writing the output fails");
                            return Err(f);
                        }
                    }
                    x.out.extend_from_slice(b);
                    return Ok(b.len() as i64);
                }
                _ => { x.err.extend_from_slice(b); return Ok(n as i64) }
            }
            let i = f.ino;
            let off = if f.append { x.ino[i].data.len() } else { f.off };
            let k = x.write_at(i, off, b)?;
            x.fd(fd)?.off = off + k;
            Ok(k as i64)
        })()) as isize
    }
    fn pwrite64(fd: i32, src: P, n: usize, off: i64) -> isize {
        turn_fd(F_WRITE, fd);
        let x = w();
        ret((|| {
            let i = x.fd_for(fd, true)?.ino;
            let mut n = n;
            if x.ctl.short_writes > 0 {
                let p = x.ino[i].path.clone();
                n = x.ctl.short_write(std::str::from_utf8(&p).unwrap_or(""), n)?;
            }
            let b = std::slice::from_raw_parts(src, n);
            Ok(x.write_at(i, off as usize, b)? as i64)
        })()) as isize
    }
    fn pwrite(fd: i32, src: P, n: usize, off: i64) -> isize { pwrite64(fd, src, n, off) }
    fn writev(fd: i32, v: *const (P, usize), n: i32) -> isize {
        let mut t = 0;
        for i in 0..n {
            let (p, l) = *v.add(i as usize);
            let r = write(fd, p, l);
            if r < 0 {
                return if t > 0 { t } else { r };
            }
            t += r;
            if (r as usize) < l {
                break;
            }
        }
        t
    }
    fn lseek64(fd: i32, off: i64, wh: i32) -> i64 {
        let x = w();
        ret((|| {
            let f = x.fd(fd)?;
            let (i, cur) = (f.ino, f.off as i64);
            let base = match wh {
                0 => 0,
                1 => cur,
                _ => x.ino[i].data.len() as i64,
            };
            if base + off < 0 {
                return Err(EINVAL);
            }
            x.fd(fd)?.off = (base + off) as usize;
            Ok(base + off)
        })())
    }
    fn lseek(fd: i32, off: i64, wh: i32) -> i64 { lseek64(fd, off, wh) }
    fn ftruncate64(fd: i32, n: i64) -> i32 {
        turn_fd(F_TRUNC, fd);
        let x = w();
        ret32((|| {
            let i = x.fd_for(fd, true).map_err(|e| if e == EBADF { EINVAL } else { e })?.ino;
            let f = x.gate(F_TRUNC, i);
            if f != 0 {
                return Err(f);
            }
            x.unsynced(i, || Op::Size(n as usize));
            x.ino[i].data.resize(n as usize, 0);
            x.maps.retain(|m| m.0 != i);
            x.touch(i);
            Ok(0)
        })())
    }
    fn ftruncate(fd: i32, n: i64) -> i32 { ftruncate64(fd, n) }
    fn fsync(fd: i32) -> i32 {
        turn_fd(F_SYNC, fd);
        let x = w();
        ret32((|| {
            let i = x.fd(fd)?.ino;
            let f = x.gate(F_SYNC, i);
            if f != 0 {
                return Err(f);
            }
            if x.ctl.power {
                let p = x.ino[i].path.clone();
                x.power.synced(&p);
            }
            Ok(0)
        })())
    }
    fn fdatasync(fd: i32) -> i32 { fsync(fd) }
    fn unlink(p: P) -> i32 {
        let s = cstr(p);
        ret32(at(-100, s).and_then(|a| w().unlink(a, s, false)).map(|_| 0))
    }
    fn rmdir(p: P) -> i32 {
        let s = cstr(p);
        ret32(at(-100, s).and_then(|a| w().unlink(a, s, true)).map(|_| 0))
    }
    fn unlinkat(d: i32, p: P, flags: i32) -> i32 {
        let s = cstr(p);
        ret32(at(d, s).and_then(|a| w().unlink(a, s, flags & 0x200 != 0)).map(|_| 0))
    }
    fn mkdir(p: P, _mode: u32) -> i32 { ret32(w().mkdir(cstr(p)).map(|_| 0)) }
    fn symlink(t: P, p: P) -> i32 {
        let x = w();
        ret32((|| {
            let (d, e, n) = x.walk(cstr(p), false)?;
            if e.is_some() {
                return Err(EEXIST);
            }
            let i = x.add(d, n, K_LINK);
            x.ino[i].data = cstr(t).to_vec();
            Ok(0)
        })())
    }
    fn rename(a: P, b: P) -> i32 {
        let x = w();
        ret32((|| {
            let (d, e, n) = x.walk(cstr(a), false)?;
            let i = e.ok_or(ENOENT)?;
            let (d2, e2, n2) = x.walk(cstr(b), false)?;
            let f = x.gate(F_RENAME, i);
            if f != 0 {
                return Err(f);
            }
            let _ = n;
            x.ino[d].kids.retain(|k| k.1 != i);
            if let Some(o) = e2 {
                x.ino[d2].kids.retain(|k| k.1 != o);
            }
            let mut path = x.ino[d2].path.clone();
            if path != b"/" {
                path.push(b'/');
            }
            path.extend_from_slice(&n2);
            x.ino[d2].kids.push((n2, i));
            x.ino[i].parent = d2;
            x.moved(i, path);
            Ok(0)
        })())
    }
    fn access(p: P, _m: i32) -> i32 { ret32(w().look(cstr(p), true).map(|_| 0)) }
    fn getcwd(dst: M, n: usize) -> M {
        let p = &w().ino[w().cwd].path;
        if p.len() + 1 > n {
            w().errno = 34;
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(p.as_ptr(), dst, p.len());
        *dst.add(p.len()) = 0;
        dst
    }
    fn chdir(p: P) -> i32 {
        ret32((|| {
            let i = w().look(cstr(p), true)?;
            if w().ino[i].kind != K_DIR {
                return Err(ENOTDIR);
            }
            w().cwd = i;
            Ok(0)
        })())
    }
    fn realpath(p: P, dst: M) -> M {
        match w().look(cstr(p), true) {
            Ok(i) => {
                let s = w().ino[i].path.clone();
                let d = if dst.is_null() { malloc(s.len() + 1) } else { dst };
                std::ptr::copy_nonoverlapping(s.as_ptr(), d, s.len());
                *d.add(s.len()) = 0;
                d
            }
            Err(e) => {
                w().errno = e;
                std::ptr::null_mut()
            }
        }
    }
    fn readlink(p: P, dst: M, n: usize) -> isize {
        ret((|| {
            let i = w().look(cstr(p), false)?;
            if w().ino[i].kind != K_LINK {
                return Err(EINVAL);
            }
            let d = &w().ino[i].data;
            let k = d.len().min(n);
            std::ptr::copy_nonoverlapping(d.as_ptr(), dst, k);
            Ok(k as i64)
        })()) as isize
    }
    fn stat64(p: P, b: M) -> i32 { ret32(w().look(cstr(p), true).map(|i| { put_stat(b, &w().stat(i)); 0 })) }
    fn stat(p: P, b: M) -> i32 { stat64(p, b) }
    fn lstat64(p: P, b: M) -> i32 { ret32(w().look(cstr(p), false).map(|i| { put_stat(b, &w().stat(i)); 0 })) }
    fn lstat(p: P, b: M) -> i32 { lstat64(p, b) }
    fn fstat64(fd: i32, b: M) -> i32 {
        let x = w();
        ret32((|| {
            let f = x.fd(fd)?;
            if f.std != 0 {
                put_stat(b, &St { ino: 1, mode: 0o010600, size: 0, sec: 0, nsec: 0, nlink: 1 });
                return Ok(0);
            }
            let i = f.ino;
            put_stat(b, &x.stat(i));
            Ok(0)
        })())
    }
    fn fstat(fd: i32, b: M) -> i32 { fstat64(fd, b) }
    fn fstatat64(d: i32, p: P, b: M, flags: i32) -> i32 {
        let s = cstr(p);
        ret32((|| {
            let a = at(d, s)?;
            let i = w().walk_at(a, s, flags & 0x100 == 0, 0)?.1.ok_or(ENOENT)?;
            put_stat(b, &w().stat(i));
            Ok(0)
        })())
    }
    fn statx(d: i32, p: P, flags: i32, _mask: u32, b: M) -> i32 {
        if p.is_null() || b.is_null() {
            w().errno = 14;
            return -1;
        }
        let s = cstr(p);
        ret32((|| {
            let i;
            if s.is_empty() {
                if flags & 0x1000 == 0 {
                    return Err(ENOENT);
                }
                let f = w().fd(d)?;
                if f.std != 0 {
                    put_statx(b, &St { ino: 1, mode: 0o010600, size: 0, sec: 0, nsec: 0, nlink: 1 });
                    return Ok(0);
                }
                i = f.ino;
            } else {
                let a = at(d, s)?;
                i = w().walk_at(a, s, flags & 0x100 == 0, 0)?.1.ok_or(ENOENT)?;
            }
            let f = w().gate(F_STAT, i);
            if f != 0 {
                return Err(f);
            }
            put_statx(b, &w().stat(i));
            Ok(0)
        })())
    }
    fn utimensat(d: i32, p: P, ts: *const [i64; 4], _flags: i32) -> i32 {
        let s = cstr(p);
        ret32((|| {
            let a = at(d, s)?;
            let i = w().walk_at(a, s, true, 0)?.1.ok_or(ENOENT)?;
            w().ino[i].sec = (*ts)[2];
            w().ino[i].nsec = (*ts)[3];
            Ok(0)
        })())
    }
    fn futimens(fd: i32, ts: *const [i64; 4]) -> i32 {
        ret32((|| {
            let i = w().fd(fd)?.ino;
            w().ino[i].sec = (*ts)[2];
            w().ino[i].nsec = (*ts)[3];
            Ok(0)
        })())
    }
    fn utimes(_p: P, _t: P) -> i32 { 0 }
    fn chmod(_p: P, _m: u32) -> i32 { 0 }
    fn fchmod(_fd: i32, _m: u32) -> i32 { 0 }
    fn fchown(_fd: i32, _u: u32, _g: u32) -> i32 { 0 }
    fn opendir(p: P) -> M {
        let s = cstr(p);
        let a = at(-100, s).unwrap();
        match w().open(a, s, 0o200000) {
            Ok(fd) => fdopendir(fd),
            Err(e) => {
                w().errno = e;
                std::ptr::null_mut()
            }
        }
    }
    fn fdopendir(fd: i32) -> M {
        let x = w();
        let i = match x.fd(fd) {
            Ok(f) => f.ino,
            Err(e) => {
                x.errno = e;
                return std::ptr::null_mut();
            }
        };
        let mut l = x.ino[i].kids.clone();
        l.sort_by(|a, b| a.0.cmp(&b.0));
        x.fd(fd).unwrap().list = l;
        (fd as usize + 0x1000) as M
    }
    fn dirfd(d: M) -> i32 { d as usize as i32 - 0x1000 }
    fn closedir(d: M) -> i32 { close(d as usize as i32 - 0x1000) }
    fn readdir64(d: M) -> M {
        turn_fd(F_READDIR, d as usize as i32 - 0x1000);
        let x = w();
        let fd = d as usize as i32 - 0x1000;
        let dir = match x.fd(fd) {
            Ok(f) => f.ino,
            Err(e) => {
                x.errno = e;
                return std::ptr::null_mut();
            }
        };
        let g = x.gate(F_READDIR, dir);
        if g != 0 {
            x.errno = g;
            return std::ptr::null_mut();
        }
        let shuffle = x.ctl.on && x.ctl.shuffle && x.in_scope(dir);
        let f = x.fd(fd).unwrap();
        if f.list.is_empty() {
            return std::ptr::null_mut();
        }
        let k = if shuffle && f.list.len() > 1 { sym::choice("order", f.list.len() as u32) as usize } else { 0 };
        let (n, i) = f.list.remove(k);
        f.cur = [0; 280];
        f.cur[..8].copy_from_slice(&(i as u64 + 100).to_le_bytes());
        f.cur[16] = 24;
        f.cur[17] = 1;
        let l = n.len().min(255);
        f.cur[19..19 + l].copy_from_slice(&n[..l]);
        let p = f.cur.as_mut_ptr();
        let ty = match x.ino[i].kind {
            K_FILE => 8,
            K_DIR => 4,
            _ => 10,
        };
        *p.add(18) = ty;
        p
    }
    fn readdir(d: M) -> M { readdir64(d) }
    fn fcntl64(fd: i32, cmd: i32, a: usize) -> i32 {
        if cmd == 6 && *(a as *const i16) != 2 {
            turn_fd(F_LOCK, fd);
        }
        match w().fd(fd) {
            Err(e) => { w().errno = e; -1 }
            Ok(f) => match cmd {
                3 => 2,
                5 | 6 | 7 => {
                    let i = f.ino;
                    let kind = *(a as *mut i16);
                    let (from, len) = (*((a + 8) as *mut i64), *((a + 16) as *mut i64));
                    if w().multi {
                        let met = w().lock(i, kind, from, len, cmd != 5);
                        if cmd == 5 {
                            *(a as *mut i16) = met.unwrap_or(2);
                        } else if met.is_some() {
                            w().errno = EAGAIN;
                            return -1;
                        }
                        return 0;
                    }
                    let hit = kind != 2 && w().ctl.on && w().ctl.other != 0 && w().ino[i].path.ends_with(b".db") && w().in_scope(i) && w().ctl.locked(kind, from, len);
                    if cmd == 5 {
                        // F_GETLK
                        *(a as *mut i16) = if hit { 1 } else { 2 };
                        0
                    } else if hit {
                        w().errno = EAGAIN;
                        -1
                    } else {
                        0
                    }
                }
                0 | 1030 => { w().errno = EINVAL; -1 }
                _ => 0,
            },
        }
    }
    fn fcntl(fd: i32, cmd: i32, a: usize) -> i32 { fcntl64(fd, cmd, a) }
    fn flock(_fd: i32, _op: i32) -> i32 { 0 }
    fn ioctl(_fd: i32, _r: u64, _a: usize) -> i32 { w().errno = ENOTTY; -1 }
    fn isatty(_fd: i32) -> i32 { w().errno = ENOTTY; 0 }
    fn mmap64(_a: M, n: usize, _prot: i32, flags: i32, fd: i32, off: i64) -> M {
        let shared = if w().multi && flags & 1 != 0 { w().fd(fd).map(|f| f.ino).ok() } else { None };
        if let Some(i) = shared {
            if let Some(m) = w().maps.iter().find(|m| m.0 == i && m.1 == off && m.2 == n) {
                return m.3;
            }
        }
        let p = malloc(n);
        std::ptr::write_bytes(p, 0, n);
        if let Some(i) = shared {
            w().maps.push((i, off, n, p));
        }
        p
    }
    fn mmap(a: M, n: usize, p: i32, f: i32, fd: i32, o: i64) -> M { mmap64(a, n, p, f, fd, o) }
    fn munmap(_a: M, _n: usize) -> i32 { 0 }
    fn mprotect(_a: M, _n: usize, _p: i32) -> i32 { 0 }
    fn mremap(_a: M, _n: usize, _m: usize, _f: i32) -> M { !0usize as M }
    fn getenv(n: P) -> M {
        let s = cstr(n);
        for (k, v) in &w().env {
            if k.len() == s.len() && &k[..] == s {
                return v.as_ptr() as M;
            }
        }
        std::ptr::null_mut()
    }
    fn getpid() -> i32 { 4242 }
    fn gettid() -> i32 { 4242 }
    fn getuid() -> u32 { 1000 }
    fn geteuid() -> u32 { 1000 }
    fn getgid() -> u32 { 1000 }
    fn getpwuid_r(_u: u32, _p: M, _b: M, _n: usize, r: *mut M) -> i32 { *r = std::ptr::null_mut(); 0 }
    fn gettimeofday(t: *mut [i64; 2], _z: M) -> i32 {
        *t = [w().sec, w().nsec / 1000];
        0
    }
    fn clock_gettime(_c: i32, t: *mut [i64; 2]) -> i32 {
        *t = [w().sec, w().nsec];
        0
    }
    fn time(t: *mut i64) -> i64 {
        if !t.is_null() {
            *t = w().sec;
        }
        w().sec
    }
    fn sleep(_s: u32) -> u32 { w().ctl.wait(); 0 }
    fn usleep(_s: u32) -> i32 { w().ctl.wait(); 0 }
    fn nanosleep(_a: P, _b: M) -> i32 { w().ctl.wait(); 0 }
    fn sched_yield() -> i32 { 0 }
    fn sysconf(n: i32) -> i64 {
        match n {
            30 => 4096,
            84 => 1,
            _ => -1,
        }
    }
    fn getpagesize() -> i32 { 4096 }
    fn gnu_get_libc_version() -> P { b"2.39\0".as_ptr() }
    fn strerror(_e: i32) -> P { b"error\0".as_ptr() }
    fn __xpg_strerror_r(e: i32, b: M, n: usize) -> i32 {
        let s: &[u8] = match e {
            ENOENT => b"No such file or directory",
            EINTR => b"Interrupted system call",
            EIO => b"Input/output error",
            EEXIST => b"File exists",
            ENOTDIR => b"Not a directory",
            EISDIR => b"Is a directory",
            ENOSPC => b"No space left on device",
            _ => b"error",
        };
        let k = s.len().min(n - 1);
        std::ptr::copy_nonoverlapping(s.as_ptr(), b, k);
        *b.add(k) = 0;
        0
    }
    fn getrandom(b: M, n: usize, _f: u32) -> isize {
        for i in 0..n {
            *b.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11);
        }
        n as isize
    }
    fn exit(c: i32) { sym::exit(c) }
    fn _exit(c: i32) { sym::exit(c) }
    fn atexit(_f: P) -> i32 { 0 }
    fn __cxa_thread_atexit_impl(_f: P, _a: P, _d: P) -> i32 { 0 }
    fn pthread_self() -> usize { 1 }
    fn pthread_key_create(k: *mut u32, _d: P) -> i32 { *k = 1; 0 }
    fn pthread_key_delete(_k: u32) -> i32 { 0 }
    fn pthread_setspecific(_k: u32, _v: P) -> i32 { 0 }
    fn pthread_getspecific(_k: u32) -> M { std::ptr::null_mut() }
    fn sigaction(_s: i32, _a: P, _o: M) -> i32 { 0 }
    fn signal(_s: i32, _h: usize) -> usize { 0 }
    fn sigaltstack(_s: P, _o: M) -> i32 { 0 }
    fn poll(_f: P, _n: u64, _t: i32) -> i32 { 0 }
    fn raise(_s: i32) -> i32 { sym::exit(134) }
    fn strcmp(a: P, b: P) -> i32 {
        let mut i = 0;
        loop {
            let (x, y) = (*a.add(i), *b.add(i));
            if x != y {
                return x as i32 - y as i32;
            }
            if x == 0 {
                return 0;
            }
            i += 1;
        }
    }
    fn strncmp(a: P, b: P, n: usize) -> i32 {
        for i in 0..n {
            let (x, y) = (*a.add(i), *b.add(i));
            if x != y {
                return x as i32 - y as i32;
            }
            if x == 0 {
                return 0;
            }
        }
        0
    }
    fn strcspn(a: P, r: P) -> usize {
        let rs = cstr(r);
        let mut i = 0;
        loop {
            let c = *a.add(i);
            if c == 0 || rs.contains(&c) {
                return i;
            }
            i += 1;
        }
    }
    fn strrchr(a: P, c: i32) -> M {
        let s = cstr(a);
        match s.iter().rposition(|x| *x == c as u8) {
            Some(i) => a.add(i) as M,
            None => std::ptr::null_mut(),
        }
    }
    fn pthread_mutex_init(_m: M, _a: P) -> i32 { 0 }
    fn pthread_mutex_lock(_m: M) -> i32 { 0 }
    fn pthread_mutex_trylock(_m: M) -> i32 { 0 }
    fn pthread_mutex_unlock(_m: M) -> i32 { 0 }
    fn pthread_mutex_destroy(_m: M) -> i32 { 0 }
    fn pthread_mutexattr_init(_m: M) -> i32 { 0 }
    fn pthread_mutexattr_settype(_m: M, _t: i32) -> i32 { 0 }
    fn pthread_mutexattr_destroy(_m: M) -> i32 { 0 }
    fn localtime(_t: P) -> M { std::ptr::null_mut() }
}

extern "C" {
    fn malloc(n: usize) -> M;
}

unsafe fn p64(b: M, o: usize, v: u64) {
    (b.add(o) as *mut u64).write_unaligned(v)
}
unsafe fn p32(b: M, o: usize, v: u32) {
    (b.add(o) as *mut u32).write_unaligned(v)
}
unsafe fn put_stat(b: M, s: &St) {
    std::ptr::write_bytes(b, 0, 144);
    p64(b, 0, 1);
    p64(b, 8, s.ino);
    p64(b, 16, s.nlink as u64);
    p32(b, 24, s.mode);
    p32(b, 28, 1000);
    p32(b, 32, 1000);
    p64(b, 48, s.size);
    p64(b, 56, 4096);
    p64(b, 64, (s.size + 4095) / 4096 * 8);
    for o in [72usize, 88, 104].iter() {
        p64(b, *o, s.sec as u64);
        p64(b, *o + 8, s.nsec as u64);
    }
}
unsafe fn put_statx(b: M, s: &St) {
    std::ptr::write_bytes(b, 0, 256);
    p32(b, 0, 0xfff);
    p32(b, 4, 4096);
    p32(b, 16, s.nlink);
    p32(b, 20, 1000);
    p32(b, 24, 1000);
    (b.add(28) as *mut u16).write_unaligned(s.mode as u16);
    p64(b, 32, s.ino);
    p64(b, 40, s.size);
    p64(b, 48, (s.size + 4095) / 4096 * 8);
    for o in [64usize, 80, 96, 112].iter() {
        p64(b, *o, s.sec as u64);
        p32(b, *o + 8, s.nsec as u32);
    }
    p32(b, 136, 0);
    p32(b, 140, 1);
}
