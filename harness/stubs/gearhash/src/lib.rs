//! The gear rolling hash, by its contract: the hash is a function of the last 64
//! bytes fed.  A window that ends in one of the harness's cut marks has the hash
//! the harness gave that mark; every other window has a hash that matches no
//! mask.  (The native replay runs the real gearhash over windows crafted to have
//! the same hashes.)
//!
//! A cut mark is 64 bytes long: 62 bytes 0xA5, the mark number, 0x5A.

pub type Table = [u64; 256];
pub static DEFAULT_TABLE: Table = [0; 256];

extern "C" {
    fn sym_reg_get(i: u32) -> u64;
    fn memchr(p: *const u8, c: i32, n: usize) -> *const u8;
}

pub const END: u8 = 0x5A;
pub const FILL: u8 = 0xA5;
const NONE: u64 = !0;

/// hashes of the marks, set up by the harness
#[repr(C)]
pub struct Plan {
    pub n: u64,
    pub hash: [u64; 32],
}

#[derive(Clone)]
pub struct Hasher<'t> {
    #[allow(dead_code)]
    table: &'t Table,
    hash: u64,
    /// last bytes fed, newest last
    last: Vec<u8>,
}

fn plan() -> Option<&'static Plan> {
    let p = unsafe { sym_reg_get(2) } as *const Plan;
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p })
    }
}

impl<'t> Hasher<'t> {
    pub fn new(table: &'t Table) -> Self {
        Self { table, hash: 0, last: Vec::new() }
    }
    fn push(&mut self, b: &[u8]) {
        self.last.extend_from_slice(b);
        if self.last.len() > 63 {
            let k = self.last.len() - 63;
            self.last.drain(..k);
        }
    }
    pub fn update(&mut self, buf: &[u8]) {
        if buf.is_empty() {
            return;
        }
        let p = match plan() {
            None => {
                self.hash = NONE;
                return;
            }
            Some(p) => p,
        };
        let k = buf.len();
        let h = self.mark_at(p, buf, k - 1);
        let from = if k > 63 { k - 63 } else { 0 };
        self.push(&buf[from..]);
        self.hash = h.unwrap_or(NONE);
    }
    fn byte(&self, buf: &[u8], i: isize) -> Option<u8> {
        if i >= 0 {
            return Some(buf[i as usize]);
        }
        let j = self.last.len() as isize + i;
        if j < 0 {
            None
        } else {
            Some(self.last[j as usize])
        }
    }
    /// the hash of the mark ending at buf[i], if one does
    fn mark_at(&self, p: &Plan, buf: &[u8], i: usize) -> Option<u64> {
        let i = i as isize;
        if self.byte(buf, i) != Some(END) {
            return None;
        }
        let m = self.byte(buf, i - 1)?;
        if u64::from(m) >= p.n {
            return None;
        }
        for k in 2..64 {
            if self.byte(buf, i - k) != Some(FILL) {
                return None;
            }
        }
        Some(p.hash[m as usize])
    }
    pub fn is_match(&self, mask: u64) -> bool {
        self.hash & mask == 0
    }
    pub fn next_match(&mut self, buf: &[u8], mask: u64) -> Option<usize> {
        if buf.is_empty() {
            return None;
        }
        let p = match plan() {
            None => {
                self.hash = NONE;
                return None;
            }
            Some(p) => p,
        };
        let mut at = 0;
        while at < buf.len() {
            let q = unsafe { memchr(buf[at..].as_ptr(), END as i32, buf.len() - at) };
            if q.is_null() {
                break;
            }
            let i = q as usize - buf.as_ptr() as usize;
            if let Some(h) = self.mark_at(p, buf, i) {
                if h & mask == 0 {
                    let from = if i + 1 > 63 { i + 1 - 63 } else { 0 };
                    self.push(&buf[from..=i]);
                    self.hash = h;
                    return Some(i + 1);
                }
            }
            at = i + 1;
        }
        let k = buf.len();
        let from = if k > 63 { k - 63 } else { 0 };
        self.push(&buf[from..]);
        self.hash = NONE;
        None
    }
    pub fn get_hash(&self) -> u64 {
        self.hash
    }
    pub fn set_hash(&mut self, hash: u64) {
        self.hash = hash
    }
}

impl Default for Hasher<'static> {
    fn default() -> Self {
        Hasher::new(&DEFAULT_TABLE)
    }
}

impl<'t> std::fmt::Debug for Hasher<'t> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.debug_struct("Hasher").field("hash", &self.hash).finish()
    }
}
