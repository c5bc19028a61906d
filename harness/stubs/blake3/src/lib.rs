//! blake3 as a collision-free function: equal data gives the same digest,
//! different data gives different digests.  The engine decides the equality of
//! symbolic data, so both outcomes are explored when both are possible.

extern "C" {
    fn sym_reg_get(i: u32) -> u64;
    fn sym_reg_set(i: u32, v: u64);
    fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32;
}

pub const OUT_LEN: usize = 32;
pub const KEY_LEN: usize = 32;
pub const BLOCK_LEN: usize = 64;
pub const CHUNK_LEN: usize = 1024;

#[derive(Clone, Copy)]
pub struct Hash([u8; 32]);

impl Hash {
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
}
impl From<[u8; 32]> for Hash {
    fn from(b: [u8; 32]) -> Self {
        Hash(b)
    }
}
impl From<Hash> for [u8; 32] {
    fn from(b: Hash) -> Self {
        b.0
    }
}
impl PartialEq for Hash {
    fn eq(&self, o: &Hash) -> bool {
        self.0 == o.0
    }
}
impl Eq for Hash {}
impl std::fmt::Debug for Hash {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Hash({:?})", &self.0[..])
    }
}

struct Table {
    seen: Vec<Vec<u8>>,
}

fn digest(i: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut x = i.wrapping_add(1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    for k in 0..4 {
        x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^= z >> 31;
        out[8 * k..8 * k + 8].copy_from_slice(&z.to_le_bytes());
    }
    // the index itself, so that digests differ for certain
    out[24..32].copy_from_slice(&i.to_le_bytes());
    out
}

fn lookup(data: &[u8]) -> [u8; 32] {
    let t: &mut Table = unsafe {
        let mut p = sym_reg_get(1) as *mut Table;
        if p.is_null() {
            p = Box::into_raw(Box::new(Table { seen: Vec::new() }));
            sym_reg_set(1, p as u64);
        }
        &mut *p
    };
    for (i, s) in t.seen.iter().enumerate() {
        if s.len() == data.len() && unsafe { bcmp(s.as_ptr(), data.as_ptr(), data.len()) } == 0 {
            return digest(i as u64);
        }
    }
    t.seen.push(data.to_vec());
    digest(t.seen.len() as u64 - 1)
}

pub fn hash(data: &[u8]) -> Hash {
    Hash(lookup(data))
}

#[derive(Clone, Default)]
pub struct Hasher {
    buf: Vec<u8>,
}

impl Hasher {
    pub fn new() -> Self {
        Hasher { buf: Vec::new() }
    }
    pub fn update(&mut self, data: &[u8]) -> &mut Self {
        self.buf.extend_from_slice(data);
        self
    }
    pub fn finalize(&self) -> Hash {
        Hash(lookup(&self.buf))
    }
    pub fn reset(&mut self) -> &mut Self {
        self.buf.clear();
        self
    }
}
