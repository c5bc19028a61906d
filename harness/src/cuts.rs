//! Data with content-defined cut points of the harness's choosing.
//!
//! A mark is a 64-byte window whose rolling hash is a given (possibly symbolic)
//! value.  In the engine the gearhash stub recognises marks; in the replay build
//! the windows are computed so that the real gearhash has that very value there.

pub enum Part {
    Bytes(Vec<u8>),
    Mark(u64),
}

pub const MARK: usize = 64;

#[cfg(not(feature = "native"))]
pub fn build(parts: &[Part]) -> Vec<u8> {
    #[repr(C)]
    struct Plan {
        n: u64,
        hash: [u64; 32],
    }
    let mut p = Box::new(Plan { n: 0, hash: [!0; 32] });
    let mut d = vec![];
    for x in parts {
        match x {
            Part::Bytes(b) => d.extend_from_slice(b),
            Part::Mark(h) => {
                d.extend_from_slice(&[0xA5; 62]);
                d.push(p.n as u8);
                d.push(0x5A);
                p.hash[p.n as usize] = *h;
                p.n += 1;
            }
        }
    }
    crate::sym::reg_set(2, Box::into_raw(p) as u64);
    d
}

#[cfg(feature = "native")]
pub fn build(parts: &[Part]) -> Vec<u8> {
    let t = &gearhash::DEFAULT_TABLE;
    let mut best = vec![];
    for seed in 0..200u64 {
        let mut r = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
        let mut d: Vec<u8> = vec![];
        let mut ends = vec![];
        for x in parts {
            match x {
                Part::Bytes(b) => d.extend_from_slice(b),
                Part::Mark(h) => {
                    let mut w = [0u8; 64];
                    let mut rest = *h;
                    for k in 0..64 {
                        // a byte whose entry has the low bit that is wanted
                        loop {
                            r ^= r << 13;
                            r ^= r >> 7;
                            r ^= r << 17;
                            let b = (r >> 32) as u8;
                            if (t[b as usize] & 1) == ((rest >> k) & 1) {
                                w[63 - k] = b;
                                rest = rest.wrapping_sub(t[b as usize] << k);
                                break;
                            }
                        }
                    }
                    d.extend_from_slice(&w);
                    if h.leading_zeros() >= 13 {
                        ends.push(d.len());
                    }
                }
            }
        }
        let mut h = 0u64;
        let mut got = vec![];
        for (i, b) in d.iter().enumerate() {
            h = (h << 1).wrapping_add(t[*b as usize]);
            if h.leading_zeros() >= 13 {
                got.push(i + 1);
            }
        }
        best = d;
        if got == ends {
            break;
        }
    }
    best
}
