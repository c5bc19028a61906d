//! C01, C02: file data in the store.
use crate::cuts::{build, Part, MARK};
use crate::{sym, world};
use snapcd::ds::sqlite::SqliteDS;
use snapcd::file::{put_data, read_data};
use snapcd::DataStore;
use std::io::{Error, ErrorKind, Read};

/// a source that delivers its data in given pieces, may be interrupted and may fail
struct Src<'a> {
    data: &'a [u8],
    at: usize,
    /// sizes of the reads to come; afterwards as much as fits
    sizes: Vec<usize>,
    i: usize,
    interrupts: u32,
    fail: bool,
    failed: bool,
}

impl<'a> Src<'a> {
    fn new(data: &'a [u8]) -> Self {
        Src { data, at: 0, sizes: vec![], i: 0, interrupts: 0, fail: false, failed: false }
    }
    fn sizes(mut self, s: &[usize]) -> Self {
        self.sizes = s.to_vec();
        self
    }
}

impl<'a> Read for Src<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.interrupts > 0 && sym::flag("interrupted") {
            self.interrupts -= 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if self.fail && sym::flag("fails") {
            self.fail = false;
            self.failed = true;
            let k = match sym::choice("error", sym::param("errors", 12) as u32) {
                0 => ErrorKind::Other,
                1 => ErrorKind::UnexpectedEof,
                2 => ErrorKind::WouldBlock,
                3 => ErrorKind::TimedOut,
                4 => ErrorKind::PermissionDenied,
                5 => ErrorKind::BrokenPipe,
                6 => ErrorKind::InvalidData,
                7 => ErrorKind::ConnectionReset,
                8 => ErrorKind::NotFound,
                9 => ErrorKind::WriteZero,
                10 => return Err(Error::from_raw_os_error(5)),
                _ => return Err(Error::new(ErrorKind::Other, "no more")),
            };
            return Err(Error::from(k));
        }
        let mut n = self.data.len() - self.at;
        if self.i < self.sizes.len() {
            n = n.min(self.sizes[self.i]);
            self.i += 1;
        }
        n = n.min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn store() -> SqliteDS {
    SqliteDS::new(":memory:").unwrap()
}

fn round_trip(ds: &mut SqliteDS, src: Src<'_>, data: &[u8]) {
    match put_data(ds, src) {
        Ok(k) => {
            let mut out = vec![];
            match read_data(ds, k, &mut out) {
                Ok(()) => {
                    sym::check(out.len() == data.len(), "the data read back has another length");
                    sym::check(sym::eq(&out, data), "the data read back differs");
                    sym::cover("read back");
                }
                Err(_) => sym::fail("stored data cannot be read back"),
            }
        }
        Err(_) => sym::fail("storing data fails"),
    }
}

/// C01: short data, every content, read in every pattern of pieces
#[no_mangle]
pub extern "C" fn h_c01_small() {
    world::init();
    let max = sym::param("len", 5) as u32;
    let n = sym::choice("len", max + 1) as usize;
    let data = sym::bytes("data", n);
    let mut s = vec![];
    let mut left = n;
    while left > 0 {
        let k = 1 + sym::choice("piece", left as u32) as usize;
        s.push(k);
        left -= k;
    }
    let mut ds = store();
    let mut src = Src::new(&data).sizes(&s);
    src.interrupts = 1;
    round_trip(&mut ds, src, &data);
}

const CHUNK: usize = 1 << 15;

/// a piece of `len` bytes with two symbolic bytes and otherwise its own filler
fn filler(i: usize, len: usize) -> Vec<u8> {
    let mut v = vec![0x10 + (i as u8 & 0x1f); len];
    if len >= 2 {
        let mut b = [0u8; 2];
        sym::fill("data", &mut b);
        sym::assume(b[0] < 0x50);
        sym::assume(b[1] < 0x50);
        v[0] = b[0];
        v[len - 1] = b[1];
    }
    v
}

/// C01: chunks cut at marks whose hash is any value, tails of several lengths,
/// each chunk delivered by a read of its own (so that the cuts fall where the
/// hash says)
#[no_mangle]
pub extern "C" fn h_c01_marks() {
    world::init();
    let k = sym::param("chunks", 2) as usize;
    let mut parts = vec![];
    let mut sizes = vec![];
    for i in 0..k {
        parts.push(Part::Bytes(filler(i, CHUNK - MARK)));
        parts.push(Part::Mark(sym::word("hash")));
        sizes.push(CHUNK);
    }
    let t = [0, 1, 70][sym::choice("tail", 3) as usize];
    parts.push(Part::Bytes(filler(k, t)));
    let data = build(&parts);
    let mut ds = store();
    round_trip(&mut ds, Src::new(&data).sizes(&sizes), &data);
}

/// C01: the same without the read pattern: every length around the chunk
/// limits, marks where they matter, one mark of any hash inside
#[no_mangle]
pub extern "C" fn h_c01_lengths() {
    world::init();
    let base = [CHUNK, CHUNK * 2, CHUNK * 3][sym::choice("base", sym::param("bases", 2) as u32) as usize];
    let delta = sym::choice("delta", 5) as isize - 2;
    let len = (base as isize + delta) as usize;
    // where the mark ends, counted from the end of the data
    let from_end = [0usize, 1, 2, CHUNK - 1, CHUNK, CHUNK + 1][sym::choice("mark", 6) as usize];
    if from_end + MARK > len {
        sym::end();
    }
    let a = len - from_end - MARK;
    let mut parts = vec![Part::Bytes(filler(0, a)), Part::Mark(sym::word("hash"))];
    parts.push(Part::Bytes(filler(1, from_end)));
    let data = build(&parts);
    let mut ds = store();
    round_trip(&mut ds, Src::new(&data), &data);
}

/// C01: many cuts at small distances (no chunk may be emitted below the size limit)
#[no_mangle]
pub extern "C" fn h_c01_dense() {
    world::init();
    let mut parts = vec![];
    for i in 0..3 {
        parts.push(Part::Bytes(filler(i, 20)));
        parts.push(Part::Mark(sym::word("hash")));
    }
    let big = sym::flag("big");
    if big {
        parts.push(Part::Bytes(filler(5, CHUNK - 60)));
        parts.push(Part::Mark(sym::word("hash")));
    }
    parts.push(Part::Bytes(filler(6, [0, 5][sym::choice("tail", 2) as usize])));
    let data = build(&parts);
    let mut ds = store();
    let s: &[usize] = if sym::flag("pieces") { &[70, 30, 1, 90] } else { &[] };
    round_trip(&mut ds, Src::new(&data).sizes(s), &data);
}

/// C01: so many chunks that the list of keys itself is cut by its length
#[no_mangle]
pub extern "C" fn h_c01_long() {
    world::init();
    let n = sym::param("chunks", 515) as usize + sym::choice("more", sym::param("more", 3) as u32) as usize;
    let same = sym::flag("same");
    let mut data = vec![0x11u8; n * CHUNK];
    if !same {
        for i in 0..n {
            data[i * CHUNK] = 0x20;
            data[i * CHUNK + 1] = (i & 0xff) as u8 % 0x4f;
            data[i * CHUNK + 2] = (i / 0x4f) as u8;
        }
    }
    let b = sym::byte("data");
    let at = sym::choice("at", 3) as usize;
    let pos = [0, (n / 2) * CHUNK + 77, n * CHUNK - 1][at];
    data[pos] = b;
    let mut ds = store();
    round_trip(&mut ds, Src::new(&data), &data);
}

/// C02: an error of the source is reported and no key is returned; interrupts
/// change nothing
#[no_mangle]
pub extern "C" fn h_c02_read() {
    world::init();
    let mut parts = vec![];
    let shape = sym::choice("shape", 4);
    let mut sizes = vec![];
    match shape {
        0 => {}
        1 => {
            parts.push(Part::Bytes(filler(0, 5)));
            sizes = vec![2, 2];
        }
        2 => {
            parts.push(Part::Bytes(filler(0, CHUNK - MARK)));
            parts.push(Part::Mark(sym::word("hash")));
            parts.push(Part::Bytes(filler(1, 9)));
            sizes = vec![CHUNK, 4];
        }
        _ => {
            parts.push(Part::Bytes(filler(0, CHUNK + 100)));
            parts.push(Part::Bytes(filler(1, CHUNK)));
        }
    }
    let data = build(&parts);
    let mut ds = store();
    let plain = put_data(&mut ds, Src::new(&data).sizes(&sizes)).ok();
    let mut src = Src::new(&data).sizes(&sizes);
    src.interrupts = 2;
    src.fail = true;
    // put_data takes the source by value; look at it through a reference
    let r = put_data(&mut ds, &mut src);
    if src.failed {
        sym::check(r.is_err(), "a failing read still yields a key");
        sym::cover("failed");
    } else {
        match (r, plain) {
            (Ok(k), Some(p)) => {
                sym::check(sym::eq(&k.as_db_key(), &p.as_db_key()), "an interrupted read changes the key");
                let mut out = vec![];
                let ok = read_data(&ds, k, &mut out).is_ok();
                sym::check(ok && sym::eq(&out, &data), "an interrupted read changes the stored content");
                sym::cover("stored");
            }
            _ => sym::fail("an interrupted read fails the store"),
        }
    }
}

/// C02: the program itself: a file whose read fails is not stored
#[no_mangle]
pub extern "C" fn h_c02_cli() {
    world::init();
    crate::cli_util::must(&["init"]);
    let mut b = sym::bytes("data", 3);
    b.resize(sym::param("size", 9000) as usize, 7);
    world::mkdir("t");
    world::write("t/a", &b);
    let want = crate::cli_util::insert("t");
    let c = world::ctl();
    c.on = true;
    c.scope = "/w/t";
    c.fault_mask = world::F_READ | world::F_OPEN | world::F_READDIR;
    c.fault_budget = 1;
    c.eintr = 1;
    let o = world::snapcd(&["insert", "t"]);
    let c = world::ctl();
    c.on = false;
    if c.faulted != 0 {
        sym::check(crate::cli_util::failed(&o), "insert does not report a failing read");
        sym::check(crate::cli_util::find_key(&o).is_none(), "insert prints a key although a read failed");
        sym::cover("failed");
    } else {
        sym::check(crate::cli_util::find_key(&o).as_deref() == Some(&*want), "an interrupted read changes the key");
        sym::cover("stored");
    }
}
