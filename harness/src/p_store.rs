//! C03, C09, C10, C11, C13, C14, C18: the databases.
use crate::{sym, world};
use snapcd::ds::sqlite::SqliteDS;
use snapcd::key::Key;
use snapcd::ds::Transactional;
use snapcd::{DataStore, Keyish};
use std::str::FromStr;

fn mem() -> SqliteDS {
    SqliteDS::new(":memory:").unwrap()
}

/// either an in-memory store or one in a file
fn open_db(file: bool) -> SqliteDS {
    if file {
        SqliteDS::new("/w/x.db").unwrap()
    } else {
        mem()
    }
}

/// arbitrary bytes of arbitrary length up to max
fn blob(name: &str, max: u32) -> Vec<u8> {
    let n = sym::choice("len", max + 1) as usize;
    sym::bytes(name, n)
}

/// C03: put, put again, get, absent keys; the store closed and opened again
#[no_mangle]
pub extern "C" fn h_c03_put_get() {
    world::init();
    let file = sym::flag("file");
    let mut ds = open_db(file);
    let n = sym::param("objects", 3) as usize;
    let max = sym::param("len", 2) as u32;
    let mut all: Vec<(Vec<u8>, Key)> = vec![];
    for _ in 0..n {
        let b = blob("blob", max);
        let k = match ds.put(b.clone()) {
            Ok(k) => k,
            Err(_) => sym::fail("an object cannot be stored"),
        };
        for (c, l) in &all {
            let same = sym::eq(c, &b);
            let samek = sym::eq(&l.as_db_key(), &k.as_db_key());
            sym::check(!same | samek, "the same bytes get another key");
            sym::check(same | !samek, "different bytes share a key");
        }
        all.push((b, k));
        check_all(&ds, &all);
    }
    if file {
        drop(ds);
        ds = open_db(true);
        check_all(&ds, &all);
        sym::cover("reopened");
    }
    // a key that was never stored
    let mut other = [0u8; 32];
    sym::fill("absent", &mut other);
    for (_, l) in &all {
        let Key::Blake3B(h) = l;
        sym::assume(!sym::eq(h, &other));
    }
    let k = Key::Blake3B(other);
    sym::check(ds.get(k).is_err(), "a key that was never stored yields data");
    sym::check(matches!(ds.raw_exists(&k.as_db_key()), Ok(false)), "a key that was never stored exists");
    sym::check(ds.get_obj(k).is_err(), "a key that was never stored yields an object");
    sym::cover("absent");
}

fn check_all(ds: &SqliteDS, all: &[(Vec<u8>, Key)]) {
    for (c, k) in all {
        match ds.get(*k) {
            Ok(d) => sym::check(sym::eq(&d, c), "a stored object reads back differently"),
            Err(_) => sym::fail("a stored object cannot be read"),
        }
        sym::check(matches!(ds.raw_exists(&k.as_db_key()), Ok(true)), "a stored object is reported absent");
    }
}

/// C03: within and across transactions, kept or given up
#[no_mangle]
pub extern "C" fn h_c03_trans() {
    world::init();
    let mut ds = open_db(sym::flag("file"));
    let mut all: Vec<(Vec<u8>, Key)> = vec![];
    for _ in 0..sym::param("rounds", 2) {
        let trans = sym::flag("transaction");
        if trans && ds.begin_trans().is_err() {
            sym::fail("a transaction cannot be begun");
        }
        let mut now = all.clone();
        for _ in 0..1 + sym::choice("more", 2) {
            let b = sym::bytes("blob", 1);
            match ds.put(b.clone()) {
                Ok(k) => now.push((b, k)),
                Err(_) => sym::fail("an object cannot be stored"),
            }
            check_all(&ds, &now);
        }
        if trans && sym::flag("give up") {
            sym::check(ds.rollback().is_ok(), "a transaction cannot be given up");
            for (b, k) in &now[all.len()..] {
                let old = all.iter().any(|x| sym::eq(&x.0, b));
                sym::check(old || ds.get(*k).is_err(), "an object is stored by a transaction that was given up");
            }
            sym::cover("given up");
        } else {
            sym::check(!trans || ds.commit().is_ok(), "a transaction cannot be kept");
            all = now;
            sym::cover("kept");
        }
        check_all(&ds, &all);
    }
}

/// C03: raw keys and values: a value stored under a key stays what it was,
/// whatever is stored under it later
#[no_mangle]
pub extern "C" fn h_c03_raw() {
    world::init();
    let ds = mem();
    let n = sym::param("objects", 3) as usize;
    let mut all: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for _ in 0..n {
        let k = { let n = 1 + sym::choice("klen", 2) as usize; sym::bytes("key", n) };
        let v = blob("value", 1);
        sym::check(ds.raw_put(&k, &v).is_ok(), "an object cannot be stored");
        if !all.iter().any(|x| sym::eq(&x.0, &k)) {
            all.push((k, v));
        }
        for (k, v) in &all {
            match ds.raw_get(k) {
                Ok(d) => sym::check(sym::eq(&d, v), "a stored value changed"),
                Err(_) => sym::fail("a stored value cannot be read"),
            }
        }
    }
    // the range query: exactly the keys between, each once
    let a = { let n = sym::choice("alen", 3) as usize; sym::bytes("from", n) };
    let b = if sym::flag("open") { None } else { Some({ let n = sym::choice("blen", 3) as usize; sym::bytes("to", n) }) };
    match ds.raw_between(&a, b.as_deref()) {
        Ok(r) => {
            let mut want = 0;
            for (k, _) in &all {
                let inside = k[..] >= a[..] && b.as_ref().map_or(true, |b| k[..] < b[..]);
                if inside {
                    want += 1;
                    sym::check(r.iter().any(|x| sym::eq(x, k)), "a key in the range is missing");
                }
            }
            sym::check(r.len() == want, "the range holds other keys");
            sym::cover("range");
        }
        Err(_) => sym::fail("the range query fails"),
    }
}

/// C03: large objects that differ in one place, if at all
#[no_mangle]
pub extern "C" fn h_c03_large() {
    world::init();
    let file = sym::flag("file");
    let mut ds = open_db(file);
    let size = [1025usize, 70000, 300000, 1200000][sym::choice("size", sym::param("sizes", 4) as u32) as usize];
    let at = [0, 1, size / 2, size - 2, size - 1][sym::choice("at", 5) as usize];
    let mut a = vec![0x33u8; size];
    let k = match ds.put(a.clone()) {
        Ok(k) => k,
        Err(_) => sym::fail("an object cannot be stored"),
    };
    let b = sym::byte("byte");
    a[at] = b;
    let k2 = match ds.put(a.clone()) {
        Ok(k) => k,
        Err(_) => sym::fail("an object cannot be stored"),
    };
    let same = sym::eq(&k.as_db_key(), &k2.as_db_key());
    sym::check((b == 0x33) | !same, "different bytes share a key");
    sym::check((b != 0x33) | same, "the same bytes get another key");
    let mut all = vec![(a, k2)];
    check_all(&ds, &all);
    all[0].0[at] = 0x33;
    all[0].1 = k;
    check_all(&ds, &all);
    sym::cover(if b == 0x33 { "same" } else { "different" });
}

// ---- C09 ----

fn text_prefix(k: &Key, n: usize) -> String {
    let t = k.as_user_key();
    t[..n.min(t.len())].to_string()
}

/// C09: three stored keys that differ in chosen places; every prefix length
#[no_mangle]
pub extern "C" fn h_c09_prefix() {
    world::init();
    let ds = mem();
    // a base key, the others differ from it in two arbitrary adjacent bytes
    let (base, at) = [
        (0xffu8, 30usize), (0x5a, 0), (0, 1), (0xff, 0), (0, 30), (0x5a, 15), (0, 0), (0xff, 1), (0xff, 15), (0x5a, 1), (0x5a, 30), (0, 15),
    ][sym::choice("base", sym::param("places", 12) as u32) as usize];
    let mut keys: Vec<[u8; 32]> = vec![];
    let n = sym::choice("stored", sym::param("stored", 3) as u32 + 1) as usize;
    for _ in 0..n {
        let mut k = [base; 32];
        let mut b = [0u8; 2];
        sym::fill("key", &mut b);
        k[at] = b[0];
        k[at + 1] = b[1];
        keys.push(k);
    }
    for k in &keys {
        let k = Key::Blake3B(*k);
        sym::check(ds.raw_put(&k.as_db_key(), b"x").is_ok(), "an object cannot be stored");
    }
    // what is looked up: bits of the base key, or of one with other bytes
    let mut q = [base; 32];
    let mut b = [0u8; 2];
    sym::fill("query", &mut b);
    q[at] = b[0];
    q[at + 1] = b[1];
    // the characters that cover the two bytes, and a few more
    let first = at * 8 / 5;
    let len = [1 + first, 2 + first, 3 + first, 4 + first, 5 + first, 51, 52, 53][sym::choice("prefix", 8) as usize];
    lookup(&ds, &keys, &q, len);
}

pub fn lookup(ds: &SqliteDS, keys: &[[u8; 32]], q: &[u8; 32], len: usize) {
    sym::merge(true);
    let text = text_prefix(&Key::Blake3B(*q), len);
    let search = match Keyish::from_str(&text) {
        Ok(s) => s,
        Err(_) => sym::fail("a truncated key does not parse"),
    };
    sym::merge(false);
    // bits the text stands for
    let bits = ((text.len() - 1) * 5).min(256);
    let mut hits: Vec<[u8; 32]> = vec![];
    for k in keys {
        if same_bits(k, q, bits) && !hits.iter().any(|h| sym::eq(h, k)) {
            hits.push(*k);
        }
    }
    match ds.canonicalize(search) {
        Ok(Key::Blake3B(g)) => {
            sym::check(hits.len() == 1, "a lookup finds one object where there is none or more than one");
            sym::check(sym::eq(&g, &hits[0]), "a lookup finds another object");
            sym::cover("found");
        }
        Err(snapcd::ds::CanonicalizeError::NotFound(_)) => {
            sym::check(hits.is_empty(), "a lookup misses a stored object");
            sym::cover("not found");
        }
        Err(snapcd::ds::CanonicalizeError::Ambigious(_, c)) => {
            sym::check(hits.len() >= 2, "a lookup is called ambiguous although it is not");
            sym::check(c.len() == hits.len(), "the candidates listed are not those that match");
            for h in &hits {
                let ok = c.iter().any(|x| { let Key::Blake3B(y) = x; sym::eq(y, h) });
                sym::check(ok, "a candidate is missing");
            }
            sym::cover("ambiguous");
        }
        Err(_) => sym::fail("a lookup fails for another reason"),
    }
}

fn same_bits(a: &[u8; 32], b: &[u8; 32], bits: usize) -> bool {
    let full = bits / 8;
    if !sym::eq(&a[..full], &b[..full]) {
        return false;
    }
    let r = bits % 8;
    r == 0 || (a[full] ^ b[full]) >> (8 - r) == 0
}

/// C09: a key by its full text, stored or not; a reference that does not exist
#[no_mangle]
pub extern "C" fn h_c09_full() {
    world::init();
    let mut ds = mem();
    let b = blob("blob", 2);
    let k = match snapcd::file::put_data(&mut ds, &b[..]) {
        Ok(k) => k,
        Err(_) => sym::fail("an object cannot be stored"),
    };
    let other = {
        // another object's key, not stored
        let mut c = b.clone();
        c.push(1);
        snapcd::file::put_data(&mut mem(), &c[..]).unwrap()
    };
    for n in 1..54 {
        let t = text_prefix(&k, n);
        match ds.canonicalize(Keyish::from_str(&t).unwrap()) {
            Ok(g) => sym::check(g == k, "a prefix of the only object finds another"),
            Err(_) => sym::fail("a prefix of the only object is not found"),
        }
    }
    let t = other.as_user_key();
    match ds.canonicalize(Keyish::from_str(&t).unwrap()) {
        Ok(_) => sym::fail("a key that is not stored is found"),
        Err(snapcd::ds::CanonicalizeError::NotFound(_)) => sym::cover("not found"),
        Err(_) => sym::fail("a key that is not stored is not reported as not found"),
    }
    // object content that itself looks like a key
    let full = Keyish::from_str(&k.as_user_key()).unwrap();
    match ds.canonicalize(full) {
        Ok(g) => sym::check(g == k, "the full key finds another object"),
        Err(_) => sym::fail("the full key of a stored object is not found"),
    }
    match ds.canonicalize(Keyish::from_str("/nope").unwrap()) {
        Err(snapcd::ds::CanonicalizeError::NotFound(_)) => sym::cover("no ref"),
        _ => sym::fail("a reference that does not exist is not reported as not found"),
    }
}

// ---- C10 ----
use snapcd::object::{ObjType, Object};

fn objtype(i: u32) -> ObjType {
    match i {
        0 => ObjType::FileBlobTree,
        1 => ObjType::FileBlob,
        2 => ObjType::Commit,
        3 => ObjType::FSItemDir,
        4 => ObjType::FSItemFile,
        _ => ObjType::Unknown,
    }
}
fn typeno(t: ObjType) -> u32 {
    match t {
        ObjType::FileBlobTree => 0,
        ObjType::FileBlob => 1,
        ObjType::Commit => 2,
        ObjType::FSItemDir => 3,
        ObjType::FSItemFile => 4,
        ObjType::Unknown => 5,
    }
}
/// a key with one arbitrary byte
fn some_key(i: usize) -> Key {
    let mut b = [0u8; 32];
    for (j, x) in b.iter_mut().enumerate() {
        *x = (7 * i + 11 * j) as u8;
    }
    b[(5 * i) % 32] = sym::byte("keybyte");
    Key::Blake3B(b)
}

#[no_mangle]
pub extern "C" fn h_c10_round_trip() {
    world::init();
    let ds = mem();
    let ty = sym::choice("type", 6);
    let nk = sym::choice("keys", sym::param("keys", 3) as u32 + 1) as usize;
    let long = sym::choice("size", 5) as usize;
    let mut data = blob("data", 3);
    // lengths around the limits of the length encoding
    let pad = [0, 20, 252, 65533, 70000][long];
    data.resize(data.len() + pad, 0x61);
    let mut keys: Vec<Key> = (0..nk).map(some_key).collect();
    // a key may occur more than once
    if nk > 1 {
        match sym::choice("again", 3) {
            0 => {}
            1 => keys[1] = keys[0],
            _ => keys[nk - 1] = keys[0],
        }
    }
    let o = if sym::flag("owned") {
        Object::new_owned(data.clone(), keys.clone(), objtype(ty))
    } else {
        Object::new(&data, &keys, objtype(ty))
    };
    let k = match ds.put_obj(&o) {
        Ok(k) => k,
        Err(_) => sym::fail("an object cannot be stored"),
    };
    match ds.get_obj(k) {
        Ok(g) => {
            sym::check(typeno(g.objtype()) == ty, "the type changed");
            sym::check(sym::eq(g.data(), &data), "the data changed");
            sym::check(g.keys().len() == keys.len(), "the number of keys changed");
            for (a, b) in g.keys().iter().zip(keys.iter()) {
                sym::check(sym::eq(&a.as_db_key(), &b.as_db_key()), "a key changed or moved");
            }
            sym::cover("same");
        }
        Err(_) => sym::fail("a stored object cannot be decoded"),
    }
}

/// the CBOR type bytes of floating point numbers (outside the bounds: their
/// decimal form, which the error message contains, is beyond the solver)
fn float(x: u8) -> bool {
    (x == 0xf9) | (x == 0xfa) | (x == 0xfb)
}

/// C10: arbitrary short bytes as an object
#[no_mangle]
pub extern "C" fn h_c10_bytes() {
    world::init();
    let ds = mem();
    let b = blob("bytes", sym::param("len", 3) as u32);
    for x in &b {
        sym::assume(!float(*x));
    }
    let k = ds.put(b).unwrap();
    match ds.get_obj(k) {
        Ok(_) => {}
        Err(_) => sym::cover("error"),
    }
}

/// C10: a proper object with two arbitrary bytes anywhere in its encoding
#[no_mangle]
pub extern "C" fn h_c10_damaged() {
    world::init();
    let ds = mem();
    let o = Object::new(b"ab", &[Key::Blake3B([3; 32])], ObjType::FSItemFile);
    let k = ds.put_obj(&o).unwrap();
    let mut b = ds.get(k).unwrap().to_vec();
    let n = b.len();
    let at = sym::choice("at", n as u32) as usize;
    // (the length bytes of the first two strings fork most: left to the thorough check)
    if sym::param("hard", 1) == 0 && (at == 1 || at == 9) {
        sym::end();
    }
    // (the 32 bytes of a key are all alike: some of them)
    let from = b.windows(4).position(|w| w == [3; 4]).unwrap();
    if at > from + 2 && at < from + 31 {
        sym::end();
    }
    if sym::flag("cut") {
        b.truncate(at);
    } else {
        b[at] = sym::byte("byte");
        sym::assume(!float(b[at]));
        if sym::param("two", 0) == 1 && sym::flag("two") && at + 1 < n {
            b[at + 1] = sym::byte("byte");
            sym::assume(!float(b[at + 1]));
        }
    }
    let k = ds.put(b).unwrap();
    match ds.get_obj(k) {
        Ok(_) => sym::cover("object"),
        Err(_) => sym::cover("error"),
    }
}

// ---- C11 ----
use snapcd::commit::{commit_tree, Commit, CommitAttrs};

fn message(name: &str, max: u32) -> String {
    let n = sym::choice("mlen", max + 1) as usize;
    let mut b = sym::bytes(name, n);
    for x in b.iter_mut() {
        sym::assume(*x < 0x80);
    }
    let mut s = unsafe { String::from_utf8_unchecked(std::mem::take(&mut b)) };
    match sym::choice("extra", 4) {
        1 => s.push_str("\u{e9}\u{20ac}\u{1f600}"),
        2 => s.push_str(&"x".repeat(300)),
        3 => s.push_str("two\nlines\n"),
        _ => {}
    }
    s
}

fn plain_key(i: u32) -> Key {
    let mut b = [0x21u8; 32];
    b[0] = i as u8;
    b[31] = (i * 37) as u8;
    Key::Blake3B(b)
}

struct Made {
    tree: Key,
    parents: Vec<Key>,
    msg: String,
    key: Key,
}

fn make_commit(ds: &mut SqliteDS, msgmax: u32, simple: bool) -> Made {
    let tree = plain_key(sym::choice("tree", 2));
    let np = sym::choice("parents", if simple { 3 } else { 4 }) as usize;
    let mut parents = vec![];
    for _ in 0..np {
        parents.push(plain_key(2 + sym::choice("parent", 3)));
    }
    let msg = if simple { let mut b = sym::bytes("message", 1); sym::assume(b[0] < 0x80); unsafe { String::from_utf8_unchecked(std::mem::take(&mut b)) } } else { message("message", msgmax) };
    let mut at = CommitAttrs::default();
    at.set_message(msg.clone());
    let k = match commit_tree(ds, tree.into(), parents.iter().map(|&p| p.into()).collect(), at) {
        Ok(k) => k.inner(),
        Err(_) => sym::fail("a commit cannot be stored"),
    };
    Made { tree, parents, msg, key: k }
}

fn set(v: &[Key]) -> Vec<Key> {
    let mut v = v.to_vec();
    v.sort();
    v.dedup();
    v
}

#[no_mangle]
pub extern "C" fn h_c11_round_trip() {
    world::init();
    let mut ds = mem();
    let m = make_commit(&mut ds, sym::param("len", 3) as u32, false);
    let c = Commit::from_key(&ds, m.key.into());
    sym::check(c.tree().inner() == m.tree, "the commit names another tree");
    let p: Vec<Key> = c.parents().iter().map(|x| x.inner()).collect();
    sym::check(set(&p) == set(&m.parents), "the commit names other parents");
    sym::check(p.len() <= m.parents.len(), "the commit names more parents");
    sym::check(sym::eq(c.attrs().message().as_bytes(), m.msg.as_bytes()), "the commit has another message");
    sym::cover("same");
}

/// C11: a long message, one arbitrary character near each end
#[no_mangle]
pub extern "C" fn h_c11_long() {
    world::init();
    let mut ds = mem();
    let n = [254usize, 255, 256, 1023, 1024, 4097, 65534, 65535, 65536, 140000][sym::choice("length", sym::param("lens", 10) as u32) as usize];
    let mut b = vec![b'x'; n];
    let ends = sym::bytes("end", 2);
    sym::assume(ends[0] < 0x80 && ends[1] < 0x80);
    b[0] = ends[0];
    b[n - 1] = ends[1];
    for i in (40..n - 40).step_by(64) {
        b[i] = b'\n';
    }
    let mut m = unsafe { String::from_utf8_unchecked(b) };
    if sym::flag("wide") {
        m.insert_str(n / 2, "\u{20ac}\0\u{1f600}");
    }
    let mut at = CommitAttrs::default();
    at.set_message(m.clone());
    let k = match commit_tree(&mut ds, plain_key(0).into(), vec![plain_key(1).into()], at) {
        Ok(k) => k,
        Err(_) => sym::fail("a commit cannot be stored"),
    };
    let c = Commit::from_key(&ds, k);
    let p: Vec<Key> = c.parents().iter().map(|x| x.inner()).collect();
    sym::check(p == [plain_key(1)], "the commit names other parents");
    sym::check(c.tree().inner() == plain_key(0), "the commit names another tree");
    sym::check(sym::eq(c.attrs().message().as_bytes(), m.as_bytes()), "the commit has another message");
    sym::cover("same");
}

/// C11: many parents, one of them arbitrary in a byte
#[no_mangle]
pub extern "C" fn h_c11_many() {
    world::init();
    let mut ds = mem();
    let n = [1usize, 2, 5, 9, 17, 33, 300][sym::choice("parents", sym::param("counts", 7) as u32) as usize];
    let mut parents: Vec<Key> = (0..n)
        .map(|i| {
            let mut b = [0x21u8; 32];
            b[0] = (i * 7) as u8;
            b[1] = (i / 36) as u8;
            b[31] = (i * 37) as u8;
            Key::Blake3B(b)
        })
        .collect();
    let mut b = [0x21u8; 32];
    b[0] = [0u8, 0x7b, 0xff][sym::choice("place", 3) as usize];
    b[30] = 0x22;
    b[31] = sym::byte("last");
    parents[n / 2] = Key::Blake3B(b);
    let mut at = CommitAttrs::default();
    at.set_message("m".into());
    let k = match commit_tree(&mut ds, plain_key(0).into(), parents.iter().map(|&p| p.into()).collect(), at) {
        Ok(k) => k,
        Err(_) => sym::fail("a commit cannot be stored"),
    };
    let c = Commit::from_key(&ds, k);
    let p: Vec<Key> = c.parents().iter().map(|x| x.inner()).collect();
    sym::check(set(&p) == set(&parents), "the commit names other parents");
    sym::check(c.tree().inner() == plain_key(0), "the commit names another tree");
    sym::check(c.attrs().message() == "m", "the commit has another message");
    sym::cover("same");
}

#[no_mangle]
pub extern "C" fn h_c11_distinct() {
    world::init();
    let mut ds = mem();
    let a = make_commit(&mut ds, 1, true);
    let b = make_commit(&mut ds, 1, true);
    let differ = a.tree != b.tree || set(&a.parents) != set(&b.parents) || !sym::eq(a.msg.as_bytes(), b.msg.as_bytes());
    if differ {
        sym::check(a.key != b.key, "different commits share a key");
        sym::cover("different");
    }
    // order of the parents is not part of a commit
    let mut r = a.parents.clone();
    r.reverse();
    let mut at = CommitAttrs::default();
    at.set_message(a.msg.clone());
    let k = commit_tree(&mut ds, a.tree.into(), r.iter().map(|&p| p.into()).collect(), at).unwrap().inner();
    sym::check(k == a.key, "the order in which parents are given changes the commit");
    sym::cover("order");
}

// ---- C13, C14 ----
use snapcd::{GetReflogError, Reflog};

fn name(n: &str, max: u32) -> String {
    let k = sym::choice("nlen", max + 1) as usize;
    let mut b = sym::bytes(n, k);
    // (a name with a NUL byte is refused, and cannot be given on a command line)
    for x in b.iter() {
        sym::assume((*x < 0x80) & (*x != 0));
    }
    unsafe { String::from_utf8_unchecked(std::mem::take(&mut b)) }
}

#[no_mangle]
pub extern "C" fn h_c13_refs() {
    world::init();
    let file = sym::flag("file");
    let ds = open_db(file);
    let n = sym::param("updates", 2) as usize;
    // names: an arbitrary one, one that differs, with and without remotes
    let names = [name("name", 1), name("name", 1)];
    let remotes = [None, Some(name("remote", 1)), Some("o".to_string())];
    let mut log: Vec<(usize, usize, Key)> = vec![];
    for i in 0..n {
        let a = sym::choice("which", 2) as usize;
        let r = sym::choice("at", 3) as usize;
        let k = plain_key(if sym::flag("again") { 0 } else { i as u32 + 1 });
        let e = Reflog { refname: names[a].clone(), key: k.into(), remote: remotes[r].clone() };
        sym::check(ds.reflog_push(&e).is_ok(), "a reference cannot be updated");
        log.push((a, r, k));
    }
    query(ds, file, &names, &remotes, &log);
}

/// C13: longer histories of concrete references
#[no_mangle]
pub extern "C" fn h_c13_history() {
    world::init();
    let file = sym::flag("file");
    let ds = open_db(file);
    let n = sym::param("updates", 4) as usize;
    let names = ["m".to_string(), "M%_\u{e9}".to_string()];
    let remotes = [None, Some("m".to_string()), Some(String::new())];
    let mut log: Vec<(usize, usize, Key)> = vec![];
    for i in 0..n {
        let (a, r) = [(0, 0), (1, 0), (0, 1), (0, 2)][sym::choice("which", 4) as usize];
        let k = plain_key([1, 2, 1, 0, 3, 2][i % 6]);
        let e = Reflog { refname: names[a].clone(), key: k.into(), remote: remotes[r].clone() };
        sym::check(ds.reflog_push(&e).is_ok(), "a reference cannot be updated");
        log.push((a, r, k));
    }
    query(ds, file, &names, &remotes, &log);
}

fn query(mut ds: SqliteDS, file: bool, names: &[String; 2], remotes: &[Option<String>; 3], log: &[(usize, usize, Key)]) {
    if file {
        drop(ds);
        ds = open_db(true);
        sym::cover("reopened");
    }
    for a in 0..2 {
        for r in 0..3 {
            let mut want: Vec<Key> = vec![];
            for (b, s, k) in log.iter().rev() {
                let same = match (&remotes[r], &remotes[*s]) {
                    (None, None) => true,
                    (Some(x), Some(y)) => sym::eq(x.as_bytes(), y.as_bytes()),
                    _ => false,
                };
                if same && sym::eq(names[a].as_bytes(), names[*b].as_bytes()) {
                    want.push(*k);
                }
            }
            match ds.reflog_get(&names[a], remotes[r].as_deref()) {
                Ok(k) => {
                    sym::check(!want.is_empty(), "a reference that was never updated has a value");
                    sym::check(k.inner() == want[0], "a reference does not read back its latest update");
                    sym::cover("found");
                }
                Err(GetReflogError::NotFound) => {
                    sym::check(want.is_empty(), "an updated reference is not found");
                    sym::cover("not found");
                }
                Err(_) => sym::fail("reading a reference fails"),
            }
            match ds.reflog_walk(&names[a], remotes[r].as_deref()) {
                Ok(v) => {
                    let v: Vec<Key> = v.iter().map(|x| x.inner()).collect();
                    sym::check(v == want, "the history of a reference is not what was recorded");
                }
                Err(_) => sym::fail("walking a reference fails"),
            }
        }
    }
}

#[no_mangle]
pub extern "C" fn h_c14_head() {
    world::init();
    let file = sym::flag("file");
    let mut ds = open_db(file);
    sym::check(matches!(ds.get_head(), Ok(None)), "a new repository has a current branch");
    let n = sym::param("updates", 3) as usize;
    let mut head: Option<Vec<u8>> = None;
    for i in 0..n {
        match sym::choice("op", 5) {
            0 => {
                let h = name("head", 2);
                sym::check(ds.put_head(&h).is_ok(), "the current branch cannot be set");
                head = Some(h.into_bytes());
            }
            1 => {
                let h = ["a long branch name / with ~ everything \u{e9}\u{1f600}", "HEAD"][sym::choice("long", 2) as usize];
                sym::check(ds.put_head(h).is_ok(), "the current branch cannot be set");
                head = Some(h.as_bytes().to_vec());
            }
            2 => {
                let k = sym::bytes("state", 4);
                sym::assume(!sym::eq(&k, b"HEAD"));
                sym::check(ds.raw_put_state(&k, b"zzz").is_ok(), "state cannot be set");
            }
            3 => {
                sym::check(ds.raw_put(b"HEAD", b"yyy").is_ok(), "an object cannot be stored");
            }
            _ => {
                let e = Reflog { refname: "HEAD".to_string(), key: plain_key(i as u32).into(), remote: None };
                sym::check(ds.reflog_push(&e).is_ok(), "a reference cannot be updated");
            }
        }
        if i + 1 == n && file {
            drop(ds);
            ds = open_db(true);
        }
        match (ds.get_head(), &head) {
            (Ok(None), None) => sym::cover("none"),
            (Ok(Some(g)), Some(h)) => {
                sym::check(sym::eq(g.as_bytes(), h), "the current branch is not the one last set");
                sym::cover("set");
            }
            (Ok(None), _) => sym::fail("the current branch is lost"),
            (Ok(Some(_)), _) => sym::fail("there is a current branch that was never set"),
            _ => sym::fail("the current branch cannot be read"),
        }
    }
}

// ---- C18 ----
use snapcd::cache::{Cache, CacheKey, SqliteCache};

#[no_mangle]
pub extern "C" fn h_c18_cache() {
    world::init();
    let c = SqliteCache::new(":memory:").unwrap();
    let n = sym::param("entries", 2) as usize;
    let mut all: Vec<(CacheKey, Key)> = vec![];
    for i in 0..n {
        let k = CacheKey { inode: sym::word("inode"), mtime: sym::word("mtime") as i64, size: sym::word("size") };
        let same = all.iter().any(|(o, _)| (o.inode == k.inode) & (o.mtime == k.mtime) & (o.size == k.size));
        if same {
            continue;
        }
        let mut v = [i as u8; 32];
        sym::fill("value", &mut v[..8]);
        sym::check(c.put(k, Key::Blake3B(v)).is_ok(), "a hash cannot be recorded");
        all.push((k, Key::Blake3B(v)));
    }
    for (k, v) in &all {
        match c.get(*k) {
            Ok(Some(g)) => sym::check(sym::eq(&g.as_db_key(), &v.as_db_key()), "a recorded hash reads back differently"),
            Ok(None) => sym::fail("a recorded hash is not found"),
            Err(_) => sym::fail("a recorded hash cannot be read"),
        }
        sym::cover("hit");
    }
    let q = CacheKey { inode: sym::word("inode"), mtime: sym::word("mtime") as i64, size: sym::word("size") };
    for (o, _) in &all {
        sym::assume((o.inode != q.inode) | (o.mtime != q.mtime) | (o.size != q.size));
    }
    match c.get(q) {
        Ok(None) => sym::cover("miss"),
        Ok(Some(_)) => sym::fail("a hash recorded for another file state is reused"),
        Err(_) => sym::fail("a query fails"),
    }
}
