//! C04, C05: names of files and directories as arbitrary bytes.
use crate::{sym, world};
use snapcd::dir::{get_fs_item, put_fs_item};
use snapcd::ds::sqlite::SqliteDS;
use std::ffi::OsStr;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

/// an arbitrary name of n bytes
pub fn name(what: &str, n: usize, ascii: bool) -> Vec<u8> {
    let b = sym::bytes(what, n);
    for x in &b {
        sym::assume((*x != 0) & (*x != b'/'));
        if ascii {
            sym::assume(*x < 0x80);
        }
    }
    if n == 1 {
        sym::assume(b[0] != b'.');
    }
    if n == 2 {
        sym::assume((b[0] != b'.') | (b[1] != b'.'));
    }
    b
}
pub fn at(dir: &str, n: &[u8]) -> PathBuf {
    let mut v = dir.as_bytes().to_vec();
    v.push(b'/');
    v.extend_from_slice(n);
    PathBuf::from(OsStr::from_bytes(&v).to_os_string())
}
/// everything below: path, directory, content
fn list(dir: &Path, out: &mut Vec<(Vec<u8>, bool, Vec<u8>)>, under: &[u8]) {
    for e in std::fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let mut n = under.to_vec();
        n.push(b'/');
        n.extend_from_slice(&e.file_name().into_vec());
        if e.file_type().unwrap().is_dir() {
            out.push((n.clone(), true, vec![]));
            list(&e.path(), out, &n);
        } else {
            let d = std::fs::read(e.path()).unwrap();
            out.push((n, false, d));
        }
    }
}
/// in any order
fn same(a: &[(Vec<u8>, bool, Vec<u8>)], b: &[(Vec<u8>, bool, Vec<u8>)]) -> bool {
    a.len() == b.len() && a.iter().all(|x| b.iter().any(|y| x.1 == y.1 && sym::eq(&x.0, &y.0) && sym::eq(&x.2, &y.2)))
}
fn listing(dir: &str) -> Vec<(Vec<u8>, bool, Vec<u8>)> {
    let mut v = vec![];
    list(Path::new(dir), &mut v, b"");
    v
}

/// what has this name
pub fn make(kind: u32, p: &Path) {
    match kind {
        0 => drop(std::fs::File::create(p).unwrap()),
        1 => std::fs::write(p, b"x").unwrap(),
        2 => std::fs::create_dir(p).unwrap(),
        _ => {
            std::fs::create_dir(p).unwrap();
            std::fs::write(p.join("f"), b"x").unwrap();
        }
    }
}

/// C04: directories that differ only in a name have different keys (a name
/// that is no text may be refused)
#[no_mangle]
pub extern "C" fn h_c04_names() {
    world::init();
    let max = sym::param("len", 2) as u32;
    let a = name("one", 1 + sym::choice("len", max) as usize, false);
    let b = name("other", 1 + sym::choice("len", max) as usize, false);
    world::mkdir("a");
    world::mkdir("b");
    let kind = [1, 2][sym::choice("kind", 2) as usize];
    make(kind, &at("a", &a));
    make(kind, &at("b", &b));
    let mut ds = SqliteDS::new(":memory:").unwrap();
    let ka = put_fs_item(&mut ds, Path::new("a"), &|_| true);
    let kb = put_fs_item(&mut ds, Path::new("b"), &|_| true);
    match (ka, kb) {
        (Ok(x), Ok(y)) => {
            if sym::eq(&a, &b) {
                sym::check(x == y, "equal trees have different keys");
                sym::cover("equal");
            } else {
                sym::check(x != y, "different trees have the same key");
                sym::cover("different");
            }
        }
        (x, y) => {
            let ok = |n: &[u8]| std::str::from_utf8(n).is_ok();
            sym::check(x.is_ok() || !ok(&a), "a readable tree cannot be inserted");
            sym::check(y.is_ok() || !ok(&b), "a readable tree cannot be inserted");
            sym::cover("refused");
        }
    }
}

/// C05: an entry of any name comes back, at two depths, alone or not
#[no_mangle]
pub extern "C" fn h_c05_names() {
    world::init();
    let long = sym::flag("long");
    let n = if long {
        // ASCII names of up to this length
        name("name", 3 + sym::choice("len", sym::param("ascii", 10) as u32 - 2) as usize, true)
    } else {
        name("name", 1 + sym::choice("len", sym::param("any", 3) as u32) as usize, false)
    };
    let kind = sym::choice("kind", 4);
    let deep = sym::flag("deep");
    world::mkdir("t");
    let base = if deep {
        world::mkdir("t/d");
        "t/d"
    } else {
        "t"
    };
    make(kind, &at(base, &n));
    let other = !deep && sym::flag("other");
    if other {
        // beside one that sorts somewhere else
        sym::assume(!sym::eq(&n, b"m"));
        make(1, &at(base, b"m"));
    }
    let before = listing("t");
    let mut ds = SqliteDS::new(":memory:").unwrap();
    let k = match put_fs_item(&mut ds, Path::new("t"), &|_| true) {
        Ok(k) => k,
        Err(_) => {
            sym::check(std::str::from_utf8(&n).is_err(), "a readable tree cannot be inserted");
            sym::cover("refused");
            sym::end();
        }
    };
    match get_fs_item(&ds, k.into(), Path::new("o")) {
        Ok(()) => {}
        Err(_) => sym::fail("a stored tree cannot be fetched"),
    }
    sym::check(same(&before, &listing("o")), "the fetched tree differs from the one inserted");
    sym::check(same(&before, &listing("t")), "inserting or fetching changes the source");
    sym::cover("same");
}
