//! Sizes that the other harnesses do not reach: many entries, objects, keys,
//! updates, commits, lines, levels; and parts of the command line.
use crate::cli_util::*;
use crate::p_cmd::{open, snap};
use crate::p_diff::{check_listing, check_patch, check_sections, check_stat, edit, listed, patch_of, run_two, seed_tree, stamp, stat_line, want};
use crate::trees::*;
use crate::{sym, world};
use snapcd::commit::Commit;
use snapcd::dir::{get_fs_item, put_fs_item};
use snapcd::ds::sqlite::SqliteDS;
use snapcd::key::Key;
use snapcd::object::{ObjType, Object};
use snapcd::{diff, DataStore, GetReflogError, Keyish, Reflog};
use std::path::Path;

fn mem() -> SqliteDS {
    SqliteDS::new(":memory:").unwrap()
}
fn put(ds: &mut SqliteDS, path: &str) -> Key {
    match put_fs_item(ds, Path::new(path), &|_| true) {
        Ok(k) => k,
        Err(_) => sym::fail("a readable tree cannot be inserted"),
    }
}
fn key(i: usize) -> Key {
    let mut b = [0x21u8; 32];
    b[0] = i as u8;
    b[1] = (i >> 8) as u8;
    b[31] = (i * 37) as u8;
    Key::Blake3B(b)
}
fn cut(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

/// a byte that is not that of another file
fn apart(name: &str) -> u8 {
    let b = sym::byte(name);
    sym::assume(b >= 0x80);
    b
}

/// wide, deep and long trees; one file holds `byte`
fn big(kind: u32, n: usize, byte: u8) -> Tree {
    let mut t: Tree = vec![];
    match kind {
        0 => {
            for i in 0..n {
                let name = format!("f{:03}", i);
                if i % 5 == 3 {
                    t.push((name, D, vec![]));
                } else {
                    t.push((name, F, vec![b'a' + (i % 7) as u8]));
                }
            }
            t[n - 1] = (format!("f{:03}", n - 1), F, vec![byte]);
        }
        1 => {
            let mut p = String::new();
            for i in 0..n / 8 {
                p.push_str(["d", "e", "dd"][i % 3]);
                t.push((p.clone(), D, vec![]));
                if i % 4 == 1 {
                    t.push((format!("{}/x", p), F, vec![b'x']));
                }
                p.push('/');
            }
            t.push((format!("{}z", p), F, vec![byte]));
        }
        _ => {
            let l = "n".repeat(255);
            let u = "\u{e9}".repeat(127);
            t.push((l.clone(), D, vec![]));
            t.push((format!("{}/{}", l, u), F, vec![byte]));
            t.push((format!("{}x", &l[1..]), F, b"x".to_vec()));
            t.push((u, D, vec![]));
        }
    }
    t.sort_by(|a, b| a.0.cmp(&b.0));
    t
}

/// C04, C05: many entries, deep nesting, long names
#[no_mangle]
pub extern "C" fn h_c05_many() {
    world::init();
    let kind = sym::choice("kind", 3);
    let n = sym::param("entries", 600) as usize;
    let b = apart("data");
    let t = big(kind, n, b);
    plant("t", &t);
    let mut ds = mem();
    let k = put(&mut ds, "t");
    if get_fs_item(&ds, k.into(), Path::new("o")).is_err() {
        sym::fail("a stored tree cannot be fetched");
    }
    sym::check(world::same_tree(&world::tree("o"), &t), "the fetched tree differs from the one inserted");
    // the same made the other way round, another byte in the one file
    let c = apart("other");
    let u = big(kind, n, c);
    plant_rev("u", &u);
    let k2 = put(&mut ds, "u");
    sym::check((k == k2) == (b == c), "the key does not tell trees apart, or depends on the order of creation");
    sym::cover(["wide", "deep", "long"][kind as usize]);
}

/// C04: two names of arbitrary bytes in one directory, listed in either order
#[no_mangle]
pub extern "C" fn h_c04_pair() {
    use crate::p_names::{at, make, name};
    world::init();
    let max = sym::param("len", 2) as u32;
    let a = name("one", 1 + sym::choice("len", max) as usize, true);
    let b = name("other", 1 + sym::choice("len", max) as usize, true);
    sym::assume(!sym::eq(&a, &b));
    let (x, y) = [(1, 0), (1, 2)][sym::choice("kinds", 2) as usize];
    world::mkdir("a");
    world::mkdir("b");
    make(x, &at("a", &a));
    make(y, &at("a", &b));
    make(y, &at("b", &b));
    make(x, &at("b", &a));
    let mut ds = mem();
    // the entries of one of them in any order
    let c = world::ctl();
    c.on = true;
    c.shuffle = true;
    c.scope = "/w/b";
    let k = put(&mut ds, "a");
    let k2 = put(&mut ds, "b");
    c.on = false;
    sym::check(k == k2, "the key depends on the order in which entries are listed");
    sym::cover("same");
}

/// C15, C16, C19: differences of large trees, of stored ones and of one on disk
#[no_mangle]
pub extern "C" fn h_c15_many() {
    world::init();
    let kind = sym::choice("kind", 3);
    let n = sym::param("entries", 120) as usize;
    let mut old = big(kind, n, apart("old"));
    let mut new = big(kind, n, apart("new"));
    let change = sym::choice("change", if kind == 2 { 6 } else { 3 });
    match change {
        0 => {}
        3 | 4 | 5 => {
            // hundreds of files come, go or change at once
            for i in 0..sym::param("changes", 300) {
                let name = format!("z{:04}", i);
                if change != 3 {
                    old.push((name.clone(), F, b"1".to_vec()));
                }
                if change != 4 {
                    new.push((name, F, b"2".to_vec()));
                }
            }
            old.sort_by(|a, b| a.0.cmp(&b.0));
        }
        1 => {
            // half of the entries go, some come
            let dirs: Vec<String> = new.iter().filter(|x| x.1).map(|x| x.0.clone()).collect();
            let mut i = 0;
            new.retain(|x| {
                i += 1;
                x.1 && dirs.iter().any(|_| true) || i % 2 == 0
            });
            new.push(("g".into(), D, vec![]));
            for i in 0..20 {
                new.push((format!("g/{}", i), i % 3 == 0, vec![]));
            }
        }
        _ => new = vec![("f000".into(), F, b"a".to_vec())],
    }
    new.sort_by(|a, b| a.0.cmp(&b.0));
    plant("a", &old);
    plant("b", &new);
    let mut ds = mem();
    let (ka, kb) = (put(&mut ds, "a"), put(&mut ds, "b"));
    let disk = sym::flag("disk");
    world::mkdir("/w/r");
    let o = world::call(&mut || {
        let mut cache = snapcd::cache::SqliteCache::new(":memory:").unwrap();
        let from = if disk { diff::DiffTarget::FileSystem("/w/b".into(), vec![], "/w/r".into()) } else { diff::DiffTarget::Database(kb.into()) };
        match diff::compare(&mut ds, from, Some(ka.into()), &mut cache) {
            Ok(r) => {
                println!("{}", if diff::diff_result_empty(&r) { "=empty" } else { "=some" });
                diff::print_diff_result(r);
            }
            Err(_) => println!("fatal: "),
        }
    });
    sym::check(!crashed(&o), "comparing crashes");
    sym::check(!failed(&o), "comparing fails");
    let w = want(&old, &new);
    sym::check(has(&o.out, b"=empty") == w.empty(), "a difference is called empty that is not, or the reverse");
    check_listing(&listed(o.out_str()), &w, false);
    sym::cover(if w.empty() { "clean" } else { "changed" });
}

/// C19: names that resemble that of a listed directory
#[no_mangle]
pub extern "C" fn h_c19_names() {
    world::init();
    let s = ["d-", "d.", "d ", "D", "d0", "dd", "d\\x", "\u{e9}"][sym::choice("name", sym::param("names", 8) as u32) as usize];
    let (mut old, mut new): (Tree, Tree) = (vec![], vec![]);
    let groups: [Tree; 3] = [
        vec![("d".into(), D, vec![]), ("d/x".into(), F, vec![])],
        vec![(s.into(), F, vec![])],
        vec![("e".into(), D, vec![]), (format!("e/{}", s), D, vec![]), (format!("e/{}/d", s), F, vec![])],
    ];
    for g in groups.iter() {
        let at = sym::choice("side", 3);
        if at != 1 {
            old.extend(g.iter().cloned());
        }
        if at != 0 {
            new.extend(g.iter().cloned());
        }
    }
    // below a directory that stays
    if s != "d0" && sym::flag("below") {
        old.push(("e/d".into(), D, vec![]));
        new.push(("e/d0".into(), D, vec![]));
        for t in [&mut old, &mut new].iter_mut() {
            if !t.iter().any(|x| x.0 == "e") {
                t.push(("e".into(), D, vec![]));
            }
        }
    }
    old.sort_by(|a, b| a.0.cmp(&b.0));
    new.sort_by(|a, b| a.0.cmp(&b.0));
    let o = run_two(&old, &new, |_, r| diff::print_diff_result(r));
    sym::check(o.code == 0, "printing a difference crashes");
    let w = want(&old, &new);
    check_listing(&listed(o.out_str()), &w, false);
    sym::cover(if w.empty() { "equal" } else { "different" });
}

/// C03: many objects
#[no_mangle]
pub extern "C" fn h_c03_many() {
    world::init();
    let file = sym::flag("file");
    let mut ds = if file { SqliteDS::new("/w/x.db").unwrap() } else { mem() };
    let n = sym::param("objects", 400) as usize;
    let special = [0, n / 2, n - 1][sym::choice("at", 3) as usize];
    let mut all: Vec<(Vec<u8>, Key)> = vec![];
    for i in 0..n {
        let mut d = vec![(i & 0xff) as u8; 40 + (i % 11) * 30];
        d[0] = (i >> 8) as u8;
        if i == special {
            d[1] = sym::byte("byte");
        }
        match ds.put(d.clone()) {
            Ok(k) => all.push((d, k)),
            Err(_) => sym::fail("an object cannot be stored"),
        }
    }
    if file {
        drop(ds);
        ds = SqliteDS::new("/w/x.db").unwrap();
        sym::cover("reopened");
    }
    for (d, k) in &all {
        match ds.get(*k) {
            Ok(g) => sym::check(sym::eq(&g, d), "a stored object reads back differently"),
            Err(_) => sym::fail("a stored object cannot be read"),
        }
    }
    sym::check(ds.raw_between(&[], None).map(|x| x.len()).unwrap_or(0) == n, "the store does not hold what was put");
    sym::cover("many");
}

/// C09: more candidates than a few
#[no_mangle]
pub extern "C" fn h_c09_many() {
    world::init();
    let ds = mem();
    let n = [2usize, 3, 200, 4, 10, 40, 700][sym::choice("stored", sym::param("counts", 7) as u32) as usize];
    // all of them share the first byte; one more does not
    let first = [0u8, 0x5a, 0xff][sym::choice("first", 3) as usize];
    let mut keys: Vec<[u8; 32]> = vec![];
    for i in 0..n {
        let mut k = [0x33u8; 32];
        k[0] = first;
        k[2] = i as u8;
        k[3] = (i >> 8) as u8;
        keys.push(k);
    }
    let mut far = [0x33u8; 32];
    far[0] = first ^ 0x80;
    far[31] = sym::byte("byte");
    keys.push(far);
    for k in &keys {
        sym::check(ds.raw_put(&Key::Blake3B(*k).as_db_key(), b"x").is_ok(), "an object cannot be stored");
    }
    let len = [1, 2, 4][sym::choice("prefix", 3) as usize];
    let q = keys[sym::choice("which", 2) as usize * n];
    crate::p_store::lookup(&ds, &keys, &q, len);
}

/// C10: numbers of keys and of bytes around the limits of the encoding
#[no_mangle]
pub extern "C" fn h_c10_many() {
    world::init();
    let ds = mem();
    let nk = [0usize, 23, 24, 255, 256, 300, 600, 1100][sym::choice("keys", sym::param("counts", 8) as u32) as usize];
    let nd = [0usize, 23, 24, 255, 256, 65535, 65536][sym::choice("data", sym::param("sizes", 7) as u32) as usize];
    let mut keys: Vec<Key> = (0..nk).map(key).collect();
    if nk > 0 {
        let mut b = [7u8; 32];
        b[13] = sym::byte("keybyte");
        keys[nk - 1] = Key::Blake3B(b);
    }
    let mut data = vec![0x61u8; nd];
    if nd > 0 {
        data[nd / 2] = sym::byte("data");
    }
    let owned = sym::flag("owned");
    let o = if owned { Object::new_owned(data.clone(), keys.clone(), ObjType::FSItemDir) } else { Object::new(&data, &keys, ObjType::FileBlobTree) };
    sym::check(o.keys() == &keys[..] && sym::eq(o.data(), &data), "a new object holds something else");
    let k = match ds.put_obj(&o) {
        Ok(k) => k,
        Err(_) => sym::fail("an object cannot be stored"),
    };
    match ds.get_obj(k) {
        Ok(g) => {
            sym::check(matches!((g.objtype(), owned), (ObjType::FileBlobTree, false) | (ObjType::FSItemDir, true)), "the type changed");
            sym::check(sym::eq(g.data(), &data), "the data changed");
            sym::check(g.keys().len() == keys.len(), "the number of keys changed");
            let flat = |v: &[Key]| v.iter().map(|k| k.as_db_key()).collect::<Vec<_>>().concat();
            sym::check(sym::eq(&flat(g.keys()), &flat(&keys)), "a key changed or moved");
            sym::cover("same");
        }
        Err(_) => sym::fail("a stored object cannot be decoded"),
    }
}

/// C13: many updates; names that other databases would take for one another
#[no_mangle]
pub extern "C" fn h_c13_many() {
    world::init();
    let ds = mem();
    let n = [3usize, 12, 40, 300][sym::choice("updates", sym::param("counts", 4) as u32) as usize];
    let groups: [&[&str]; 6] = [
        &["1", "01", "1.0", "1e0"],
        &["a", "A", "a ", " a"],
        &["x%", "x_", "x*", "xy"],
        &["\u{e9}", "e\u{301}", "e", "\u{c9}"],
        &["refs/heads/m", "heads/m", "m", "refs/m"],
        &["NULL", "", "null", "0"],
    ];
    let names = groups[sym::choice("names", sym::param("groups", 6) as u32) as usize];
    // the same names as names and as remotes
    let refs: Vec<(&str, Option<&str>)> = match sym::choice("remotes", 3) {
        0 => names.iter().map(|x| (*x, None)).collect(),
        1 => names.iter().map(|x| ("m", Some(*x))).collect(),
        _ => vec![(names[0], None), (names[0], Some(names[0])), (names[1], Some(names[0])), (names[0], Some(names[1]))],
    };
    let mut log: Vec<(usize, Key)> = vec![];
    for i in 0..n {
        let r = (i * i + i / 3) % 3;
        let mut k = key(i % 250);
        if i == n / 2 {
            let Key::Blake3B(b) = &mut k;
            b[7] = sym::byte("keybyte");
        }
        let e = Reflog { refname: refs[r].0.into(), key: k.into(), remote: refs[r].1.map(|x| x.into()) };
        sym::check(ds.reflog_push(&e).is_ok(), "a reference cannot be updated");
        log.push((r, k));
    }
    for (i, (name, remote)) in refs.iter().enumerate() {
        let want: Vec<Key> = log.iter().rev().filter(|x| x.0 == i).map(|x| x.1).collect();
        match ds.reflog_get(name, *remote) {
            Ok(k) => {
                sym::check(!want.is_empty(), "a reference that was never updated has a value");
                sym::check(k.inner() == want[0], "a reference does not read back its latest update");
                sym::cover("found");
            }
            Err(GetReflogError::NotFound) => {
                sym::check(want.is_empty(), "an updated reference is not found");
                sym::cover("not found");
            }
            Err(_) => sym::fail("reading a reference fails"),
        }
        match ds.reflog_walk(name, *remote) {
            Ok(v) => {
                let v: Vec<Key> = v.iter().map(|x| x.inner()).collect();
                sym::check(v == want, "the history of a reference is not what was recorded");
            }
            Err(_) => sym::fail("walking a reference fails"),
        }
    }
}

/// C13: the commands that update and show references
#[no_mangle]
pub extern "C" fn h_c13_cli() {
    world::init();
    must(&["init"]);
    world::write("a", &sym::bytes("a", 1));
    world::write("b", b"bb");
    let made = |f: &str| must(&["debug", "commit-tree", &insert(f)]).out_str().trim().to_string();
    let keys = [made("a"), made("b")];
    let refs: [(&str, Option<&str>); 4] = [("master", None), ("m", None), ("m", Some("o")), ("master", Some("o"))];
    let mut log: Vec<(usize, usize)> = vec![];
    for i in 0..sym::param("updates", 3) as usize {
        let r = sym::choice("ref", 3) as usize;
        let k = (i + sym::choice("key", if i == 0 { 2 } else { 1 }) as usize) % 2;
        let (name, remote) = refs[r];
        // a prefix of the key will do
        let key = if i == 1 { cut(&keys[k], 20) } else { keys[k].clone() };
        match remote {
            Some(o) => must(&["debug", "reflog-push", &key, name, o]),
            None if r == 0 => must(&["ref", "update", &key]),
            None if i % 2 == 0 => must(&["debug", "reflog-push", &key, name]),
            None => must(&["ref", "update", &key, name]),
        };
        log.push((r, k));
    }
    for (r, (name, remote)) in refs.iter().enumerate() {
        let want: Vec<&String> = log.iter().rev().filter(|x| x.0 == r).map(|x| &keys[x.1]).collect();
        let mut args = vec!["debug", "reflog-get", name];
        args.extend(remote.iter());
        let o = world::snapcd(&args);
        if want.is_empty() {
            sym::check(failed(&o) && !crashed(&o), "a reference that was never updated has a value");
        } else {
            sym::check(!failed(&o) && o.out_str().trim() == want[0], "a reference does not read back its latest update");
        }
        let mut args = vec!["ref", "log"];
        if r > 0 {
            args.push(name);
        }
        args.extend(remote.iter());
        let o = must(&args);
        let got: Vec<&str> = o.out_str().lines().filter_map(|l| l.split(": ").nth(1)).collect();
        sym::check(got.len() == want.len() && got.iter().zip(want.iter()).all(|(a, b)| a == b), "the history of a reference is not what was recorded");
        // named on the command line where a key goes
        if r > 0 && !want.is_empty() {
            let spec = format!("{}/{}", remote.unwrap_or(""), name);
            let o = must(&["debug", "pretty-print", &spec]);
            let o2 = must(&["debug", "pretty-print", &want[0]]);
            sym::check(sym::eq(&o.out, &o2.out), "a reference leads to another object");
        }
    }
    sym::cover("done");
}

/// C14: the commands that set and show the current branch
#[no_mangle]
pub extern "C" fn h_c14_cli() {
    world::init();
    must(&["init"]);
    let names = ["dev", "a/b", "\u{fc}\u{2713}", "two words", "1", "", "HEAD", "Dev"];
    let all = names.len() as u32;
    let mut head = "master";
    for _ in 0..sym::param("updates", 2) {
        let n = names[sym::choice("name", all) as usize];
        match sym::choice("how", 2) {
            0 => must(&["debug", "set-head", n]),
            _ => must(&["checkout-head", n]),
        };
        head = n;
    }
    let o = must(&["debug", "get-head"]);
    sym::check(has(&o.out, format!("{:?}", Some(head)).as_bytes()), "the current branch is not the one last set");
    let o = must(&["status"]);
    sym::check(has(&o.out, format!("HEAD: {} ", head).as_bytes()), "status shows another branch");
    world::write("f", &sym::bytes("f", 1));
    must(&["commit", "-m", "m"]);
    let s = open("/w");
    sym::check(s.reflog_get(head, None).is_ok(), "a commit goes to another branch than the current one");
    sym::check(s.get_head().unwrap().as_ref().map(|x| x.as_str()) == Some(head), "a commit changes the current branch");
    sym::cover("set");
}

/// C14: an arbitrary name
#[no_mangle]
pub extern "C" fn h_c14_any() {
    world::init();
    must(&["init"]);
    let n = 1 + sym::choice("len", sym::param("len", 2) as u32) as usize;
    let b = sym::bytes("name", n);
    for x in &b {
        sym::assume((*x != 0) & (*x < 0x80));
    }
    sym::assume(b[0] != b'-');
    let name = unsafe { std::str::from_utf8_unchecked(&b) };
    match sym::choice("how", 2) {
        0 => must(&["debug", "set-head", name]),
        _ => must(&["checkout-head", name]),
    };
    {
        let s = open("/w");
        sym::check(s.get_head().unwrap().map_or(false, |x| sym::eq(x.as_bytes(), &b)), "the current branch is not the one last set");
    }
    world::write("f", b"x");
    must(&["commit", "-m", "m"]);
    let s = open("/w");
    sym::check(s.reflog_get(name, None).is_ok(), "a commit goes to another branch than the current one");
    sym::check(s.get_head().unwrap().map_or(false, |x| sym::eq(x.as_bytes(), &b)), "a commit changes the current branch");
    sym::cover("set");
}

/// C11: a commit made by the command
#[no_mangle]
pub extern "C" fn h_c11_cli() {
    world::init();
    must(&["init"]);
    let mut keys = vec![];
    for (i, n) in ["a", "b", "c", "d"].iter().enumerate() {
        let mut d = sym::bytes("data", 1);
        d.resize(i + 1, b'x');
        world::write(n, &d);
        let k = insert(n);
        // the last is the tree, the others are made parents
        keys.push(if i == 3 { k } else { must(&["debug", "commit-tree", &k]).out_str().trim().to_string() });
    }
    let np = sym::choice("parents", 4) as usize;
    let mut args = vec!["debug", "commit-tree", &keys[3]];
    let mut want: Vec<&String> = vec![];
    for _ in 0..np {
        let p = &keys[sym::choice("parent", 3) as usize];
        args.push(p);
        want.push(p);
    }
    let o = must(&args);
    let k: Keyish = match o.out_str().trim().parse() {
        Ok(k) => k,
        Err(_) => sym::fail("the printed key cannot be read"),
    };
    let ds = open("/w");
    let k = match ds.canonicalize(k) {
        Ok(k) => k,
        Err(_) => sym::fail("the printed key is not stored"),
    };
    let c = Commit::from_key(&ds, k.into());
    sym::check(c.tree().to_string() == keys[3], "the commit names another tree");
    let mut got: Vec<String> = c.parents().iter().map(|x| x.to_string()).collect();
    got.sort();
    got.dedup();
    let mut want: Vec<String> = want.iter().map(|x| x.to_string()).collect();
    want.sort();
    want.dedup();
    sym::check(got == want, "the commit names other parents");
    sym::check(c.attrs().message().is_empty(), "the commit has another message");
    sym::cover("same");
}

/// what a directory holds, links followed
fn seen(path: &str) -> Tree {
    fn rec(base: &str, rel: &str, out: &mut Tree) {
        for e in std::fs::read_dir(format!("{}/{}", base, rel)).unwrap() {
            let n = e.unwrap().file_name().to_str().unwrap().to_string();
            if n == ".snapcd" {
                continue;
            }
            let r = if rel.is_empty() { n } else { format!("{}/{}", rel, n) };
            let full = format!("{}/{}", base, r);
            if std::fs::metadata(&full).unwrap().is_dir() {
                out.push((r.clone(), D, vec![]));
                rec(base, &r, out);
            } else {
                out.push((r, F, std::fs::read(full).unwrap()));
            }
        }
    }
    let mut t = vec![];
    rec(path, "", &mut t);
    t.sort_by(|a: &(String, bool, Vec<u8>), b| a.0.cmp(&b.0));
    t
}

/// C05, C16: links in the directory stand for what they lead to
#[no_mangle]
pub extern "C" fn h_c16_links() {
    use std::os::unix::fs::symlink;
    world::init();
    must(&["init"]);
    plant("/w", &seed_tree());
    stamp("/w/a", 0);
    stamp("/w/d/x", 1);
    world::mkdir("/tmp/s");
    world::mkdir("/tmp/s/e");
    world::write("/tmp/s/f", &sym::bytes("f", 1));
    stamp("/tmp/s/f", 2);
    world::write("/tmp/s/e/g", &sym::bytes("g", 1));
    stamp("/tmp/s/e/g", 3);
    // to a file, to a directory, out of here or not
    symlink(["a", "/tmp/s/f", "d/x"][sym::choice("file", 3) as usize], "/w/l").unwrap();
    symlink(["d", "/tmp/s/e"][sym::choice("dir", 2) as usize], "/w/m").unwrap();
    must(&["commit", "-m", "m"]);
    let old = seen("/w");
    let k = open("/w").reflog_get("master", None).unwrap();
    {
        let ds = open("/w");
        let t = Commit::from_key(&ds, k).tree();
        if get_fs_item(&ds, t, Path::new("/tmp/o")).is_err() {
            sym::fail("a stored tree cannot be fetched");
        }
        sym::check(world::same_tree(&world::tree("/tmp/o"), &old), "what a link leads to is not what is stored");
    }
    match sym::choice("edit", 6) {
        0 => {}
        1 => {
            world::write("/tmp/s/f", &sym::bytes("new", 1));
            stamp("/tmp/s/f", 5);
        }
        2 => {
            world::write("/tmp/s/e/h", &sym::bytes("new", 1));
        }
        3 => {
            // the link becomes a file
            std::fs::remove_file("/w/l").unwrap();
            world::write("/w/l", &sym::bytes("new", 1));
            stamp("/w/l", 6);
        }
        4 => {
            std::fs::remove_file("/w/m").unwrap();
            symlink("e", "/w/m").unwrap();
        }
        _ => {
            world::write("/w/d/x", &sym::bytes("new", 1));
            stamp("/w/d/x", 7);
        }
    }
    let new = seen("/w");
    let o = world::snapcd(&[["status", "compare"][sym::choice("cmd", 2) as usize]]);
    sym::check(!crashed(&o), "comparing a readable directory crashes");
    sym::check(!failed(&o), "comparing a readable directory fails");
    let w = want(&old, &new);
    check_listing(&listed(o.out_str()), &w, false);
    sym::cover(if w.empty() { "clean" } else { "changed" });
}

/// C06: links at or in the destination
#[no_mangle]
pub extern "C" fn h_c06_links() {
    use std::os::unix::fs::symlink;
    world::init();
    must(&["init"]);
    let t = fill(&[("a", F), ("d", D), ("d/x", F)], 1);
    plant("t", &t);
    let one = sym::flag("file");
    let k = insert(if one { "t/a" } else { "t" });
    world::mkdir("o");
    world::mkdir("s");
    world::write("s/f", &sym::bytes("f", 2));
    match sym::choice("link", 4) {
        0 => symlink("/w/s/none", "o/a").unwrap(),
        1 => symlink("/w/s/f", "o/a").unwrap(),
        2 => symlink("../s/none", "o/a").unwrap(),
        _ => symlink("/w/s/none", "o/d").unwrap(),
    }
    let before = world::tree("/w/s");
    let o = world::snapcd(&["fetch", &k, if one { "o/a" } else { "o" }]);
    sym::check(!crashed(&o), "fetch crashes");
    sym::check(world::same_tree(&before, &world::tree("/w/s")), "fetching writes outside its destination");
    sym::cover(if failed(&o) { "refused" } else { "fetched" });
}

/// C12: a longer history
#[no_mangle]
pub extern "C" fn h_c12_long() {
    world::init();
    must(&["init"]);
    let n = sym::param("commits", 12) as usize;
    let mut keys: Vec<Key> = vec![];
    let b = sym::byte("data");
    for i in 0..n {
        world::write("/w/f", &[b, (i % 3) as u8]);
        must(&["commit", "-m", &format!("m{}", i)]);
        keys.push(open("/w").reflog_get("master", None).unwrap().inner());
    }
    let ds = open("/w");
    let log: Vec<Key> = ds.reflog_walk("master", None).unwrap().iter().map(|k| k.inner()).collect();
    let newest: Vec<Key> = keys.iter().rev().copied().collect();
    sym::check(log == newest, "the entries of a branch are not its tips");
    for i in (0..n).rev() {
        let c = Commit::from_key(&ds, keys[i].into());
        sym::check(c.attrs().message() == format!("m{}", i), "a commit has another message");
        let p: Vec<Key> = c.parents().iter().map(|x| x.inner()).collect();
        if i == 0 {
            sym::check(p.is_empty(), "a first commit has a parent");
        } else {
            sym::check(p.len() == 1 && p[0] == keys[i - 1], "a commit does not have the one parent it should");
        }
    }
    drop(ds);
    let o = must(&["log"]);
    let got: Vec<&str> = o.out_str().lines().filter_map(|l| l.strip_prefix("commit: ")).map(|x| x.trim()).collect();
    let want: Vec<String> = newest.iter().map(|x| x.to_string()).collect();
    sym::check(got.len() == want.len() && got.iter().zip(want.iter()).all(|(a, b)| a == b), "the log is not the history of the branch");
    sym::cover("long");
}

/// C27: a long chain, its trees alternating or all alike
#[no_mangle]
pub extern "C" fn h_c27_long() {
    world::init();
    let n = [2usize, 40, 120][sym::choice("commits", sym::param("counts", 3) as u32) as usize];
    let mut ds = mem();
    plant("a", &vec![("f".into(), F, b"x\n".to_vec())]);
    plant("b", &vec![("f".into(), F, b"x\ny\n".to_vec()), ("g".into(), F, b"z".to_vec())]);
    let trees = [put(&mut ds, "a"), put(&mut ds, "b")];
    let alike = sym::flag("alike");
    // messages alike as well: the commits still differ in their parents
    let same = sym::flag("messages");
    let mut tip: Option<snapcd::key::TypedKey<Commit>> = None;
    let mut all = vec![];
    for i in 0..n {
        let mut attrs = snapcd::commit::CommitAttrs::default();
        attrs.set_message(if same { "m".to_string() } else { format!("m{}", i) });
        let t = trees[if alike { 0 } else { i % 2 }];
        let k = snapcd::commit::commit_tree(&mut ds, t.into(), tip.into_iter().collect(), attrs).unwrap();
        all.push(k.to_string());
        tip = Some(k);
    }
    let o = world::call(&mut || {
        if snapcd::display::log_obj(&mut ds, tip.unwrap().inner(), snapcd::display::Kind::Stat).is_err() {
            println!("=error");
        }
    });
    sym::check(o.code == 0 && !has(&o.out, b"=error"), "the log crashes or fails");
    let got: Vec<&str> = o.out_str().lines().filter_map(|l| l.strip_prefix("commit: ")).map(|x| x.trim()).collect();
    sym::check(got.len() == n && got.iter().zip(all.iter().rev()).all(|(a, b)| a == b), "the log is not the chain of first parents");
    sym::cover("chain");
}

/// C20: many lines
#[no_mangle]
pub extern "C" fn h_c20_many() {
    world::init();
    let n = [255usize, 256, 257, 4096, 65535, 65536, 70000][sym::choice("lines", sym::param("counts", 7) as u32) as usize];
    let mut long: Vec<u8> = vec![b'\n'; n];
    long[n / 3] = b'x';
    if n <= 257 {
        long[n / 3] = sym::byte("byte");
        sym::assume(long[n / 3] < 0x80 && long[n / 3] != b'\n');
    }
    let t = |x: &[u8]| -> Tree { vec![("f".into(), F, x.to_vec())] };
    let how = sym::choice("how", 4);
    let mut short = vec![];
    let (a, b): (Tree, Tree) = match how {
        0 => (vec![], t(&long)),
        1 => (t(&long), vec![]),
        2 => (t(b""), t(&long)),
        _ => {
            // a few lines less
            short = long[..n - 3].to_vec();
            if n > 300 {
                // (the comparison of long texts is quadratic)
                sym::end();
            }
            (t(&long), t(&short))
        }
    };
    let o = run_two(&a, &b, |ds, r| diff::print_stat_diff_result(ds, r));
    sym::check(o.code == 0, "printing statistics crashes");
    let got = stat_line(o.out_str(), "f");
    match how {
        0 => check_stat(got, None, Some(&long)),
        1 => check_stat(got, Some(&long), None),
        2 => check_stat(got, Some(b""), Some(&long)),
        _ => check_stat(got, Some(&long), Some(&short)),
    }
    sym::cover("counted");
}

/// C21: many lines, far apart changes
#[no_mangle]
pub extern "C" fn h_c21_many() {
    world::init();
    let n = sym::param("lines", 260) as usize;
    let old: Vec<String> = (0..n).map(|i| format!("l{}", i)).collect();
    let mut new = old.clone();
    let c = sym::bytes("char", 1);
    sym::assume((c[0] < 0x80) & (c[0] != b'\n'));
    let c = unsafe { String::from_utf8_unchecked(c) };
    let places = [vec![n - 1, 0], vec![n - 2, n - 12, 5], vec![n - 4], vec![n - 5, n - 14, n - 23, n - 32]][sym::choice("places", 4) as usize].clone();
    for p in &places {
        match sym::choice("edit", 3) {
            0 => new[*p] = c.clone(),
            1 => {
                new.remove(*p);
            }
            _ => new.insert(*p, c.clone()),
        }
    }
    let end = sym::flag("newline");
    let join = |v: &Vec<String>, e: bool| -> Vec<u8> {
        let mut s = v.join("\n");
        if e {
            s.push('\n');
        }
        s.into_bytes()
    };
    let (a, b) = (join(&old, true), join(&new, end));
    let h = patch_of(Some(&a), Some(&b));
    check_patch(&h, &a, &b);
    sym::cover(if h.len() > 2 { "several hunks" } else { "few hunks" });
}

const TEXTS: &[&[u8]] = &[b"", b"one\n", b"one\ntwo\nthree\n", b"two\nthree\nfour", b"1\n2\n3\n4\n5\n6\n7\n8\n9\n10\n11\n12\n13\n14\n15\n16\n"];

/// C20, C21, C27: what `show`, `log` and `compare -s` print
#[no_mangle]
pub extern "C" fn h_c21_show() {
    world::init();
    must(&["init"]);
    let line = sym::byte("line");
    sym::assume((line < 0x80) & (line != b'\n') & (line != b'\r'));
    let text = |n: u32| -> Vec<u8> {
        let mut v = TEXTS[n as usize].to_vec();
        if n == 4 {
            v[4] = line;
        }
        v
    };
    let first: Tree = vec![("f".into(), F, text(sym::choice("old", 3) * 2)), ("g".into(), F, b"g\n".to_vec())];
    plant("/w", &first);
    let c1 = must(&["commit", "-m", "first"]);
    let _ = c1;
    let k1 = open("/w").reflog_get("master", None).unwrap().to_string();
    world::write("f", &text(1 + sym::choice("new", 4)));
    match sym::choice("also", 3) {
        0 => {}
        1 => std::fs::remove_file("g").unwrap(),
        _ => {
            world::mkdir("d");
            world::write("d/h", b"h");
        }
    }
    let second = without(&world::tree("/w"), &[".snapcd"]);
    match sym::choice("command", 3) {
        0 => {
            must(&["commit", "-m", "second"]);
            let k2 = open("/w").reflog_get("master", None).unwrap().to_string();
            match sym::choice("which", 3) {
                0 => check_show(&must(&["show"]), &first, &second, &k2, "second"),
                1 => check_show(&must(&["show", &k2[..16]]), &first, &second, &k2, "second"),
                _ => check_show(&must(&["show", &k1]), &vec![], &first, &k1, "first"),
            }
        }
        1 => {
            let o = must(&["compare", "-s"]);
            check_numbers(o.out_str(), &first, &second);
        }
        _ => {
            must(&["commit", "-m", "second"]);
            let o = must(&["log"]);
            let s = o.out_str();
            let at = match s.rfind("commit: ") {
                Some(i) => i,
                None => sym::fail("a commit is missing in the log"),
            };
            sym::check(s[..at].contains("second") && s[at..].contains("first"), "a commit's message is missing in the log");
            check_numbers(&s[..at], &first, &second);
            check_numbers(&s[at..], &vec![], &first);
        }
    }
    sym::cover("shown");
}
fn check_show(o: &world::Outcome, a: &Tree, b: &Tree, key: &str, msg: &str) {
    let s = o.out_str();
    sym::check(s.contains(key) && s.contains(msg), "a commit is shown with another key or message");
    let at = match s.find("--- ") {
        Some(i) => i,
        None => s.len(),
    };
    check_sections(&o.out[at..], a, b);
}
fn check_numbers(out: &str, a: &Tree, b: &Tree) {
    let mut names: Vec<&String> = a.iter().chain(b.iter()).map(|x| &x.0).collect();
    names.sort();
    names.dedup();
    for n in names {
        let get = |t: &Tree| -> Option<Vec<u8>> { t.iter().find(|x| x.0 == *n && !x.1).map(|x| x.2.clone()) };
        let (x, y) = (get(a), get(b));
        // (lines of the log that are not statistics)
        let own: String = out.lines().filter(|l| l.starts_with(&format!("{} ", n))).map(|l| format!("{}\n", l)).collect();
        check_stat(stat_line(&own, n), x.as_deref(), y.as_deref());
    }
}

/// C28: many levels between the working directory and the repository
#[no_mangle]
pub extern "C" fn h_c28_deep() {
    world::init();
    let n = sym::param("levels", 24) as usize;
    let outer = sym::choice("outer", 3) as usize;
    let inner = sym::flag("inner");
    let mut p = String::from("/w");
    let mut want = "";
    for i in 0..n {
        p.push_str(["/d", "/.d", "/\u{e9}"][i % 3]);
        world::mkdir(&p);
        if i == outer * 2 {
            world::chdir(&p);
            must(&["init"]);
            must(&["debug", "set-head", "outer"]);
            want = "outer";
        }
        if i == n / 2 && inner {
            world::chdir(&p);
            must(&["init"]);
            must(&["debug", "set-head", "inner"]);
            want = "inner";
        }
    }
    world::chdir(&p);
    let o = must(&["debug", "get-head"]);
    sym::check(has(&o.out, format!("\"{}\"", want).as_bytes()), "another repository than the nearest is used");
    world::write(&format!("{}/f", p), &sym::bytes("f", 1));
    must(&["commit", "-m", "m"]);
    let o = must(&["status"]);
    sym::check(has(&o.out, format!("HEAD: {} ", want).as_bytes()), "another repository than the nearest is used");
    sym::cover(want);
}

/// C26: switching on after a switch, back and forth
#[no_mangle]
pub extern "C" fn h_c26_again() {
    world::init();
    must(&["init"]);
    plant("/w", &seed_tree());
    stamp("/w/a", 0);
    stamp("/w/d/x", 1);
    must(&["commit", "-m", "m"]);
    must(&["commit", "-m", "n", "dev"]);
    let base = without(&world::tree("/w"), &[".snapcd"]);
    let mut head = "master";
    let mut model = vec![("master", base.clone()), ("dev", base)];
    for i in 0..2 {
        if i == 0 {
            edit(30);
        } else {
            // (what can be done whatever the first one did)
            match sym::choice("again", 4) {
                0 => {}
                1 => world::write("/w/q", &sym::bytes("new", 1)),
                2 => world::mkdir("/w/q"),
                _ => {
                    // all there is goes
                    for x in without(&world::tree("/w"), &[".snapcd"]).iter().filter(|x| !x.0.contains('/')) {
                        let p = format!("/w/{}", x.0);
                        if x.1 {
                            std::fs::remove_dir_all(p).unwrap();
                        } else {
                            std::fs::remove_file(p).unwrap();
                        }
                    }
                }
            }
        }
        let now = without(&world::tree("/w"), &[".snapcd"]);
        if sym::flag("commit") {
            must(&["commit", "-m", "o"]);
            model.iter_mut().find(|x| x.0 == head).unwrap().1 = now.clone();
        }
        let to = if head == "dev" { "master" } else { "dev" };
        let clean = want(&model.iter().find(|x| x.0 == head).unwrap().1, &now).empty();
        let o = world::snapcd(&["checkout-head", to]);
        sym::check(!crashed(&o) && !failed(&o), "switching the branch crashes or fails");
        let h = snap("/w").head;
        if clean {
            head = to;
            sym::cover("switched");
        } else {
            sym::cover("refused");
        }
        sym::check(h.as_ref().map(|x| x.as_str()) == Some(head), "the branch is switched though there are changes, or not though there are none");
        if sym::param("twice", 0) == 0 && i == 0 && !clean {
            sym::end();
        }
    }
}

/// C05, C16: large files, through the program
#[no_mangle]
pub extern "C" fn h_c16_large() {
    world::init();
    must(&["init"]);
    let n = [70_000usize, 1_100_000, 5_000_000][sym::choice("size", sym::param("sizes", 2) as u32) as usize];
    let places = [0, n / 2, n - 1];
    let mut data: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8 & 0x7f).collect();
    let at = places[sym::choice("place", 3) as usize];
    data[at] = sym::byte("byte");
    world::mkdir("d");
    world::write("d/f", &data);
    world::write("g", b"g");
    must(&["commit", "-m", "m"]);
    let o = world::snapcd(&["status"]);
    sym::check(!failed(&o), "comparing fails");
    sym::check(!o.out_str().lines().any(|l| l.starts_with("  ")), "something is listed although nothing has changed");
    let k = insert("d");
    must(&["fetch", &k, "/tmp/o"]);
    sym::check(sym::eq(&world::read("/tmp/o/f").unwrap(), &data), "a fetched file differs");
    let to = places[sym::choice("edit", 3) as usize];
    let old = data[to];
    data[to] = sym::byte("new");
    world::write("d/f", &data);
    world::set_time("d/f", 1_600_000_000, 7);
    let o = world::snapcd(&["status"]);
    sym::check(!failed(&o), "comparing fails");
    let listed: Vec<&str> = o.out_str().lines().filter(|l| l.starts_with("  ")).collect();
    if data[to] == old {
        sym::check(listed.is_empty(), "something is listed although nothing has changed");
        sym::cover("clean");
    } else {
        sym::note(o.out_str());
        sym::check(listed == ["  d/f"], "a changed file is not listed, or something else is");
        sym::cover("changed");
    }
}

/// C05, C25, C35: the system takes only part of what is written at once
#[no_mangle]
pub extern "C" fn h_c05_short() {
    world::init();
    crate::p_checkout::mkdirs(crate::p_checkout::REPO);
    world::chdir(crate::p_checkout::REPO);
    must(&["init"]);
    let n = [2usize, 9000, 40000][sym::choice("size", 3) as usize];
    let mut data: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8 & 0x7f).collect();
    data[n - 1] = sym::byte("byte");
    world::mkdir("d");
    world::write("d/f", &data);
    let what = sym::choice("command", 4);
    let (mut kd, mut kf) = (String::new(), String::new());
    if what != 3 {
        kd = insert("d");
        kf = insert("d/f");
    }
    if what == 1 {
        must(&["commit", "-m", "m"]);
        world::write("d/f", b"other");
        world::set_time("d/f", 1_600_000_000, 7);
    }
    let c = world::ctl();
    c.on = true;
    c.scope = "/";
    c.short_writes = sym::param("shorts", 1) as u32;
    let o = match what {
        0 => world::snapcd(&["fetch", &kd, "/tmp/o"]),
        1 => world::snapcd(&["checkout"]),
        2 => world::snapcd(&["show", &kf]),
        _ => world::snapcd(&["insert", "d"]),
    };
    c.on = false;
    sym::check(!crashed(&o), "a command crashes");
    if failed(&o) {
        sym::cover("failed");
        sym::end();
    }
    if what == 3 {
        kd = match find_key(&o) {
            Some(k) => k,
            None => sym::fail("insert prints no key"),
        };
        must(&["fetch", &kd, "/tmp/o"]);
    }
    let got = match what {
        1 => world::read("d/f"),
        2 => Some(o.out.clone()),
        _ => world::read("/tmp/o/f"),
    };
    match got {
        Some(g) => sym::check(sym::eq(&g, &data), "data that is taken in parts is not all written"),
        None => sym::fail("data that is taken in parts is not all written"),
    }
    sym::cover("written");
}
