//! C33: what references lead to.
use crate::cli_util::*;
use crate::p_cmd::open;
use crate::{sym, world};
use snapcd::key::Key;
use snapcd::object::ObjType;
use snapcd::{DataStore, GetReflogError, Keyish};

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Commit,
    Item,
    Data,
}

/// the object is there, is what it has to be, and so is everything it names
fn whole(ds: &impl DataStore, k: Key, kind: Kind, seen: &mut Vec<(Key, Kind)>) {
    if seen.contains(&(k, kind)) {
        return;
    }
    seen.push((k, kind));
    let o = match ds.get_obj(k) {
        Ok(o) => o,
        Err(_) => sym::fail("something a reference leads to is missing"),
    };
    let (ok, next): (bool, Kind) = match o.objtype() {
        ObjType::Commit => (kind == Kind::Commit, Kind::Commit),
        ObjType::FSItemDir => (kind == Kind::Item, Kind::Item),
        ObjType::FSItemFile => (kind == Kind::Item, Kind::Data),
        ObjType::FileBlobTree | ObjType::FileBlob => (kind == Kind::Data, Kind::Data),
        _ => (false, Kind::Data),
    };
    sym::check(ok, "something a reference leads to is of the wrong kind");
    for (i, c) in o.keys().iter().enumerate() {
        whole(ds, *c, if kind == Kind::Commit && i == 0 { Kind::Item } else { next }, seen);
    }
    sym::check(kind != Kind::Commit || !o.keys().is_empty(), "a commit names no tree");
}

const REFS: [(&str, Option<&str>); 4] = [("master", None), ("dev", None), ("dev", Some("o")), ("master", Some("o"))];

pub fn check_refs(repo: &str) {
    let ds = open(repo);
    let mut seen = vec![];
    for (name, remote) in REFS.iter() {
        let all = match ds.reflog_walk(name, *remote) {
            Ok(a) => a,
            Err(_) => sym::fail("the history of a reference cannot be read"),
        };
        match ds.reflog_get(name, *remote) {
            Ok(k) => sym::check(all.first() == Some(&k), "a reference is not its latest update"),
            Err(GetReflogError::NotFound) => sym::check(all.is_empty(), "a reference is not its latest update"),
            Err(_) => sym::fail("a reference cannot be read"),
        }
        for k in all {
            whole(&ds, k.inner(), Kind::Commit, &mut seen);
        }
    }
    // and every other commit, whatever is to become of it
    let keys = match ds.raw_between(&[], None) {
        Ok(k) => k,
        Err(_) => sym::fail("the stored keys cannot be listed"),
    };
    for k in keys {
        let k = match Key::from_db_key(&k) {
            Ok(k) => k,
            Err(_) => sym::fail("a stored key cannot be read"),
        };
        if let Ok(ObjType::Commit) = ds.get_obj(k).map(|o| o.objtype()) {
            whole(&ds, k, Kind::Commit, &mut seen);
        }
    }
}

/// the keys of what is stored: a commit, a directory, a file, its data;
/// and one of nothing
fn kinds() -> Vec<String> {
    let ds = open("/w");
    let mut v = vec![];
    let c = ds.canonicalize("/master".parse::<Keyish>().unwrap()).unwrap();
    v.push(c.to_string());
    let t = ds.get_obj(c).unwrap().keys()[0];
    v.push(t.to_string());
    let f = ds.get_obj(t).unwrap().keys()[0];
    v.push(f.to_string());
    let b = ds.get_obj(f).unwrap().keys()[0];
    v.push(b.to_string());
    v.push(Key::Blake3B([0x11; 32]).to_string());
    v
}

/// C33: commands that name objects
#[no_mangle]
pub extern "C" fn h_c33_named() {
    world::init();
    must(&["init"]);
    world::write("/w/f", b"f\n");
    must(&["commit", "-m", "m"]);
    let mut keys = kinds();
    let mut refused = false;
    for i in 0..sym::param("steps", 2) {
        let n = keys.len() as u32;
        let o = match sym::choice("what", 5) {
            0 => {
                let k = keys[sym::choice("key", n) as usize].clone();
                world::snapcd(&["ref", "update", &k, ["dev", "master"][sym::choice("ref", 2) as usize]])
            }
            1 => {
                let k = keys[sym::choice("key", n) as usize].clone();
                world::snapcd(&["debug", "reflog-push", &k, "dev", "o"])
            }
            2 => {
                let k = keys[sym::choice("key", n) as usize].clone();
                let p = sym::choice("parent", n + 1) as usize;
                let mut args = vec!["debug", "commit-tree", &k];
                if p < keys.len() {
                    args.push(&keys[p]);
                }
                let o = world::snapcd(&args);
                if !failed(&o) {
                    keys.push(o.out_str().trim().to_string());
                }
                o
            }
            3 => {
                world::write("/w/f", &[b'0' + i as u8, b'\n']);
                world::snapcd(&["commit", "-m", "n"])
            }
            _ => world::snapcd(&["checkout-head", "dev"]),
        };
        sym::check(!crashed(&o), "a command crashes");
        if failed(&o) {
            refused = true;
            break;
        }
    }
    check_refs("/w");
    for c in ["status", "log"].iter() {
        let o = world::snapcd(&[c]);
        sym::check(!crashed(&o), "a command crashes on what a reference leads to");
    }
    sym::cover(if refused { "refused" } else { "done" });
}

/// C33: what is stored on the way, by two repositories with one cache
#[no_mangle]
pub extern "C" fn h_c33_nested() {
    world::init();
    must(&["init"]);
    world::mkdir("/w/d");
    world::write("/w/d/x", &sym::bytes("x", 1));
    world::chdir("/w/d");
    // the nearest repository is found unless it is told
    world::mkdir("/w/d/e");
    world::write("/w/d/e/y", b"y");
    must(&["init"]);
    for _ in 0..sym::param("steps", 3) {
        world::chdir(if sym::flag("outer") { "/w" } else { "/w/d" });
        match sym::choice("what", 6) {
            0 => drop(must(&["commit", "-m", "m"])),
            1 => drop(must(&["commit", "-m", "m", "-e", "*x"])),
            2 => drop(must(&["commit", "-m", "m", "-p", "/w/d/x"])),
            3 => drop(world::snapcd(&["compare"])),
            4 => drop(world::snapcd(&["status"])),
            _ => world::write("/w/d/x", &sym::bytes("new", 1)),
        }
    }
    check_refs("/w");
    check_refs("/w/d");
    sym::cover("done");
}
