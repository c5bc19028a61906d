//! Directory trees: concrete names, contents chosen by the caller.
use crate::{sym, world};

pub type Tree = Vec<(String, bool, Vec<u8>)>;
/// relative path, is a directory
pub type Shape = &'static [(&'static str, bool)];

pub const F: bool = false;
pub const D: bool = true;

/// arbitrary bytes of arbitrary length up to max
pub fn blob(name: &str, max: u32) -> Vec<u8> {
    let n = sym::choice("len", max + 1) as usize;
    sym::bytes(name, n)
}

/// a tree of this shape with arbitrary file contents of up to max bytes
pub fn fill(shape: Shape, max: u32) -> Tree {
    let mut t: Tree = vec![];
    for &(p, d) in shape {
        t.push((p.to_string(), d, if d { vec![] } else { blob("data", max) }));
    }
    t.sort_by(|a, b| a.0.cmp(&b.0));
    t
}

/// writes it below base, in the given or the reverse order of creation
pub fn plant(base: &str, t: &Tree) {
    if !std::path::Path::new(base).is_dir() {
        world::mkdir(base);
    }
    for (p, d, data) in t {
        let full = format!("{}/{}", base, p);
        if *d {
            world::mkdir(&full);
        } else {
            world::write(&full, data);
        }
    }
}
/// the same, entries of each directory created last to first
pub fn plant_rev(base: &str, t: &Tree) {
    if !std::path::Path::new(base).is_dir() {
        world::mkdir(base);
    }
    rec(base, "", t);
}
fn rec(base: &str, dir: &str, t: &Tree) {
    for (p, d, data) in t.iter().rev() {
        let parent = p.rfind('/').map_or("", |i| &p[..i]);
        if parent != dir {
            continue;
        }
        let full = format!("{}/{}", base, p);
        if *d {
            world::mkdir(&full);
            rec(base, p, t);
        } else {
            world::write(&full, data);
        }
    }
}

/// removes what is below base
pub fn clear(base: &str) {
    for e in std::fs::read_dir(base).unwrap() {
        let e = e.unwrap();
        if e.file_type().unwrap().is_dir() {
            std::fs::remove_dir_all(e.path()).unwrap();
        } else {
            std::fs::remove_file(e.path()).unwrap();
        }
    }
}

/// entries of a listing that are not at or below any of these paths
pub fn without(t: &Tree, skip: &[&str]) -> Tree {
    t.iter()
        .filter(|(p, _, _)| !skip.iter().any(|s| p == s || (p.starts_with(s) && p.as_bytes()[s.len()] == b'/')))
        .cloned()
        .collect()
}
