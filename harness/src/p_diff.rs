//! C15, C16, C19, C20, C21: differences between trees and between texts.
use crate::cli_util::*;
use crate::trees::*;
use crate::{sym, world};
use snapcd::dir::{put_fs_item, walk_fs_items};
use snapcd::ds::sqlite::SqliteDS;
use snapcd::key::Key;
use snapcd::{diff, DataStore};
use std::path::Path;

fn mem() -> SqliteDS {
    SqliteDS::new(":memory:").unwrap()
}
fn put(ds: &mut SqliteDS, path: &str) -> Key {
    match put_fs_item(ds, Path::new(path), &|_| true) {
        Ok(k) => k,
        Err(_) => sym::fail("a readable tree cannot be inserted"),
    }
}

// ---- what a comparison should say ----

#[derive(Default)]
pub struct Want {
    /// path, is a directory
    added: Vec<(String, bool)>,
    deleted: Vec<(String, bool)>,
    modified: Vec<String>,
    /// paths that changed between file and directory
    kind: Vec<String>,
}

/// the differences from old to new; splits on the equality of contents
pub fn want(old: &Tree, new: &Tree) -> Want {
    let mut w = Want::default();
    for x in new {
        match old.iter().find(|y| y.0 == x.0) {
            None => w.added.push((x.0.clone(), x.1)),
            Some(y) if y.1 != x.1 => w.kind.push(x.0.clone()),
            Some(y) => {
                if !x.1 && !sym::eq(&x.2, &y.2) {
                    w.modified.push(x.0.clone());
                }
            }
        }
    }
    for y in old {
        if !new.iter().any(|x| x.0 == y.0) {
            w.deleted.push((y.0.clone(), y.1));
        }
    }
    w
}
impl Want {
    pub fn empty(&self) -> bool {
        self.added.is_empty() && self.deleted.is_empty() && self.modified.is_empty() && self.kind.is_empty()
    }
}

// ---- what was printed ----

#[derive(Default)]
pub struct Listed {
    added: Vec<String>,
    deleted: Vec<String>,
    modified: Vec<String>,
    other: bool,
}

pub fn listed(out: &str) -> Listed {
    let mut l = Listed::default();
    let mut at = 0;
    for line in out.lines() {
        let t = line.trim_end_matches('/');
        match t {
            "added:" => at = 1,
            "deleted:" => at = 2,
            "modified:" => at = 3,
            _ if t.starts_with("  ") => {
                let p = t[2..].to_string();
                match at {
                    1 => l.added.push(p),
                    2 => l.deleted.push(p),
                    3 => l.modified.push(p),
                    _ => l.other = true,
                }
            }
            _ => {}
        }
    }
    l
}

/// entries of the list that are covered by a directory of the list
fn covered(list: &[(String, bool)], p: &str) -> bool {
    list.iter().any(|(q, d)| *d && p.len() > q.len() && p.starts_with(q.as_str()) && p.as_bytes()[q.len()] == b'/')
}

/// the condensed listing against the full difference
pub fn check_listing(l: &Listed, w: &Want, full: bool) {
    for (what, got, want) in [("added", &l.added, &w.added), ("deleted", &l.deleted, &w.deleted)].iter() {
        for p in got.iter() {
            if !want.iter().any(|x| x.0 == *p) && !w.kind.contains(p) {
                sym::note(what);
                sym::note(p);
                sym::fail("a path is listed as added or deleted that is not");
            }
            if got.iter().filter(|x| *x == p).count() > 1 {
                sym::fail("a path is listed twice");
            }
        }
        let mut dirs: Vec<(String, bool)> = want.to_vec();
        // a directory may also come or go where a file was
        dirs.extend(w.kind.iter().map(|p| (p.clone(), true)));
        for (p, _) in want.iter() {
            let shown = got.iter().any(|x| x == p);
            if !shown && (full || !covered(&dirs, p)) {
                sym::note(what);
                sym::note(p);
                sym::fail("an added or deleted path is not listed");
            }
            if !shown && covered(want, p) {
                // something that covers it has to be visible
                let vis = want.iter().any(|(q, d)| *d && got.contains(q) && covered(&[(q.clone(), true)], p));
                sym::check(vis || covered(&dirs, p) && !w.kind.is_empty(), "an entry is hidden and nothing that contains it is shown");
            }
        }
    }
    for p in &l.modified {
        if !w.modified.contains(p) && !w.kind.contains(p) {
            sym::note(p);
            sym::fail("a path is listed as modified that is not");
        }
        if l.modified.iter().filter(|x| *x == p).count() > 1 {
            sym::fail("a path is listed twice");
        }
    }
    for p in &w.modified {
        sym::check(l.modified.contains(p), "a modified file is not listed");
    }
    for p in &w.kind {
        sym::check(l.modified.contains(p) || l.added.contains(p) || l.deleted.contains(p), "a path that changed its kind is not listed");
    }
}

// ---- the full result, from its debugging form ----

struct Item {
    path: String,
    is_dir: Option<bool>,
    keys: Vec<String>,
}

/// the items of `name: [ ... ]`
fn section(s: &str, name: &str) -> Option<Vec<Item>> {
    let at = s.find(&format!("{}: [", name))? + name.len() + 3;
    let rest = &s[at..];
    let mut out = vec![];
    let mut depth = 0;
    let mut start = 0;
    for (i, c) in rest.char_indices() {
        match c {
            '{' => {
                if depth == 0 {
                    start = i;
                }
                depth += 1;
            }
            '}' => {
                depth -= 1;
                if depth == 0 {
                    let b = &rest[start..i];
                    let p = b.find("path: \"")? + 7;
                    let e = p + b[p..].find('"')?;
                    let is_dir = if b.contains("is_dir: true") {
                        Some(true)
                    } else if b.contains("is_dir: false") {
                        Some(false)
                    } else {
                        None
                    };
                    let key = |f: &str| -> String {
                        match b.find(f) {
                            Some(i) => {
                                let t = &b[i + f.len()..];
                                t.strip_prefix("Some(").unwrap_or(t).to_string()
                            }
                            None => String::new(),
                        }
                    };
                    out.push(Item { path: b[p..e].to_string(), is_dir, keys: vec![key("original_key: "), key("new_key: ")] });
                }
            }
            ']' if depth == 0 => return Some(out),
            _ => {}
        }
    }
    None
}

// ---- C15, C19: trees in the store ----

pub const PAIRS: &[Shape] = &[
    &[],
    &[("a", F)],
    &[("d", D), ("d/x", F)],
    &[("d", F), ("a", D)],
    &[("d", D), ("d.x", F), ("dx", F)],
    &[("d", D), ("d/e", F)],
    &[("a", F), ("d", D), ("d/e", D)],
    &[("d", D), ("d/e", D), ("d/e/x", F), ("d/y", F)],
    &[("a", F), ("b", F)],
    &[("d", D), ("d/x", F), ("d.x", F), ("dx", D), ("dx/y", F)],
];

struct Cmp {
    t: [Tree; 2],
    k: [Key; 2],
    ds: SqliteDS,
    none: bool,
}

/// two trees (old, new) in one store; old may be none at all
fn two_trees(shapes: &[Shape], len: u32) -> Cmp {
    let n = shapes.len() as u32;
    let i = sym::choice("old", n + 1);
    let j = sym::choice("new", n);
    let none = i == n;
    let a = if none { vec![] } else { fill(shapes[i as usize], len) };
    let b = fill(shapes[j as usize], len);
    plant("a", &a);
    plant("b", &b);
    let mut ds = mem();
    let ka = put(&mut ds, "a");
    let kb = put(&mut ds, "b");
    Cmp { t: [a, b], k: [ka, kb], ds, none }
}
fn compare_db(c: &mut Cmp) -> diff::DiffResult {
    let old = if c.none { None } else { Some(c.k[0].into()) };
    match diff::compare(&mut c.ds, diff::DiffTarget::Database(c.k[1].into()), old, None) {
        Ok(r) => r,
        Err(_) => sym::fail("comparing two stored trees fails"),
    }
}

/// C15: added, deleted and modified paths, kinds and keys
#[no_mangle]
pub extern "C" fn h_c15_trees() {
    world::init();
    let mut c = two_trees(&PAIRS[..sym::param("shapes", PAIRS.len() as u64) as usize], 1);
    let o = world::call(&mut || {
        let r = compare_db(&mut c);
        println!("{:?}", r);
    });
    sym::check(o.code == 0, "comparing two stored trees crashes");
    let w = want(&c.t[0], &c.t[1]);
    let s = String::from_utf8_lossy(&o.out);
    let (added, deleted, modified) = match (section(&s, "added"), section(&s, "deleted"), section(&s, "modified")) {
        (Some(a), Some(d), Some(m)) => (a, d, m),
        _ => {
            sym::note(&s);
            sym::cover("unreadable");
            sym::end()
        }
    };
    let l = Listed {
        added: added.iter().map(|x| x.path.clone()).collect(),
        deleted: deleted.iter().map(|x| x.path.clone()).collect(),
        modified: modified.iter().map(|x| x.path.clone()).collect(),
        other: false,
    };
    check_listing(&l, &w, true);
    for (list, want) in [(&added, &w.added), (&deleted, &w.deleted)].iter() {
        for x in list.iter() {
            if let (Some(d), Some(y)) = (x.is_dir, want.iter().find(|y| y.0 == x.path)) {
                sym::check(d == y.1, "an entry is listed with the wrong kind");
            }
        }
    }
    // keys
    let keys = |k: Key, t: &SqliteDS| walk_fs_items(t, k.into()).unwrap();
    let (ka, kb) = (keys(c.k[0], &c.ds), keys(c.k[1], &c.ds));
    let form = |m: &std::collections::HashMap<std::path::PathBuf, (snapcd::key::TypedKey<snapcd::dir::FSItem>, bool)>, p: &str| m.get(Path::new(p)).map(|x| format!("{:?}", x.0));
    for x in added.iter().chain(modified.iter()) {
        if w.kind.contains(&x.path) {
            continue;
        }
        if let (Some(f), false) = (form(&kb, &x.path), x.keys[1].is_empty()) {
            sym::check(x.keys[1].starts_with(&f), "an entry is listed with another key than that of the new tree");
        }
    }
    for x in deleted.iter().chain(modified.iter()) {
        if w.kind.contains(&x.path) {
            continue;
        }
        if let (Some(f), false) = (form(&ka, &x.path), x.keys[0].is_empty()) {
            sym::check(x.keys[0].starts_with(&f), "an entry is listed with another key than that of the old tree");
        }
    }
    sym::cover(if w.empty() { "equal" } else { "different" });
}

/// C15, C19: the same as printed, condensed
#[no_mangle]
pub extern "C" fn h_c19_listing() {
    world::init();
    let mut c = two_trees(&PAIRS[..sym::param("shapes", PAIRS.len() as u64) as usize], 1);
    let o = world::call(&mut || {
        let r = compare_db(&mut c);
        let e = diff::diff_result_empty(&r);
        diff::print_diff_result(r);
        println!("{}", if e { "=empty" } else { "=some" });
    });
    sym::check(o.code == 0, "printing a difference crashes");
    let w = want(&c.t[0], &c.t[1]);
    let l = listed(o.out_str());
    sym::check(has(&o.out, b"=empty") == w.empty(), "a difference is called empty that is not, or the reverse");
    check_listing(&l, &w, false);
    sym::cover(if w.empty() { "equal" } else { "different" });
    if l.added.len() < w.added.len() || l.deleted.len() < w.deleted.len() {
        sym::cover("condensed");
    }
}

// ---- C20, C21: texts ----

/// a text of up to n arbitrary ASCII characters
fn text(name: &str, n: u32) -> Vec<u8> {
    let k = sym::choice("chars", n + 1) as usize;
    let v = sym::bytes(name, k);
    let mut ok = true;
    for x in &v {
        ok &= *x < 0x80;
    }
    sym::assume(ok);
    v
}
fn newlines(b: &[u8]) -> i64 {
    b.iter().filter(|x| **x == b'\n').count() as i64
}
fn lines(b: &[u8]) -> i64 {
    newlines(b) + (!b.is_empty() && b[b.len() - 1] != b'\n') as i64
}
/// lines, the end of the text counted as one when it follows a newline
fn ends(b: &[u8]) -> i64 {
    if b.is_empty() { 0 } else { newlines(b) + 1 }
}

pub fn stat_line(out: &str, name: &str) -> Option<(i64, i64)> {
    let mut r = None;
    for l in out.lines() {
        let mut p = l.split_whitespace();
        let (n, a, d) = (p.next()?, p.next()?, p.next()?);
        if n == name {
            if r.is_some() {
                sym::fail("a file is listed twice in the statistics");
            }
            r = Some((a.strip_prefix('+')?.parse().ok()?, d.strip_prefix('-')?.parse().ok()?));
        }
    }
    r
}

pub fn check_stat(got: Option<(i64, i64)>, old: Option<&[u8]>, new: Option<&[u8]>) {
    match (old, new, got) {
        (None, None, None) => {}
        (None, None, Some(_)) => sym::fail("the statistics list what is not a changed file"),
        (Some(o), Some(n), g) => {
            if sym::eq(o, n) {
                sym::check(g.is_none(), "the statistics list an unchanged file");
            } else if let Some((a, d)) = g {
                sym::check(a != 0 || d != 0, "the statistics show no change for a changed text");
                let x = a - d;
                let ok = x == newlines(n) - newlines(o) || x == lines(n) - lines(o) || x == ends(n) - ends(o);
                sym::check(ok, "the statistics do not add up to the change in the number of lines");
                sym::check(a <= ends(n) && d <= ends(o), "the statistics count more lines than there are");
            } else {
                sym::fail("a changed file is missing in the statistics");
            }
        }
        (None, Some(n), g) => match g {
            Some((a, d)) => {
                sym::check(d == 0 && (a == newlines(n) || a == lines(n)), "the statistics of an added file are wrong");
            }
            None => sym::fail("an added file is missing in the statistics"),
        },
        (Some(o), None, g) => match g {
            Some((a, d)) => {
                sym::check(a == 0 && (d == newlines(o) || d == lines(o)), "the statistics of a deleted file are wrong");
            }
            None => sym::fail("a deleted file is missing in the statistics"),
        },
    }
}

pub fn run_two(old: &Tree, new: &Tree, f: fn(&SqliteDS, diff::DiffResult)) -> world::Outcome {
    plant("a", old);
    plant("b", new);
    let mut ds = mem();
    let ka = put(&mut ds, "a");
    let kb = put(&mut ds, "b");
    let mut c = Cmp { t: [vec![], vec![]], k: [ka, kb], ds, none: false };
    let o = world::call(&mut || {
        let r = compare_db(&mut c);
        f(&c.ds, r);
    });
    o
}

/// C20: one file, any two short texts
#[no_mangle]
pub extern "C" fn h_c20_text() {
    world::init();
    let n = sym::param("chars", 4) as u32;
    let a = text("old", n);
    let b = text("new", n);
    let t = |x: &Vec<u8>| -> Tree { vec![("f".into(), F, x.clone())] };
    let o = run_two(&t(&a), &t(&b), |ds, r| diff::print_stat_diff_result(ds, r));
    sym::check(o.code == 0, "printing statistics crashes");
    check_stat(stat_line(o.out_str(), "f"), Some(&a), Some(&b));
    sym::cover(if a == b { "same" } else { "changed" });
}

/// C20: files come, go and change together with directories
#[no_mangle]
pub extern "C" fn h_c20_trees() {
    world::init();
    let shapes = &PAIRS[..sym::param("shapes", PAIRS.len() as u64) as usize];
    let (i, j) = (sym::choice("old", shapes.len() as u32) as usize, sym::choice("new", shapes.len() as u32) as usize);
    let texts: [&[u8]; 5] = [b"", b"x\n", b"x", b"x\ny\n", b"\n\n\nz"];
    let mk = |s: Shape| -> Tree {
        let mut t: Tree = s.iter().map(|&(p, d)| (p.to_string(), d, if d { vec![] } else { texts[sym::choice("text", 2) as usize + (p.len() % 4)].to_vec() })).collect();
        t.sort_by(|a, b| a.0.cmp(&b.0));
        t
    };
    let (a, b) = (mk(shapes[i]), mk(shapes[j]));
    let o = run_two(&a, &b, |ds, r| diff::print_stat_diff_result(ds, r));
    sym::check(o.code == 0, "printing statistics crashes");
    let out = o.out_str();
    let mut names: Vec<&String> = a.iter().chain(b.iter()).map(|x| &x.0).collect();
    names.sort();
    names.dedup();
    for n in names {
        let get = |t: &Tree| -> Option<Vec<u8>> { t.iter().find(|x| x.0 == *n && !x.1).map(|x| x.2.clone()) };
        let (x, y) = (get(&a), get(&b));
        check_stat(stat_line(out, n), x.as_deref(), y.as_deref());
    }
    for l in out.lines().filter(|l| !l.trim().is_empty()) {
        let n = l.split_whitespace().next().unwrap_or("");
        if !a.iter().chain(b.iter()).any(|x| x.0 == n && !x.1) {
            sym::note(l);
            sym::fail("the statistics list what is not a file");
        }
    }
    sym::cover("done");
}

// ---- C21 ----

pub struct Hunk {
    old: (i64, i64),
    new: (i64, i64),
    /// kind, text with its newline if it has one
    lines: Vec<(u8, Vec<u8>)>,
}

/// the hunks of one file's patch
fn parse_patch(out: &[u8]) -> Option<Vec<Hunk>> {
    let ls: Vec<&[u8]> = out.split(|x| *x == b'\n').collect();
    let mut i = 0;
    let mut hunks = vec![];
    while i < ls.len() {
        let l = ls[i];
        if i == 0 && l.starts_with(b"--- ") && ls.len() > 1 && ls[1].starts_with(b"+++ ") {
            i += 2;
            continue;
        }
        if !l.starts_with(b"@@ ") {
            if l.is_empty() {
                i += 1;
                continue;
            }
            return None;
        }
        let s = std::str::from_utf8(l).ok()?;
        let mut p = s.split(' ');
        p.next();
        let range = |x: Option<&str>, c: char| -> Option<(i64, i64)> {
            let x = x?.strip_prefix(c)?;
            let mut q = x.split(',');
            let a = q.next()?.parse().ok()?;
            let b = match q.next() {
                Some(b) => b.parse().ok()?,
                None => 1,
            };
            Some((a, b))
        };
        let old = range(p.next(), '-')?;
        let new = range(p.next(), '+')?;
        let mut h = Hunk { old, new, lines: vec![] };
        i += 1;
        // the lines up to the next header; the counts are compared by the caller,
        // so they cannot be used to find the end
        while i < ls.len() {
            let l = ls[i];
            if l.starts_with(b"@@ ") {
                break;
            }
            if l.starts_with(b"\\") {
                // the line before has no newline
                let n = h.lines.len();
                if n == 0 {
                    return None;
                }
                h.lines[n - 1].1.pop();
            } else if l.is_empty() {
                // the end of the output
                if ls[i..].iter().any(|x| !x.is_empty()) {
                    return None;
                }
                break;
            } else {
                match l[0] {
                    b' ' | b'+' | b'-' => {
                        let mut t = l[1..].to_vec();
                        t.push(b'\n');
                        h.lines.push((l[0], t));
                    }
                    _ => return None,
                }
            }
            i += 1;
        }
        hunks.push(h);
    }
    Some(hunks)
}

fn split_lines(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut cur = vec![];
    for &c in b {
        cur.push(c);
        if c == b'\n' {
            v.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

/// the hunks' headers agree with their lines, and the old text becomes the new
pub fn check_patch(hunks: &[Hunk], old: &[u8], new: &[u8]) {
    let o = split_lines(old);
    let n = split_lines(new);
    let mut made: Vec<Vec<u8>> = vec![];
    let mut at = 0usize;
    for h in hunks {
        let olds: Vec<&Vec<u8>> = h.lines.iter().filter(|x| x.0 != b'+').map(|x| &x.1).collect();
        let news: Vec<&Vec<u8>> = h.lines.iter().filter(|x| x.0 != b'-').map(|x| &x.1).collect();
        sym::check(h.old.1 == olds.len() as i64 && h.new.1 == news.len() as i64, "the counts in a hunk's header are not those of its lines");
        // with no lines the start is the line before
        let start = (h.old.0 - (h.old.1 > 0) as i64) as usize;
        let nstart = (h.new.0 - (h.new.1 > 0) as i64) as usize;
        sym::check(h.old.0 >= (h.old.1 > 0) as i64 && start >= at && start + olds.len() <= o.len(), "a hunk does not lie within the old text");
        while at < start {
            made.push(o[at].clone());
            at += 1;
        }
        sym::check(made.len() == nstart, "a hunk's start in the new text is wrong");
        for (k, t) in &h.lines {
            match *k {
                b'+' => made.push(t.clone()),
                b'-' => {
                    sym::check(o[at] == *t, "a removed line is not that of the old text");
                    at += 1;
                }
                _ => {
                    sym::check(o[at] == *t, "a context line is not that of the old text");
                    made.push(t.clone());
                    at += 1;
                }
            }
        }
    }
    while at < o.len() {
        made.push(o[at].clone());
        at += 1;
    }
    sym::check(made == n, "applying the patch does not give the new text");
}

fn patch(ds: &SqliteDS, r: diff::DiffResult) {
    if diff::print_patch_diff_result(ds, r).is_err() {
        println!("=error");
    }
}

pub fn patch_of(a: Option<&[u8]>, b: Option<&[u8]>) -> Vec<Hunk> {
    let t = |x: Option<&[u8]>| -> Tree { x.map(|x| ("f".to_string(), F, x.to_vec())).into_iter().collect() };
    let o = run_two(&t(a), &t(b), patch);
    sym::check(o.code == 0, "printing a patch crashes");
    match parse_patch(&o.out) {
        Some(h) => h,
        None => {
            sym::note(&String::from_utf8_lossy(&o.out));
            sym::fail("the patch is malformed")
        }
    }
}

/// the patches of all files; returns how many there are
pub fn check_sections(out: &[u8], a: &Tree, b: &Tree) -> usize {
    // one section per changed file
    let ls: Vec<&[u8]> = out.split(|x| *x == b'\n').collect();
    let mut seen: Vec<String> = vec![];
    let mut k = 0;
    let head = |l: &[u8], h: &[u8]| l.len() > 4 && sym::eq(&l[..4], h);
    while k + 1 < ls.len() {
        if !head(ls[k], b"--- ") || !head(ls[k + 1], b"+++ ") {
            sym::check(ls[k].is_empty(), "something else is printed in a patch");
            k += 1;
            continue;
        }
        let name = String::from_utf8_lossy(&ls[k][4..]).to_string();
        let start = k;
        k += 2;
        while k < ls.len() && !(k + 1 < ls.len() && head(ls[k], b"--- ") && head(ls[k + 1], b"+++ ")) {
            k += 1;
        }
        let h = match parse_patch(&ls[start..k].join(&b'\n')) {
            Some(h) => h,
            None => sym::fail("the patch is malformed"),
        };
        sym::check(!seen.contains(&name), "a file appears twice in a patch");
        let get = |t: &Tree| -> Option<Vec<u8>> { t.iter().find(|x| x.0 == name && !x.1).map(|x| x.2.clone()) };
        let (x, y) = (get(a), get(b));
        sym::check(x.is_some() || y.is_some(), "something that is not a file appears in a patch");
        check_patch(&h, &x.unwrap_or_default(), &y.unwrap_or_default());
        seen.push(name);
    }
    let mut names: Vec<&String> = a.iter().chain(b.iter()).filter(|x| !x.1).map(|x| &x.0).collect();
    names.sort();
    names.dedup();
    for n in names {
        let get = |t: &Tree| -> Vec<u8> { t.iter().find(|x| x.0 == *n && !x.1).map(|x| x.2.clone()).unwrap_or_default() };
        if !sym::eq(&get(a), &get(b)) {
            sym::check(seen.contains(n), "a changed file is missing in the patch");
        }
    }
    seen.len()
}

/// C21: several files at once
#[no_mangle]
pub extern "C" fn h_c21_trees() {
    world::init();
    let shapes = &PAIRS[..sym::param("shapes", PAIRS.len() as u64) as usize];
    let (i, j) = (sym::choice("old", shapes.len() as u32) as usize, sym::choice("new", shapes.len() as u32) as usize);
    let mk = |s: Shape| -> Tree {
        let mut t: Tree = s
            .iter()
            .map(|&(p, d)| {
                // one arbitrary line, or nothing
                let mut x = vec![];
                if !d && sym::flag("text") {
                    x = sym::bytes("line", 1);
                    sym::assume((x[0] < 0x80) & (x[0] != b'\n'));
                    x.push(b'\n');
                }
                (p.to_string(), d, x)
            })
            .collect();
        t.sort_by(|a, b| a.0.cmp(&b.0));
        t
    };
    let (a, b) = (mk(shapes[i]), mk(shapes[j]));
    let o = run_two(&a, &b, patch);
    sym::check(o.code == 0, "printing a patch crashes");
    let seen = check_sections(&o.out, &a, &b);
    sym::cover(if seen > 1 { "several files" } else { "one file" });
}

/// C21: any two short texts
#[no_mangle]
pub extern "C" fn h_c21_text() {
    world::init();
    let n = sym::param("chars", 4) as u32;
    let a = text("old", n);
    let b = text("new", n);
    let h = match sym::choice("how", 3) {
        0 => patch_of(Some(&a), Some(&b)),
        1 => {
            if !a.is_empty() {
                sym::end();
            }
            patch_of(None, Some(&b))
        }
        _ => {
            if !b.is_empty() {
                sym::end();
            }
            patch_of(Some(&a), None)
        }
    };
    check_patch(&h, &a, &b);
    sym::cover(if a == b { "same" } else { "changed" });
}

/// C21: any bytes; those that are no text have no patch
#[no_mangle]
pub extern "C" fn h_c21_bytes() {
    world::init();
    let n = sym::param("bytes", 2) as u32;
    let how = sym::choice("how", 3);
    let a = if how == 1 { None } else { Some(blob("old", n)) };
    let b = if how == 2 { None } else { Some(blob("new", n)) };
    let t = |x: &Option<Vec<u8>>| -> Tree { x.iter().map(|x| ("f".to_string(), F, x.clone())).collect() };
    let o = run_two(&t(&a), &t(&b), patch);
    sym::check(o.code == 0, "printing a patch crashes");
    let text = |x: &Option<Vec<u8>>| x.as_ref().map_or(true, |x| std::str::from_utf8(x).is_ok());
    if o.out_str().contains("=error") {
        sym::check(!text(&a) || !text(&b), "a change of a text cannot be shown");
        sym::cover("refused");
        return;
    }
    let h = match parse_patch(&o.out) {
        Some(h) => h,
        None => sym::fail("the patch is malformed"),
    };
    check_patch(&h, &a.unwrap_or_default(), &b.unwrap_or_default());
    sym::cover("shown");
}

/// C21: long texts changed at some places, hunks that meet or do not
#[no_mangle]
pub extern "C" fn h_c21_long() {
    world::init();
    let n = sym::param("lines", 24) as usize;
    let mut old: Vec<String> = (0..n).map(|i| format!("l{}", i)).collect();
    if sym::flag("alike") {
        old = (0..n).map(|_| "l".to_string()).collect();
    }
    let mut new = old.clone();
    // from the back, so that the places mean lines of the old text
    let p = sym::choice("first", n as u32) as usize;
    let d = sym::choice("distance", sym::param("distance", 12) as u32) as usize;
    let mut at = vec![p];
    if d > 0 {
        if p + d >= n {
            sym::end();
        }
        at.insert(0, p + d);
    }
    // one arbitrary character, maybe that of the old lines
    let c = sym::bytes("char", 1);
    sym::assume((c[0] < 0x80) & (c[0] != b'\n'));
    let c = unsafe { String::from_utf8_unchecked(c) };
    for q in at {
        match sym::choice("edit", 3) {
            0 => new[q] = c.clone(),
            1 => {
                new.remove(q);
            }
            _ => new.insert(q, c.clone()),
        }
    }
    let end = |v: &Vec<String>| -> Vec<u8> {
        let mut s = v.join("\n");
        s.push('\n');
        s.into_bytes()
    };
    let (a, b) = (end(&old), end(&new));
    let h = patch_of(Some(&a), Some(&b));
    check_patch(&h, &a, &b);
    sym::cover(if h.len() > 1 { "two hunks" } else { "one hunk" });
}

// ---- C16: a directory against the store, by the program ----

pub fn stamp(p: &str, tick: i64) {
    world::set_time(p, 1_500_000_000 + tick / 10, tick % 10);
}
/// writes a file and gives it a time of its own
fn put_file(p: &str, d: &[u8], tick: i64) {
    world::write(p, d);
    stamp(p, tick);
}
fn one(name: &str) -> Vec<u8> {
    sym::bytes(name, 1)
}

/// changes to the working directory; what exists: a, d/, d/x, e/
pub fn edit(tick: i64) {
    match sym::choice("edit", sym::param("edits", 14) as u32) {
        0 => {}
        1 => put_file("/w/a", &one("new"), tick),
        2 => put_file("/w/d/x", &one("new"), tick),
        3 => put_file("/w/d/n", &one("new"), tick),
        4 => std::fs::remove_file("/w/a").unwrap(),
        5 => std::fs::remove_dir_all("/w/d").unwrap(),
        6 => {
            // a directory with something in it where nothing was
            world::mkdir("/w/n");
            put_file("/w/n/a", &one("new"), tick);
        }
        7 => std::fs::remove_dir("/w/e").unwrap(),
        8 => {
            // file to directory
            std::fs::remove_file("/w/a").unwrap();
            world::mkdir("/w/a");
            put_file("/w/a/b", &one("new"), tick);
        }
        9 => {
            // directory to file
            std::fs::remove_dir_all("/w/d").unwrap();
            put_file("/w/d", &one("new"), tick);
        }
        10 => stamp("/w/a", tick),
        11 => {
            let d = [one("new"), one("new")].concat();
            put_file("/w/d/x", &d, tick);
        }
        12 => {
            // two files change places
            std::fs::rename("/w/a", "/w/t").unwrap();
            std::fs::rename("/w/d/x", "/w/a").unwrap();
            std::fs::rename("/w/t", "/w/d/x").unwrap();
        }
        _ => {
            // an empty file and an empty directory more
            put_file("/w/e/f", b"", tick);
            world::mkdir("/w/e/g");
        }
    }
}

pub fn seed_tree() -> Tree {
    vec![("a".into(), F, one("a")), ("d".into(), D, vec![]), ("d/x".into(), F, one("x")), ("e".into(), D, vec![])]
}

fn check_clean(o: &world::Outcome, old: &Tree, new: &Tree) {
    sym::check(!crashed(o), "comparing a readable directory crashes");
    sym::check(!failed(o), "comparing a readable directory fails");
    let w = want(old, new);
    let l = listed(o.out_str());
    if w.empty() {
        sym::check(l.added.is_empty() && l.deleted.is_empty() && l.modified.is_empty(), "a difference is reported where there is none");
        sym::cover("clean");
    } else {
        check_listing(&l, &w, false);
        sym::cover("changed");
    }
}

/// C16: status after an edit, with what an earlier status remembered
#[no_mangle]
pub extern "C" fn h_c16_status() {
    world::init();
    must(&["init"]);
    let t = seed_tree();
    plant("/w", &t);
    stamp("/w/a", 0);
    stamp("/w/d/x", 1);
    must(&["commit", "-m", "m"]);
    if sym::flag("warm") {
        let o = must(&["status"]);
        check_clean(&o, &t, &t);
    }
    edit(3);
    let cwd = ["/w", "/w/e", "/w/d"][sym::choice("cwd", 3) as usize];
    if !Path::new(cwd).is_dir() {
        sym::end();
    }
    world::chdir(cwd);
    let o = match sym::choice("cmd", 3) {
        0 => world::snapcd(&["status"]),
        1 => world::snapcd(&["compare"]),
        _ => {
            let rel = if cwd == "/w" { "." } else { ".." };
            world::snapcd(&["compare", "-p", rel])
        }
    };
    world::chdir("/w");
    let now = without(&world::tree("/w"), &[".snapcd"]);
    check_clean(&o, &t, &now);
}

/// C16: two edits with a status after each, so that what is remembered of a
/// file goes stale; and another repository over the same files
#[no_mangle]
pub extern "C" fn h_c16_again() {
    world::init();
    must(&["init"]);
    let t = seed_tree();
    plant("/w", &t);
    stamp("/w/a", 0);
    stamp("/w/d/x", 1);
    must(&["commit", "-m", "m"]);
    must(&["status"]);
    let fresh = sym::flag("fresh");
    if fresh {
        // the repository is made anew, what the cache holds stays
        std::fs::remove_dir_all("/w/.snapcd").unwrap();
        must(&["init"]);
        let k = {
            world::mkdir("/tmp/empty");
            insert("/tmp/empty")
        };
        let o = world::snapcd(&["compare", &k, "-s"]);
        sym::check(!crashed(&o), "comparing a readable directory crashes");
        sym::check(!failed(&o), "comparing a readable directory fails");
        sym::check(has(&o.out, b"a ") && has(&o.out, b"d/x "), "an added file is missing in the statistics");
        sym::cover("other repository");
        return;
    }
    let b = one("b");
    put_file("/w/a", &b, 2);
    let now = without(&world::tree("/w"), &[".snapcd"]);
    let o = world::snapcd(&["status"]);
    check_clean(&o, &t, &now);
    let c = one("c");
    match sym::choice("then", 6) {
        0 => put_file("/w/a", &c, 4),
        3 => {
            // longer, its time kept
            let d = [&c[..], &c[..]].concat();
            put_file("/w/a", &d, 2);
        }
        4 => {
            // another file of the same size and time
            put_file("/w/z", &c, 2);
            std::fs::rename("/w/z", "/w/a").unwrap();
        }
        5 => {
            // empty, its time kept
            put_file("/w/a", b"", 2);
        }
        1 => {
            // replaced by another file
            put_file("/w/z", &c, 4);
            std::fs::rename("/w/z", "/w/a").unwrap();
        }
        _ => put_file("/w/d/x", &c, 12),
    }
    let now = without(&world::tree("/w"), &[".snapcd"]);
    let o = world::snapcd(&["status"]);
    check_clean(&o, &t, &now);
}

/// C16, by the library: any two trees, one of them on disk
#[no_mangle]
pub extern "C" fn h_c16_trees() {
    world::init();
    let shapes = &PAIRS[..sym::param("shapes", PAIRS.len() as u64) as usize];
    let mut c = two_trees(shapes, 1);
    world::mkdir("/w/b/.snapcd");
    let old = if c.none { None } else { Some(c.k[0].into()) };
    let (cwd, path) = [("/w", "b"), ("/w", "/w/b"), ("/w/b", "."), ("/w/a", "../b")][sym::choice("cwd", sym::param("cwds", 4) as u32) as usize];
    world::chdir(cwd);
    let o = world::call(&mut || {
        let mut cache = snapcd::cache::SqliteCache::new(":memory:").unwrap();
        match diff::compare(&mut c.ds, diff::DiffTarget::FileSystem(path.into(), vec![], "/w/b/.snapcd".into()), old, &mut cache) {
            Ok(r) => {
                println!("{}", if diff::diff_result_empty(&r) { "=empty" } else { "=some" });
                diff::print_diff_result(r);
            }
            Err(_) => println!("fatal: "),
        }
    });
    world::chdir("/w");
    let w = want(&c.t[0], &c.t[1]);
    check_clean(&o, &c.t[0], &c.t[1]);
    sym::check(has(&o.out, b"=empty") == w.empty(), "a difference is called empty that is not, or the reverse");
}
