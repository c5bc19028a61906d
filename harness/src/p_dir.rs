//! C04, C05, C06, C17: directory trees in and out of the store.
use crate::cli_util::*;
use crate::trees::*;
use crate::{sym, world};
use snapcd::dir::{get_fs_item, put_fs_item};
use snapcd::ds::sqlite::SqliteDS;
use snapcd::key::Key;
use snapcd::object::Object;
use snapcd::DataStore;
use std::path::Path;

fn mem() -> SqliteDS {
    SqliteDS::new(":memory:").unwrap()
}
fn put(ds: &mut SqliteDS, path: &str) -> Key {
    match put_fs_item(ds, Path::new(path), &|_| true) {
        Ok(k) => k,
        Err(_) => sym::fail("a readable tree cannot be inserted"),
    }
}

// ---- C04 ----

const ORDERED: &[Shape] = &[
    &[("a", F), ("b", F), ("c", F)],
    &[("a", F), ("d", D), ("d/x", F), ("d/y", F), ("e", D)],
    &[("B", F), ("a", D), ("a.b", F), ("a/b", F)],
    &[("d", D), ("d/e", D), ("d/e/x", F), ("d/e/y", F), ("d/f", F)],
    &[("1", F), ("10", F), ("2", F), ("\u{e9}", F)],
];

/// C04: the listing order, the place and the times do not matter
#[no_mangle]
pub extern "C" fn h_c04_order() {
    world::init();
    let shape = ORDERED[sym::choice("shape", sym::param("shapes", ORDERED.len() as u64) as u32) as usize];
    let t = fill(shape, 1);
    plant("t", &t);
    let mut ds = mem();
    let k = put(&mut ds, "t");
    match sym::choice("how", 3) {
        0 => {
            // any order of listing, every directory on its own
            let c = world::ctl();
            c.on = true;
            c.shuffle = true;
            c.scope = "/w/t";
            let k2 = put(&mut ds, "t");
            world::ctl().on = false;
            sym::check(k == k2, "the key depends on the order in which entries are listed");
            sym::cover("shuffled");
        }
        1 => {
            world::mkdir("o");
            plant_rev("o/u", &t);
            world::ctl().dir_size = [4096, 0, 1 << 20][sym::choice("dirsize", 3) as usize];
            world::set_time(&format!("o/u/{}", t[0].0), 1_000_000_000, 5);
            let k2 = put(&mut mem(), "/w/o/u");
            sym::check(k == k2, "the key depends on the place, the times or the order of creation");
            sym::cover("copied");
        }
        _ => {
            // other things stored in between
            ds.put(b"x".to_vec()).unwrap();
            world::chdir("t");
            let k2 = put(&mut ds, ".");
            sym::check(k == k2, "the key depends on how the path is written");
            sym::cover("again");
        }
    }
}

const SHAPES: &[Shape] = &[
    &[],
    &[("a", F)],
    &[("b", F)],
    &[("a", D)],
    &[("a", D), ("a/b", F)],
    &[("a", D), ("a/b", D)],
    &[("a", F), ("b", F)],
    &[("a", F), ("b", D)],
    &[("a", D), ("b", F)],
    &[("a", D), ("b", D)],
    &[("ab", F)],
    &[("a", D), ("a/a", F), ("b", F)],
    &[("a", D), ("b", D), ("b/a", F)],
    &[("a", D), ("b", D), ("a/a", F)],
    &[("A", F)],
    &[("a ", F)],
];

/// C04: different trees have different keys, equal ones equal keys
#[no_mangle]
pub extern "C" fn h_c04_distinct() {
    world::init();
    let n = sym::param("shapes", SHAPES.len() as u64) as u32;
    let i = sym::choice("shape", n);
    let j = sym::choice("other", n);
    if j < i {
        sym::end();
    }
    let a = fill(SHAPES[i as usize], 1);
    let b = fill(SHAPES[j as usize], 1);
    plant("a", &a);
    plant("b", &b);
    let mut ds = mem();
    let ka = put(&mut ds, "a");
    let kb = put(&mut ds, "b");
    if same_tree_fork(&a, &b) {
        sym::check(ka == kb, "equal trees have different keys");
        sym::cover("equal");
    } else {
        sym::check(ka != kb, "different trees have the same key");
        sym::cover("different");
    }
}
fn same_tree_fork(a: &Tree, b: &Tree) -> bool {
    world::same_tree(a, b)
}

/// C04: a file as the root, and content at one place of a large file
#[no_mangle]
pub extern "C" fn h_c04_file() {
    world::init();
    let mut ds = mem();
    let size = [1usize, 9000, 40000, 140000][sym::choice("size", 4) as usize];
    let at = [0, size / 2, size - 1][sym::choice("at", 3) as usize];
    let mut d = vec![0x21u8; size];
    world::write("f", &d);
    let k = put(&mut ds, "f");
    let b = sym::byte("byte");
    let cut = sym::flag("longer");
    d[at] = b;
    if cut {
        d.push(0);
    }
    world::write("g", &d);
    let k2 = put(&mut ds, "g");
    sym::check((k == k2) == (!cut && b == 0x21), "the key does not tell the contents of a file");
    world::mkdir("d");
    world::write("d/f", &d);
    let k3 = put(&mut ds, "d");
    sym::check(k3 != k2, "a directory and its only file have the same key");
    sym::cover("done");
}

// ---- C05 ----

const TREES: &[Shape] = &[
    &[],
    &[("a", F)],
    &[("e", D)],
    &[("a", F), ("b", F), ("d", D), ("d/x", F)],
    &[("d", D), ("d/e", D), ("d/e/f", D)],
    &[("d", D), ("d/e", D), ("d/e/f", F), ("d/g", F), ("h", D)],
    &[("a", F), ("a.txt", F), ("aa", D), ("aa/a", F)],
    &[("\u{e9}\u{20ac}", F), (" ", D), ("-x", F), ("...", F), (" /\u{1f600}", F)],
    &[("..a", F), ("a..", D), ("a../b", F), ("a\\b", F), ("*?[", F)],
    &[("x", D), ("x/x", D), ("x/x/x", F), ("y", F)],
    &[(".snapcd", F), (".git", D), (".git/.snapcd", D)],
];

/// C05: every shape of tree comes back
#[no_mangle]
pub extern "C" fn h_c05_trees() {
    world::init();
    let shape = TREES[sym::choice("shape", sym::param("shapes", TREES.len() as u64) as u32) as usize];
    let t = fill(shape, sym::param("len", 2) as u32);
    plant("t", &t);
    let mut ds = mem();
    let k = put(&mut ds, "t");
    let dest = ["o", "n/e/w", "o/", "/w/p/q"][sym::choice("dest", 4) as usize];
    match get_fs_item(&ds, k.into(), Path::new(dest)) {
        Ok(()) => {}
        Err(_) => sym::fail("a stored tree cannot be fetched"),
    }
    sym::check(Path::new(dest).is_dir(), "the fetched directory is missing");
    let got = world::tree(dest);
    sym::check(world::same_tree(&got, &t), "the fetched tree differs from the one inserted");
    sym::cover("same");
}

/// C05: a single file, of some size
#[no_mangle]
pub extern "C" fn h_c05_file() {
    world::init();
    let size = [0usize, 1, 8192, 33000, 100000][sym::choice("size", 5) as usize];
    let mut d = vec![0x22u8; size];
    for x in d.iter_mut().take(2) {
        *x = sym::byte("data");
    }
    if size > 4 {
        d[size - 1] = sym::byte("data");
    }
    world::write("f", &d);
    let mut ds = mem();
    let k = put(&mut ds, "f");
    let dest = ["o", "n/e/w", "/w/p"][sym::choice("dest", 3) as usize];
    match get_fs_item(&ds, k.into(), Path::new(dest)) {
        Ok(()) => {}
        Err(_) => sym::fail("a stored file cannot be fetched"),
    }
    match world::read(dest) {
        Some(g) => sym::check(sym::eq(&g, &d), "the fetched file differs from the one inserted"),
        None => sym::fail("the fetched file is missing"),
    }
    sym::cover("same");
}

/// C05: by the program itself, with the key it prints, from two places
#[no_mangle]
pub extern "C" fn h_c05_cli() {
    world::init();
    must(&["init"]);
    let shape = TREES[sym::choice("shape", sym::param("shapes", 6) as u32) as usize];
    let t = fill(shape, 1);
    plant("t", &t);
    world::mkdir("s");
    if sym::flag("cwd") {
        let k = insert("t");
        must(&["fetch", &k, "o"]);
    } else {
        world::chdir("s");
        let k = insert("../t");
        // a prefix of the key will do
        must(&["fetch", &k[..12], "../o"]);
        world::chdir("/w");
    }
    sym::check(Path::new("o").is_dir(), "the fetched directory is missing");
    let got = world::tree("o");
    sym::check(world::same_tree(&got, &t), "the fetched tree differs from the one inserted");
    sym::check(world::same_tree(&world::tree("t"), &t), "inserting or fetching changes the source");
    sym::cover("same");
}

// ---- C06 ----

/// names a stored tree might contain; the placeholder of the same length is inserted
const HOSTILE: &[&str] = &[
    "..", ".", "../e", "../esc", "../../esc", "/w/esc", "/esc", "/w", "/", "x/../../e", "./../e", "../t/a", "/w/t/a", "x/..", "a/b", "..//e", "../old/k", "/w/old/k", "ok", "..a", "",
];

/// a directory object whose one entry has another name
pub fn renamed(ds: &mut SqliteDS, dir: Key, from: &str, to: &str) -> Option<Key> {
    let o = ds.get_obj(dir).ok()?.into_owned();
    let mut d = o.data().to_vec();
    let f = from.as_bytes();
    let at = d.windows(f.len()).position(|w| w == f)?;
    d[at..at + f.len()].copy_from_slice(to.as_bytes());
    let n = Object::new(&d, o.keys(), o.objtype());
    ds.put_obj(&n).ok()
}

/// C06: whatever the names are, nothing outside the destination changes
#[no_mangle]
pub extern "C" fn h_c06_names() {
    world::init();
    let bad = HOSTILE[sym::choice("name", HOSTILE.len() as u32 - 1) as usize];
    let hold: String = "Zq".chars().cycle().take(bad.len()).collect();
    let dirs = sym::flag("dir");
    let deep = sym::flag("deep");
    world::mkdir("old");
    world::write("old/k", b"keep");
    world::mkdir("t");
    world::write("t/a", b"a");
    world::mkdir("src");
    let b = blob("data", 1);
    if dirs {
        world::mkdir(&format!("src/{}", hold));
        if sym::flag("full") {
            world::write(&format!("src/{}/f", hold), &b);
        }
    } else {
        world::write(&format!("src/{}", hold), &b);
    }
    let mut ds = mem();
    let k = put(&mut ds, "src");
    let mut k = match renamed(&mut ds, k, &hold, bad) {
        Some(k) => k,
        None => sym::end(),
    };
    if deep {
        // inside another directory
        world::mkdir("up");
        world::mkdir("up/sub");
        let up = put(&mut ds, "up");
        let o = ds.get_obj(up).unwrap().into_owned();
        let n = Object::new(o.data(), &[k], o.objtype());
        k = ds.put_obj(&n).unwrap();
    }
    let before = everything();
    let r = get_fs_item(&ds, k.into(), Path::new("/w/out/dest"));
    let after = everything();
    sym::check(world::same_tree(&before, &after), "fetching writes outside its destination");
    sym::cover(if r.is_ok() { "fetched" } else { "refused" });
}
/// the file system without the destination
fn everything() -> Tree {
    let t = without(&world::tree("/w"), &["out/dest"]);
    // its parent may be made
    let mut t: Tree = t.into_iter().filter(|x| x.0 != "out").collect();
    if let Ok(rd) = std::fs::read_dir("/") {
        for e in rd {
            let e = e.unwrap();
            let n = e.file_name().to_str().unwrap().to_string();
            t.push((n, true, vec![]));
        }
    }
    t.sort_by(|a, b| a.0.cmp(&b.0));
    t
}

/// C06: files that are already there are kept
#[no_mangle]
pub extern "C" fn h_c06_existing() {
    world::init();
    must(&["init"]);
    let t = fill(&[("a", F), ("d", D), ("d/x", F)], 1);
    plant("t", &t);
    let one = sym::flag("file");
    let k = insert(if one { "t/a" } else { "t" });
    world::mkdir("o");
    let before: Tree = match sym::choice("there", 7) {
        0 => vec![],
        1 => fill(&[("a", F)], 2),
        2 => fill(&[("d", F)], 2),
        3 => fill(&[("d", D), ("d/x", F)], 2),
        4 => fill(&[("d", D), ("d/y", F)], 2),
        5 => fill(&[("a", D), ("a/b", F)], 2),
        _ => fill(&[("d", D), ("d/x", D), ("d/x/x", F)], 2),
    };
    plant("o", &before);
    let dest = if one { "o/a" } else { "o" };
    let o = world::snapcd(&["fetch", &k, dest]);
    sym::check(!crashed(&o), "fetch crashes");
    let after = world::tree("o");
    let mut hit = false;
    for (p, d, data) in &before {
        let now = after.iter().find(|x| x.0 == *p);
        match now {
            Some(n) => sym::check(n.1 == *d && sym::eq(&n.2, data), "fetching changes a file that was already there"),
            None => sym::fail("fetching removes a file that was already there"),
        }
        let clash = if one { p == "a" } else { t.iter().any(|x| x.0 == *p && !(x.1 && *d)) };
        hit |= clash;
    }
    if hit {
        sym::check(failed(&o), "fetching onto existing files is reported as a success");
        sym::cover("refused");
    } else {
        sym::check(!failed(&o), "fetching into a directory without clashes fails");
        sym::cover("fetched");
    }
}

// ---- C17 ----

/// names and kinds around the repository; %r stands for the database folder
const AROUND: Shape = &[
    ("A.O", F),
    ("B", F),
    ("a.o", F),
    ("b", F),
    ("b c", F),
    ("d", D),
    ("d/a.o", F),
    ("d/b", F),
    ("d/e", D),
    ("d/e/b", F),
    ("d/{b}", F),
    ("o", D),
    ("o/k.oo", F),
    (".snapcdx", D),
    (".snapcdx/f", F),
    ("d/.snapcd", D),
    ("d/.snapcd/snapcd.db", F),
    ("snapcd.db", F),
];

const GLOBS: &[&[&str]] = &[
    &[],
    &["*.o"],
    &["b"],
    &["d"],
    &["d/b"],
    &["d/*"],
    &["*/b"],
    &["?"],
    &["d/e/b", "*.oo"],
    &["*d*"],
    &["nothing"],
    &["*"],
    &["a.o", "b", "snapcd.db"],
    &["o/", "d/"],
    &["*e*b"],
    &["[ab]"],
    &["d/[!b]*"],
    &["{b,d/e}"],
    &["[A-Z]*"],
    &["d/[{]b[}]"],
    &["b ?"],
];

/// `*` any characters, `?` any one, `[..]` one of them, `[!..]` another one,
/// `{..,..}` one of these
fn glob(p: &[u8], t: &[u8]) -> bool {
    if p.is_empty() {
        return t.is_empty();
    }
    match p[0] {
        b'[' => {
            let end = p.iter().position(|&c| c == b']').unwrap();
            let (not, set) = if p[1] == b'!' { (true, &p[2..end]) } else { (false, &p[1..end]) };
            if t.is_empty() {
                return false;
            }
            let hit = if set.len() == 3 && set[1] == b'-' { set[0] <= t[0] && t[0] <= set[2] } else { set.contains(&t[0]) };
            hit != not && glob(&p[end + 1..], &t[1..])
        }
        b'{' => {
            let end = p.iter().position(|&c| c == b'}').unwrap();
            p[1..end].split(|&c| c == b',').any(|x| {
                let mut q = x.to_vec();
                q.extend_from_slice(&p[end + 1..]);
                glob(&q, t)
            })
        }
        b'*' => (0..=t.len()).any(|i| glob(&p[1..], &t[i..])),
        b'?' => !t.is_empty() && glob(&p[1..], &t[1..]),
        c => !t.is_empty() && t[0] == c && glob(&p[1..], &t[1..]),
    }
}

/// what should remain of the tree, seen through paths that start with prefix
fn kept(t: &Tree, prefix: &str, globs: &[&str]) -> Tree {
    let mut gone: Vec<String> = vec![];
    let mut out = vec![];
    for x in t {
        let seen = format!("{}{}", prefix, x.0);
        let under = gone.iter().any(|g| x.0.starts_with(&format!("{}/", g)));
        if under || globs.iter().any(|g| glob(g.as_bytes(), seen.as_bytes())) {
            gone.push(x.0.clone());
        } else {
            out.push(x.clone());
        }
    }
    out
}

fn with_globs<'a>(globs: &[&'a str], rest: &[&'a str]) -> Vec<&'a str> {
    let mut v: Vec<&str> = vec![];
    for g in globs {
        v.push("-e");
        v.push(g);
    }
    v.extend_from_slice(rest);
    v
}

/// C17: insert skips the database folder and what is excluded, and nothing else
#[no_mangle]
pub extern "C" fn h_c17_insert() {
    world::init();
    let globs = GLOBS[sym::choice("globs", sym::param("globs", GLOBS.len() as u64) as u32) as usize];
    // where the repository is, where the tree is, how it is named
    let place = sym::choice("place", 4);
    let (repo, base, cwd, arg, prefix) = match place {
        0 => ("/w", "/w", "/w", ".", ""),
        1 => ("/w", "/w/t", "/w", "t", "t/"),
        2 => ("/w/t/d", "/w/t", "/w/t/d", "..", "../"),
        _ => ("/w/t", "/w/t", "/w/t", "/w/t", "/w/t/"),
    };
    let mut t = fill(AROUND, 0);
    if repo == "/w/t/d" {
        // the repository takes that place
        t = without(&t, &["d/.snapcd"]);
    }
    for x in t.iter_mut().take(sym::param("bytes", 2) as usize) {
        if !x.1 {
            x.2 = vec![sym::byte("data")];
        }
    }
    plant(base, &t);
    world::chdir(repo);
    must(&["init"]);
    world::chdir(cwd);
    let o = must(&with_globs(globs, &["insert", arg]));
    let k = match find_key(&o) {
        Some(k) => k,
        None => sym::fail("insert prints no key"),
    };
    // what it stored, by the library
    let ds = SqliteDS::new(&format!("{}/.snapcd/snapcd.db", repo)).unwrap();
    let key = ds.canonicalize(std::str::FromStr::from_str(&k).unwrap()).unwrap();
    if get_fs_item(&ds, key.into(), Path::new("/tmp/o")).is_err() {
        sym::fail("the stored tree cannot be fetched");
    }
    let got = world::tree("/tmp/o");
    let want = kept(&t, prefix, globs);
    for g in &got {
        if !want.iter().any(|x| x.0 == g.0) {
            sym::note(&g.0);
            sym::fail("an excluded path or the repository itself is stored");
        }
    }
    for x in &want {
        if !got.iter().any(|g| x.0 == g.0) {
            sym::note(&x.0);
            sym::fail("a path is skipped that nothing excludes");
        }
    }
    sym::check(world::same_tree(&got, &want), "the contents differ");
    sym::cover(if want.len() < t.len() { "excluded" } else { "all" });
}

/// C17: links into the database folder, links elsewhere
#[no_mangle]
pub extern "C" fn h_c17_links() {
    world::init();
    plant("/w", &vec![("b".into(), F, sym::bytes("b", 1)), ("d".into(), D, vec![]), ("d/a".into(), F, b"a".to_vec())]);
    must(&["init"]);
    let at = ["l", "d/l"][sym::choice("at", 2) as usize];
    let up = if at == "l" { "" } else { "../" };
    let (to, what): (&str, u32) = [(".snapcd/snapcd.db", 0), (".snapcd", 0), ("b", 1), (".snapcd/../b", 1)][sym::choice("to", 4) as usize];
    std::os::unix::fs::symlink(format!("{}{}", up, to), at).unwrap();
    let mut want = without(&world::tree("/w"), &[".snapcd", at]);
    if what == 1 {
        want.push((at.into(), F, world::read(at).unwrap()));
    }
    want.sort_by(|a, b| a.0.cmp(&b.0));
    let cmd = sym::flag("commit");
    let k = if cmd {
        let _ = must(&["commit", "-m", "m"]);
        let ds = SqliteDS::new("/w/.snapcd/snapcd.db").unwrap();
        let c = ds.reflog_get("master", None).unwrap();
        snapcd::commit::Commit::from_key(&ds, c.into()).tree().inner()
    } else {
        match find_key(&must(&["insert", "."])) {
            Some(k) => SqliteDS::new("/w/.snapcd/snapcd.db").unwrap().canonicalize(std::str::FromStr::from_str(&k).unwrap()).unwrap(),
            None => sym::fail("insert prints no key"),
        }
    };
    {
        let ds = SqliteDS::new("/w/.snapcd/snapcd.db").unwrap();
        if get_fs_item(&ds, k.into(), Path::new("/tmp/o")).is_err() {
            sym::fail("the stored tree cannot be fetched");
        }
    }
    let got = world::tree("/tmp/o");
    for g in &got {
        sym::check(want.iter().any(|x| x.0 == g.0), "an excluded path or the repository itself is stored");
    }
    for x in &want {
        sym::check(got.iter().any(|g| x.0 == g.0), "a path is skipped that nothing excludes");
    }
    sym::check(world::same_tree(&got, &want), "the contents differ");
    if cmd {
        let o = must(&["status"]);
        sym::check(!o.out_str().lines().any(|l| l.starts_with("  ")), "the repository itself is compared");
    }
    sym::cover(["inside", "elsewhere"][what as usize]);
}

/// C17: a database folder of another name; `.snapcd` is then an ordinary one
#[no_mangle]
pub extern "C" fn h_c17_db() {
    world::init();
    let db = ["store", "d/store", "/w/store", "s.o"][sym::choice("db", 4) as usize];
    let globs: &[&str] = [&[][..], &["store"][..], &["*.o"][..]][sym::choice("globs", 3) as usize];
    let mut t: Tree = vec![
        (".snapcd".into(), D, vec![]),
        (".snapcd/snapcd.db".into(), F, vec![sym::byte("data")]),
        ("d".into(), D, vec![]),
        ("d/storex".into(), F, vec![sym::byte("data")]),
        ("s".into(), F, vec![]),
        ("snapcd.db".into(), F, vec![]),
    ];
    plant("/w", &t);
    must(&["--db", db, "init"]);
    let rel = db.trim_start_matches("/w/");
    if rel != "store" {
        t.push(("store".into(), D, vec![]));
        t.push(("store/f".into(), F, vec![sym::byte("data")]));
        plant("/w", &t[t.len() - 2..].to_vec());
    }
    t.sort_by(|a, b| a.0.cmp(&b.0));
    let mut a = vec!["--db", db];
    a.extend(with_globs(globs, &["insert", "."]));
    let o = must(&a);
    let k = match find_key(&o) {
        Some(k) => k,
        None => sym::fail("insert prints no key"),
    };
    let ds = SqliteDS::new(&format!("{}/snapcd.db", db)).unwrap();
    let key = ds.canonicalize(std::str::FromStr::from_str(&k).unwrap()).unwrap();
    if get_fs_item(&ds, key.into(), Path::new("/tmp/o")).is_err() {
        sym::fail("the stored tree cannot be fetched");
    }
    let got = world::tree("/tmp/o");
    let want = kept(&t, "", globs);
    for g in &got {
        sym::check(want.iter().any(|x| x.0 == g.0), "an excluded path or the repository itself is stored");
    }
    for x in &want {
        sym::check(got.iter().any(|g| x.0 == g.0), "a path is skipped that nothing excludes");
    }
    sym::check(world::same_tree(&got, &want), "the contents differ");
    sym::cover("done");
}

const ABS: &[&[&str]] = &[&[], &["*.o"], &["/w/d"], &["*/b"], &["/w/b", "/w/o"], &["b", "d/b"], &["*/e/*"], &["/w/?"]];

/// C17: a directory compared with what was committed: changes to excluded
/// paths do not show, others do
#[no_mangle]
pub extern "C" fn h_c17_compare() {
    world::init();
    let globs = ABS[sym::choice("globs", sym::param("globs", ABS.len() as u64) as u32) as usize];
    let t = fill(AROUND, 0);
    plant("/w", &t);
    must(&["init"]);
    must(&with_globs(globs, &["commit", "-m", "m"]));
    let inside = kept(&t, "/w/", globs);
    // another file at one of these places
    let (p, new) = [("a.o", F), ("d/b", F), ("d/e/b", F), ("o/k.oo", F), ("b", F), ("d/n.o", F), ("n", F), (".snapcdx/f", F), (".snapcd/n", F), ("d/.snapcd/snapcd.db", F)][sym::choice("file", 10) as usize];
    let x = sym::bytes("new", 1);
    world::write(&format!("/w/{}", p), &x);
    let _ = new;
    let mut after = t.clone();
    match after.iter_mut().find(|y| y.0 == p) {
        Some(y) => y.2 = x,
        None => after.push((p.to_string(), F, x)),
    }
    after.retain(|y| !y.0.starts_with(".snapcd/"));
    after.sort_by(|a, b| a.0.cmp(&b.0));
    let outside = kept(&after, "/w/", globs);
    let mut diff = vec![];
    for y in &outside {
        match inside.iter().find(|z| z.0 == y.0) {
            Some(z) if sym::eq(&z.2, &y.2) => {}
            _ => diff.push(y.0.clone()),
        }
    }
    if sym::flag("elsewhere") {
        world::chdir("/w/o");
    }
    let o = world::snapcd(&with_globs(globs, &[["status", "compare"][sym::choice("cmd", 2) as usize]]));
    sym::check(!crashed(&o) && !failed(&o), "comparing a readable directory fails");
    let mut got: Vec<&str> = o.out_str().lines().filter(|l| l.starts_with("  ")).map(|l| l[2..].trim_end_matches('/')).collect();
    got.sort();
    for g in &got {
        sym::check(diff.iter().any(|d| d == g), "an excluded path or the repository itself is compared");
    }
    sym::check(got.len() == diff.len(), "a change to a path that nothing excludes is not listed");
    sym::cover(if got.is_empty() { "clean" } else { "changed" });
}
