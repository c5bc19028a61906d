//! C25: checkout.
use crate::cli_util::*;
use crate::p_cmd::{same, snap};
use crate::p_diff::PAIRS;
use crate::trees::*;
use crate::{sym, world};
use std::path::Path;

pub const REPO: &str = "/home/jess/src/snapcd/repo";

pub fn mkdirs(p: &str) {
    std::fs::create_dir_all(p).unwrap();
}

fn the_tree(path: &str) -> Tree {
    without(&world::tree(path), &[".snapcd"])
}
fn empty(path: &str) {
    for e in std::fs::read_dir(path).unwrap() {
        let e = e.unwrap();
        if e.file_name() == ".snapcd" {
            continue;
        }
        if e.file_type().unwrap().is_dir() {
            std::fs::remove_dir_all(e.path()).unwrap();
        } else {
            std::fs::remove_file(e.path()).unwrap();
        }
    }
}

/// `*` and literals against a whole path
fn glob(p: &[u8], s: &[u8]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(b'*') => (0..=s.len()).any(|i| glob(&p[1..], &s[i..])),
        Some(c) => s.first() == Some(c) && glob(&p[1..], &s[1..]),
    }
}
/// itself or something it lies in is excluded
fn excluded(base: &str, pats: &[&str], path: &str) -> bool {
    let mut end = vec![path.len()];
    end.extend(path.char_indices().filter(|x| x.1 == '/').map(|x| x.0));
    end.iter().any(|e| {
        let full = format!("{}/{}", base, &path[..*e]);
        pats.iter().any(|p| glob(p.as_bytes(), full.as_bytes()))
    })
}
fn below(p: &str, dir: &str) -> bool {
    p.len() > dir.len() && p.starts_with(dir) && p.as_bytes()[dir.len()] == b'/'
}

/// what has to be there after a checkout
fn check_result(base: &str, pats: &[&str], committed: &Tree, disk: &Tree, o: &world::Outcome) {
    let now = the_tree(base);
    let ex = |p: &str| excluded(base, pats, p);
    // excluded paths stay, and nothing is made of them
    for x in disk {
        if ex(&x.0) {
            match now.iter().find(|y| y.0 == x.0) {
                None => sym::fail("an excluded path is removed"),
                Some(y) => sym::check(y.1 == x.1 && sym::eq(&x.2, &y.2), "an excluded path is changed"),
            }
        }
    }
    // something excluded is in the way of what should be there
    let stuck = committed.iter().any(|c| {
        !ex(&c.0) && disk.iter().any(|x| ex(&x.0) && (!c.1 && below(&x.0, &c.0)))
    });
    if failed(o) {
        sym::check(stuck, "a checkout that is possible fails");
        sym::cover("in the way");
        return;
    }
    for c in committed {
        if ex(&c.0) {
            continue;
        }
        match now.iter().find(|y| y.0 == c.0) {
            None => sym::fail("something of the committed tree is missing after a checkout"),
            Some(y) => {
                sym::check(y.1 == c.1, "something is of another kind than in the committed tree");
                sym::check(sym::eq(&c.2, &y.2), "a file is not that of the committed tree");
            }
        }
    }
    for y in &now {
        if ex(&y.0) || committed.iter().any(|c| c.0 == y.0) {
            continue;
        }
        let holds = y.1 && disk.iter().any(|x| ex(&x.0) && below(&x.0, &y.0));
        let made = y.1 && committed.iter().any(|x| ex(&x.0) && below(&x.0, &y.0));
        sym::check(holds || made, "something that is not in the committed tree is left");
    }
    sym::cover("checked out");
}

const PATS: &[&[&str]] = &[&[], &["*x"], &["*/d"], &["*/e", "*/a"]];

/// C25: any committed tree over any other
#[no_mangle]
pub extern "C" fn h_c25_trees() {
    world::init();
    mkdirs(REPO);
    world::chdir(REPO);
    must(&["init"]);
    let n = sym::param("shapes", PAIRS.len() as u64) as u32;
    let committed = fill(PAIRS[sym::choice("committed", n) as usize], 1);
    plant(REPO, &committed);
    must(&["commit", "-m", "m"]);
    empty(REPO);
    let disk = fill(PAIRS[sym::choice("disk", n) as usize], 1);
    plant(REPO, &disk);
    world::write("/w/o", &sym::bytes("o", 1));
    let out = world::tree("/w");
    let before = snap(REPO);
    let pats = PATS[sym::choice("excludes", sym::param("excludes", PATS.len() as u64) as u32) as usize];
    let mut args = vec!["checkout"];
    for p in pats {
        args.push("-e");
        args.push(p);
    }
    // from below as well
    let cwd = format!("{}/d", REPO);
    if sym::param("cwds", 1) > 1 && pats.is_empty() && Path::new(&cwd).is_dir() && sym::flag("below") {
        world::chdir(&cwd);
    }
    let o = world::snapcd(&args);
    world::chdir("/w");
    sym::check(!crashed(&o), "a checkout crashes");
    check_result(REPO, pats, &committed, &disk, &o);
    sym::check(same(&before, &snap(REPO)), "a checkout changes the repository");
    sym::check(world::same_tree(&out, &world::tree("/w")), "a checkout changes something outside of the repository's directory");
}

/// C25: outside the permitted location nothing is touched
#[no_mangle]
pub extern "C" fn h_c25_outside() {
    world::init();
    mkdirs(REPO);
    mkdirs("/home/jess/src/snapcd/repo2");
    world::write("/home/jess/src/snapcd/repo/f", &sym::bytes("f", 1));
    world::write("/home/jess/src/snapcd/repo2/f", &sym::bytes("f", 1));
    // where the repository is, where the program is run, how it is told
    let (repo, cwd, db): (&str, &str, Option<&str>) = [
        ("/w", "/w", None),
        ("/home/jess/src/snapcd/repo2", "/home/jess/src/snapcd/repo2", None),
        ("/home/jess/src/snapcd", "/home/jess/src/snapcd/repo", None),
        ("/w", REPO, Some("/w/.snapcd")),
        ("/w", REPO, Some("../../../../../w/.snapcd")),
        ("/w", "/home", Some("/home/jess/src/snapcd/repo/../../../../../w/.snapcd")),
        ("/w", REPO, Some("link/.snapcd")),
    ][sym::choice("place", 7) as usize];
    world::chdir(repo);
    must(&["init"]);
    let pairs = &PAIRS[..sym::param("shapes", 5) as usize];
    let committed = fill(pairs[sym::choice("committed", pairs.len() as u32) as usize], 1);
    world::mkdir("t");
    plant(&format!("{}/t", repo), &committed);
    match sym::choice("commit", 3) {
        0 => must(&["commit", "-m", "m"]),
        1 => must(&["commit", "-m", "m", "-p", "t"]),
        _ => {
            world::write("t2", &sym::bytes("t", 1));
            must(&["commit", "-m", "m", "-p", "t2"])
        }
    };
    match sym::choice("then", 4) {
        0 => {}
        1 => std::fs::remove_dir_all("t").unwrap(),
        2 => world::write("n", &sym::bytes("n", 1)),
        _ => {
            std::fs::remove_dir_all("t").unwrap();
            world::write("t", &sym::bytes("n", 1));
        }
    }
    if db == Some("link/.snapcd") {
        std::os::unix::fs::symlink("/w", "/home/jess/src/snapcd/repo/link").unwrap();
    }
    let all = || -> Vec<Tree> { ["/w", "/home/jess/src/snapcd", "/home/jess/src/snapcd/repo2"].iter().map(|p| the_tree(p)).collect() };
    let out = all();
    let before = snap(repo);
    world::chdir(cwd);
    let o = match db {
        None => world::snapcd(&["checkout"]),
        Some(d) => world::snapcd(&["-d", d, "checkout"]),
    };
    world::chdir("/w");
    for (a, b) in out.iter().zip(all().iter()) {
        sym::check(world::same_tree(a, b), "a checkout changes a file outside its permitted location");
    }
    sym::check(same(&before, &snap(repo)), "a checkout changes the repository");
    sym::cover(if failed(&o) { "refused" } else { "nothing to do" });
}

/// C25: trees that did not come from this directory
#[no_mangle]
pub extern "C" fn h_c25_foreign() {
    world::init();
    mkdirs(REPO);
    let out = "/home/jess/src/snapcd/outside";
    mkdirs(&format!("{}/d", out));
    world::write(&format!("{}/d/k", out), &sym::bytes("k", 1));
    world::write(&format!("{}/k", out), &sym::bytes("k", 1));
    world::chdir(REPO);
    must(&["init"]);
    world::mkdir("/w/t");
    match sym::choice("tree", 5) {
        0 => {
            // holds what looks like a database folder
            world::mkdir("/w/t/.snapcd");
            world::write("/w/t/.snapcd/snapcd.db", &sym::bytes("db", 1));
        }
        1 => world::write("/w/t/.snapcd", &sym::bytes("db", 1)),
        2 => world::write("/w/t/a", &sym::bytes("a", 1)),
        3 => {
            world::mkdir("/w/t/a");
            world::write("/w/t/a/x", &sym::bytes("a", 1));
        }
        _ => {}
    }
    if sym::flag("file") {
        // a single file as the root
        world::write("/w/f", &sym::bytes("f", 1));
        must(&["commit", "-m", "m", "-p", "/w/f"]);
    } else {
        must(&["commit", "-m", "m", "-p", "/w/t"]);
    }
    // links from the directory to the outside
    match sym::choice("link", 4) {
        0 => {}
        1 => std::os::unix::fs::symlink(format!("{}/d", out), "a").unwrap(),
        2 => std::os::unix::fs::symlink(format!("{}/k", out), "a").unwrap(),
        _ => world::write("b", &sym::bytes("b", 1)),
    }
    let outside = world::tree(out);
    let before = snap(REPO);
    let o = world::snapcd(&["checkout"]);
    world::chdir("/w");
    sym::check(world::same_tree(&outside, &world::tree(out)), "a checkout changes a file outside its permitted location");
    sym::check(same(&before, &snap(REPO)), "a checkout changes the repository");
    sym::cover(if failed(&o) { "refused" } else { "checked out" });
}

const HOSTILE: &[&str] = &[
    "..", ".", "../k", "../../k", "/k", "/w/k", ".snapcd/snapcd.db", "./.snapcd", "d/../.snapcd", "/home/jess/src/snapcd/repo/.snapcd", "d/../../outside/k", "../outside", "ok", "d/y",
];

/// C25: whatever the names in the committed tree are
#[no_mangle]
pub extern "C" fn h_c25_names() {
    use snapcd::dir::put_fs_item;
    use snapcd::DataStore;
    world::init();
    mkdirs(REPO);
    let out = "/home/jess/src/snapcd/outside";
    mkdirs(out);
    world::write(&format!("{}/k", out), &sym::bytes("k", 1));
    world::chdir(REPO);
    must(&["init"]);
    let bad = HOSTILE[sym::choice("name", HOSTILE.len() as u32) as usize];
    let hold: String = "Zq".chars().cycle().take(bad.len()).collect();
    world::mkdir("/w/src");
    let src = format!("/w/src/{}", hold);
    if sym::flag("dir") {
        world::mkdir(&src);
        if sym::flag("full") {
            world::write(&format!("{}/k", src), &sym::bytes("new", 1));
        }
    } else {
        world::write(&src, &sym::bytes("new", 1));
    }
    {
        let mut ds = crate::p_cmd::open(REPO);
        let k = put_fs_item(&mut ds, Path::new("/w/src"), &|_| true).unwrap();
        let k = match crate::p_dir::renamed(&mut ds, k, &hold, bad) {
            Some(k) => k,
            None => sym::end(),
        };
        let c = snapcd::commit::commit_tree(&mut ds, k.into(), vec![], Default::default()).unwrap();
        ds.reflog_push(&snapcd::Reflog { key: c, refname: "master".into(), remote: None }).unwrap();
    }
    if sym::flag("d") {
        world::mkdir("d");
        world::write("d/y", b"y");
    }
    let all = || -> Vec<Tree> { vec![without(&world::tree("/home/jess/src/snapcd"), &["repo"]), world::tree("/w")] };
    let (outside, before) = (all(), snap(REPO));
    let o = world::snapcd(&["checkout"]);
    world::chdir("/w");
    for (a, b) in outside.iter().zip(all().iter()) {
        sym::check(world::same_tree(a, b), "a checkout changes a file outside its permitted location");
    }
    for p in ["/k", "/home/k", "/home/jess/k", "/home/jess/src/k"].iter() {
        sym::check(!Path::new(p).exists(), "a checkout makes a file outside its permitted location");
    }
    sym::check(same(&before, &snap(REPO)), "a checkout changes the repository");
    sym::cover(if failed(&o) { "refused" } else { "checked out" });
}

/// C25: links within the directory
#[no_mangle]
pub extern "C" fn h_c25_links() {
    use std::os::unix::fs::symlink;
    world::init();
    mkdirs(REPO);
    world::chdir(REPO);
    must(&["init"]);
    let shape: Shape = &[("a", F), ("b", F), ("d", D), ("d/x", F), ("e", D), ("e/x", F)];
    let committed = if sym::param("lens", 0) == 1 {
        fill(shape, 1)
    } else {
        shape.iter().map(|s| (s.0.to_string(), s.1, if s.1 { vec![] } else if s.0 == "a" { sym::bytes("data", 1) } else { s.0.as_bytes().to_vec() })).collect()
    };
    plant(REPO, &committed);
    must(&["commit", "-m", "m"]);
    // what is excluded, and what nobody committed
    world::write("k", &sym::bytes("k", 1));
    world::mkdir("ek");
    world::write("ek/x", &sym::bytes("ek", 1));
    world::write("n", &sym::bytes("n", 1));
    world::mkdir("en");
    world::write("en/y", &sym::bytes("en", 1));
    let at = ["a", "b", "d", "d/x", "e", "l", "d/l", "m", "d/m"][sym::choice("at", 9) as usize];
    if Path::new(at).is_dir() {
        std::fs::remove_dir_all(at).unwrap();
    } else if Path::new(at).exists() {
        std::fs::remove_file(at).unwrap();
    }
    let to = ["a", "b", "d", "e", "d/x", "e/x", "k", "ek", "n", "en", ".snapcd", ".snapcd/snapcd.db", "none"][sym::choice("to", 13) as usize];
    let up = if at.contains('/') { "../" } else { "" };
    symlink(format!("{}{}", up, to), at).unwrap();
    if to != "none" && !Path::new(at).exists() {
        // leads to itself
        sym::end();
    }
    let pats: &[&str] = [&["*k"][..], &["*k", "*/ek/*"], &["*k", "*/m"]][sym::choice("excludes", 3) as usize];
    // a link into the repository's own folder is left alone
    let ex = |p: &str| excluded(REPO, pats, p) || (to.starts_with(".snapcd") && (p == at || below(p, at)));
    let disk = the_tree(REPO);
    let before = snap(REPO);
    let mut args = vec!["checkout"];
    for p in pats {
        args.push("-e");
        args.push(p);
    }
    let o = world::snapcd(&args);
    world::chdir("/w");
    sym::check(!crashed(&o), "a checkout crashes");
    sym::check(same(&before, &snap(REPO)), "a checkout changes the repository");
    let now = the_tree(REPO);
    for x in &disk {
        if ex(&x.0) {
            match now.iter().find(|y| y.0 == x.0) {
                None => sym::fail("an excluded path is removed"),
                Some(y) => sym::check(y.1 == x.1 && sym::eq(&x.2, &y.2), "an excluded path is changed"),
            }
        }
    }
    if failed(&o) {
        sym::fail("a checkout that is possible fails");
    }
    for c in &committed {
        if ex(&c.0) {
            continue;
        }
        let full = format!("{}/{}", REPO, c.0);
        let p = Path::new(&full);
        if c.1 {
            sym::check(p.is_dir(), "something of the committed tree is missing after a checkout");
        } else {
            match world::read(&full) {
                None => sym::fail("something of the committed tree is missing after a checkout"),
                Some(d) => sym::check(sym::eq(&c.2, &d), "a file is not that of the committed tree"),
            }
        }
    }
    for y in &now {
        if !ex(&y.0) && !committed.iter().any(|c| c.0 == y.0) {
            sym::fail("something that is not in the committed tree is left");
        }
    }
    sym::cover("checked out");
}

/// C25: large files; on disk they are as long as the committed ones, or not
#[no_mangle]
pub extern "C" fn h_c25_large() {
    world::init();
    mkdirs(REPO);
    world::chdir(REPO);
    must(&["init"]);
    let n = [300usize, 4097, 9000, 70000, 140000][sym::choice("size", sym::param("sizes", 4) as u32) as usize];
    let at = [0, n / 2, n - 1][sym::choice("place", 3) as usize];
    let mut data: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8 & 0x7f).collect();
    data[at] = sym::byte("byte");
    world::write("f", &data);
    world::write("g", b"g");
    world::set_time("f", 1_600_000_000, 5);
    must(&["commit", "-m", "m"]);
    let mut now = data.clone();
    let how = sym::choice("edit", 6);
    match how {
        0 => now[at] = sym::byte("new"),
        1 => now[at] = !now[at],
        2 => now.truncate(n - 1),
        3 => now.push(0),
        4 => now = vec![b'x'; n],
        _ => now.clear(),
    }
    world::write("f", &now);
    if sym::flag("oldtime") {
        world::set_time("f", 1_600_000_000, 5);
    }
    let o = world::snapcd(&["checkout"]);
    sym::check(!failed(&o), "a checkout that is possible fails");
    let got = world::tree(REPO);
    for y in &got {
        if y.0 == "f" {
            sym::check(sym::eq(&y.2, &data), "a file is not that of the committed tree");
        } else if y.0 == "g" {
            sym::check(sym::eq(&y.2, b"g"), "a file is not that of the committed tree");
        }
    }
    sym::check(got.iter().filter(|x| !x.0.starts_with(".snapcd")).count() == 2, "something that is not in the committed tree is left");
    sym::cover("checked out");
}
