//! C12, C22, C23, C24, C26, C27, C28: what commands do to the repository.
use crate::cli_util::*;
use crate::trees::*;
use crate::{sym, world};
use snapcd::commit::Commit;
use snapcd::dir::{get_fs_item, put_fs_item};
use snapcd::ds::sqlite::SqliteDS;
use snapcd::key::Key;
use snapcd::{DataStore, Keyish};
use std::path::Path;

pub const BRANCHES: &[&str] = &["master", "dev", "b"];

/// everything a repository holds
pub struct Snap {
    pub objs: Vec<(Vec<u8>, Vec<u8>)>,
    pub head: Option<String>,
    pub refs: Vec<Vec<Key>>,
}

pub fn open(repo: &str) -> SqliteDS {
    match SqliteDS::new(format!("{}/.snapcd/snapcd.db", repo)) {
        Ok(x) => x,
        Err(_) => sym::fail("the repository cannot be opened"),
    }
}
pub fn snap(repo: &str) -> Snap {
    let ds = open(repo);
    let mut objs = vec![];
    let keys = match ds.raw_between(&[], None) {
        Ok(k) => k,
        Err(_) => sym::fail("the stored keys cannot be listed"),
    };
    for k in keys {
        let v = match ds.raw_get(&k) {
            Ok(v) => v.to_vec(),
            Err(_) => sym::fail("a stored object cannot be read"),
        };
        objs.push((k, v));
    }
    let head = match ds.get_head() {
        Ok(h) => h,
        Err(_) => sym::fail("the current branch cannot be read"),
    };
    // the branches, then those of a remote
    let local = BRANCHES.iter().map(|b| (*b, None));
    let remote = ["master", "dev", "m"].iter().map(|b| (*b, Some("o")));
    let refs = local.chain(remote).map(|(b, r)| ds.reflog_walk(b, r).unwrap().iter().map(|k| k.inner()).collect()).collect();
    Snap { objs, head, refs }
}
pub fn same_refs(a: &Snap, b: &Snap) -> bool {
    a.refs == b.refs
}
/// every object of a is in b
pub fn within(a: &Snap, b: &Snap) -> bool {
    a.objs.iter().all(|x| b.objs.iter().any(|y| sym::eq(&x.0, &y.0) && sym::eq(&x.1, &y.1)))
}
pub fn same(a: &Snap, b: &Snap) -> bool {
    a.head == b.head && same_refs(a, b) && a.objs.len() == b.objs.len() && within(a, b)
}
fn key_of(ds: &SqliteDS, s: &str) -> Key {
    let k: Keyish = match s.parse() {
        Ok(k) => k,
        Err(_) => sym::fail("a printed key cannot be read"),
    };
    match ds.canonicalize(k) {
        Ok(k) => k,
        Err(_) => sym::fail("a printed key is not in the repository"),
    }
}
/// the key of a directory, the database folder left out
fn tree_key(path: &str) -> Key {
    let mut ds = SqliteDS::new(":memory:").unwrap();
    match put_fs_item(&mut ds, Path::new(path), &|e| e.file_name() != ".snapcd") {
        Ok(k) => k,
        Err(_) => sym::fail("a readable tree cannot be inserted"),
    }
}
fn the_tree(path: &str) -> Tree {
    without(&world::tree(path), &[".snapcd"])
}
/// what is stored under this key is this tree
fn check_tree(ds: &SqliteDS, k: Key, t: &Tree) {
    if Path::new("/tmp/out").exists() {
        std::fs::remove_dir_all("/tmp/out").unwrap();
    }
    if get_fs_item(ds, k.into(), Path::new("/tmp/out")).is_err() {
        sym::fail("a tree that should be stored cannot be read");
    }
    sym::check(world::same_tree(&world::tree("/tmp/out"), t), "a stored tree is not what was put in");
}
fn text(k: impl std::fmt::Display) -> String {
    k.to_string()
}
fn one(name: &str) -> Vec<u8> {
    sym::bytes(name, 1)
}

// ---- C12 ----

const MSGS: &[&str] = &["m", "", "two\nlines\n", "\u{fc}\u{2713}"];

/// C12: commits to several branches
#[no_mangle]
pub extern "C" fn h_c12_commits() {
    world::init();
    must(&["init"]);
    plant("/w", &vec![("a".into(), F, one("a")), ("d".into(), D, vec![]), ("d/x".into(), F, one("x"))]);
    let mut head = "master";
    // of each branch, first commit first: key, tree, message
    let mut model: Vec<Vec<(Key, Key, &str)>> = vec![vec![]; BRANCHES.len()];
    let n = sym::param("commits", 3);
    for i in 0..n {
        if i > 0 {
            match sym::choice("edit", 3) {
                0 => {}
                1 => world::write("/w/a", &one("new")),
                _ => {
                    if Path::new("/w/d").exists() {
                        std::fs::remove_dir_all("/w/d").unwrap();
                    } else {
                        world::mkdir("/w/d");
                        world::write("/w/d/x", &one("x"));
                    }
                }
            }
        }
        let which = sym::choice("branch", sym::param("branches", 3) as u32);
        let branch = match which {
            0 => head,
            1 => "dev",
            2 => "master",
            _ => {
                // another current branch first
                must(&["debug", "set-head", "b"]);
                head = "b";
                "b"
            }
        };
        let msg = MSGS[(i as usize + which as usize) % MSGS.len()];
        let mut args = vec!["commit", "-m", msg];
        if which == 1 || which == 2 {
            args.push(branch);
        }
        // a part of the tree, or the tree spelled out
        let path = match sym::choice("path", if i + 1 == n { 3 } else { 1 }) {
            0 => "/w",
            1 => "/w/a",
            _ => "/w/d",
        };
        if path != "/w" {
            if !Path::new(path).exists() {
                sym::end();
            }
            args.push("-p");
            args.push(&path[3..]);
        }
        must(&args);
        let want = tree_key(path);
        let ds = open("/w");
        let bi = BRANCHES.iter().position(|x| *x == branch).unwrap();
        let tip = match ds.reflog_get(branch, None) {
            Ok(k) => k,
            Err(_) => sym::fail("a branch has no entry after a commit"),
        };
        model[bi].push((tip.inner(), want, msg));
        sym::check(ds.get_head().unwrap().as_ref().map(|x| x.as_str()) == Some(head), "a commit changes the current branch");
        for (b, m) in BRANCHES.iter().zip(model.iter()) {
            let mut at = match (ds.reflog_get(b, None), m.last()) {
                (Ok(k), Some(_)) => k,
                (Err(_), None) => continue,
                (Ok(_), None) => sym::fail("a commit adds an entry to another branch"),
                (Err(_), Some(_)) => sym::fail("a branch has lost its entry"),
            };
            sym::check(at.inner() == m.last().unwrap().0, "a commit changes another branch");
            // down to the first
            for j in (0..m.len()).rev() {
                let (key, tree, msg) = &m[j];
                sym::check(at.inner() == *key, "an earlier commit is not reachable from the tip");
                let c = Commit::from_key(&ds, at);
                sym::check(c.attrs().message() == *msg, "a commit has another message");
                sym::check(c.tree().inner() == *tree, "a commit has another tree");
                if j == 0 {
                    sym::check(c.parents().is_empty(), "a first commit has a parent");
                } else {
                    sym::check(c.parents().len() == 1, "a commit does not have the one parent it should");
                    at = c.parents()[0];
                }
            }
            let log: Vec<Key> = ds.reflog_walk(b, None).unwrap().iter().map(|k| k.inner()).collect();
            let want: Vec<Key> = m.iter().rev().map(|x| x.0).collect();
            sym::check(log == want, "the entries of a branch are not its tips");
        }
        if path == "/w" {
            check_tree(&ds, want, &the_tree("/w"));
        }
    }
    sym::cover(if model.iter().filter(|m| !m.is_empty()).count() > 1 { "several branches" } else { "one branch" });
}

// ---- C22, C23, C24: commands that fail or die ----

struct Setup {
    before: Snap,
    /// of the committed tree and of the working directory
    old: Tree,
    tree: Tree,
    tip: Key,
    oldtree: Key,
    newtree: Key,
    /// the first two in text
    tip_s: String,
    oldtree_s: String,
}

const MKDIRS: &str = "/h/.cache/snapcd";

/// a repository with a commit on master, dev at the same, an edit made
fn setup(cmd: u32) -> Setup {
    world::init();
    must(&["init"]);
    let old: Tree = vec![("a".into(), F, b"a".to_vec()), ("d".into(), D, vec![]), ("d/x".into(), F, b"x".to_vec())];
    plant("/w", &old);
    must(&["commit", "-m", "m"]);
    let tip = open("/w").reflog_get("master", None).unwrap().inner();
    let tip_s = text(tip);
    must(&["ref", "update", &tip_s, "dev"]);
    let oldtree = tree_key("/w");
    if cmd != 4 {
        world::write("/w/d/y", b"y");
        world::write("/w/a", &one("new"));
    }
    assert!(Path::new(MKDIRS).is_dir());
    Setup { before: snap("/w"), old, tree: the_tree("/w"), tip, oldtree, newtree: tree_key("/w"), tip_s, oldtree_s: text(oldtree) }
}

const COMMANDS: u32 = 9;

fn command(cmd: u32, s: &Setup) -> world::Outcome {
    match cmd {
        0 => world::snapcd(&["commit", "-m", "second"]),
        1 => world::snapcd(&["insert", "."]),
        2 => world::snapcd(&["ref", "update", &s.tip_s, "b"]),
        3 => world::snapcd(&["debug", "set-head", "dev"]),
        4 => world::snapcd(&["checkout-head", "dev"]),
        5 => world::snapcd(&["debug", "commit-tree", &s.oldtree_s, &s.tip_s]),
        6 => world::snapcd(&["debug", "reflog-push", &s.tip_s, "b"]),
        7 => world::snapcd(&["status"]),
        _ => world::snapcd(&["compare"]),
    }
}

/// the repository is as it has to be when the command went through; None when
/// that cannot be told from the repository alone and it is as before
fn done(cmd: u32, s: &Setup, out: Option<&world::Outcome>) -> bool {
    let after = snap("/w");
    let ds = open("/w");
    if !within(&s.before, &after) {
        return false;
    }
    let (m, d, b) = (0, 1, 2);
    let mut refs = s.before.refs.clone();
    let mut head = s.before.head.clone();
    match cmd {
        0 => {
            if after.refs[m].len() != 2 {
                return false;
            }
            refs[m].insert(0, after.refs[m][0]);
            let k = ds.reflog_get("master", None).unwrap();
            let c = match ds.get_obj(k.inner()) {
                Ok(_) => Commit::from_key(&ds, k),
                Err(_) => sym::fail("a branch leads to a commit that is not stored"),
            };
            if c.attrs().message() != "second" || c.tree().inner() != s.newtree || c.parents().len() != 1 || c.parents()[0].inner() != s.tip {
                return false;
            }
            check_tree(&ds, c.tree().inner(), &s.tree);
        }
        1 => {
            if let Some(o) = out {
                let k = match find_key(o) {
                    Some(k) => key_of(&ds, &k),
                    None => return false,
                };
                if k != s.newtree {
                    return false;
                }
            }
            check_tree(&ds, s.newtree, &s.tree);
        }
        2 | 6 => refs[b].insert(0, s.tip),
        3 | 4 => head = Some("dev".into()),
        5 => {
            if let Some(o) = out {
                let k = key_of(&ds, o.out_str().lines().last().unwrap_or(""));
                if ds.get_obj(k).is_err() {
                    return false;
                }
                let c = Commit::from_key(&ds, k.into());
                if c.tree().inner() != s.oldtree || c.parents().len() != 1 || c.parents()[0].inner() != s.tip {
                    return false;
                }
            }
        }
        _ => {}
    }
    // what was there before is still readable
    check_tree(&ds, s.oldtree, &s.old);
    let _ = d;
    after.refs == refs && after.head == head
}

/// C22, C23: one call to the system fails, anywhere
#[no_mangle]
pub extern "C" fn h_c22_fault() {
    let cmd = sym::choice("command", sym::param("commands", COMMANDS as u64) as u32);
    let s = setup(cmd);
    let c = world::ctl();
    c.on = true;
    c.scope = "/";
    c.fault_mask = if sym::param("reads", 1) == 0 { world::F_MODIFY } else { !0 };
    c.fault_budget = sym::param("faults", 1) as u32;
    let o = command(cmd, &s);
    c.on = false;
    if failed(&o) {
        let after = snap("/w");
        if c.faulted == world::F_SYNC && !same(&s.before, &after) {
            // the storage does not confirm what it was given last: all or nothing
            sym::check(done(cmd, &s, None), "a failed command leaves half of its changes");
            sym::cover("unconfirmed");
            sym::end();
        }
        sym::check(after.head == s.before.head, "a failed command changes the current branch");
        sym::check(same_refs(&s.before, &after), "a failed command changes a branch");
        sym::check(same(&s.before, &after), "a failed command leaves objects behind or loses some");
        sym::cover("failed");
    } else {
        sym::check(done(cmd, &s, Some(&o)), "a command reports success without its changes being stored");
        sym::cover(if c.faulted != 0 { "went on" } else { "no failure" });
    }
}

/// C22, C23: another process has the database locked, for a moment or for good
#[no_mangle]
pub extern "C" fn h_c23_locked() {
    let cmd = sym::choice("command", COMMANDS);
    let s = setup(cmd);
    let c = world::ctl();
    c.on = true;
    c.scope = if sym::flag("cache") { "/h" } else { "/w/.snapcd" };
    c.other = 1 + sym::choice("lock", 3);
    c.patience = [0, 2, 1000][sym::choice("held", 3) as usize];
    let o = command(cmd, &s);
    let met = c.met != 0;
    c.on = false;
    c.other = 0;
    if failed(&o) {
        sym::check(met, "a command that should succeed fails");
        sym::check(same(&s.before, &snap("/w")), "a command that finds the database locked changes it");
        sym::cover("failed");
    } else {
        sym::check(done(cmd, &s, Some(&o)), "a command reports success without its changes being stored");
        sym::cover(if met { "waited" } else { "not in the way" });
    }
}

/// C22: requests that cannot be met
#[no_mangle]
pub extern "C" fn h_c22_bad() {
    let s = setup(0);
    // something deep in the tree that cannot be stored
    let absent = text(tree_key("/w/d"));
    let args: Vec<&str> = match sym::choice("request", 16) {
        0 => vec!["insert", "/w/none"],
        1 => vec!["commit", "-m", "x", "-p", "none"],
        2 => {
            std::os::unix::fs::symlink("/w/none", "/w/d/z").unwrap();
            vec!["commit", "-m", "x"]
        }
        3 => {
            std::os::unix::fs::symlink("/w/none", "/w/d/z").unwrap();
            vec!["insert", "."]
        }
        4 => {
            std::os::unix::fs::symlink("/w/none", "/w/d/z").unwrap();
            vec!["status"]
        }
        5 => vec!["ref", "update", &absent, "dev"],
        6 => vec!["ref", "update", "no/such", "dev"],
        7 => vec!["debug", "reflog-push", &absent, "dev"],
        8 => vec!["debug", "commit-tree", &absent],
        9 => vec!["debug", "commit-tree", &s.oldtree_s, &absent],
        10 => vec!["fetch", &absent, "/tmp/f"],
        11 => vec!["fetch", &s.oldtree_s, "/w"],
        12 => vec!["show", &absent],
        13 => vec!["log", &s.oldtree_s],
        14 => vec!["compare", &absent],
        _ => vec!["commit"],
    };
    let o = world::snapcd(&args);
    if !failed(&o) {
        sym::cover("went on");
        sym::end();
    }
    sym::check(same(&s.before, &snap("/w")), "a failed command changes the repository");
    sym::cover("failed");
}

/// C24: the process dies before any call that changes something
#[no_mangle]
pub extern "C" fn h_c24_crash() {
    crash(false);
}
fn crash(power: bool) {
    let cmd = sym::choice("command", COMMANDS);
    let s = setup(cmd);
    let c = world::ctl();
    c.on = true;
    c.scope = if sym::param("cache", 0) != 0 && (cmd == 0 || cmd == 7) && sym::flag("cache") { "/h" } else { "/w/.snapcd" };
    c.crash_budget = 1;
    c.power = power;
    let o = command(cmd, &s);
    c.power = false;
    let died = c.crashed != 0;
    if !died {
        sym::check(!failed(&o), "a command that should succeed fails");
    } else if sym::param("twice", 0) != 0 {
        // dies again while putting things right
        c.crashed = 0;
        c.crash_budget = 1;
        world::snapcd(&["debug", "get-head"]);
    }
    c.on = false;
    let h = must(&["debug", "get-head"]);
    sym::check(has(&h.out, b"master") || has(&h.out, b"dev"), "the current branch is lost");
    let after = snap("/w");
    let out = if died { None } else { Some(&o) };
    if out.is_none() && same(&s.before, &after) {
        sym::cover("as before");
    } else {
        sym::check(done(cmd, &s, out), "a command that was killed leaves half of its changes");
        if died {
            sym::cover("as after");
        }
    }
    // it can still be used
    let parent = after.refs[0][0];
    must(&["commit", "-m", "next", "master"]);
    let ds = open("/w");
    let k = ds.reflog_get("master", None).unwrap();
    let cm = Commit::from_key(&ds, k);
    sym::check(cm.attrs().message() == "next" && cm.tree().inner() == s.newtree, "a commit after a crash is not what was committed");
    sym::check(cm.parents().len() == 1 && cm.parents()[0].inner() == parent, "a commit after a crash has another parent");
}

/// C23: the power fails right after a command has reported success
#[no_mangle]
pub extern "C" fn h_c23_power() {
    let cmd = sym::choice("command", COMMANDS);
    let s = setup(cmd);
    let c = world::ctl();
    c.on = true;
    c.scope = if sym::flag("cache") { "/h" } else { "/w/.snapcd" };
    c.power = true;
    let o = command(cmd, &s);
    c.on = false;
    c.power = false;
    sym::check(!failed(&o), "a command that should succeed fails");
    sym::check(done(cmd, &s, Some(&o)), "what a command reported as done is lost with the power");
    must(&["commit", "-m", "next", "master"]);
    let ds = open("/w");
    let k = ds.reflog_get("master", None).unwrap();
    check_tree(&ds, Commit::from_key(&ds, k).tree().inner(), &s.tree);
    sym::cover("done");
}

/// C24: the power fails before any call that changes something
#[no_mangle]
pub extern "C" fn h_c24_power() {
    crash(true);
}

/// C24: initialising is cut short and done again
#[no_mangle]
pub extern "C" fn h_c24_init() {
    world::init();
    let c = world::ctl();
    c.on = true;
    c.scope = "/";
    c.crash_budget = 1;
    c.power = sym::flag("power");
    world::snapcd(&["init"]);
    c.on = false;
    c.power = false;
    if c.crashed != 0 {
        sym::cover("killed");
    }
    must(&["init"]);
    let s = snap("/w");
    sym::check(s.head.as_ref().map(|x| x.as_str()) == Some("master"), "initialising does not set the branch");
    sym::check(s.objs.is_empty(), "a new repository holds objects");
    world::write("/w/a", &one("a"));
    must(&["commit", "-m", "m"]);
    let ds = open("/w");
    let k = ds.reflog_get("master", None).unwrap();
    check_tree(&ds, Commit::from_key(&ds, k).tree().inner(), &the_tree("/w"));
}

// ---- C26 ----

/// C26: switching the current branch
#[no_mangle]
pub extern "C" fn h_c26_switch() {
    use crate::p_diff::{edit, seed_tree, stamp, want};
    world::init();
    must(&["init"]);
    let t = seed_tree();
    plant("/w", &t);
    stamp("/w/a", 0);
    stamp("/w/d/x", 1);
    must(&["commit", "-m", "m"]);
    // what the current branch holds
    let mut tree = t.clone();
    let mut head = "master";
    match sym::choice("state", 3) {
        0 => {}
        1 => {
            // another branch, with another tree, is the current one or not
            world::write("/w/d/y", b"y");
            must(&["commit", "-m", "n", "dev"]);
            if sym::flag("there") {
                must(&["debug", "set-head", "dev"]);
                head = "dev";
                tree = the_tree("/w");
            }
        }
        _ => {
            // a second commit on the same one
            world::write("/w/d/y", b"y");
            must(&["commit", "-m", "n"]);
            tree = the_tree("/w");
        }
    }
    edit(30);
    let to = ["dev", "master", "b"][sym::choice("to", sym::param("to", 3) as u32) as usize];
    let cwd = ["/w", "/w/e"][if to == "dev" { sym::choice("cwd", 2) as usize } else { 0 }];
    if !Path::new(cwd).is_dir() {
        sym::end();
    }
    let before = snap("/w");
    let now = the_tree("/w");
    let clean = want(&tree, &now).empty();
    world::chdir(cwd);
    let o = world::snapcd(&["checkout-head", to]);
    world::chdir("/w");
    sym::check(!crashed(&o) && !failed(&o), "switching the branch crashes or fails");
    let after = snap("/w");
    if clean {
        sym::check(after.head.as_ref().map(|x| x.as_str()) == Some(to), "the branch is not switched though there are no changes");
        sym::cover("switched");
    } else {
        sym::check(after.head.as_ref().map(|x| x.as_str()) == Some(head), "the branch is switched though there are changes");
        sym::cover("refused");
    }
    sym::check(same_refs(&before, &after), "switching the branch changes a branch");
    sym::check(within(&before, &after), "switching the branch loses or changes an object");
    sym::check(world::same_tree(&now, &the_tree("/w")), "switching the branch changes a file");
}

// ---- C27 ----

/// the keys after "commit: ", in order, and what follows each up to the next
fn sections(out: &str) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    for l in out.lines() {
        if let Some(k) = l.strip_prefix("commit: ") {
            v.push((k.trim().to_string(), String::new()));
        } else if let Some(x) = v.last_mut() {
            x.1.push_str(l);
            x.1.push('\n');
        }
    }
    v
}

/// C27: any chain of commits with any trees
#[no_mangle]
pub extern "C" fn h_c27_log() {
    use crate::p_diff::PAIRS;
    world::init();
    let shapes = sym::param("shapes", 5) as u32;
    let n = sym::choice("commits", sym::param("commits", 3) as u32) as usize + 1;
    let mut ds = SqliteDS::new(":memory:").unwrap();
    let mut commits: Vec<(snapcd::key::TypedKey<Commit>, String)> = vec![];
    for i in 0..n {
        let dir = format!("/w/t{}", i);
        let s = PAIRS[sym::choice("shape", shapes) as usize];
        // the same contents, so that parts of the trees stay the same
        let mut t = fill(s, 0);
        for x in t.iter_mut() {
            if !x.1 {
                x.2 = if x.0.contains('x') { b"x\n".to_vec() } else { vec![b'0' + i as u8, 10] };
            }
        }
        plant(&dir, &t);
        let tree = match put_fs_item(&mut ds, Path::new(&dir), &|_| true) {
            Ok(k) => k,
            Err(_) => sym::fail("a readable tree cannot be inserted"),
        };
        let mut parents = vec![];
        if let Some(p) = commits.last() {
            parents.push(p.0);
        }
        if i == 2 && sym::flag("merge") {
            parents.push(commits[0].0);
        }
        let mut attrs = snapcd::commit::CommitAttrs::default();
        let msg = format!("{}-{}", MSGS[i % MSGS.len()], i);
        attrs.set_message(msg.clone());
        let k = match snapcd::commit::commit_tree(&mut ds, tree.into(), parents, attrs) {
            Ok(k) => k,
            Err(_) => sym::fail("a commit cannot be made"),
        };
        commits.push((k, msg));
    }
    let tip = commits[n - 1].0;
    let kind = if sym::flag("patch") { snapcd::display::Kind::Patch } else { snapcd::display::Kind::Stat };
    let o = world::call(&mut || {
        if snapcd::display::log_obj(&mut ds, tip.inner(), kind).is_err() {
            println!("=error");
        }
    });
    sym::check(o.code == 0, "the log crashes");
    sym::check(!has(&o.out, b"=error"), "the log ends with an error");
    let got = sections(o.out_str());
    let mut at = tip;
    let mut i = 0;
    loop {
        sym::check(i < got.len(), "a commit is missing in the log");
        sym::check(got[i].0 == at.to_string(), "the log does not follow the first parents");
        let m = &commits.iter().find(|x| x.0.inner() == at.inner()).unwrap().1;
        sym::check(got[i].1.contains(m.as_str()), "a commit's message is missing in the log");
        i += 1;
        match Commit::from_key(&ds, at).parents().get(0) {
            Some(p) => at = *p,
            None => break,
        }
    }
    sym::check(got.len() == i, "the log shows more commits than there are");
    sym::cover(if i > 1 { "several" } else { "one" });
}

/// C27: the program, on what it committed itself
#[no_mangle]
pub extern "C" fn h_c27_cli() {
    use crate::p_diff::{edit, seed_tree};
    world::init();
    must(&["init"]);
    plant("/w", &seed_tree());
    must(&["commit", "-m", "first"]);
    must(&["commit", "-m", "other", "dev"]);
    edit(5);
    must(&["commit", "-m", "second"]);
    if sym::flag("again") {
        must(&["commit", "-m", "second"]);
    }
    let tip = open("/w").reflog_get("master", None).unwrap();
    let (branch, args): (&str, Vec<String>) = match sym::choice("which", 4) {
        0 => ("master", vec!["log".into()]),
        1 => ("dev", vec!["log".into(), "/dev".into()]),
        2 => ("master", vec!["log".into(), "/master".into()]),
        _ => ("master", vec!["log".into(), tip.to_string()]),
    };
    let o = must(&args.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    let got = sections(o.out_str());
    let ds = open("/w");
    let mut at = ds.reflog_get(branch, None).unwrap();
    let mut i = 0;
    loop {
        sym::check(i < got.len(), "a commit is missing in the log");
        sym::check(got[i].0 == at.to_string(), "the log does not follow the first parents");
        let c = Commit::from_key(&ds, at);
        sym::check(got[i].1.contains(c.attrs().message()), "a commit's message is missing in the log");
        i += 1;
        match c.parents().get(0) {
            Some(p) => at = *p,
            None => break,
        }
    }
    sym::check(got.len() == i, "the log shows more commits than there are");
    sym::cover(branch);
}

// ---- C28 ----

const LEVELS: &[&str] = &["/w", "/w/p", "/w/p/q"];

fn keys_below(path: &str) -> Key {
    let mut ds = SqliteDS::new(":memory:").unwrap();
    let own = Path::new(path).join(".snapcd");
    match put_fs_item(&mut ds, Path::new(path), &|e| e.path() != own) {
        Ok(k) => k,
        Err(_) => sym::fail("a readable tree cannot be inserted"),
    }
}

/// C28: which repository a command uses
#[no_mangle]
pub extern "C" fn h_c28_nearest() {
    world::init();
    world::mkdir("/w/p");
    world::mkdir("/w/p/q");
    world::write("/w/p/q/f", &one("f"));
    let has_repo: Vec<bool> = LEVELS.iter().map(|_| sym::flag("repo")).collect();
    for (i, l) in LEVELS.iter().enumerate() {
        if has_repo[i] {
            world::chdir(l);
            must(&["init"]);
            must(&["debug", "set-head", BRANCHES[i]]);
        }
    }
    let c = sym::choice("cwd", 3) as usize;
    let cmd = sym::choice("command", 4);
    let near = (0..=c).rev().find(|i| has_repo[*i]);
    let before: Vec<Option<Snap>> = (0..3).map(|i| if has_repo[i] { Some(snap(LEVELS[i])) } else { None }).collect();
    let want = near.map(|i| keys_below(LEVELS[i]));
    world::chdir(LEVELS[c]);
    let args: &[&str] = match cmd {
        0 => &["debug", "get-head"],
        1 => &["commit", "-m", "m"],
        2 => &["status"],
        _ => &["debug", "set-head", "other"],
    };
    let o = world::snapcd(args);
    sym::check(!crashed(&o), "a command crashes for the place it is run in");
    world::chdir("/w");
    match near {
        None => {
            sym::check(failed(&o), "a command succeeds without a repository");
            sym::cover("none");
        }
        Some(i) => {
            sym::check(!failed(&o), "a command does not find the repository");
            let after = snap(LEVELS[i]);
            let b = before[i].as_ref().unwrap();
            match cmd {
                0 => sym::check(has(&o.out, format!("\"{}\"", BRANCHES[i]).as_bytes()), "another repository than the nearest is used"),
                1 => {
                    let ds = open(LEVELS[i]);
                    let k = match ds.reflog_get(BRANCHES[i], None) {
                        Ok(k) => k,
                        Err(_) => sym::fail("a commit does not go to the nearest repository"),
                    };
                    sym::check(Some(Commit::from_key(&ds, k).tree().inner()) == want, "a commit is not that of the repository's directory");
                }
                2 => sym::check(has(&o.out, format!("HEAD: {} ", BRANCHES[i]).as_bytes()) && same(b, &after), "another repository than the nearest is used"),
                _ => sym::check(after.head.as_ref().map(|x| x.as_str()) == Some("other"), "another repository than the nearest is used"),
            }
            sym::cover("found");
        }
    }
    for i in 0..3 {
        if Some(i) == near {
            continue;
        }
        let there = Path::new(&format!("{}/.snapcd", LEVELS[i])).exists();
        sym::check(there == has_repo[i], "a command creates or removes a repository");
        if let Some(b) = &before[i] {
            sym::check(same(b, &snap(LEVELS[i])), "a command changes another repository");
        }
    }
}

/// C28: a new repository
#[no_mangle]
pub extern "C" fn h_c28_init() {
    world::init();
    world::mkdir("/w/p");
    world::write("/w/p/f", &one("f"));
    let outer = sym::flag("outer");
    if outer {
        must(&["init"]);
        must(&["debug", "set-head", "dev"]);
        must(&["insert", "/w/p/f"]);
    }
    let before = if outer { Some(snap("/w")) } else { None };
    let files = world::tree("/w/p");
    world::chdir("/w/p");
    let (db, args): (&str, &[&str]) = match sym::choice("name", 3) {
        0 => (".snapcd", &["init"]),
        1 => ("other", &["-d", "other", "init"]),
        _ => ("sub/other", &["init", "--db", "sub/other"]),
    };
    let o = world::snapcd(args);
    if db == "sub/other" && failed(&o) && !crashed(&o) {
        // the option is not taken there
        sym::end();
    }
    sym::check(!crashed(&o) && !failed(&o), "a repository cannot be created");
    world::chdir("/w");
    let f = format!("/w/p/{}/snapcd.db", db);
    sym::check(Path::new(&f).exists(), "no repository is created in the current directory");
    let ds = match SqliteDS::new(&f) {
        Ok(d) => d,
        Err(_) => sym::fail("a new repository cannot be opened"),
    };
    sym::check(ds.get_head().unwrap().as_ref().map(|x| x.as_str()) == Some("master"), "a new repository is not on the branch master");
    sym::check(ds.raw_between(&[], None).unwrap().is_empty(), "a new repository is not empty");
    for b in BRANCHES {
        sym::check(ds.reflog_walk(b, None).unwrap().is_empty(), "a new repository has a branch");
    }
    let top = db.split('/').next().unwrap();
    sym::check(world::same_tree(&without(&world::tree("/w/p"), &[top]), &files), "creating a repository changes a file");
    match &before {
        Some(b) => sym::check(same(b, &snap("/w")), "creating a repository changes another one"),
        None => sym::check(!Path::new("/w/.snapcd").exists(), "a repository is created elsewhere"),
    }
    sym::cover(if outer { "nested" } else { "alone" });
    if sym::flag("again") {
        // what it holds by now survives another init
        world::chdir("/w/p");
        if db == ".snapcd" {
            must(&["commit", "-m", "m"]);
            let b = snap("/w/p");
            must(&["init"]);
            let a = snap("/w/p");
            sym::check(same_refs(&a, &b) && within(&b, &a), "initialising again loses what the repository holds");
        }
    }
}

/// C28: the database folder is a link; the repository's directory is the one
/// that holds the link. And a repository that is moved with its directory
#[no_mangle]
pub extern "C" fn h_c28_moved() {
    world::init();
    world::mkdir("/w/x");
    world::mkdir("/w/store");
    let (f, h) = (one("f"), one("h"));
    let files = |at: &str| {
        world::mkdir(&format!("{}/d", at));
        world::write(&format!("{}/d/h", at), &h);
        world::write(&format!("{}/f", at), &f);
    };
    files("/w/x");
    world::write("/w/store/g", b"g");
    world::mkdir("/w/a");
    let how = sym::choice("how", 5);
    let (at, db) = [("/w/a", "/w/store/.snapcd"), ("/w/a", "/w/store/db"), ("/w/a", "/w/a/db"), ("/w/b", "/w/b/.snapcd"), ("/w/store/b/c", "/w/store/b/c/.snapcd")][how as usize];
    match how {
        0 | 1 | 2 => {
            must(&["--db", db, "init"]);
            let to = if how == 1 { "../store/db" } else if how == 2 { "db" } else { db };
            std::os::unix::fs::symlink(to, "/w/a/.snapcd").unwrap();
            files("/w/a");
        }
        _ => {
            world::chdir("/w/a");
            must(&["init"]);
            files("/w/a");
        }
    }
    let early = how > 2 && sym::flag("early");
    world::chdir("/w/a");
    if early {
        must(&["commit", "-m", "m"]);
    }
    if how > 2 {
        world::chdir("/");
        if how == 4 {
            world::mkdir("/w/store/b");
        }
        std::fs::rename("/w/a", at).unwrap();
    }
    let below = sym::flag("below");
    world::chdir(&if below { format!("{}/d", at) } else { at.to_string() });
    if !early {
        must(&["commit", "-m", "m"]);
    }
    let o = world::snapcd(&["status"]);
    sym::check(!failed(&o) && !o.out_str().lines().any(|l| l.starts_with("  ")), "what was just committed is not clean");
    let g = one("new");
    world::write(&format!("{}/d/h", at), &g);
    world::set_time(&format!("{}/d/h", at), 1_600_000_000, 7);
    let o = world::snapcd(&["status"]);
    let listed: Vec<&str> = o.out_str().lines().filter(|l| l.starts_with("  ")).collect();
    sym::note(o.out_str());
    sym::check(!failed(&o) && (listed == ["  d/h"] || listed.is_empty() && sym::eq(&g, &h)), "another directory than the repository's is compared");
    let real = db.trim_end_matches("/.snapcd");
    let ds = SqliteDS::new(&format!("{}/snapcd.db", if how == 1 || how == 2 { db.to_string() } else { format!("{}/.snapcd", real) })).unwrap();
    let k = match ds.reflog_get("master", None) {
        Ok(k) => k,
        Err(_) => sym::fail("a commit does not go to the repository"),
    };
    let c = Commit::from_key(&ds, k);
    let mut m = SqliteDS::new(":memory:").unwrap();
    let want = snapcd::dir::put_fs_item(&mut m, Path::new("/w/x"), &|_| true).unwrap();
    sym::check(c.tree().inner() == want, "a commit is not that of the repository's directory");
    sym::cover(if how > 2 { "moved" } else { "link" });
}
