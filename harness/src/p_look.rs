//! C29, C30, C31: what commands report, how they end, and what they leave alone.
use crate::cli_util::*;
use crate::p_cmd::{open, same_refs, snap, within};
use crate::trees::*;
use crate::{sym, world};
use snapcd::ds::sqlite::SqliteDS;
use snapcd::ds::Reflog;
use snapcd::key::Key;
use snapcd::DataStore;

struct Repo {
    tip: String,
    first: String,
    tree: String,
    file: String,
}

/// two commits on master, one of them on o/m as well, and an edited directory
fn repo() -> Repo {
    world::init();
    must(&["init"]);
    let t: Tree = vec![("a".into(), F, b"a\nb\n".to_vec()), ("d".into(), D, vec![]), ("d/x".into(), F, b"x".to_vec()), ("e".into(), D, vec![])];
    plant("/w", &t);
    let tree = insert("/w/d");
    must(&["commit", "-m", "one"]);
    let first = open("/w").reflog_get("master", None).unwrap().to_string();
    must(&["debug", "reflog-push", &first, "m", "o"]);
    world::write("/w/a", &[b"a\nc\n".to_vec(), letter("a")].concat());
    must(&["commit", "-m", "two"]);
    let tip = open("/w").reflog_get("master", None).unwrap().to_string();
    std::fs::remove_file("/w/d/x").unwrap();
    world::write("/w/d/y", &letter("y"));
    world::write("/w/a", b"other\n");
    let file = insert("/w/d/y");
    Repo { tip, first, tree, file }
}

/// one character of a text
fn letter(what: &str) -> Vec<u8> {
    let b = sym::bytes(what, 1);
    sym::assume(b[0] < 0x80);
    b
}

const LOOKS: u32 = 16;

fn look(i: u32, r: &Repo) -> world::Outcome {
    let k = &r.tip[..20];
    match i {
        0 => world::snapcd(&["status"]),
        1 => world::snapcd(&["compare"]),
        2 => world::snapcd(&["compare", "-s"]),
        3 => world::snapcd(&["show"]),
        4 => world::snapcd(&["log"]),
        5 => world::snapcd(&["ref", "log"]),
        6 => world::snapcd(&["debug", "get-head"]),
        7 => world::snapcd(&["debug", "reflog-get", "m", "o"]),
        8 => world::snapcd(&["fetch", &r.tree, "/tmp/o"]),
        9 => world::snapcd(&["compare", &r.tree, "-p", "/w/d"]),
        10 => world::snapcd(&["log", "o/m"]),
        11 => world::snapcd(&["debug", "walk-tree", &r.tree]),
        12 => world::snapcd(&["show", k]),
        13 => world::snapcd(&["show", &r.file]),
        14 => world::snapcd(&["show", &r.tree]),
        _ => world::snapcd(&["debug", "pretty-print", &r.file]),
    }
}

/// C29: one call to the system fails, anywhere, while something is shown
#[no_mangle]
pub extern "C" fn h_c29_fault() {
    let i = sym::choice("command", sym::param("commands", u64::from(LOOKS)) as u32);
    let r = repo();
    let want = look(i, &r);
    sym::check(!failed(&want), "a command that should succeed fails");
    let fetched = world::tree("/tmp");
    if i == 8 {
        std::fs::remove_dir_all("/tmp/o").unwrap();
    }
    let c = world::ctl();
    c.on = true;
    c.scope = "/";
    c.fault_mask = !0;
    c.fault_budget = sym::param("faults", 1) as u32;
    let o = look(i, &r);
    c.on = false;
    if failed(&o) {
        sym::cover("failed");
    } else {
        sym::check(sym::eq(&o.out, &want.out), "a command that could not read everything shows something else without saying so");
        if i == 8 {
            sym::check(world::same_tree(&world::tree("/tmp"), &fetched), "a fetch that reports success is not complete");
        }
        sym::cover(if c.faulted != 0 { "went on" } else { "no failure" });
    }
}

/// C29: one stored object is missing
#[no_mangle]
pub extern "C" fn h_c29_missing() {
    let i = sym::choice("command", sym::param("commands", u64::from(LOOKS)) as u32);
    let r = repo();
    let want = look(i, &r);
    sym::check(!failed(&want), "a command that should succeed fails");
    let fetched = world::tree("/tmp");
    if i == 8 {
        std::fs::remove_dir_all("/tmp/o").unwrap();
    }
    world::mkdir("/tmp/n");
    must(&["--db", "/tmp/n", "init"]);
    {
        let old = open("/w");
        let all = old.raw_between(&[], None).unwrap();
        // in an order that does not depend on the hashes
        let mut seen: Vec<Key> = vec![];
        let mut todo: Vec<Key> = [&r.tree, &r.file, &r.tip].iter().map(|x| old.canonicalize(x.parse().unwrap()).unwrap()).collect();
        while let Some(k) = todo.pop() {
            if !seen.contains(&k) {
                seen.push(k);
                todo.extend_from_slice(old.get_obj(k).unwrap().keys());
            }
        }
        let which = seen[sym::choice("missing", seen.len() as u32) as usize].as_db_key();
        let new = SqliteDS::new("/tmp/n/snapcd.db").unwrap();
        for k in &all {
            if k[..] != which[..] {
                new.raw_put(k, &old.raw_get(k).unwrap()).unwrap();
            }
        }
        for (name, remote) in [("master", None), ("m", Some("o"))] {
            for k in old.reflog_walk(name, remote).unwrap().into_iter().rev() {
                new.reflog_push(&Reflog { key: k, refname: name.into(), remote: remote.map(Into::into) }).unwrap();
            }
        }
    }
    world::write("/w/.snapcd/snapcd.db", &world::read("/tmp/n/snapcd.db").unwrap());
    std::fs::remove_dir_all("/tmp/n").unwrap();
    let o = look(i, &r);
    if failed(&o) {
        sym::cover("failed");
    } else {
        sym::check(sym::eq(&o.out, &want.out), "a command that misses an object shows something else without saying so");
        if i == 8 {
            sym::check(world::same_tree(&world::tree("/tmp"), &fetched), "a fetch that reports success is not complete");
        }
        sym::cover("not needed");
    }
}

/// C31: looking changes nothing, storing leaves the directory alone
#[no_mangle]
pub extern "C" fn h_c31_look() {
    let r = repo();
    // another branch with some history
    for k in [&r.first, &r.tip, &r.first] {
        must(&["ref", "update", k, "b"]);
    }
    let i = sym::choice("command", LOOKS + 24);
    // elsewhere as well
    if i == LOOKS + 16 {
        must(&["debug", "set-head", "dev"]);
    } else if sym::flag("below") {
        world::chdir("/w/d");
    }
    let what = |p: &str| -> Vec<(String, bool, Vec<u8>)> { without(&world::tree(p), &[".snapcd"]) };
    let (before, files, times) = (snap("/w"), what("/w"), times("/w"));
    if i < LOOKS {
        let o = look(i, &r);
        sym::check(!failed(&o), "a command that should succeed fails");
        // (objects of the directory may be stored by comparing it)
        let after = snap("/w");
        sym::check(same_refs(&before, &after) && before.head == after.head, "a command that only shows something changes a branch");
        sym::check(within(&before, &after), "a command loses or changes stored objects");
        sym::cover("looked");
    } else {
        let o = match i - LOOKS {
            0 => world::snapcd(&["insert", "/w"]),
            10 => world::snapcd(&["debug", "commit-tree", &r.tree, &r.tip]),
            11 => world::snapcd(&["debug", "commit-tree", &r.tree, "/master", &r.first]),
            12 => world::snapcd(&["-e", "*a", "insert", "/w"]),
            13 => world::snapcd(&["commit", "-m", "m", "-p", "/w/d"]),
            14 => world::snapcd(&["ref", "update", &r.first, "master"]),
            15 => world::snapcd(&["debug", "set-head", "master"]),
            16 => world::snapcd(&["init"]),
            1 => world::snapcd(&["insert", "/w/a"]),
            2 => world::snapcd(&["commit", "-m", "m"]),
            3 => world::snapcd(&["commit", "-m", "m", "dev"]),
            4 => world::snapcd(&["ref", "update", &r.first]),
            5 => world::snapcd(&["debug", "commit-tree", &r.tree]),
            6 => world::snapcd(&["debug", "set-head", "dev"]),
            7 => world::snapcd(&["checkout-head", "dev"]),
            8 => world::snapcd(&["debug", "reflog-push", &r.first, "m", "o"]),
            17 => world::snapcd(&["ref", "update", &r.tip, "b"]),
            18 => world::snapcd(&["debug", "reflog-push", &r.first, "b"]),
            19 => world::snapcd(&["commit", "-m", "m", "b"]),
            20 => world::snapcd(&["debug", "reflog-push", &r.first, "master", "o"]),
            21 => world::snapcd(&["ref", "update", &r.first, "dev"]),
            22 => world::snapcd(&["debug", "reflog-push", &r.first, "dev"]),
            23 => world::snapcd(&["commit", "-m", "m", "-p", "/w/d", "b"]),
            _ => world::snapcd(&["debug", "pretty-print", &r.first]),
        };
        sym::check(!failed(&o), "a command that should succeed fails");
        let after = snap("/w");
        sym::check(within(&before, &after), "a command loses or changes stored objects");
        if [0, 1, 5, 6, 7, 9, 10, 11, 12, 15, 16].contains(&(i - LOOKS)) {
            sym::check(same_refs(&before, &after), "a command that has nothing to do with references changes one");
        }
        // the one reference that it may change
        let only = match i - LOOKS {
            2 | 4 | 13 | 14 => 0,
            3 | 21 | 22 => 1,
            17 | 18 | 19 | 23 => 2,
            20 => 3,
            8 => 5,
            _ => usize::MAX,
        };
        for (n, (x, y)) in before.refs.iter().zip(after.refs.iter()).enumerate() {
            sym::check(n == only || x == y, "a command changes another reference than its own");
            // (the last one of a branch may be set again)
            sym::check(y.len() <= x.len() + 1 && y.ends_with(x), "a command changes the history of a reference");
        }
        if ![6].contains(&(i - LOOKS)) {
            sym::check(before.head == after.head, "a command changes the current branch that should not");
        }
        sym::cover("stored");
    }
    sym::check(world::same_tree(&what("/w"), &files), "a command that should not changes the directory");
    sym::check(self::times("/w") == times, "a command that should not touches files");
}

/// the times of all files of a directory, not those of the repository
fn times(p: &str) -> Vec<(String, std::time::SystemTime)> {
    let mut v = vec![];
    for e in without(&world::tree(p), &[".snapcd"]) {
        let m = std::fs::metadata(format!("{}/{}", p, e.0)).unwrap();
        v.push((e.0, m.modified().unwrap()));
    }
    v
}

/// C30: the status a command exits with
#[no_mangle]
pub extern "C" fn h_c30_status() {
    let r = repo();
    let mut absent = r.tip.clone();
    // another key
    let c = if absent.ends_with('a') { "q" } else { "a" };
    absent.replace_range(30..31, if &absent[30..31] == c { "b" } else { c });
    let bad = sym::flag("bad");
    let o = if bad {
        let a: Vec<&str> = match sym::choice("request", 18) {
            0 => vec!["insert", "/w/none"],
            1 => vec!["commit", "-m", "x", "-p", "none"],
            2 => vec!["fetch", &absent, "/tmp/o"],
            3 => vec!["fetch", &r.tree, "/w/a/b"],
            4 => vec!["ref", "update", &absent, "dev"],
            5 => vec!["ref", "update", "no/such"],
            6 => vec!["debug", "reflog-push", &absent, "dev"],
            7 => vec!["debug", "reflog-get", "none"],
            8 => vec!["debug", "reflog-get", "m", "none"],
            9 => vec!["debug", "commit-tree", &r.tree, &absent],
            10 => vec!["show", &absent],
            11 => vec!["log", "o/none"],
            12 => vec!["compare", &absent],
            13 => vec!["compare", "-p", "none"],
            14 => vec!["debug", "walk-tree", &absent],
            15 => vec!["debug", "pretty-print", &absent],
            16 => {
                std::fs::remove_dir_all("/w/.snapcd").unwrap();
                vec!["status"]
            }
            _ => {
                // somewhere without a repository
                world::chdir("/tmp");
                vec!["commit", "-m", "x"]
            }
        };
        world::snapcd(&a)
    } else {
        match sym::choice("command", LOOKS + 6) {
            i if i < LOOKS => look(i, &r),
            i => match i - LOOKS {
                0 => world::snapcd(&["insert", "/w"]),
                1 => world::snapcd(&["commit", "-m", "m"]),
                2 => world::snapcd(&["ref", "update", &r.first, "dev"]),
                3 => world::snapcd(&["debug", "set-head", "dev"]),
                4 => world::snapcd(&["checkout-head", "master"]),
                _ => world::snapcd(&["init"]),
            },
        }
    };
    if bad {
        sym::check(o.code != 0, "a command that fails exits with the status of one that does not");
        sym::check(o.out.len() + o.err.len() > 0, "a command that fails does not say why");
        sym::cover("failed");
    } else {
        sym::check(o.code == 0, "a command that succeeds exits with the status of one that fails");
        sym::cover("succeeded");
    }
}

/// C30: one call to the system fails, anywhere: exit status and report agree
#[no_mangle]
pub extern "C" fn h_c30_fault() {
    let i = sym::choice("command", 3);
    let r = repo();
    let c = world::ctl();
    c.on = true;
    c.scope = "/";
    c.fault_mask = !0;
    c.fault_budget = 1;
    let o = match i {
        0 => world::snapcd(&["commit", "-m", "x"]),
        1 => look(1, &r),
        _ => world::snapcd(&["insert", "/w"]),
    };
    c.on = false;
    if has(&o.out, b"fatal: ") || has(&o.err, b"Error: ") {
        sym::check(o.code != 0, "a command that fails exits with the status of one that does not");
        sym::cover("failed");
    } else {
        // (a crash has a status of its own)
        sym::check(o.code == 0 || crashed(&o), "a command exits with a failure's status and does not say why");
        sym::cover("succeeded");
    }
}

/// C35: the commands that show a stored thing, or a directory
#[no_mangle]
pub extern "C" fn h_c35_show() {
    world::init();
    must(&["init"]);
    let n = [0usize, 1, 2, 5000, 40000, 140000][sym::choice("size", sym::param("sizes", 5) as u32) as usize];
    let mut data: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8 & 0x7f).collect();
    if n > 0 && n <= 2 {
        data = sym::bytes("data", n);
    } else if n > 2 {
        let at = [0, n / 2, n - 1][sym::choice("place", 3) as usize];
        data[at] = sym::byte("byte");
    }
    world::mkdir("d");
    world::mkdir("d/e");
    world::mkdir("d/e e");
    world::write("d/e e/\u{e9}\"", b"q");
    world::write("d/.h", b"");
    world::write("d/f", &data);
    world::write("d/g", b"line\nno newline");
    let kd = insert("d");
    let kf = insert("d/f");
    let want: Vec<(&str, bool)> = vec![(".h", F), ("e", D), ("e e", D), ("e e/\u{e9}\"", F), ("f", F), ("g", F)];
    match sym::choice("what", 6) {
        0 => {
            let short = sym::flag("prefix");
            let o = must(&["show", if short { &kf[..16] } else { &kf }]);
            sym::check(sym::eq(&o.out, &data), "what is shown of a file is not what it holds");
            sym::cover("file");
        }
        1 => {
            let k = insert("d/g");
            let o = must(&["show", &k]);
            sym::check(sym::eq(&o.out, b"line\nno newline"), "what is shown of a file is not what it holds");
            sym::cover("text");
        }
        2 => {
            let o = must(&["debug", "walk-tree", &kd]);
            let lines: Vec<&str> = o.out_str().lines().collect();
            sym::check(lines.len() == want.len(), "the listing of a stored directory has too few or too many entries");
            for (p, d) in &want {
                let k = insert(&format!("d/{}", p));
                let k = open("/w").canonicalize(k.parse().unwrap()).unwrap();
                let full = format!("({:?}, ({:?}, {}))", std::path::Path::new(p), k, d);
                sym::check(lines.iter().any(|l| *l == full), "the listing of a stored directory lacks an entry");
            }
            sym::cover("stored directory");
        }
        3 => {
            let o = must(&["debug", "walk-fs-tree", "d"]);
            let lines: Vec<&str> = o.out_str().lines().collect();
            sym::check(lines.len() == want.len(), "the listing of a directory has too few or too many entries");
            for (p, d) in &want {
                let full = format!("{:?}, {}", std::path::Path::new(p), d);
                sym::check(lines.iter().any(|l| *l == full), "the listing of a directory lacks an entry");
            }
            sym::cover("directory");
        }
        4 => {
            let o = must(&["show", &kd]);
            sym::check(has(&o.out, kd.as_bytes()), "what is shown of a directory does not name it");
            sym::cover("tree");
        }
        _ => {
            let ds = open("/w");
            let mut keys: Vec<Key> = vec![];
            let mut todo = vec![ds.canonicalize(kf.parse().unwrap()).unwrap(), ds.canonicalize(kd.parse().unwrap()).unwrap()];
            while let Some(k) = todo.pop() {
                if !keys.contains(&k) {
                    let o = ds.get_obj(k).unwrap();
                    todo.extend(o.keys());
                    keys.push(k);
                }
            }
            let i = sym::choice("object", 16) as usize;
            if i >= keys.len() {
                sym::end();
            }
            let obj = ds.get_obj(keys[i]).unwrap().into_owned();
            drop(ds);
            if obj.data().len() > sym::param("object", 6000) as usize {
                sym::end();
            }
            let o = must(&["debug", "pretty-print", &keys[i].to_string()]);
            let mut head = format!("--type: {:?}--\n--keys--\n", obj.objtype()).into_bytes();
            for k in obj.keys() {
                head.extend_from_slice(format!("{}\n{:?}\n\n", k, k).as_bytes());
            }
            head.extend_from_slice(b"-/keys--\n--data--\n");
            for c in obj.data().chunks(20) {
                for b in c {
                    let hex = |x: u8| if x < 10 { b'0' + x } else { b'a' + x - 10 };
                    head.push(hex(b >> 4));
                    head.push(hex(b & 15));
                }
                head.push(b'\n');
            }
            head.extend_from_slice(b"-/data--\n");
            sym::check(o.out.len() > head.len() && sym::eq(&o.out[..head.len()], &head), "what is printed of an object is not that object");
            sym::cover("object");
        }
    }
}
