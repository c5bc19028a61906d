//! C34: the stored form, written down here once more.
use crate::cli_util::*;
use crate::trees::*;
use crate::{sym, world};
use rusqlite::params;
use std::path::Path;

// ---- the form ----

fn head(major: u8, n: usize, out: &mut Vec<u8>) {
    if n < 24 {
        out.push(major << 5 | n as u8);
    } else if n < 256 {
        out.push(major << 5 | 24);
        out.push(n as u8);
    } else {
        assert!(n < 65536);
        out.push(major << 5 | 25);
        out.push((n >> 8) as u8);
        out.push(n as u8);
    }
}
fn text(s: &str, out: &mut Vec<u8>) {
    head(3, s.len(), out);
    out.extend(s.as_bytes());
}
type Hash = [u8; 32];
fn object(data: &[u8], keys: &[Hash], kind: &str) -> Vec<u8> {
    let mut o = vec![0xa3];
    text("data", &mut o);
    head(2, data.len(), &mut o);
    o.extend(data);
    text("keys", &mut o);
    head(4, keys.len(), &mut o);
    for k in keys {
        o.push(0xa1);
        text("Blake3B", &mut o);
        head(4, 32, &mut o);
        for b in k {
            head(0, *b as usize, &mut o);
        }
    }
    text("objtype", &mut o);
    text(kind, &mut o);
    o
}
fn item(size: usize, kind: &str, names: &[&str]) -> Vec<u8> {
    let mut o = vec![0xa3];
    text("size", &mut o);
    head(0, size, &mut o);
    text("itemtype", &mut o);
    text(kind, &mut o);
    text("children_names", &mut o);
    head(4, names.len(), &mut o);
    for n in names {
        text(n, &mut o);
    }
    o
}
fn commit_data(message: &str) -> Vec<u8> {
    let mut o = vec![0xa2];
    text("message", &mut o);
    text(message, &mut o);
    text("extra", &mut o);
    o.push(0xa0);
    o
}
fn db_key(h: &Hash) -> Vec<u8> {
    let mut v = vec![1];
    v.extend(h);
    v
}
fn user_key(h: &Hash) -> String {
    const T: &[u8; 32] = b"abcdefghijklmnopqrstuvwxyz234567";
    let mut s = String::from("b");
    for i in 0..52 {
        let mut v = 0;
        for j in 0..5 {
            let at = i * 5 + j;
            let b = if at < 256 { h[at / 8] >> (7 - at % 8) & 1 } else { 0 };
            v = v << 1 | b;
        }
        s.push(T[v as usize] as char);
    }
    s
}

// ---- a repository in it ----

#[derive(Default)]
struct Old {
    objs: Vec<(Hash, Vec<u8>)>,
}
impl Old {
    fn put(&mut self, o: Vec<u8>) -> Hash {
        let h = *blake3::hash(&o).as_bytes();
        if !self.objs.iter().any(|x| x.0 == h) {
            self.objs.push((h, o));
        }
        h
    }
    fn blob(&mut self, d: &[u8]) -> Hash {
        self.put(object(d, &[], "FileBlob"))
    }
    fn file_of(&mut self, size: usize, blob: Hash) -> Hash {
        self.put(object(&item(size, "File", &[]), &[blob], "FSItemFile"))
    }
    fn file(&mut self, d: &[u8]) -> Hash {
        let b = self.blob(d);
        self.file_of(d.len(), b)
    }
    fn dir(&mut self, names: &[&str], keys: &[Hash]) -> Hash {
        self.put(object(&item(names.len(), "Dir", names), keys, "FSItemDir"))
    }
    fn commit(&mut self, message: &str, tree: Hash, parents: &[Hash]) -> Hash {
        let mut k = vec![tree];
        k.extend(parents);
        self.put(object(&commit_data(message), &k, "Commit"))
    }
    /// a directory with these contents
    fn tree(&mut self, t: &Tree) -> Hash {
        self.level(t, "")
    }
    fn level(&mut self, t: &Tree, base: &str) -> Hash {
        let (mut names, mut keys) = (vec![], vec![]);
        for (p, d, data) in t {
            let rest = match p.strip_prefix(base) {
                Some(r) if !r.is_empty() && !r.contains('/') => r,
                _ => continue,
            };
            names.push(rest);
            keys.push(if *d { self.level(t, &format!("{}/", p)) } else { self.file(data) });
        }
        self.dir(&names, &keys)
    }
    fn write(&self, path: &str, head: Option<&str>, refs: &[(&str, Option<&str>, Hash)]) {
        let c = rusqlite::Connection::open(path).unwrap();
        c.execute_batch(
            "CREATE TABLE data (key BLOB NOT NULL UNIQUE PRIMARY KEY, value BLOB NOT NULL) WITHOUT ROWID;
             CREATE TABLE state (key BLOB NOT NULL UNIQUE PRIMARY KEY, value BLOB NOT NULL) WITHOUT ROWID;
             CREATE TABLE reflog (id INTEGER PRIMARY KEY, refname TEXT NOT NULL, remote TEXT, key BLOB);
             BEGIN TRANSACTION;",
        )
        .unwrap();
        for (k, v) in &self.objs {
            c.execute("INSERT INTO data VALUES (?, ?)", params![db_key(k), v]).unwrap();
        }
        if let Some(h) = head {
            c.execute("INSERT INTO state VALUES (?, ?)", params![&b"HEAD"[..], h.as_bytes()]).unwrap();
        }
        for (n, r, k) in refs {
            c.execute("INSERT INTO reflog(refname, remote, key) VALUES (?, ?, ?)", params![n, r, db_key(k)]).unwrap();
        }
        c.execute_batch("COMMIT").unwrap();
    }
}

/// what is stored is this and nothing else
fn check_form(path: &str, old: &Old, head: &str, refs: &[(&str, Option<&str>, Hash)]) {
    let c = rusqlite::Connection::open(path).unwrap();
    let rows = |q: &str| -> Vec<(Vec<u8>, Vec<u8>)> {
        let mut s = match c.prepare(q) {
            Ok(s) => s,
            Err(_) => sym::fail("the database has another form"),
        };
        let mut rows = s.query(params![]).unwrap();
        let mut v = vec![];
        while let Some(r) = rows.next().unwrap() {
            v.push(match (r.get(0), r.get(1)) {
                (Ok(a), Ok(b)) => (a, b),
                _ => sym::fail("the database has another form"),
            });
        }
        v
    };
    let d = rows("SELECT key, value FROM data");
    sym::check(d.len() == old.objs.len(), "what is stored for the same content are other objects");
    for (k, v) in &old.objs {
        let k = db_key(k);
        match d.iter().find(|x| x.0 == k) {
            Some(x) => sym::check(sym::eq(&x.1, v), "an object is stored in another form"),
            None => sym::fail("an object is stored in another form, or under another key"),
        }
    }
    let s = rows("SELECT key, value FROM state");
    sym::check(s.len() == 1 && s[0].0 == b"HEAD" && s[0].1 == head.as_bytes(), "the current branch is stored in another form");
    let mut st = c.prepare("SELECT refname, remote, key FROM reflog ORDER BY id").unwrap();
    let mut r = st.query(params![]).unwrap();
    let mut n = 0;
    while let Some(x) = r.next().unwrap() {
        let (a, b, k): (String, Option<String>, Vec<u8>) = match (x.get(0), x.get(1), x.get(2)) {
            (Ok(a), Ok(b), Ok(k)) => (a, b, k),
            _ => sym::fail("a reference is stored in another form"),
        };
        let ok = n < refs.len() && a == refs[n].0 && b.as_deref() == refs[n].1 && k == db_key(&refs[n].2);
        sym::check(ok, "a reference is stored in another form");
        n += 1;
    }
    sym::check(n == refs.len(), "a reference is stored in another form");
}

const LENS: [usize; 5] = [0, 1, 24, 256, 4097];
/// arbitrary first and last bytes of a file of some length
fn some(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![b'.'; n];
    for i in 0..n.min(2) {
        v[if i == 0 { 0 } else { n - 1 }] = sym::byte(name);
    }
    v
}
fn content() -> Tree {
    let n = LENS[sym::choice("len", LENS.len() as u32) as usize];
    vec![
        ("a".into(), F, some("a", n)),
        ("d".into(), D, vec![]),
        ("d/e".into(), D, vec![]),
        ("d/\u{fc} name that is longer than that".into(), F, b"x\n".to_vec()),
        ("z".into(), F, b"z".to_vec()),
    ]
}
const MSGS: [&str; 3] = ["", "m\u{fc}\nmore", "a message of more than four and twenty characters"];

/// C34: what this program stores
#[no_mangle]
pub extern "C" fn h_c34_write() {
    world::init();
    must(&["init"]);
    let t = content();
    plant("/w", &t);
    let msg = MSGS[sym::choice("message", 3) as usize];
    must(&["commit", "-m", msg]);
    let mut old = Old::default();
    let tree = old.tree(&t);
    let c1 = old.commit(msg, tree, &[]);
    let mut refs = vec![("master", None, c1)];
    check_form("/w/.snapcd/snapcd.db", &old, "master", &refs);
    // and further
    match sym::choice("then", 4) {
        0 => {
            world::write("/w/z", b"other");
            must(&["commit", "-m", "two"]);
            let mut t2 = t.clone();
            t2[4].2 = b"other".to_vec();
            let tree2 = old.tree(&t2);
            let c2 = old.commit("two", tree2, &[c1]);
            refs.push(("master", None, c2));
            check_form("/w/.snapcd/snapcd.db", &old, "master", &refs);
        }
        1 => {
            must(&["debug", "set-head", "d\u{e9}v"]);
            must(&["debug", "reflog-push", &user_key(&c1), "dev", "o/p"]);
            must(&["ref", "update", "/master"]);
            refs.push(("dev", Some("o/p"), c1));
            refs.push(("d\u{e9}v", None, c1));
            check_form("/w/.snapcd/snapcd.db", &old, "d\u{e9}v", &refs);
        }
        2 => {
            let o = must(&["debug", "commit-tree", &user_key(&tree), "/master"]);
            let c2 = old.commit("", tree, &[c1]);
            sym::check(o.out_str().trim() == user_key(&c2), "a key is printed in another form");
            check_form("/w/.snapcd/snapcd.db", &old, "master", &refs);
        }
        _ => {
            world::write("/w/z", b"other");
            must(&["compare"]);
            old.file(b"other");
            check_form("/w/.snapcd/snapcd.db", &old, "master", &refs);
        }
    }
    sym::cover("stored");
}

/// C34: what was stored before
#[no_mangle]
pub extern "C" fn h_c34_read() {
    world::init();
    let t = content();
    let mut old = Old::default();
    let t1 = old.tree(&t);
    let c1 = old.commit(MSGS[1], t1, &[]);
    let mut t2 = t.clone();
    t2[4].2 = b"other\n".to_vec();
    let k2 = old.tree(&t2);
    let c2 = old.commit(MSGS[2], k2, &[c1]);
    // a file in pieces, two levels of them
    let parts = [some("part", 2), some("part", 2), b"-".to_vec()];
    let b: Vec<Hash> = parts.iter().map(|p| old.blob(p)).collect();
    let low = old.put(object(&[], &b[..2], "FileBlobTree"));
    let top = old.put(object(&[], &[low, b[2]], "FileBlobTree"));
    let big = old.file_of(5, top);
    let refs = [("master", None, c1), ("dev", Some("o"), c1), ("master", None, c2)];
    world::mkdir("/w/.snapcd");
    old.write("/w/.snapcd/snapcd.db", Some("master"), &refs);
    plant("/w", &t2);
    match sym::choice("what", 7) {
        0 => {
            let o = must(&["status"]);
            let want = format!("HEAD: master [{}]\n", &user_key(&c2)[..8]);
            sym::check(sym::eq(&o.out, want.as_bytes()), "the status is another one");
            old.file(&t2[0].2); // stored on the way, or there
        }
        1 => {
            must(&["fetch", &user_key(&t1), "/tmp/o"]);
            sym::check(world::same_tree(&world::tree("/tmp/o"), &t), "what was stored is read as something else");
        }
        2 => {
            must(&["fetch", &user_key(&big), "/tmp/o"]);
            let want: Vec<u8> = parts.iter().flat_map(|x| x.clone()).collect();
            sym::check(sym::eq(&world::read("/tmp/o").unwrap_or_default(), &want), "what was stored is read as something else");
        }
        3 => {
            let o = must(&["ref", "log", "master"]);
            let want = format!("2: {}\n1: {}\n", user_key(&c2), user_key(&c1));
            sym::check(o.out_str().ends_with(&want), "the history of a reference is another one");
            let o = must(&["debug", "reflog-get", "dev", "o"]);
            sym::check(o.out_str().trim() == user_key(&c1), "a reference is another one");
        }
        4 => {
            let o = must(&["log"]);
            let k: Vec<&str> = o.out_str().lines().filter_map(|l| l.strip_prefix("commit: ")).collect();
            sym::check(k.len() == 2 && k[0] == user_key(&c2) && k[1] == user_key(&c1), "the log shows other commits");
            sym::check(o.out_str().contains(MSGS[1]) && o.out_str().contains(MSGS[2]), "the log shows other messages");
        }
        5 => {
            let o = must(&["debug", "get-head"]);
            sym::check(o.out_str().contains("\"master\""), "the current branch is another one");
        }
        _ => {
            must(&["commit", "-m", "three"]);
            let k3 = old.commit("three", k2, &[c2]);
            let mut r = refs.to_vec();
            r.push(("master", None, k3));
            check_form("/w/.snapcd/snapcd.db", &old, "master", &r);
        }
    }
    sym::check(Path::new("/w/.snapcd/snapcd.db").exists(), "the database is gone");
    sym::cover("read");
}
