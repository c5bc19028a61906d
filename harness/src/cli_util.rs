//! Driving the program by its command line.
use crate::sym;
use crate::world::{snapcd, Outcome};

/// the command reported a failure
pub fn failed(o: &Outcome) -> bool {
    o.code != 0 || has(&o.out, b"fatal: ")
}
pub fn crashed(o: &Outcome) -> bool {
    o.code == 101 || o.code >= 128
}
pub fn has(h: &[u8], n: &[u8]) -> bool {
    n.is_empty() || h.windows(n.len()).any(|w| sym::eq(w, n))
}
/// runs a command that has to succeed
pub fn must(args: &[&str]) -> Outcome {
    let o = snapcd(args);
    if failed(&o) {
        sym::note(&args.join(" "));
        sym::note(&String::from_utf8_lossy(&o.out));
        sym::note(&String::from_utf8_lossy(&o.err));
    }
    sym::check(!crashed(&o), "a command that should succeed crashes");
    sym::check(!failed(&o), "a command that should succeed fails");
    o
}
pub fn find_key(o: &Outcome) -> Option<String> {
    for l in o.out_str().lines() {
        if let Some(k) = l.strip_prefix("inserted hash ") {
            return Some(k.trim().to_string());
        }
    }
    None
}
/// inserts a path and returns the printed key
pub fn insert(path: &str) -> String {
    let o = must(&["insert", path]);
    match find_key(&o) {
        Some(k) => k,
        None => sym::fail("insert prints no key"),
    }
}
