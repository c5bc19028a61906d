//! C32: two commands at the same time.
use crate::cli_util::*;
use crate::p_cmd::{open, same, snap, Snap};
use crate::trees::*;
use crate::{sym, world};
use snapcd::DataStore;

const FILES: [&str; 2] = ["/w/.snapcd", "/h/.cache/snapcd"];

fn save() -> Vec<Tree> {
    FILES.iter().map(|d| world::tree(d)).collect()
}
fn restore(s: &[Tree]) {
    for (d, t) in FILES.iter().zip(s) {
        for e in world::tree(d) {
            std::fs::remove_file(format!("{}/{}", d, e.0)).unwrap();
        }
        for e in t {
            world::write(&format!("{}/{}", d, e.0), &e.2);
        }
    }
}

fn args<'a>(i: u32, who: &'a str, first: &'a str) -> Vec<&'a str> {
    match i {
        0 => vec!["commit", "-m", who],
        1 => vec!["ref", "update", first],
        2 => vec!["checkout-head", "dev"],
        3 => vec!["insert", if who == "A" { "/tmp/s" } else { "/tmp/t" }],
        4 => vec!["commit", "-m", who, "dev"],
        5 => vec!["status"],
        6 => vec!["ref", "log", "master"],
        7 => vec!["log"],
        8 => vec!["debug", "set-head", "b"],
        _ => vec!["debug", "reflog-get", "master"],
    }
}

/// C32: a command runs while another one is under way
#[no_mangle]
pub extern "C" fn h_c32_pair() {
    world::init();
    must(&["init"]);
    let t: Tree = vec![("a".into(), F, sym::bytes("a", 1)), ("d".into(), D, vec![])];
    plant("/w", &t);
    world::write("/tmp/s", b"ss");
    world::write("/tmp/t", b"tt");
    must(&["commit", "-m", "one"]);
    let first = open("/w").reflog_get("master", None).unwrap().to_string();
    must(&["ref", "update", &first, "dev"]);
    must(&["commit", "-m", "two"]);
    let i = sym::choice("first", sym::param("firsts", 10) as u32);
    let j = sym::choice("second", sym::param("seconds", 5) as u32);
    let (a, b) = (args(i, "A", &first), args(j, "B", &first));
    let zero = save();
    let none = snap("/w");
    // one after the other, in either order
    let a1 = must(&a);
    let only_a = snap("/w");
    let b2 = must(&b);
    let ab = snap("/w");
    restore(&zero);
    let b1 = must(&b);
    let only_b = snap("/w");
    let a2 = must(&a);
    let ba = snap("/w");
    restore(&zero);
    // at the same time
    world::ctl().scope = if sym::param("tree", 0) != 0 { "/" } else { "/w/.snapcd" };
    let (x, y) = world::snapcd_while(&a, &b);
    let end = snap("/w");
    let is = |s: &Snap| same(&end, s);
    let at = |o: &world::Outcome, w: &world::Outcome| sym::eq(&o.out, &w.out);
    sym::check(!crashed(&x), "a command crashes while another one is run");
    let ok = !failed(&x);
    match y {
        None => {
            sym::check(ok, "a command that should succeed fails");
            sym::check(is(&only_a) && at(&x, &a1), "a command does something else the second time");
            sym::cover("alone");
        }
        Some(y) => {
            sym::check(!crashed(&y), "a command crashes while another one is under way");
            let both = !failed(&y);
            let fine = match (ok, both) {
                (true, true) => {
                    sym::cover("both");
                    (is(&ab) && at(&x, &a1) && at(&y, &b2)) || (is(&ba) && at(&x, &a2) && at(&y, &b1))
                }
                (true, false) => {
                    sym::cover("the first");
                    is(&only_a) && at(&x, &a1)
                }
                (false, true) => {
                    sym::cover("the second");
                    is(&only_b) && at(&y, &b1)
                }
                (false, false) => {
                    sym::check(is(&none), "two commands that failed leave something behind");
                    false
                }
            };
            sym::check(ok || both, "two commands make each other fail");
            sym::check(fine, "two commands at the same time do what neither order of them does");
        }
    }
}
