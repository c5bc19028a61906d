use crate::{sym, world};

#[no_mangle]
pub extern "C" fn h_smoke_fs() {
    world::init();
    world::write("a.txt", b"hello");
    world::mkdir("d");
    world::write("d/b", b"x");
    let t = world::tree(".");
    sym::check(t.len() == 3, "three entries");
    sym::check(world::read("a.txt").unwrap() == b"hello", "content");
    sym::cover("done");
}
#[no_mangle]
pub extern "C" fn h_smoke_mem() {
    world::init();
    use snapcd::DataStore;
    let ds = snapcd::ds::sqlite::SqliteDS::new(":memory:").unwrap();
    ds.put_head("master").unwrap();
    sym::check(ds.get_head().unwrap() == Some("master".to_string()), "head");
    sym::cover("done");
}
#[no_mangle]
pub extern "C" fn h_smoke_cli() {
    world::init();
    let r = world::snapcd(&["init"]);
    sym::note(r.out_str());
    sym::note(unsafe { std::str::from_utf8_unchecked(&r.err) });
    sym::check(r.code == 0, "init");
    world::write("a.txt", b"hello");
    let r = world::snapcd(&["commit", "-m", "one"]);
    sym::note(r.out_str());
    sym::note(unsafe { std::str::from_utf8_unchecked(&r.err) });
    sym::check(r.code == 0, "commit");
    let r = world::snapcd(&["log"]);
    sym::note(r.out_str());
    sym::note(unsafe { std::str::from_utf8_unchecked(&r.err) });
    sym::cover("done");
}
