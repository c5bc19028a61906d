use crate::sym;
use snapcd::key::Key;
use snapcd::Keyish;
use std::str::FromStr;

fn any_key(name: &str) -> Key {
    let mut b = [0u8; 32];
    sym::fill(name, &mut b);
    Key::Blake3B(b)
}

/// C07: text form parses back to the same key, in either letter case
#[no_mangle]
pub extern "C" fn h_c07_text() {
    sym::merge(true);
    let k = any_key("key");
    let mut t = k.as_user_key().into_bytes();
    sym::check(t.len() > 1, "the text form is empty");
    let up = sym::bytes("case", t.len());
    for i in 1..t.len() {
        // flip letters only
        let l = (t[i] >= b'a') & (t[i] <= b'z');
        t[i] ^= ((l & (up[i] & 1 == 1)) as u8) << 5;
    }
    let s = unsafe { String::from_utf8_unchecked(t) };
    match Keyish::from_str(&s) {
        Ok(Keyish::Key(o, v)) => {
            sym::check(sym::eq(&v, &k.as_db_key()), "the text form parses to a different key");
            sym::check(o == s, "the parsed key does not keep its text");
            sym::cover("round trip");
        }
        _ => sym::fail("the text form of a key does not parse as a full key"),
    }
}

/// C07: database form decodes to the same key
#[no_mangle]
pub extern "C" fn h_c07_db() {
    let k = any_key("key");
    match Key::from_db_key(&k.as_db_key()) {
        Ok(Key::Blake3B(b)) => {
            let Key::Blake3B(a) = k;
            sym::check(sym::eq(&a, &b), "the database form decodes to a different key");
            sym::cover("decoded");
        }
        _ => sym::fail("the database form of a key does not decode"),
    }
}

fn b32(c: u8) -> bool {
    ((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | ((c >= b'2') & (c <= b'7'))
}

/// what parsing must do with text that has no slash
fn parse_plain(b: Vec<u8>) {
    let mut good = !b.is_empty() && b[0] == b'b';
    if good {
        for c in &b[1..] {
            good &= b32(*c);
        }
    }
    let s = unsafe { String::from_utf8_unchecked(b) };
    match Keyish::from_str(&s) {
        Ok(Keyish::Key(..)) | Ok(Keyish::Range(..)) => {
            sym::check(good, "malformed text is accepted as a key");
            sym::cover("accepted");
        }
        Ok(_) => sym::fail("text without a slash is taken for a reference"),
        Err(_) => {
            sym::check(!good, "well-formed text is rejected");
            sym::cover("rejected");
        }
    }
}

/// C08: every ASCII text up to a length, without a slash
#[no_mangle]
pub extern "C" fn h_c08_ascii() {
    let n = sym::choice("len", sym::param("len", 4) as u32 + 1) as usize;
    let b = sym::bytes("text", n);
    for c in &b {
        sym::assume((*c < 0x80) & (*c != b'/'));
    }
    sym::merge(true);
    parse_plain(b);
}

/// C08: long texts around the full length of a key
#[no_mangle]
pub extern "C" fn h_c08_long() {
    let n = [50usize, 51, 52, 53, 54, 60, 104][sym::choice("len", 7) as usize];
    let at = sym::choice("at", 3) as usize;
    let mut b = vec![b'q'; n];
    b[0] = b'b';
    let i = [1, n / 2, n - 1][at];
    b[i] = sym::byte("text");
    b[n - 2] = sym::byte("text");
    for c in &b {
        sym::assume((*c < 0x80) & (*c != b'/'));
    }
    sym::merge(true);
    parse_plain(b);
}

/// C08: text that is not ASCII
#[no_mangle]
pub extern "C" fn h_c08_unicode() {
    let mut b = vec![];
    let pre = sym::choice("before", 3) as usize;
    b.extend_from_slice(&b"bq"[..pre]);
    let k = 2 + sym::choice("bytes", 3) as usize;
    let c = sym::bytes("char", k);
    match k {
        2 => sym::assume((c[0] >= 0xC2) & (c[0] <= 0xDF)),
        3 => sym::assume((c[0] >= 0xE1) & (c[0] <= 0xEC)),
        _ => sym::assume((c[0] >= 0xF1) & (c[0] <= 0xF3)),
    }
    for x in &c[1..] {
        sym::assume((*x >= 0x80) & (*x <= 0xBF));
    }
    b.extend_from_slice(&c);
    let post = sym::choice("after", 3) as usize;
    b.extend_from_slice(&b"ab"[..post]);
    let s = unsafe { String::from_utf8_unchecked(b) };
    match Keyish::from_str(&s) {
        Ok(_) => sym::fail("text that is not ASCII is accepted as a key"),
        Err(e) => {
            // the message can be shown
            let _ = e.to_string();
            sym::cover("rejected");
        }
    }
}

/// C08: texts with a slash never crash, and split at the first one
#[no_mangle]
pub extern "C" fn h_c08_slash() {
    let n = sym::choice("len", sym::param("len", 4) as u32 + 1) as usize;
    let mut b = sym::bytes("text", n);
    let at = sym::choice("at", n as u32 + 1) as usize;
    for (i, c) in b.iter().enumerate() {
        sym::assume(*c < 0x80);
        if i < at {
            sym::assume(*c != b'/');
        }
    }
    b.insert(at, b'/');
    let s = unsafe { String::from_utf8_unchecked(b.clone()) };
    match Keyish::from_str(&s) {
        Ok(Keyish::Reflog { remote, keyname, .. }) => {
            match remote {
                None => sym::check(at == 0, "the remote is lost"),
                Some(r) => sym::check(at > 0 && sym::eq(r.as_bytes(), &b[..at]), "the remote is not the part before the slash"),
            }
            sym::check(sym::eq(keyname.as_bytes(), &b[at + 1..]), "the name is not the part after the slash");
            sym::cover("reference");
        }
        _ => sym::fail("text with a slash is not taken for a reference"),
    }
}

/// C08: arbitrary bytes as a database key
#[no_mangle]
pub extern "C" fn h_c08_db() {
    let n = sym::choice("len", sym::param("len", 36) as u32 + 1) as usize;
    let b = sym::bytes("bytes", n);
    let good = n == 33 && b[0] == 1;
    match Key::from_db_key(&b) {
        Ok(k) => {
            sym::check(good, "malformed bytes are accepted as a key");
            sym::check(sym::eq(&k.as_db_key(), &b), "the key is not the one in the bytes");
            sym::cover("accepted");
        }
        Err(e) => {
            sym::check(!good, "a well-formed key is rejected");
            let _ = e.to_string();
            sym::cover("rejected");
        }
    }
}
