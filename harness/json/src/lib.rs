//! The client API of svm-codec: JSON documents in, binary messages out, and back.
#![allow(non_snake_case)]
vp::runtime!();
mod buffers;
mod input;
mod receipt;
mod tx;

use serde_json::Value as Json;

pub fn hex_digit(n: u8) -> u8 {
    if n > 9 {
        n + 55
    } else {
        n + 48
    }
}
pub fn unhex_digit(c: u8) -> u8 {
    if c > b'9' {
        c - 55
    } else {
        c - 48
    }
}
/// Upper-case hex text.
pub fn hex(b: &[u8]) -> String {
    let mut s = Vec::with_capacity(2 * b.len());
    for x in b {
        s.push(hex_digit(x >> 4));
        s.push(hex_digit(x & 15));
    }
    unsafe { String::from_utf8_unchecked(s) }
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.as_bytes();
    vp::check(s.len() % 2 == 0, "hex text of an odd length");
    (0..s.len() / 2).map(|i| unhex_digit(s[2 * i]) << 4 | unhex_digit(s[2 * i + 1])).collect()
}
/// `{"data": "HEX"}`
pub fn wrap(b: &[u8]) -> String {
    let mut s = String::from("{\"data\":\"");
    s.push_str(&hex(b));
    s.push_str("\"}");
    s
}
/// The bytes within `{"data": "HEX"}`
pub fn unwrap(j: &Json) -> Vec<u8> {
    match j.get("data").and_then(|d| d.as_str()) {
        Some(s) => unhex(s),
        None => {
            vp::check(false, "an encoder's result has no data text");
            vec![]
        }
    }
}
/// `n` (at most 19) symbolic decimal digits without a leading zero, and their value.
pub fn digits(n: usize, name: &str) -> (String, u64) {
    digits_after("", n, name)
}
/// The same after a concrete beginning; the value must fit.
pub fn digits_after(head: &str, n: usize, name: &str) -> (String, u64) {
    let d = vp::vec(n, name);
    let mut v = 0u64;
    for c in head.bytes() {
        v = v * 10 + (c - b'0') as u64;
    }
    for (i, c) in d.iter().enumerate() {
        let lo = if i == 0 && n > 1 && head.is_empty() { b'1' } else { b'0' };
        vp::assume(*c >= lo && *c <= b'9');
        v = v.wrapping_mul(10).wrapping_add((*c - b'0') as u64);
    }
    let mut s = String::from(head);
    s.push_str(unsafe { std::str::from_utf8_unchecked(&d) });
    (s, v)
}
/// Symbolic letters that JSON text holds as they are.
pub fn word(n: usize, name: &str) -> String {
    let d = vp::vec(n, name);
    for c in d.iter() {
        vp::assume(*c >= 0x20 && *c < 0x80 && *c != b'"' && *c != b'\\');
    }
    unsafe { String::from_utf8_unchecked(d) }
}

/// One part of a document varies at a time; the others are as given.
pub fn word_if(vary: bool, n: usize, name: &str) -> String {
    if vary {
        word(n, name)
    } else {
        "word"[..n].into()
    }
}
pub fn u8_if(vary: bool, name: &str) -> u8 {
    if vary {
        vp::u8(name)
    } else {
        0xE1
    }
}
