#![allow(non_snake_case)]
vp::runtime!();
mod tx;
mod untrusted;
mod template;
mod receipt;

use std::io::Cursor;
use svm_codec::{Codec, ParseError};

/// UTF-8 text of a chosen length: short ones with arbitrary content, long ones ASCII.
pub fn text(name: &str) -> String {
    let lens = [0usize, 1, 2, 3, 255];
    let n = lens[vp::choose(lens.len(), name)];
    text_n(n, name)
}
pub fn text_n(n: usize, name: &str) -> String {
    let b = vp::vec(n, name);
    if n > 3 {
        for x in b.iter() {
            vp::assume(*x < 0x80);
        }
        return unsafe { String::from_utf8_unchecked(b) };
    }
    match String::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            vp::assume(false);
            unreachable!()
        }
    }
}
pub fn blob(name: &str, lens: &[usize]) -> Vec<u8> {
    let n = lens[vp::choose(lens.len(), name)];
    vp::vec(n, name)
}
/// Decodes a prefix of exact-size memory and reports how much was consumed.
pub fn dec<T: Codec<Error = ParseError>>(b: &[u8]) -> Result<(T, usize), ParseError> {
    let exact = b.to_vec().into_boxed_slice();
    let mut c = Cursor::new(&exact[..]);
    let v = T::decode(&mut c)?;
    Ok((v, c.position() as usize))
}
/// decode(encode(x)) = x, consuming exactly the encoding even when other bytes follow.
pub fn round_trip<T: Codec<Error = ParseError> + PartialEq>(x: &T) -> Vec<u8> {
    let b = x.encode_to_vec();
    if let Some(n) = T::fixed_size() {
        vp::check(b.len() == n, "declared fixed size differs from the encoded length");
    }
    let mut more = b.clone();
    more.push(0xA5);
    match dec::<T>(&more) {
        Ok((y, n)) => {
            vp::check(y == *x, "decoding an encoded value gives another value");
            vp::check(n == b.len(), "decoding consumed another number of bytes than encoding produced");
        }
        Err(_) => vp::check(false, "an encoded value is rejected by the decoder"),
    }
    // every proper prefix is rejected
    if !b.is_empty() {
        let k = vp::choose(2, "cut");
        let cut = if k == 0 { b.len() - 1 } else { b.len() / 2 };
        vp::check(dec::<T>(&b[..cut]).is_err(), "a truncated encoding is accepted");
    }
    b
}
