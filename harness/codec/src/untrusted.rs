//! Decoding arbitrary bytes: a value or an error, never a crash; what is accepted encodes back.
use crate::dec;
use svm_codec::{template, Codec, ParseError};
use svm_types::*;
use std::io::Cursor;

/// `canonical`: the consumed bytes are the only encoding of the value.
fn any<T: Codec<Error = ParseError> + PartialEq>(b: &[u8], canonical: bool) {
    match vp::no_panic("decoding untrusted bytes", || dec::<T>(b)) {
        Ok((v, n)) => {
            let e = vp::no_panic("encoding a decoded value", || v.encode_to_vec());
            if canonical {
                vp::check(e[..] == b[..n], "an accepted value has another encoding");
            } else {
                match dec::<T>(&e) {
                    Ok((w, _)) => vp::check(w == v, "an accepted value changes when encoded again"),
                    Err(_) => vp::check(false, "an accepted value cannot be decoded again"),
                }
            }
            vp::reach("accepted")
        }
        Err(_) => vp::reach("rejected"),
    }
}
fn bytes_of(lens: &[usize]) -> Vec<u8> {
    let n = lens[vp::choose(lens.len(), "length")];
    vp::vec(n, "bytes")
}
/// Sets the one-byte length at `at`: up to 3, around the number of bytes that are left, or 255.
/// Returns where the field ends (past the end of `b` when the claim is too long).
fn lp(b: &mut [u8], at: usize) -> usize {
    lpx(b, at, 3)
}
/// The same, with arbitrary content only for text of up to `free` bytes.
fn lpx(b: &mut [u8], at: usize, free: u8) -> usize {
    if at >= b.len() {
        return b.len();
    }
    let rest = b.len() - at - 1;
    let mut claims: Vec<usize> = (0..4).collect();
    claims.extend((rest.max(1) - 1..rest + 2).chain(255..256).filter(|c| *c > 3));
    b[at] = claims[vp::choose(claims.len(), "claim")] as u8;
    let end = at + 1 + b[at] as usize;
    if b[at] > free && end <= b.len() {
        // longer text: ASCII
        for x in b[at + 1..end].iter() {
            vp::assume(*x < 0x80);
        }
    }
    end
}
/// Sets a count at `at` to one of `0..=max` or `big`.
fn count(b: &mut [u8], at: usize, max: u8, big: u8) -> usize {
    if at >= b.len() {
        return 0;
    }
    let k = vp::choose(max as usize + 2, "count");
    b[at] = if k == max as usize + 1 { big } else { k as u8 };
    b[at] as usize
}
/// Sets a big-endian field to any value up to `max`, or one of `more`, and returns it.
/// A field that is not there reads as 0.
fn field(b: &mut [u8], at: usize, width: usize, max: usize, more: &[usize]) -> usize {
    if b.len() < at + width {
        return 0;
    }
    let k = vp::choose(max + 1 + more.len(), "field");
    let v = if k > max { more[k - max - 1] } else { k };
    for i in 0..width {
        b[at + i] = (v >> 8 * (width - 1 - i)) as u8;
    }
    v
}
fn be(b: &mut [u8], at: usize, width: usize, max: usize) -> usize {
    field(b, at, width, max, &[300])
}
/// Bounds of the lengths inside a data section at `at`; returns where it ends.
fn data(b: &mut [u8], mut at: usize) -> usize {
    let n = be(b, at, 2, 3);
    at += 2;
    for i in 0..n {
        if at >= b.len() {
            break;
        }
        if i > 2 && at + 4 <= b.len() {
            b[at..at + 4].copy_from_slice(&[0, 1, 1, 44]);
            break;
        }
        let vars = be(b, at + 2, 2, 3);
        at += 4 + if vars > 0 { 4 + 2 * vars } else { 0 };
    }
    at
}
fn ctors(b: &mut [u8], at: usize, free: u8) -> usize {
    if at >= b.len() {
        return at;
    }
    let n = count(b, at, 4, 254);
    let mut p = at + 1;
    for i in 0..n {
        if p >= b.len() {
            break;
        }
        if i > 2 {
            b[p] = 255;
            break;
        }
        p = lpx(b, p, free);
    }
    p
}
fn logs(b: &mut [u8], at: usize) -> usize {
    if at >= b.len() {
        return at;
    }
    let n = count(b, at, 2, 255);
    let mut p = at + 1;
    for i in 0..n {
        if p >= b.len() {
            break;
        }
        if i > 1 {
            b[p] = 255;
            break;
        }
        p += 2 + be(b, p, 2, 2);
    }
    p
}
/// Bounds of the lengths inside sections; `skip`: their contents are not looked at.
fn sections(b: &mut [u8], skip: bool) {
    let n = be(b, 0, 2, if skip { 2 } else { 1 });
    let mut at = 2;
    for i in 0..n {
        if at + 2 > b.len() {
            return;
        }
        if i > 1 {
            b[at] = 255;
            return;
        }
        let k = field(b, at, 2, 8, &[0x103]);
        let size = if skip { field(b, at + 2, 4, 0, &[2, 300]) } else { field(b, at + 2, 4, 0, &[0xffff_ffff]) };
        at += 6;
        if skip && k != 3 {
            at += size;
            continue;
        }
        at = section(b, k, at);
    }
}
fn section(b: &mut [u8], k: usize, at: usize) -> usize {
    match k {
        1 => at + 26 + be(b, at + 22, 4, 2),
        2 => data(b, at),
        3 => ctors(b, at, 0),
        6 => {
            let at = lpx(b, at + 4, 0);
            lpx(b, at, 0)
        }
        7 => at + 80,
        _ => b.len(),
    }
}

vp::entry! {
    fn h_un_envelope() { any::<Envelope>(&bytes_of(&[0, 19, 20, 59, 60, 61]), true) }
    fn h_un_context() { any::<Context>(&bytes_of(&[0, 31, 71, 72, 73]), true) }
    fn h_un_call() {
        let mut b = bytes_of(&[0, 2, 21, 22, 23, 24, 25, 26, 27, 28]);
        let at = lp(&mut b, 22);
        let at = lp(&mut b, at);
        lp(&mut b, at);
        any::<Transaction>(&b, true)
    }
    fn h_un_spawn() {
        let mut b = bytes_of(&[0, 2, 21, 22, 23, 25, 26, 27, 28]);
        let at = lp(&mut b, 22);
        let at = lp(&mut b, at);
        lp(&mut b, at);
        any::<SpawnAccount>(&b, true)
    }
    fn h_un_code() {
        let mut b = bytes_of(&[0, 2, 10, 18, 22, 26, 28, 30]);
        be(&mut b, 22, 4, 4);
        any::<CodeSection>(&b, true)
    }
    fn h_un_data() {
        let mut b = bytes_of(&[0, 1, 2, 4, 6, 10, 12, 14, 16]);
        data(&mut b, 0);
        any::<DataSection>(&b, true)
    }
    fn h_un_ctors() {
        let mut b = bytes_of(&[0, 1, 2, 3, 4, 5, 6]);
        ctors(&mut b, 0, 3);
        any::<CtorsSection>(&b, true)
    }
    fn h_un_header() {
        let mut b = bytes_of(&[0, 3, 4, 5, 6, 7, 8, 9]);
        let at = lp(&mut b, 4);
        lp(&mut b, at);
        any::<HeaderSection>(&b, true)
    }
    fn h_un_deploy() { any::<DeploySection>(&bytes_of(&[0, 40, 79, 80, 81]), true) }
    fn h_un_sections() {
        // a section of any kind, any size claim, and whatever follows
        let k = vp::choose(10, "kind");
        let lens: &[usize] = match k {
            1 => &[8, 10, 33, 34, 35, 36],
            2 => &[8, 9, 10, 12, 14, 18, 20, 22],
            3 => &[8, 9, 10, 11, 13],
            6 => &[8, 11, 12, 13, 14, 15],
            7 => &[8, 87, 88, 90],
            _ => &[8, 12],
        };
        let mut b = bytes_of(lens);
        let n = be(&mut b, 0, 2, 1);
        field(&mut b, 4, 4, 0, &[5, 0xffff_ffff]);
        let k = [0, 1, 2, 3, 4, 5, 6, 7, 8, 0x103][k];
        b[2] = (k >> 8) as u8;
        b[3] = k as u8;
        let end = section(&mut b, k, 8);
        if n > 1 && end < b.len() { b[end] = 255; }
        match vp::no_panic("decoding untrusted sections", || dec::<Sections>(&b)) {
            Ok((s, _)) => {
                for k in s.kinds() { vp::check(s.get(*k).kind() == *k, "section kind"); }
                vp::reach("accepted")
            }
            Err(_) => vp::reach("rejected"),
        }
    }
    fn h_un_template() {
        // skipping sections nobody asked for
        let mut b = bytes_of(&[2, 3, 8, 9, 10, 14]);
        sections(&mut b, true);
        let mut want = std::collections::HashSet::new();
        want.insert(SectionKind::Ctors);
        let r = vp::no_panic("decoding an untrusted template", || template::decode(&mut Cursor::new(&b[..]), Some(want)).is_ok());
        vp::check(!r, "a template without its core sections");
        vp::reach("rejected")
    }
    fn h_un_receipt_failed() {
        // a failure of any kind, with any logs, cut anywhere
        let mut b = vp::vec(5, "head");
        vp::assume(b[3] != 1);
        b[0] = vp::choose(4, "type") as u8;
        b[4] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 255][vp::choose(12, "error")];
        let e = b[4];
        match vp::choose(4, "logs") {
            0 => b.push(0),
            1 => { b.extend_from_slice(&[1, 0, 2]); b.extend(vp::vec(2, "log")) }
            2 => { b.extend_from_slice(&[2, 0, 1]); b.extend(vp::vec(1, "log")); b.extend_from_slice(&[0, 0]) }
            _ => { b.extend_from_slice(&[1, 1, 0]); b.extend(vp::vec(5, "log")) }
        }
        let addrs = match e { 1 | 2 | 7 => 20, 3..=6 | 8 | 9 => 40, _ => 2 };
        b.extend(vp::vec(addrs, "addresses"));
        let at = b.len();
        let more = vp::choose(4, "payload");
        b.extend(vp::vec(more, "payload"));
        if e > 2 {
            let at = lpx(&mut b, at, 1);
            lpx(&mut b, at, 1);
        }
        // cut it somewhere
        let cut = [b.len(), 0, 1, 3, 4, 5, 6, 7, at - 1, at - 19][vp::choose(if more == 0 { 10 } else { 1 }, "cut")];
        b.truncate(cut);
        any::<Receipt>(&b, false)
    }
    fn h_un_receipt_deploy() {
        let mut b = bytes_of(&[4, 24, 32, 33, 35, 36]);
        b[0] = 0; b[3] = 1;
        logs(&mut b, 32);
        any::<Receipt>(&b, false)
    }
    fn h_un_receipt_call() {
        // touched accounts: none, or more than there are bytes
        let mut b = bytes_of(&[4, 36, 38, 40, 46, 48, 49, 52]);
        b[0] = 2; b[3] = 1;
        let at = 46 + be(&mut b, 36, 2, 2);
        if be(&mut b, at, 2, 0) == 0 { logs(&mut b, at + 2); }
        any::<Receipt>(&b, false)
    }
    fn h_un_receipt_spawn() {
        let mut b = bytes_of(&[4, 24, 56, 58, 60, 66, 68, 69, 72]);
        b[0] = 1; b[3] = 1;
        let at = 66 + be(&mut b, 56, 2, 2);
        if be(&mut b, at, 2, 0) == 0 { logs(&mut b, at + 2); }
        any::<Receipt>(&b, false)
    }
}
