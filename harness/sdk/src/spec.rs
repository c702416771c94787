//! Independent statement of the documented ABI format (crates/wasm/abi-layout's table).
use svm_sdk_types::{Address, Amount};

/// Appends marker (chosen by the minimal big-endian width) and payload.
fn num(v: u64, base: u8, out: &mut Vec<u8>) {
    let be = v.to_be_bytes();
    let w = if v < 1 << 8 { 1 } else if v < 1 << 16 { 2 } else if v < 1 << 24 { 3 } else if v < 1 << 32 { 4 }
        else if v < 1 << 40 { 5 } else if v < 1 << 48 { 6 } else if v < 1 << 56 { 7 } else { 8 };
    out.push(base + ((w as u8 - 1) << 4));
    out.extend_from_slice(&be[8 - w..]);
}
pub trait Spec {
    fn spec(&self, out: &mut Vec<u8>);
}
macro_rules! nums { ($($t:ty, $u:ty, $base:expr;)*) => { $(impl Spec for $t {
    fn spec(&self, out: &mut Vec<u8>) { num(*self as $u as u64, $base, out) }
})* } }
nums! { i8, u8, 0x02; u8, u8, 0x12; i16, u16, 0x22; u16, u16, 0x42; i32, u32, 0x03; u32, u32, 0x43; i64, u64, 0x04; u64, u64, 0x05; }
impl Spec for bool {
    fn spec(&self, out: &mut Vec<u8>) {
        out.push((*self as u8) << 4)
    }
}
impl Spec for Amount {
    fn spec(&self, out: &mut Vec<u8>) {
        num(self.0, 0x01, out)
    }
}
impl Spec for Address {
    fn spec(&self, out: &mut Vec<u8>) {
        out.push(0x40);
        out.extend_from_slice(self.as_slice())
    }
}

/// One decoded primitive of the documented format.
#[derive(Clone, Copy, PartialEq)]
pub enum Sv {
    None,
    Unit,
    Bool(bool),
    Address([u8; 20]),
    Amount(u64),
    I8(i8),
    U8(u8),
    I16(i16),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    Array(u8),
}
fn be(b: &[u8], pos: &mut usize, n: usize) -> Option<u64> {
    let n = vp::concretize(n as u64) as usize;
    if b.len() - *pos < n {
        return None;
    }
    let mut v = 0u64;
    for i in 0..n {
        v = v << 8 | b[*pos + i] as u64;
    }
    *pos += n;
    Some(v)
}
/// Parses one primitive, or the header of an array; `None`: malformed.
pub fn parse(b: &[u8], pos: &mut usize) -> Option<Sv> {
    if *pos >= b.len() {
        return None;
    }
    let m = b[*pos];
    *pos += 1;
    if m & 0x80 != 0 {
        return None;
    }
    let hi = (m >> 4) as usize;
    match m & 0x0f {
        0 => match hi {
            0 => Some(Sv::Bool(false)),
            1 => Some(Sv::Bool(true)),
            2 => Some(Sv::None),
            3 => Some(Sv::Unit),
            4 => {
                if b.len() - *pos < 20 {
                    return None;
                }
                let mut a = [0u8; 20];
                a.copy_from_slice(&b[*pos..*pos + 20]);
                *pos += 20;
                Some(Sv::Address(a))
            }
            _ => None,
        },
        1 => be(b, pos, hi + 1).map(Sv::Amount),
        2 => match hi {
            0 => be(b, pos, 1).map(|v| Sv::I8(v as i8)),
            1 => be(b, pos, 1).map(|v| Sv::U8(v as u8)),
            2 | 3 => be(b, pos, hi - 1).map(|v| Sv::I16(v as i16)),
            4 | 5 => be(b, pos, hi - 3).map(|v| Sv::U16(v as u16)),
            _ => None,
        },
        3 if hi < 4 => be(b, pos, hi + 1).map(|v| Sv::I32(v as i32)),
        3 => be(b, pos, hi - 3).map(|v| Sv::U32(v as u32)),
        4 => be(b, pos, hi + 1).map(|v| Sv::I64(v as i64)),
        5 => be(b, pos, hi + 1).map(|v| Sv::U64(v)),
        6 => Some(Sv::Array(hi as u8)),
        7 if hi < 3 => Some(Sv::Array(hi as u8 + 8)),
        _ => None,
    }
}
