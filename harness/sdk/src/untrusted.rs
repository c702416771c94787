//! Arbitrary calldata: a value is produced exactly when the documented format and the requested type say so,
//! anything else stops execution, and no byte outside the calldata is read.
use crate::spec::*;
use svm_abi_decoder::CallData;
use svm_sdk_std::Option as SOption;
use svm_sdk_types::value::{Composite, Primitive, Value};
use svm_sdk_types::{Address, Amount};

/// Calldata of any length up to `max` in a block of exactly that size.
fn data(max: usize) -> Box<[u8]> {
    let n = vp::choose(max + 1, "length");
    vp::vec(n, "calldata").into_boxed_slice()
}

/// Scalars of any length up to `max`; arrays only up to three bytes (longer ones: `h_cd_array*`).
fn scalar_data(max: usize) -> Box<[u8]> {
    let b = data(max);
    if b.len() > 3 {
        vp::assume(b[0] & 0x0f != 6 && b[0] & 0x0f != 7);
    }
    b
}

fn prim(v: &Primitive) -> Sv {
    match v {
        Primitive::None => Sv::None,
        Primitive::Unit => Sv::Unit,
        Primitive::Bool(b) => Sv::Bool(*b),
        Primitive::Address(a) => {
            let mut x = [0u8; 20];
            x.copy_from_slice(a.as_slice());
            Sv::Address(x)
        }
        Primitive::Amount(a) => Sv::Amount(a.0),
        Primitive::I8(v) => Sv::I8(*v),
        Primitive::U8(v) => Sv::U8(*v),
        Primitive::I16(v) => Sv::I16(*v),
        Primitive::U16(v) => Sv::U16(*v),
        Primitive::I32(v) => Sv::I32(*v),
        Primitive::U32(v) => Sv::U32(*v),
        Primitive::I64(v) => Sv::I64(*v),
        Primitive::U64(v) => Sv::U64(*v),
    }
}
/// Full parse of one value; arrays hold primitives only.
fn parse_value(b: &[u8], pos: &mut usize) -> Option<Vec<Sv>> {
    match parse(b, pos)? {
        Sv::Array(n) => {
            let mut out = vec![Sv::Array(n)];
            for _ in 0..n {
                match parse(b, pos)? {
                    Sv::Array(_) => return None,
                    v => out.push(v),
                }
            }
            Some(out)
        }
        v => Some(vec![v]),
    }
}
fn flat(v: &Value) -> Vec<Sv> {
    match v {
        Value::Primitive(p) => vec![prim(p)],
        Value::Composite(Composite::Vec(vs)) => {
            let mut out = vec![Sv::Array(vs.len() as u8)];
            for v in vs.as_slice() {
                match v {
                    Value::Primitive(p) => out.push(prim(p)),
                    _ => vp::check(false, "nested array decoded"),
                }
            }
            out
        }
    }
}
fn values(b: &[u8], count: usize) {
    let mut cd = CallData::new(b);
    let mut pos = 0;
    for _ in 0..count {
        let want = if pos >= b.len() { Some(vec![]) } else { parse_value(b, &mut pos) };
        let got = vp::catch(|| match cd.next() {
            SOption::Some(v) => flat(&v),
            SOption::None => vec![],
        });
        match (got, want) {
            (None, None) => {
                vp::reach("rejected");
                return;
            }
            (Some(g), Some(w)) => {
                vp::check(g == w, "decoded value differs from the documented format");
                vp::reach(if w.is_empty() { "exhausted" } else { "accepted" });
            }
            (Some(_), None) => vp::check(false, "malformed calldata accepted"),
            (None, Some(_)) => vp::check(false, "well-formed calldata rejected"),
        }
    }
}

vp::entry! {
    fn h_cd_any() { values(&scalar_data(22), 1) }
    fn h_cd_seq() { values(&data(3), 4) }
    fn h_cd_seq_deep() { values(&data(4), 5) }
    fn h_cd_array() { arrays(4) }
    fn h_cd_array_deep() { arrays(6) }
    fn h_cd_array_long() {
        // long arrays of one-byte elements
        let n = vp::choose(12, "length");
        let mut b = vp::vec(n + 1, "calldata").into_boxed_slice();
        vp::assume(b[0] & 0x0f == 6 || b[0] & 0x0f == 7);
        for i in 1..b.len() {
            b[i] = b[i] & 0x10;
        }
        values(&b, 1)
    }
}
/// Any array header followed by arbitrary elements.
fn arrays(max: usize) {
        let b = data(max);
        vp::assume(b.len() > 0);
        vp::assume(matches!(b[0], 0x06 | 0x16 | 0x26 | 0x36 | 0x46));
        values(&b, 2)
}

/// The typed accessors: exact type or nothing.
fn typed<T: From<Value>>(max: usize, same: fn(&T, &Sv) -> bool)
where
    SOption<T>: From<Value>,
{
    let b = scalar_data(max);
    let mut pos = 0;
    let want = parse_value(&b, &mut pos);
    let matching = |v: &T| matches!(&want, Some(w) if w.len() == 1 && same(v, &w[0]));
    let opt = vp::bool("optional");
    if opt {
        match vp::catch(|| CallData::new(&b).next_1::<SOption<T>>()) {
            Some(SOption::Some(v)) => {
                vp::check(matching(&v), "typed optional read returned a value the calldata does not hold");
                vp::reach("some")
            }
            Some(SOption::None) => {
                vp::check(matches!(&want, Some(w) if w.len() == 1 && w[0] == Sv::None), "absent optional read from other calldata");
                vp::reach("none")
            }
            None => vp::reach("stop"),
        }
    } else {
        match vp::catch(|| CallData::new(&b).next_1::<T>()) {
            Some(v) => {
                vp::check(matching(&v), "typed read returned a value the calldata does not hold");
                vp::reach("some")
            }
            None => vp::reach("stop"),
        }
    }
}
macro_rules! typed { ($($n:ident $t:ty, $v:ident, $max:expr;)*) => { $(
    vp::entry! { fn $n() { typed::<$t>($max, |a, b| matches!(b, Sv::$v(x) if *a == (*x).into())) } }
)* } }
typed! {
    h_cdt_bool bool, Bool, 3;
    h_cdt_i8 i8, I8, 3;
    h_cdt_u8 u8, U8, 3;
    h_cdt_i16 i16, I16, 4;
    h_cdt_u16 u16, U16, 4;
    h_cdt_i32 i32, I32, 6;
    h_cdt_u32 u32, U32, 6;
    h_cdt_i64 i64, I64, 10;
    h_cdt_u64 u64, U64, 10;
    h_cdt_address Address, Address, 22;
}
vp::entry! {
    fn h_cdt_amount() { typed::<Amount>(10, |a, b| matches!(b, Sv::Amount(x) if a.0 == *x)) }
    fn h_cdt_arr() {
        // a typed array read: exact length and exact element types
        let b = data(5);
        vp::assume(b.len() > 0 && (b[0] == 0x26 || b[0] == 0x36 || b[0] == 0x16));
        let mut pos = 0;
        let want = parse_value(&b, &mut pos);
        match vp::catch(|| CallData::new(&b).next_1::<[u16; 2]>()) {
            Some(v) => {
                vp::check(matches!(&want, Some(w) if w.len() == 3 && w[0] == Sv::Array(2) && w[1] == Sv::U16(v[0]) && w[2] == Sv::U16(v[1])),
                    "typed array read returned values the calldata does not hold");
                vp::reach("some")
            }
            None => vp::reach("stop"),
        }
        match vp::catch(|| CallData::new(&b).next_1::<[bool; 3]>()) {
            Some(v) => {
                vp::check(matches!(&want, Some(w) if w.len() == 4 && w[0] == Sv::Array(3) && w[1] == Sv::Bool(v[0]) && w[2] == Sv::Bool(v[1]) && w[3] == Sv::Bool(v[2])),
                    "typed array read returned values the calldata does not hold");
                vp::reach("some")
            }
            None => vp::reach("stop"),
        }
    }
}
