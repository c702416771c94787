//! ABI: encoder/decoder round trip, documented wire format, exact sizes, bounded reads.
use crate::spec::*;
use svm_abi_decoder::CallData;
use svm_abi_encoder::{ByteSize, Encoder};
use svm_sdk_std::{Option as SOption, Vec as SVec};
use svm_sdk_types::{Address, Amount};

/// Encodes into a buffer of exactly `max_byte_size` and copies the result into an exact-size heap block,
/// so that any read beyond the encoded bytes is a memory error.
pub fn enc<T: Encoder + ByteSize>(v: &T) -> std::vec::Vec<u8> {
    let max = T::max_byte_size();
    let mut w: SVec<u8> = SVec::with_capacity(max);
    v.encode(&mut w);
    let out = w.as_slice().to_vec();
    vp::check(out.len() <= max, "encoding longer than the declared maximum");
    vp::check(v.byte_size() == out.len(), "declared byte size differs from the encoded length");
    out
}

fn eof(cd: &mut CallData) -> bool {
    matches!(cd.next(), SOption::None)
}

macro_rules! scalar {
    ($name:ident, $ty:ty, $mk:expr) => {
        vp::entry! { fn $name() {
            let x: $ty = $mk;
            let b = enc(&x);
            let mut want = vec![];
            x.spec(&mut want);
            vp::check(b == want, "encoding differs from the documented format");
            let mut cd = CallData::new(&b);
            let y: $ty = cd.next_1();
            vp::check(x == y, "decode(encode(x)) != x");
            vp::check(eof(&mut cd), "bytes left after decoding one value");
            // optional form
            let so: SOption<$ty> = SOption::Some(x);
            let bo = enc(&so);
            vp::check(bo == want, "a present optional must encode as its value");
            let yo: SOption<$ty> = CallData::new(&bo).next_1();
            match yo { SOption::Some(z) => vp::check(z == x, "optional value changed"), SOption::None => vp::check(false, "optional value lost") }
            let no: SOption<$ty> = SOption::None;
            let bn = enc(&no);
            vp::check(bn == [0x20], "absent optional encoding");
            let zn: SOption<$ty> = CallData::new(&bn).next_1();
            vp::check(matches!(zn, SOption::None), "absent optional decodes as present");
            vp::reach("end");
        } }
    };
}
scalar!(h_abi_bool, bool, vp::bool("x"));
scalar!(h_abi_u8, u8, vp::u8("x"));
scalar!(h_abi_i8, i8, vp::i8("x"));
scalar!(h_abi_u16, u16, vp::u16("x"));
scalar!(h_abi_i16, i16, vp::i16("x"));
scalar!(h_abi_u32, u32, vp::u32("x"));
scalar!(h_abi_i32, i32, vp::i32("x"));
scalar!(h_abi_u64, u64, vp::u64("x"));
scalar!(h_abi_i64, i64, vp::i64("x"));
scalar!(h_abi_amount, Amount, Amount(vp::u64("x")));
scalar!(h_abi_address, Address, Address::from(vp::bytes::<20>("x")));

vp::entry! { fn h_abi_unit() {
    let b = enc(&());
    vp::check(b == [0x30], "unit encoding");
    let mut cd = CallData::new(&b);
    let _: () = cd.next_1();
    vp::check(eof(&mut cd), "bytes left after decoding the unit");
    vp::reach("end");
} }

/// Array of `N`: element `k` ranges over the whole type, the others over `small`.
fn array_rt<T, const N: usize>(full: fn() -> T, small: fn() -> T)
where
    T: Encoder + ByteSize + Spec + Copy + PartialEq,
    [T; N]: From<svm_sdk_types::value::Value>,
{
    let k = vp::choose(N, "position");
    let mut a = [small(); N];
    for i in 0..N {
        a[i] = if i == k { full() } else { small() };
    }
    let b = enc(&a);
    let mut want = vec![if N < 8 { 0x06 | (N as u8) << 4 } else { 0x07 | (N as u8 - 8) << 4 }];
    for x in a.iter() {
        x.spec(&mut want);
    }
    vp::check(b == want, "array encoding differs from the documented format");
    let mut cd = CallData::new(&b);
    let c: [T; N] = cd.next_1();
    for i in 0..N {
        vp::check(a[i] == c[i], "array element changed by the round trip");
    }
    vp::check(eof(&mut cd), "bytes left after decoding the array");
    vp::reach("end");
}

macro_rules! arrays {
    ($($name:ident $ty:ty, $full:expr, $small:expr;)*) => { $(
        vp::entry! { fn $name() {
            match vp::choose(10, "length") {
                0 => array_rt::<$ty, 1>($full, $small),
                1 => array_rt::<$ty, 2>($full, $small),
                2 => array_rt::<$ty, 3>($full, $small),
                3 => array_rt::<$ty, 4>($full, $small),
                4 => array_rt::<$ty, 5>($full, $small),
                5 => array_rt::<$ty, 6>($full, $small),
                6 => array_rt::<$ty, 7>($full, $small),
                7 => array_rt::<$ty, 8>($full, $small),
                8 => array_rt::<$ty, 9>($full, $small),
                _ => array_rt::<$ty, 10>($full, $small),
            }
        } }
    )* };
}
arrays! {
    h_abi_arr_bool bool, || vp::bool("x"), || vp::u8("s") == 7;
    h_abi_arr_u8 u8, || vp::u8("x"), || vp::u8("s");
    h_abi_arr_i8 i8, || vp::i8("x"), || vp::i8("s");
    h_abi_arr_u16 u16, || vp::u16("x"), || vp::u8("s") as u16;
    h_abi_arr_i16 i16, || vp::i16("x"), || vp::u8("s") as i16;
    h_abi_arr_u32 u32, || vp::u32("x"), || vp::u8("s") as u32;
    h_abi_arr_i32 i32, || vp::i32("x"), || vp::u8("s") as i32;
    h_abi_arr_u64 u64, || vp::u64("x"), || vp::u8("s") as u64;
    h_abi_arr_i64 i64, || vp::i64("x"), || vp::u8("s") as i64;
    h_abi_arr_amount Amount, || Amount(vp::u64("x")), || Amount(vp::u8("s") as u64);
    h_abi_arr_address Address, || Address::from(vp::bytes::<20>("x")), || Address::from(vp::bytes::<20>("s"));
}

// two adjacent full-range wide elements
vp::entry! {
    fn h_abi_arr_wide() {
        let a = [vp::i64("a"), vp::i64("b")];
        let b = enc(&a);
        let c: [i64; 2] = CallData::new(&b).next_1();
        vp::check(a == c, "pair of i64 changed");
        let a = [vp::u32("c"), vp::u32("d"), vp::u32("e")];
        let b = enc(&a);
        let c: [u32; 3] = CallData::new(&b).next_1();
        vp::check(a == c, "triple of u32 changed");
        vp::reach("end");
    }
}

// argument lists: tuples of 1 to 6 values decoded with the matching accessor
vp::entry! {
    fn h_abi_tuple1() {
        let t = (vp::u64("a"),);
        let b = enc(&t);
        let mut cd = CallData::new(&b);
        let x: u64 = cd.next_1();
        vp::check(x == t.0, "1 argument changed");
        vp::check(eof(&mut cd), "bytes left");
        vp::reach("end");
    }
    fn h_abi_tuple2() {
        let t = (vp::i32("a"), vp::u16("b"));
        let b = enc(&t);
        let mut cd = CallData::new(&b);
        let u: (i32, u16) = cd.next_2();
        vp::check(t == u, "2 arguments changed");
        vp::check(eof(&mut cd), "bytes left");
        vp::reach("end");
    }
    fn h_abi_tuple3() {
        let t = (Amount(vp::u64("a")), Address::from(vp::bytes::<20>("b")), vp::i8("c"));
        let b = enc(&t);
        let mut cd = CallData::new(&b);
        let u: (Amount, Address, i8) = cd.next_3();
        vp::check(t == u, "3 arguments changed");
        vp::check(eof(&mut cd), "bytes left");
        vp::reach("end");
    }
    fn h_abi_tuple4() {
        let t = (vp::u8("a"), vp::u32("b"), vp::bool("c"), vp::i16("d"));
        let b = enc(&t);
        let mut cd = CallData::new(&b);
        let u: (u8, u32, bool, i16) = cd.next_4();
        vp::check(t == u, "4 arguments changed");
        vp::check(eof(&mut cd), "bytes left");
        vp::reach("end");
    }
    fn h_abi_tuple5() {
        let t = (vp::i8("a"), vp::bool("b"), vp::u16("c"), vp::i16("d"), vp::u64("e"));
        let b = enc(&t);
        let mut cd = CallData::new(&b);
        let u: (i8, bool, u16, i16, u64) = cd.next_5();
        vp::check(t == u, "5 arguments changed");
        vp::check(eof(&mut cd), "bytes left");
        vp::reach("end");
    }
    fn h_abi_tuple6() {
        let t = (vp::bool("a"), vp::u8("b"), vp::i64("c"), Address::from(vp::bytes::<20>("d")), vp::i8("e"), vp::u16("f"));
        let b = enc(&t);
        let mut cd = CallData::new(&b);
        let u: (bool, u8, i64, Address, i8, u16) = cd.next_6();
        vp::check(t == u, "6 arguments changed");
        vp::check(eof(&mut cd), "bytes left");
        vp::reach("end");
    }
    fn h_abi_mixed() {
        // an array, an absent and a present optional, and a scalar behind them
        let a = [vp::u16("a"), vp::u16("b"), vp::u16("c")];
        let o: SOption<u8> = SOption::None;
        let p: SOption<bool> = SOption::Some(vp::bool("d"));
        let s = vp::i32("e");
        let mut b = enc(&a);
        b.extend(enc(&o));
        b.extend(enc(&p));
        b.extend(enc(&s));
        let b = b.into_boxed_slice();
        let mut cd = CallData::new(&b);
        let (a2, o2): ([u16; 3], SOption<u8>) = cd.next_2();
        let (p2, s2): (SOption<bool>, i32) = cd.next_2();
        vp::check(a == a2, "array in front changed");
        vp::check(matches!(o2, SOption::None), "absent optional changed");
        vp::check(p == p2, "present optional changed");
        vp::check(s == s2, "value behind optionals changed");
        vp::check(eof(&mut cd), "bytes left");
        vp::reach("end");
    }
}
