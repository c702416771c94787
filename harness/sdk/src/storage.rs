//! Contract storage: generated accessors and the operations below them, over the mock storage.
use svm_sdk_mock::storage::{ops, MockStorage};
use svm_sdk_mock::traits::Storage;
use svm_sdk_mock::{Address, Amount};

#[svm_sdk_mock::template]
mod Everything {
    #[storage]
    struct Store {
        b: bool,
        i8s: i8,
        u8s: u8,
        arr_b: [bool; 3],
        i16s: i16,
        u16s: u16,
        i32s: i32,
        u32s: u32,
        arr_i16: [i16; 2],
        i64s: i64,
        u64s: u64,
        arr_u64: [u64; 3],
        arr_long: [u16; 9],
        amount: svm_sdk::Amount,
        addr: svm_sdk::Address,
        arr_amount: [svm_sdk::Amount; 2],
        arr_addr: [svm_sdk::Address; 2],
        arr_u8: [u8; 2],
        arr_i32: [i32; 2],
        arr_i8: [i8; 2],
        arr_u16: [u16; 2],
        arr_u32: [u32; 2],
        arr_i64: [i64; 2],
        last: u32,
        calls: u32,
        received: svm_sdk::Amount,
        before: u32,
        hooked: u32,
    }

    #[ctor]
    fn e_init(x: u32) {
        Store::set_calls(x);
    }

    #[endpoint]
    fn e_id_u64(x: u64) -> u64 {
        x
    }

    #[endpoint]
    fn e_pick(a: i32, b: bool, c: svm_sdk::Address) -> (svm_sdk::Address, i32, bool) {
        (c, a, b)
    }

    #[endpoint]
    fn e_sum(x: [u8; 3]) -> u32 {
        x[0] as u32 + x[1] as u32 + x[2] as u32
    }

    #[endpoint]
    fn e_none() {}

    #[fundable(keep)]
    #[endpoint]
    fn e_fund(x: svm_sdk::Amount) -> svm_sdk::Amount {
        Store::set_before(Store::get_hooked());
        Store::set_calls(Store::get_calls() + 1);
        x
    }

    #[fundable_hook]
    fn keep() {
        Store::set_hooked(Store::get_hooked() + 1);
        Store::set_received(Node::value());
    }

    #[fundable]
    #[endpoint]
    fn e_fund_default() -> u32 {
        Store::get_hooked()
    }

    #[fundable_hook(default)]
    fn deny() {
        Store::set_hooked(Store::get_hooked() + 100);
    }
}
pub fn reset() {
    Store::set_calls(0);
    Store::set_hooked(0);
    Store::set_before(77);
    Store::set_received(svm_sdk_mock::Amount(0));
}
pub fn state() -> (u32, u32, u32, u64) {
    (Store::get_calls(), Store::get_hooked(), Store::get_before(), Store::get_received().0)
}

/// Every cell of the struct as a 20-byte image.
const CELLS: usize = 11 + 3 + 2 + 3 + 2 + 2 + 12 + 1 + 9;
type Img = [u8; 20];
fn img(v: u64) -> Img {
    let mut b = [0u8; 20];
    b[..8].copy_from_slice(&v.to_le_bytes());
    b
}
fn aimg(a: &Address) -> Img {
    let mut b = [0u8; 20];
    b.copy_from_slice(a.as_slice());
    b
}
fn get(c: usize) -> Img {
    match c {
        0 => img(Store::get_b() as u64),
        1 => img(Store::get_i8s() as u8 as u64),
        2 => img(Store::get_u8s() as u64),
        3..=5 => img(Store::get_arr_b(c - 3) as u64),
        6 => img(Store::get_i16s() as u16 as u64),
        7 => img(Store::get_u16s() as u64),
        8 => img(Store::get_i32s() as u32 as u64),
        9 => img(Store::get_u32s() as u64),
        10..=11 => img(Store::get_arr_i16(c - 10) as u16 as u64),
        12 => img(Store::get_i64s() as u64),
        13 => img(Store::get_u64s()),
        14..=16 => img(Store::get_arr_u64(c - 14)),
        17 => img(Store::get_amount().0),
        18 => aimg(&Store::get_addr()),
        19..=20 => img(Store::get_arr_amount(c - 19).0),
        21..=22 => aimg(&Store::get_arr_addr(c - 21)),
        23..=24 => img(Store::get_arr_u8(c - 23) as u64),
        25..=26 => img(Store::get_arr_i32(c - 25) as u32 as u64),
        27..=28 => img(Store::get_arr_i8(c - 27) as u8 as u64),
        29..=30 => img(Store::get_arr_u16(c - 29) as u64),
        31..=32 => img(Store::get_arr_u32(c - 31) as u64),
        33..=34 => img(Store::get_arr_i64(c - 33) as u64),
        35..=43 => img(Store::get_arr_long(c - 35) as u64),
        _ => img(Store::get_last() as u64),
    }
}
/// Stores a fresh value and returns its image.
fn set(c: usize, n: &str) -> Img {
    let v = vp::u64(n);
    let a = || {
        let mut b = [0u8; 20];
        vp::fill(&mut b, "address");
        b
    };
    match c {
        0 => { Store::set_b(v & 1 == 1); img(v & 1) }
        1 => { Store::set_i8s(v as i8); img(v & 0xff) }
        2 => { Store::set_u8s(v as u8); img(v & 0xff) }
        3..=5 => { Store::set_arr_b(c - 3, v & 1 == 1); img(v & 1) }
        6 => { Store::set_i16s(v as i16); img(v & 0xffff) }
        7 => { Store::set_u16s(v as u16); img(v & 0xffff) }
        8 => { Store::set_i32s(v as i32); img(v & 0xffff_ffff) }
        9 => { Store::set_u32s(v as u32); img(v & 0xffff_ffff) }
        10..=11 => { Store::set_arr_i16(c - 10, v as i16); img(v & 0xffff) }
        12 => { Store::set_i64s(v as i64); img(v) }
        13 => { Store::set_u64s(v); img(v) }
        14..=16 => { Store::set_arr_u64(c - 14, v); img(v) }
        17 => { Store::set_amount(Amount(v)); img(v) }
        18 => { let b = a(); Store::set_addr(&Address::from(b)); b }
        19..=20 => { Store::set_arr_amount(c - 19, Amount(v)); img(v) }
        21..=22 => { let b = a(); Store::set_arr_addr(c - 21, &Address::from(b)); b }
        23..=24 => { Store::set_arr_u8(c - 23, v as u8); img(v & 0xff) }
        25..=26 => { Store::set_arr_i32(c - 25, v as i32); img(v & 0xffff_ffff) }
        27..=28 => { Store::set_arr_i8(c - 27, v as i8); img(v & 0xff) }
        29..=30 => { Store::set_arr_u16(c - 29, v as u16); img(v & 0xffff) }
        31..=32 => { Store::set_arr_u32(c - 31, v as u32); img(v & 0xffff_ffff) }
        33..=34 => { Store::set_arr_i64(c - 33, v as i64); img(v) }
        35..=43 => { Store::set_arr_long(c - 35, v as u16); img(v & 0xffff) }
        _ => { Store::set_last(v as u32); img(v & 0xffff_ffff) }
    }
}

vp::entry! {
    // after any write every cell reads back what was last written to it (zero before the first write)
    fn h_sto_fields() {
        MockStorage::clear();
        let c = vp::choose(CELLS, "cell");
        let d = vp::choose(CELLS, "other");
        let first = set(c, "first");
        let second = set(d, "second");
        for i in 0..CELLS {
            let want = if i == d { second } else if i == c { first } else { [0u8; 20] };
            vp::check(get(i) == want, "a storage cell does not hold what was last written to it");
        }
        vp::reach("end");
    }
    fn h_sto_array_bounds() {
        MockStorage::clear();
        let i = vp::u32("index") as usize;
        vp::assume(i <= 6 || i >= 0xffff_fff0);
        let i = vp::concretize(i as u64) as usize;
        let v = vp::u64("value");
        let before: Vec<Img> = (0..CELLS).map(get).collect();
        let ok = vp::catch(|| Store::set_arr_u64(i, v)).is_some();
        vp::check(ok == (i < 3), "array write outside its bounds, or refused within them");
        let r = vp::catch(|| Store::get_arr_u64(i));
        match r {
            Some(x) => { vp::check(i < 3 && x == v, "array read"); vp::reach("inside") }
            None => {
                vp::check(i >= 3, "array read refused within its bounds");
                for k in 0..CELLS {
                    vp::check(get(k) == before[k], "a refused array write changed storage");
                }
                vp::reach("outside")
            }
        }
    }
    fn h_sto_ops() {
        // operations on two arbitrary variables
        MockStorage::clear();
        let ids = [0u32, 1, 7, 8, 255, 256, u32::MAX - 1, u32::MAX];
        let a = ids[vp::choose(8, "a")];
        let b = ids[vp::choose(8, "b")];
        vp::assume(a != b);
        let (x, y) = (vp::u64("x"), vp::u64("y"));
        let ad = vp::bytes::<20>("address");
        match vp::choose(5, "kind") {
            0 => {
                ops::set32::<MockStorage>(a, x as u32);
                ops::set64::<MockStorage>(b, y);
                vp::check(ops::get32::<MockStorage>(a) == x as u32 && ops::get64::<MockStorage>(b) == y, "32/64-bit variable");
            }
            1 => {
                ops::set_bool::<MockStorage>(a, x & 1 == 1);
                ops::set_amount::<MockStorage>(b, Amount(y));
                vp::check(ops::get_bool::<MockStorage>(a) == (x & 1 == 1) && ops::get_amount::<MockStorage>(b) == Amount(y), "bool/amount variable");
            }
            2 => {
                ops::set_addr::<MockStorage>(a, &Address::from(ad));
                ops::set64::<MockStorage>(b, y);
                vp::check(ops::get_addr::<MockStorage>(a).as_slice() == &ad[..] && ops::get64::<MockStorage>(b) == y, "address variable");
            }
            3 => {
                ops::store160::<MockStorage>(a, &ad);
                ops::store160::<MockStorage>(b, &[7u8; 20]);
                vp::check(ops::load160::<MockStorage>(a) == &ad[..] && ops::load160::<MockStorage>(b) == &[7u8; 20][..], "160-bit variable");
            }
            _ => {
                vp::check(ops::get32::<MockStorage>(a) == 0 && ops::get64::<MockStorage>(b) == 0, "unwritten variable");
            }
        }
        let _ = MockStorage::get32(3);
        vp::reach("end");
    }
}
