//! Generated endpoints: arguments arrive unchanged, results are returned unchanged, funding hooks run exactly when coins are attached.
use crate::abi::enc;
use svm_abi_decoder::ReturnData;
use svm_sdk_mock::host::MockHost;
use svm_sdk_mock::storage::MockStorage;
use svm_sdk_mock::{Address, Amount};

use crate::storage as a;

fn call(f: extern "C" fn(), calldata: Vec<u8>, value: u64) -> Option<ReturnData<'static>> {
    MockHost::reset();
    MockHost::set_raw_calldata(&calldata);
    MockHost::set_value(Amount(value));
    f();
    MockHost::returndata().map(|b| ReturnData::new(b.leak()))
}

vp::entry! {
    fn h_disp_args() {
        MockStorage::clear();
        a::reset();
        match vp::choose(5, "endpoint") {
            0 => {
                let x = vp::u64("x");
                let mut r = call(a::e_id_u64, enc(&x), 0).unwrap();
                vp::check(r.next_1::<u64>() == x, "argument returned as another value");
            }
            1 => {
                let (x, y, z) = (vp::i32("x"), vp::bool("y"), vp::bytes::<20>("z"));
                let mut b = enc(&x);
                b.extend(enc(&y));
                b.extend(enc(&Address::from(z)));
                let mut r = call(a::e_pick, b, 0).unwrap();
                let (p, q, s): (Address, i32, bool) = r.next_3();
                vp::check(p.as_slice() == &z[..] && q == x && s == y, "arguments permuted or changed");
            }
            2 => {
                let x = vp::bytes::<3>("x");
                let mut r = call(a::e_sum, enc(&x), 0).unwrap();
                vp::check(r.next_1::<u32>() == x[0] as u32 + x[1] as u32 + x[2] as u32, "array argument");
            }
            3 => {
                let r = call(a::e_none, vec![], 0);
                vp::check(r.is_none(), "an endpoint without result returned data");
            }
            _ => {
                let x = vp::u32("x");
                let r = call(a::e_init, enc(&x), 0);
                vp::check(r.is_none() && a::state().0 == x, "constructor argument");
            }
        }
        vp::check(a::state().1 == 0, "funding hook ran without funding");
        vp::reach("end");
    }
    fn h_disp_fund() {
        MockStorage::clear();
        a::reset();
        let x = vp::u64("x");
        let v = vp::u64("value");
        let mut r = call(a::e_fund, enc(&Amount(x)), v).unwrap();
        let y: Amount = r.next_1();
        let (calls, hooked, before, received) = a::state();
        vp::check(y.0 == x && calls == 1, "funded endpoint result");
        if v > 0 {
            vp::check(hooked == 1 && before == 1, "the named funding hook must run once, before the endpoint");
            vp::check(received == v, "funding hook saw another value");
            vp::reach("funded")
        } else {
            vp::check(hooked == 0 && before == 0 && received == 0, "funding hook ran without coins");
            vp::reach("plain")
        }
    }
    fn h_disp_fund_default() {
        MockStorage::clear();
        a::reset();
        let v = vp::u64("value");
        let mut r = call(a::e_fund_default, vec![], v).unwrap();
        let n: u32 = r.next_1();
        vp::check(n == if v > 0 { 100 } else { 0 }, "the default funding hook must run exactly when coins are attached");
        vp::reach("end");
    }
    fn h_disp_badargs() {
        // calldata an endpoint cannot take stops execution without touching storage
        MockStorage::clear();
        a::reset();
        let n = vp::choose(3, "length");
        let b = vp::vec(n, "calldata");
        vp::assume(n == 0 || (b[0] & 0x0f != 1));
        let r = vp::catch(|| call(a::e_fund, b, 0).is_some());
        vp::check(r.is_none(), "an amount was read from other calldata");
        vp::check(a::state() == (0, 0, 77, 0), "a rejected call changed storage");
        vp::reach("end");
    }
}
