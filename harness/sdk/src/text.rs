//! Textual rendering, amounts, fixed-capacity vectors.
use svm_sdk_std::{String as SString, StringBuilder, ToString, Vec as SVec};
use svm_sdk_types::{Address, Amount, LayerId};

/// `s` must be the canonical decimal rendering of `n` with an optional sign.
fn decimal(s: &[u8], neg: bool, n: u64) {
    let d = if neg {
        vp::check(!s.is_empty() && s[0] == b'-', "missing minus sign");
        &s[1..]
    } else {
        s
    };
    let k = d.len();
    vp::check(k >= 1 && k <= 20, "number of digits");
    // length is exactly the number of decimal digits
    let mut p: u128 = 1;
    for _ in 0..k {
        p *= 10;
    }
    vp::check((n as u128) < p, "too few digits");
    vp::check(k == 1 || n as u128 >= p / 10, "leading zero");
    let mut p: u64 = 1;
    for i in 0..k {
        let c = d[k - 1 - i];
        vp::check(c == b'0' + ((n / p) % 10) as u8, "wrong digit");
        p = p.wrapping_mul(10);
    }
}

macro_rules! unsigned { ($($n:ident $t:ident;)*) => { $(vp::entry! { fn $n() {
    let x = vp::$t("x");
    let s = ToString::to_string(&x);
    decimal(s.as_bytes(), false, x as u64);
    vp::reach("end");
} })* } }
macro_rules! signed { ($($n:ident $t:ident;)*) => { $(vp::entry! { fn $n() {
    let x = vp::$t("x");
    let s = ToString::to_string(&x);
    decimal(s.as_bytes(), x < 0, (x as i64).unsigned_abs());
    vp::reach("end");
} })* } }
unsigned! { h_str_u8 u8; h_str_u16 u16; h_str_u32 u32; h_str_u64 u64; }
signed! { h_str_i8 i8; h_str_i16 i16; h_str_i32 i32; h_str_i64 i64; }

vp::entry! {
    fn h_str_amount() {
        let x = vp::u64("x");
        let s = ToString::to_string(&Amount(x));
        let b = s.as_bytes();
        let n = b.len();
        vp::check(n > 6 && &b[n - 6..] == b" coins", "amount suffix");
        decimal(&b[..n - 6], false, x);
        vp::reach("end");
    }
    fn h_str_layer() {
        let x = vp::u64("x");
        let s = ToString::to_string(&LayerId(x));
        let b = s.as_bytes();
        let n = b.len();
        vp::check(n > 8 && &b[..7] == b"[Layer " && b[n - 1] == b']', "layer frame");
        decimal(&b[7..n - 1], false, x);
        vp::reach("end");
    }
    fn h_str_address() {
        let x = vp::bytes::<20>("x");
        // every byte value at one position, the rest bounded to one branch each
        let k = vp::choose(20, "position");
        for i in 0..20 {
            if i != k {
                vp::assume(x[i] & 0x0f < 10 && x[i] >> 4 >= 10);
            }
        }
        let s = ToString::to_string(&Address::from(x));
        let b = s.as_bytes();
        vp::check(b.len() == 42 && b[0] == b'0' && b[1] == b'x', "address frame");
        let hex = |n: u8| if n < 10 { b'0' + n } else { b'A' + n - 10 };
        for i in 0..20 {
            vp::check(b[2 + 2 * i] == hex(x[i] >> 4) && b[3 + 2 * i] == hex(x[i] & 15), "hex digit");
        }
        vp::reach("end");
    }
    fn h_str_builder() {
        // concatenation of short ASCII strings within and beyond the capacity
        let cap = vp::choose(20, "capacity");
        let na = vp::choose(9, "first");
        let nb = vp::choose(9, "second");
        let a = vp::vec(na, "a");
        let b = vp::vec(nb, "b");
        let ascii = a.iter().chain(b.iter()).fold(0, |m, x| m | *x) & 0x80 == 0;
        let r = vp::catch(|| {
            let mut sb = StringBuilder::with_capacity(cap);
            sb.push_str(&SString::new_short(&a));
            sb.push_str(&SString::new_short(&b));
            sb.build()
        });
        match r {
            Some(s) => {
                vp::check(ascii && na + nb <= cap, "non-ASCII or oversized text accepted");
                vp::check(s.as_bytes().len() == na + nb, "length of a concatenation");
                vp::check(s.as_bytes()[..na] == a[..] && s.as_bytes()[na..] == b[..], "concatenation changed");
                vp::reach("built")
            }
            None => {
                vp::check(!ascii || na + nb > cap, "valid text rejected");
                vp::reach("stopped")
            }
        }
    }
}

// Amount arithmetic: exact, or execution stops.
vp::entry! {
    fn h_amount_arith() {
        let (x, y) = (vp::u64("x"), vp::u64("y"));
        let (a, b) = (Amount(x), Amount(y));
        let mut sa = a;
        let mut su = a;
        match vp::choose(4, "form") {
            0 => sub(x, y, vp::catch(|| (a - b).0)),
            1 => sub(x, y, vp::catch(|| (a - y).0)),
            2 => sub(x, y, vp::catch(|| { sa -= b; sa.0 })),
            _ => sub(x, y, vp::catch(|| { su -= y; su.0 })),
        }
        vp::check((a < b) == (x < y) && (a <= b) == (x <= y) && (a == b) == (x == y) && (a > b) == (x > y), "amount ordering");
    }
    fn h_amount_add() {
        let (x, y) = (vp::u64("x"), vp::u64("y"));
        vp::assume(x.checked_add(y).is_some());
        let (a, b) = (Amount(x), Amount(y));
        let mut c = a;
        c += b;
        let mut d = a;
        d += y;
        vp::check((a + b).0 == x + y && (a + y).0 == x + y && c.0 == x + y && d.0 == x + y, "amount sum");
        vp::reach("end");
    }
    fn h_amount_mul() {
        let (x, y) = (vp::u32("x") as u64, vp::u32("y") as u64);
        let (a, b) = (Amount(x), Amount(y));
        let mut c = a;
        c *= b;
        let mut d = a;
        d *= y;
        let m = x * y;
        vp::check((a * b).0 == m && (a * y).0 == m && c.0 == m && d.0 == m, "amount product");
        vp::reach("end");
    }
}
fn sub(x: u64, y: u64, r: Option<u64>) {
    match r {
        Some(d) => {
            vp::check(x >= y && d == x.wrapping_sub(y), "difference of amounts");
            vp::reach("exact")
        }
        None => {
            vp::check(x < y, "valid subtraction stopped");
            vp::reach("stopped")
        }
    }
}

// Fixed-capacity vector against a plain list: any history of operations.
fn vec_history<T: Copy + PartialEq + 'static>(cap_max: usize, steps: usize, mk: fn() -> T) {
    let cap = vp::choose(cap_max + 1, "capacity");
    let mut v: SVec<T> = SVec::with_capacity(cap);
    let mut m: Vec<T> = vec![];
    vp::check(v.capacity() == cap && v.is_empty(), "fresh vector");
    for _ in 0..steps {
        match vp::choose(3, "operation") {
            0 => {
                let x = mk();
                let ok = vp::catch(|| v.push(x)).is_some();
                vp::check(ok == (m.len() < cap), "push beyond the capacity, or refused within it");
                if ok {
                    m.push(x);
                }
            }
            1 => {
                let r = vp::catch(|| v.pop());
                match (r, m.pop()) {
                    (Some(a), Some(b)) => vp::check(a == b, "pop returned another value"),
                    (None, None) => vp::reach("empty-pop"),
                    _ => vp::check(false, "pop of an empty vector, or refused pop"),
                }
            }
            _ => {
                v.clear();
                m.clear();
            }
        }
        vp::check(v.len() == m.len() && v.is_empty() == m.is_empty() && v.capacity() == cap, "length");
        for i in 0..m.len() {
            vp::check(v.as_slice()[i] == m[i] && v[i] == m[i], "content");
        }
    }
    let mut i = 0;
    for x in v.iter() {
        vp::check(i < m.len() && *x == m[i], "iteration");
        i += 1;
    }
    vp::check(i == m.len(), "iteration length");
    if vp::choose(2, "end") == 0 {
        let s = v.leak();
        vp::check(s == &m[..], "leaked slice");
    } else {
        let mut i = 0;
        for x in v.into_iter() {
            vp::check(i < m.len() && x == m[i], "consuming iteration");
            i += 1;
        }
        vp::check(i == m.len(), "consuming iteration length");
    }
    vp::reach("end");
}
vp::entry! {
    fn h_vec_u8() { vec_history::<u8>(3, 4, || vp::u8("x")) }
    fn h_vec_u64() { vec_history::<u64>(2, 4, || vp::u64("x")) }
    fn h_vec_deep() { vec_history::<u32>(4, 7, || vp::u32("x")) }
}
