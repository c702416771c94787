//! Input data: values are encoded exactly when they fit their declared type, and decode to themselves.
use crate::{digits, digits_after, hex, unwrap, wrap};
use serde_json::Value as Json;
use svm_codec::api::json::{decode_inputdata, encode_inputdata};

const NUM: [(&str, i128, i128); 9] = [
    ("i8", i8::MIN as i128, i8::MAX as i128),
    ("u8", 0, u8::MAX as i128),
    ("i16", i16::MIN as i128, i16::MAX as i128),
    ("u16", 0, u16::MAX as i128),
    ("i32", i32::MIN as i128, i32::MAX as i128),
    ("u32", 0, u32::MAX as i128),
    ("i64", i64::MIN as i128, i64::MAX as i128),
    ("u64", 0, u64::MAX as i128),
    ("amount", 0, u64::MAX as i128),
];

fn doc(abi: &str, data: &str) -> String {
    let mut s = String::from("{\"abi\":");
    s.push_str(abi);
    s.push_str(",\"data\":");
    s.push_str(data);
    s.push('}');
    s
}

/// The document's value is encoded the way guests encode it.
fn same_as_guest(text: &Json, ty: &str, v: i128) {
    use svm_abi_encoder::Encoder;
    let mut e = svm_sdk_std::Vec::with_capacity(16);
    match ty {
        "i8" => (v as i8).encode(&mut e),
        "u8" => (v as u8).encode(&mut e),
        "i16" => (v as i16).encode(&mut e),
        "u16" => (v as u16).encode(&mut e),
        "i32" => (v as i32).encode(&mut e),
        "u32" => (v as u32).encode(&mut e),
        "i64" => (v as i64).encode(&mut e),
        "u64" => (v as u64).encode(&mut e),
        _ => svm_sdk_types::Amount(v as u64).encode(&mut e),
    }
    let want = hex(e.as_slice());
    let got = text["data"].as_str().unwrap_or("");
    vp::check(got.len() == want.len(), "a number is encoded in another number of bytes than by guests");
    for (x, y) in got.bytes().zip(want.bytes()) {
        vp::check(x == y, "a number is encoded as other bytes than by guests");
    }
}

/// A beginning, and how many symbolic digits follow.
fn numbers(texts: &[(&str, usize)]) {
    let (ty, min, max) = NUM[vp::choose(NUM.len(), "type")];
    let neg = vp::choose(2, "sign") == 1;
    let (head, n) = texts[vp::choose(texts.len(), "digits")];
    let (text, v) = digits_after(head, n, "n");
    // JSON integers; what is beyond them is in h_json_types
    if head.len() + n == 20 {
        vp::assume(v >= 10_000_000_000_000_000_000);
    }
    if neg {
        // "-0" isn't an integer for serde_json
        vp::assume(v > 0 && v <= 1 << 63);
    }
    let fits = if neg { v <= min.unsigned_abs() as u64 } else { v <= max as u64 };
    let v = if neg { -(v as i128) } else { v as i128 };
    let mut t = String::from("[");
    if neg {
        t.push('-');
    }
    t.push_str(&text);
    t.push(']');
    let mut abi = String::from("[\"");
    abi.push_str(ty);
    abi.push_str("\"]");
    match encode_inputdata(&doc(&abi, &t)) {
        Ok(j) => {
            vp::check(fits, "a number that doesn't fit its type is encoded");
            vp::reach("encoded");
            same_as_guest(&j, ty, v);
        }
        Err(_) => {
            vp::reach("refused");
            vp::check(!fits, "a number that fits its type is refused");
        }
    }
}

const A20: &str = "\"00112233445566778899AABBCCDDEEFF01020304\"";
/// Values: text, and the kind they are of.
#[derive(Clone, Copy, PartialEq)]
enum K {
    Bool,
    Int(i128),
    Addr,
    Arr,
    Bad,
}
const VALUES: [(&str, K); 14] = [
    ("true", K::Bool),
    ("false", K::Bool),
    ("0", K::Int(0)),
    ("-129", K::Int(-129)),
    ("70000", K::Int(70000)),
    ("5000000000", K::Int(5000000000)),
    ("18446744073709551616", K::Bad),
    ("-9223372036854775809", K::Bad),
    ("1.5", K::Bad),
    ("null", K::Bad),
    ("{}", K::Bad),
    (A20, K::Addr),
    ("\"0011\"", K::Bad),
    ("\"zz112233445566778899AABBCCDDEEFF01020304\"", K::Bad),
];
fn prim_fits(ty: usize, k: K) -> bool {
    match ty {
        0 => k == K::Bool,
        1 => k == K::Addr,
        _ => match k {
            K::Int(v) => v >= NUM[ty - 2].1 && v <= NUM[ty - 2].2,
            _ => false,
        },
    }
}
fn prim_name(ty: usize) -> &'static str {
    match ty {
        0 => "bool",
        1 => "address",
        _ => NUM[ty - 2].0,
    }
}
fn list(n: usize, item: &str) -> String {
    let mut s = String::from("[");
    for i in 0..n {
        if i > 0 {
            s.push(',');
        }
        s.push_str(item);
    }
    s.push(']');
    s
}
/// Whether arrays of arrays are supported is up to the code; what it takes must come back.
fn nested(fits: bool) -> Option<bool> {
    if fits {
        None
    } else {
        Some(false)
    }
}
fn judge(abi: &str, data: &str, ok: impl Into<Option<bool>>, same_abi: bool) {
    let ok = ok.into();
    let r = encode_inputdata(&doc(abi, data));
    let ok = ok.unwrap_or(r.is_ok());
    vp::check(r.is_ok() == ok, if ok { "values that match their types are refused" } else { "values that don't match their types are encoded" });
    if let Ok(j) = r {
        vp::reach("encoded");
        let t = wrap(&unwrap(&j));
        match decode_inputdata(&t) {
            Ok(d) => {
                let want: Json = serde_json::from_str(&doc(abi, data)).unwrap();
                vp::check(d["data"] == want["data"], "input data decodes to other values");
                if same_abi {
                    vp::check(d["abi"] == want["abi"], "input data decodes to other types");
                }
            }
            Err(_) => vp::check(false, "encoded input data doesn't decode"),
        }
    } else {
        vp::reach("refused");
    }
}

vp::entry! {
    /// Every integer text of up to 20 digits against every numeric type.
    fn h_json_numbers() {
        numbers(&[("", 1), ("", 2), ("", 3), ("", 4), ("", 5), ("", 6), ("21474", 5), ("42949", 5), ("99999", 6), ("92233720368547", 5), ("1844674407370955", 4)]);
    }
    fn h_json_numbers_deep() {
        numbers(&[("", 7), ("4", 7), ("12", 7), ("214", 7), ("429", 7), ("9876", 8), ("123456", 8), ("98765432", 8), ("922337203685", 7), ("18446744073709", 6)]);
    }
    /// Every shape of value against every shape of type.
    fn h_json_types() {
        let ty = vp::choose(11, "type");
        let (text, kind) = VALUES[vp::choose(VALUES.len(), "value")];
        let name = hexless(prim_name(ty));
        let fits = prim_fits(ty, kind);
        match vp::choose(12, "shape") {
            // a primitive
            0 => judge(&list(1, &name), &list(1, text), fits, true),
            // two of them
            1 => judge(&list(2, &name), &list(2, text), fits, true),
            // more values than types, and fewer
            2 => judge(&list(1, &name), &list(2, text), false, true),
            3 => judge(&list(2, &name), &list(1, text), false, true),
            // arrays
            4 => judge(&list(1, &list(1, &name)), &list(1, "[]"), true, false),
            5 => judge(&list(1, &list(1, &name)), &list(1, &list(3, text)), fits, true),
            6 => judge(&list(1, &list(1, &name)), &list(1, &list(10, text)), fits, true),
            7 => judge(&list(1, &list(1, &name)), &list(1, &list(11, text)), false, true),
            // array for a primitive, and the reverse
            8 => judge(&list(1, &name), &list(1, &list(1, text)), false, true),
            9 => judge(&list(1, &list(1, &name)), &list(1, text), false, true),
            // arrays of arrays
            10 => judge(&list(1, &list(1, &list(1, &name))), &list(1, &list(2, &list(2, text))), nested(fits), true),
            // no such types
            _ => {
                let bad = [list(1, "[]"), list(1, &list(2, &name)), list(1, "\"u128\""), list(1, "null"), name.clone()];
                judge(&bad[vp::choose(5, "bad")], &list(1, &list(2, text)), false, true)
            }
        }
    }
    /// Addresses and numbers with symbolic content, all the way through text and back.
    fn h_json_values() {
        let mut a = [0xA7u8; 20];
        a[vp::choose(3, "at") * 9] = vp::u8("a");
        let mut addr = String::from("\"");
        addr.push_str(&hex(&a));
        addr.push('"');
        let (n, v) = digits(1 + vp::choose(4, "digits"), "n");
        let mut data = String::from("[");
        data.push_str(&n);
        data.push_str(",[");
        data.push_str(&addr);
        data.push_str("],");
        data.push_str(if vp::bool("b") { "true" } else { "false" });
        data.push(']');
        judge("[\"u16\",[\"address\"],\"bool\"]", &data, v <= 0xFFFF, true);
    }
    /// Bytes that are no encoding are reported, never fatal.
    fn h_json_garbage() {
        garbage(3)
    }
    fn h_json_garbage_deep() {
        garbage(4)
    }
}
fn garbage(max: usize) {
    let n = vp::choose(max + 1, "len");
    let t = wrap(&vp::vec(n, "data"));
    let f = vp::choose(4, "fn");
    let ok = match f {
        0 => decode_inputdata(&t),
        1 => svm_codec::api::json::decode_call(&t),
        2 => svm_codec::api::json::decode_spawn(&t),
        _ => svm_codec::api::json::decode_receipt(&t),
    }
    .is_ok();
    if ok {
        vp::reach("decoded");
        vp::check(f == 0, "a few bytes pass for a whole message");
    } else {
        vp::reach("refused");
    }
}
fn hexless(n: &str) -> String {
    let mut s = String::from("\"");
    s.push_str(n);
    s.push('"');
    s
}
