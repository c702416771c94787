//! Transactions: a document gives the message with its fields, and the message gives the document back.
use crate::{digits, hex, unwrap, word_if, wrap};
use svm_codec::api::json::*;
use svm_codec::Codec;
use svm_types::*;

fn put(s: &mut String, skip: bool, name: &str, v: &str) {
    if skip {
        return;
    }
    if s.len() > 1 {
        s.push(',');
    }
    s.push('"');
    s.push_str(name);
    s.push_str("\":");
    s.push_str(v);
}
fn quoted(v: &str) -> String {
    let mut s = String::from("\"");
    s.push_str(v);
    s.push('"');
    s
}
fn addr20(vary: bool, name: &str, seed: u8) -> [u8; 20] {
    let mut a = [0u8; 20];
    for (i, x) in a.iter_mut().enumerate() {
        *x = seed.wrapping_add(11 * i as u8);
    }
    if vary {
        a[[0, 7, 19][vp::choose(3, "at")]] = vp::u8(name);
    }
    a
}
/// Input data: text within a document, the bytes it stands for, and whether it's valid.
fn input(name: &str, k: usize) -> (String, Vec<u8>, bool) {
    match k {
        0 => ("{\"abi\":[],\"data\":[]}".into(), vec![], true),
        1 => {
            let (n, v) = digits(2 + vp::choose(2, "digits"), name);
            let mut s = String::from("{\"abi\":[\"u16\"],\"data\":[");
            s.push_str(&n);
            s.push_str("]}");
            let mut e = svm_sdk_std::Vec::with_capacity(8);
            svm_abi_encoder::Encoder::encode(&(v as u16), &mut e);
            (s, e.as_slice().to_vec(), true)
        }
        2 => {
            // already encoded: a boolean
            let b = vp::bool(name);
            let mut e = svm_sdk_std::Vec::with_capacity(8);
            svm_abi_encoder::Encoder::encode(&b, &mut e);
            (quoted(&hex(e.as_slice())), e.as_slice().to_vec(), true)
        }
        3 => ("{\"abi\":[\"u8\"],\"data\":[-1]}".into(), vec![], false),
        4 => ("{\"abi\":[\"u8\"],\"data\":[]}".into(), vec![], false),
        5 => ("\"0\"".into(), vec![], false),
        _ => ("7".into(), vec![], false),
    }
}
fn check_input(d: &serde_json::Value, bytes: &[u8]) {
    match decode_inputdata(&wrap(bytes)) {
        Ok(w) => vp::check(*d == w, "a decoded message has other input data"),
        Err(_) => vp::check(false, "input data of a message doesn't decode"),
    }
}
fn version(vary: bool) -> (String, u64) {
    if !vary {
        return ("1".into(), 1);
    }
    let (head, n) = [("", 1), ("", 2), ("25", 1), ("327", 2), ("655", 2), ("65536", 1)][vp::choose(6, "version")];
    crate::digits_after(head, n, "v")
}

vp::entry! {
    fn h_json_call() {
        let vary = vp::choose(6, "vary");
        let (vt, v) = version(vary == 0);
        let skip = if vary == 5 { vp::choose(5, "missing") } else { 5 };
        let target = addr20(vary == 1, "target", 3);
        let func = word_if(vary == 2, 2, "func");
        let (kt, kc) = match vary { 3 => (vp::choose(7, "vk"), 0), 4 => (0, vp::choose(7, "ck")), _ => (0, 0) };
        let (vd, vb, vok) = input("verify", kt);
        let (cd, cb, cok) = input("call", kc);
        let mut s = String::from("{");
        put(&mut s, skip == 0, "version", &vt);
        put(&mut s, skip == 1, "target", &quoted(&hex(&target)));
        put(&mut s, skip == 2, "func_name", &quoted(&func));
        put(&mut s, skip == 3, "verifydata", &vd);
        put(&mut s, skip == 4, "calldata", &cd);
        s.push('}');
        let ok = skip == 5 && v <= 0xFFFF && vok && cok;
        let r = encode_call_raw(&s);
        vp::check(r.is_ok() == ok, "a call is encoded when a field is missing or wrong, or refused when none is");
        let b = match r {
            Ok(b) => b,
            Err(_) => { vp::reach("refused"); return; }
        };
        vp::reach("encoded");
        match Transaction::decode_bytes(b.clone()) {
            Ok(tx) => {
                vp::check(tx.version as u64 == v, "encoded call: another version");
                vp::check(tx.target.0 == target, "encoded call: another target");
                vp::check(tx.func_name == func, "encoded call: another function");
                vp::check(tx.verifydata == vb, "encoded call: other verify data");
                vp::check(tx.calldata == cb, "encoded call: other call data");
            }
            Err(_) => vp::check(false, "an encoded call doesn't decode"),
        }
        match encode_call(&s) {
            Ok(j) => vp::check(unwrap(&j) == b, "encode_call and encode_call_raw differ"),
            Err(_) => vp::check(false, "encode_call and encode_call_raw differ"),
        }
        match decode_call(&wrap(&b)) {
            Ok(j) => {
                vp::check(j["version"].as_u64() == Some(v), "decoded call: another version");
                vp::check(j["target"].as_str() == Some(&hex(&target)), "decoded call: another target");
                vp::check(j["func_name"].as_str() == Some(&func), "decoded call: another function");
                check_input(&j["verifydata"], &vb);
                check_input(&j["calldata"], &cb);
            }
            Err(_) => vp::check(false, "an encoded call can't be shown"),
        }
    }
    fn h_json_spawn() {
        let vary = vp::choose(6, "vary");
        let (vt, v) = version(vary == 0);
        let skip = if vary == 5 { vp::choose(5, "missing") } else { 5 };
        let template = addr20(vary == 1, "template", 5);
        let name = word_if(vary == 2, 1, "name");
        let ctor = word_if(vary == 3, 2, "ctor");
        let (cd, cb, cok) = input("call", if vary == 4 { vp::choose(7, "ck") } else { 0 });
        let mut s = String::from("{");
        put(&mut s, skip == 0, "version", &vt);
        put(&mut s, skip == 1, "template", &quoted(&hex(&template)));
        put(&mut s, skip == 2, "name", &quoted(&name));
        put(&mut s, skip == 3, "ctor_name", &quoted(&ctor));
        put(&mut s, skip == 4, "calldata", &cd);
        s.push('}');
        let ok = skip == 5 && v <= 0xFFFF && cok;
        let r = encode_spawn(&s);
        vp::check(r.is_ok() == ok, "a spawn is encoded when a field is missing or wrong, or refused when none is");
        let b = match r {
            Ok(b) => b,
            Err(_) => { vp::reach("refused"); return; }
        };
        vp::reach("encoded");
        match SpawnAccount::decode_bytes(b.clone()) {
            Ok(tx) => {
                vp::check(tx.version as u64 == v, "encoded spawn: another version");
                vp::check(tx.account.template_addr.0 == template, "encoded spawn: another template");
                vp::check(tx.account.name == name, "encoded spawn: another name");
                vp::check(tx.ctor_name == ctor, "encoded spawn: another constructor");
                vp::check(tx.calldata == cb, "encoded spawn: other call data");
            }
            Err(_) => vp::check(false, "an encoded spawn doesn't decode"),
        }
        match decode_spawn(&wrap(&b)) {
            Ok(j) => {
                vp::check(j["version"].as_u64() == Some(v), "decoded spawn: another version");
                vp::check(j["template"].as_str() == Some(&hex(&template)), "decoded spawn: another template");
                vp::check(j["name"].as_str() == Some(&name), "decoded spawn: another name");
                vp::check(j["ctor_name"].as_str() == Some(&ctor), "decoded spawn: another constructor");
                check_input(&j["calldata"], &cb);
            }
            Err(_) => vp::check(false, "an encoded spawn can't be shown"),
        }
    }
    /// Any call data bytes within an otherwise valid message: shown or reported, never fatal.
    fn h_json_foreign() {
        let n = vp::choose(4, "len");
        let d = vp::vec(n, "data");
        let b = d.clone();
        let j = if vp::choose(2, "kind") == 0 {
            let tx = Transaction { version: 1, target: Address([9; 20]), func_name: "f".into(), verifydata: vec![], calldata: d };
            decode_call(&wrap(&tx.encode_to_vec()))
        } else {
            let tx = SpawnAccount {
                version: 1,
                account: Account { name: "n".into(), template_addr: TemplateAddr([4; 20]) },
                ctor_name: "c".into(),
                calldata: d,
            };
            decode_spawn(&wrap(&tx.encode_to_vec()))
        };
        match (j, decode_inputdata(&wrap(&b))) {
            (Ok(j), Ok(w)) => { vp::reach("decoded"); vp::check(j["calldata"] == w, "a decoded message has other input data") }
            (Err(_), Err(_)) => vp::reach("refused"),
            _ => vp::check(false, "input data decodes within a message only, or alone only"),
        }
    }
}
