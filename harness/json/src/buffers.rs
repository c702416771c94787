//! The buffers clients exchange documents through.
use svm_codec::api::{json, wasm};

unsafe fn read(p: *mut u8) -> Vec<u8> {
    let n = wasm::wasm_buffer_length(p);
    vp::check(n >= 0, "a buffer of a negative length");
    std::slice::from_raw_parts(wasm::wasm_buffer_data(p), n as usize).to_vec()
}
unsafe fn write(d: &[u8]) -> *mut u8 {
    let p = wasm::wasm_alloc(d.len() as i32);
    vp::check(wasm::wasm_buffer_length(p) as usize == d.len(), "a buffer of another length than asked for");
    std::slice::from_raw_parts_mut(wasm::wasm_buffer_data(p), d.len()).copy_from_slice(d);
    p
}
fn direct(f: usize, s: &str) -> Option<Vec<u8>> {
    let text = |r: Result<serde_json::Value, json::JsonError>| r.ok().map(|j| serde_json::to_string(&j).unwrap().into_bytes());
    match f {
        0 => text(json::encode_inputdata(s)),
        1 => text(json::decode_inputdata(s)),
        2 => text(json::decode_receipt(s)),
        3 => json::encode_spawn(s).ok(),
        4 => text(json::decode_spawn(s)),
        5 => json::encode_call_raw(s).ok(),
        _ => text(json::decode_call(s)),
    }
}
unsafe fn through(f: usize, p: *mut u8) -> *mut u8 {
    match f {
        0 => wasm::wasm_encode_inputdata(p),
        1 => wasm::wasm_decode_inputdata(p),
        2 => wasm::wasm_decode_receipt(p),
        3 => wasm::wasm_encode_spawn(p),
        4 => wasm::wasm_decode_spawn(p),
        5 => wasm::wasm_encode_call(p),
        _ => wasm::wasm_decode_call(p),
    }
}
fn one(f: usize, d: &[u8]) {
    unsafe {
        let p = write(d);
        let q = through(f, p);
        let r = read(q);
        let want = std::str::from_utf8(d).ok().and_then(|s| direct(f, s));
        vp::check(!r.is_empty(), "a result without its marker");
        match want {
            Some(w) => {
                vp::reach("success");
                vp::check(r[0] == 1, "a success marked as an error");
                vp::check(r[1..] == w[..], "a buffer holds another result than the call gives");
            }
            None => {
                vp::reach("error");
                vp::check(r[0] == 0, "an error marked as a success");
                vp::check(std::str::from_utf8(&r[1..]).is_ok(), "an error message that isn't text");
                vp::check(r.len() > 1, "an error without a message");
            }
        }
        vp::check(read(p) == d, "the caller's buffer changed");
        wasm::wasm_free(q);
        wasm::wasm_free(p);
    }
}

vp::entry! {
    /// Short documents of arbitrary bytes, text or not.
    fn h_json_buffers() {
        let n = vp::choose(4, "len");
        let d = vp::vec(n, "doc");
        // numbers with a fraction or an exponent are beyond the encoding
        for (i, c) in d.iter().enumerate() {
            if i > 0 {
                vp::assume(!(matches!(*c, b'.' | b'e' | b'E') && d[i - 1].is_ascii_digit()));
            }
        }
        one(vp::choose(7, "fn"), &d);
    }
    /// Whole documents with a symbolic part, given to each function.
    fn h_json_documents() {
        let f = vp::choose(7, "fn");
        let mut w = crate::word(1, "w");
        let mut s = String::new();
        match vp::choose(4, "doc") {
            0 => {
                s.push_str("{\"abi\":[\"u8\",\"amount\"],\"data\":[1,20");
                s.push_str(&crate::digits(2, "n").0);
                s.push_str("]}");
            }
            1 => {
                s.push_str("{\"version\":1,\"target\":\"00112233445566778899AABBCCDDEEFF01020304\",\"func_name\":\"");
                s.push_str(&w);
                s.push_str("\",\"verifydata\":\"\",\"calldata\":{\"abi\":[],\"data\":[]}}");
            }
            2 => {
                s.push_str("{\"version\":1,\"template\":\"00112233445566778899AABBCCDDEEFF01020304\",\"name\":\"");
                s.push_str(&w);
                s.push_str("\",\"ctor_name\":\"c\",\"calldata\":{\"abi\":[\"bool\"],\"data\":[true]}}");
            }
            _ => {
                w.push('0');
                s.push_str("{\"data\":\"");
                s.push_str(&w);
                s.push_str("\"}");
            }
        }
        one(f, s.as_bytes());
    }
}
