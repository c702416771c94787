//! Receipts are shown with all they hold.
use crate::{hex, wrap};
use serde_json::Value as Json;
use std::collections::HashSet;
use svm_codec::api::json::decode_receipt;
use svm_codec::Codec;
use svm_types::*;

/// Zero or arbitrary in a chosen byte over a concrete background.
fn gas() -> Gas {
    let at = vp::choose(6, "gas");
    let mut b = [[0u8; 8], [0xff; 8]][at & 1];
    b[[0, 3, 7][at >> 1]] = vp::u8("gas");
    let g = u64::from_le_bytes(b);
    if g == 0 {
        Gas::new()
    } else {
        Gas::with(g)
    }
}
fn check_gas(j: &Json, g: Gas) {
    // 0 on the wire is "no gas", shown as -1
    let want = if g.is_some() { j["gas_used"].as_u64() == Some(g.unwrap()) } else { j["gas_used"].as_i64() == Some(-1) };
    vp::check(want, "a receipt is shown with another amount of gas");
}
fn logs() -> Vec<ReceiptLog> {
    match vp::choose(3, "logs") {
        0 => vec![],
        1 => vec![ReceiptLog::new(vp::vec(2, "log"))],
        _ => vec![ReceiptLog::new(b"a".to_vec()), ReceiptLog::new(vec![]), ReceiptLog::new(vec![0xE2, 0x82, 0xAC])],
    }
}
fn check_logs(j: &Json, l: &[ReceiptLog]) {
    let a = match j["logs"].as_array() {
        Some(a) => a,
        None => return vp::check(false, "a receipt is shown without its logs"),
    };
    vp::check(a.len() == l.len(), "a receipt is shown with another number of logs");
    for (x, y) in a.iter().zip(l) {
        let t = match x["data"].as_str() {
            Some(t) => t,
            None => return vp::check(false, "a log is shown without its text"),
        };
        if let Ok(w) = std::str::from_utf8(y.as_bytes()) {
            vp::check(t == w, "a log is shown with another text");
        } else {
            vp::reach("log that isn't text");
        }
    }
}
fn addr(i: usize) -> Address {
    Address([[0u8; 20], [1; 20], [0xff; 20]][i])
}
fn touched() -> HashSet<Address> {
    let m = [0, 1, 6, 7][vp::choose(4, "touched")];
    (0..3).filter(|i| m >> i & 1 == 1).map(addr).collect()
}
fn check_touched(j: &Json, t: &HashSet<Address>) {
    let a = match j["touched_accounts"].as_array() {
        Some(a) => a,
        None => return vp::check(false, "a receipt is shown without the touched accounts"),
    };
    vp::check(a.len() == t.len(), "a receipt is shown with other touched accounts");
    for i in 0..3 {
        let h = hex(&addr(i).0);
        let n = a.iter().filter(|x| x.as_str() == Some(&h)).count();
        vp::check(n == t.contains(&addr(i)) as usize, "a receipt is shown with other touched accounts");
    }
}
fn a20(vary: bool, name: &str) -> [u8; 20] {
    let mut a = [0x3Cu8; 20];
    a[19] = crate::u8_if(vary, name);
    a[0] = name.len() as u8;
    a
}
fn show(b: Vec<u8>) -> Json {
    match decode_receipt(&wrap(&b)) {
        Ok(j) => j,
        Err(_) => {
            vp::check(false, "a receipt can't be shown");
            Json::Null
        }
    }
}
fn text(j: &Json, k: &str, want: &str) {
    vp::check(j[k].as_str() == Some(want), "a receipt is shown with another field");
}

vp::entry! {
    fn h_json_receipt() {
        let vary = vp::choose(6, "vary");
        let a = a20(vary == 3, "addr");
        let mut st = [0x5Au8; 32];
        st[0] = crate::u8_if(vary == 4, "state");
        let ret = if vary == 5 { vp::vec(vp::choose(3, "ret"), "ret") } else { vec![7] };
        let k = vp::choose(3, "kind");
        let (g, l, t) = match vary {
            0 => (gas(), vec![], HashSet::new()),
            1 => (Gas::with(7), logs(), HashSet::new()),
            2 => (Gas::with(7), vec![], touched()),
            _ => (Gas::with(7), vec![], HashSet::new()),
        };
        let j = match k {
            0 => show(DeployReceipt { version: 0, success: true, error: None, addr: Some(TemplateAddr(a)), gas_used: g, logs: l.clone() }.encode_to_vec()),
            1 => show(SpawnReceipt {
                version: 0, success: true, error: None, account_addr: Some(Address(a)), init_state: Some(State(st)), returndata: Some(ret.clone()),
                gas_used: g, touched_accounts: t.clone(), logs: l.clone(),
            }.encode_to_vec()),
            _ => show(CallReceipt {
                version: 0, success: true, error: None, new_state: Some(State(st)), returndata: Some(ret.clone()),
                gas_used: g, touched_accounts: t.clone(), logs: l.clone(),
            }.encode_to_vec()),
        };
        vp::check(j["success"].as_bool() == Some(true), "a receipt is shown with another outcome");
        text(&j, "type", ["deploy-template", "spawn-account", "call-account"][k]);
        check_gas(&j, g);
        check_logs(&j, &l);
        match k {
            0 => text(&j, "addr", &hex(&a)),
            1 => {
                text(&j, "account", &hex(&a));
                text(&j, "state", &hex(&st));
                text(&j, "returndata", &hex(&ret));
                check_touched(&j, &t);
            }
            _ => {
                text(&j, "new_state", &hex(&st));
                text(&j, "returndata", &hex(&ret));
                check_touched(&j, &t);
            }
        }
        vp::reach("shown");
    }
    fn h_json_failure() {
        let vary = vp::choose(5, "vary");
        let (ta, aa) = (a20(vary == 0, "template"), a20(vary == 1, "account"));
        let (target, template) = (Address(aa), TemplateAddr(ta));
        let (f, m) = (crate::word_if(vary == 2, 2, "func"), crate::word_if(vary == 3, 1, "msg"));
        let (func, msg) = (f.clone(), m.clone());
        let e = vp::choose(10, "error");
        // which of template_addr, account_addr, func, message the failure shows
        let (err, name, mask) = match e {
            0 => (RuntimeError::OOG, "oog", 0),
            1 => (RuntimeError::TemplateNotFound(template), "template-not-found", 1),
            2 => (RuntimeError::AccountNotFound(target), "account-not-found", 2),
            3 => (RuntimeError::CompilationFailed { target, template, msg }, "compilation-failed", 1 | 2 | 8),
            4 => (RuntimeError::InstantiationFailed { target, template, msg }, "instantiation-failed", 1 | 2 | 8),
            5 => (RuntimeError::FuncNotFound { target, template, func }, "function-not-found", 1 | 2 | 4),
            6 => (RuntimeError::FuncFailed { target, template, func, msg }, "function-failed", 15),
            7 => (RuntimeError::FuncNotCtor { template, func }, "function-not-ctor", 1 | 4),
            8 => (RuntimeError::FuncNotAllowed { target, template, func, msg }, "function-not-allowed", 15),
            _ => (RuntimeError::FuncInvalidSignature { target, template, func }, "function-invalid-signature", 1 | 2 | 4),
        };
        let l = if vary == 4 { vec![ReceiptLog::new(vp::vec(1, "log")), ReceiptLog::new(b"b".to_vec())] } else { vec![] };
        let k = vp::choose(2, "kind");
        let j = if k == 0 {
            show(Receipt::Spawn(SpawnReceipt::from_err(err, l.clone())).encode_to_vec())
        } else {
            show(Receipt::Call(CallReceipt::from_err(err, l.clone())).encode_to_vec())
        };
        vp::check(j["success"].as_bool() == Some(false), "a receipt is shown with another outcome");
        text(&j, "type", ["spawn-account", "call-account"][k]);
        text(&j, "err_type", name);
        for (i, (key, want)) in [("template_addr", hex(&ta)), ("account_addr", hex(&aa)), ("func", f), ("message", m)].iter().enumerate() {
            if mask >> i & 1 == 1 {
                text(&j, key, want);
            }
        }
        check_logs(&j, &l);
        vp::reach("shown");
    }
}
