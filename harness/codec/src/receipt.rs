//! Receipts: round trip for every outcome, one encoding per receipt.
use crate::{blob, dec, round_trip, text_n};
use std::collections::HashSet;
use svm_codec::Codec;
use svm_types::*;

fn gas() -> Gas {
    let g = vp::u64("gas");
    if g == 0 { Gas::new() } else { Gas::with(g) }
}
fn logs() -> Vec<ReceiptLog> {
    let n = vp::choose(3, "logs");
    (0..n).map(|i| ReceiptLog::new(vp::vec([3, 0, 1][i], "log"))).collect()
}
fn some_addr(i: usize) -> Address {
    Address([[0u8; 20], [1; 20], [0xff; 20], [7; 20], [0x10; 20]][i])
}
fn touched() -> HashSet<Address> {
    let m = vp::choose(8, "touched");
    (0..3).filter(|i| m >> i & 1 == 1).map(some_addr).collect()
}
fn error() -> RuntimeError {
    let target = Address(vp::bytes::<20>("target"));
    let template = TemplateAddr(vp::bytes::<20>("template"));
    let k = vp::choose(10, "error");
    let t = |n: &str| {
        let l = [0usize, 2, 255][vp::choose(3, n)];
        text_n(l, n)
    };
    match k {
        0 => RuntimeError::OOG,
        1 => RuntimeError::TemplateNotFound(template),
        2 => RuntimeError::AccountNotFound(target),
        3 => RuntimeError::CompilationFailed { target, template, msg: t("msg") },
        4 => RuntimeError::InstantiationFailed { target, template, msg: t("msg") },
        5 => RuntimeError::FuncNotFound { target, template, func: t("func") },
        6 => RuntimeError::FuncFailed { target, template, func: t("func"), msg: t("msg") },
        7 => RuntimeError::FuncNotCtor { template, func: t("func") },
        8 => RuntimeError::FuncNotAllowed { target, template, func: t("func"), msg: t("msg") },
        _ => RuntimeError::FuncInvalidSignature { target, template, func: t("func") },
    }
}

fn put_gas(w: &mut Vec<u8>, g: Gas) {
    w.extend_from_slice(&g.unwrap_or(0).to_be_bytes());
}
fn put_touched(w: &mut Vec<u8>, t: &HashSet<Address>) {
    w.extend_from_slice(&(t.len() as u16).to_be_bytes());
    let mut a: Vec<_> = t.iter().map(|x| x.0).collect();
    a.sort();
    a.iter().for_each(|x| w.extend_from_slice(x));
}
fn put_logs(w: &mut Vec<u8>, l: &[ReceiptLog]) {
    w.push(l.len() as u8);
    for x in l {
        put_data(w, x.as_bytes());
    }
}
fn put_data(w: &mut Vec<u8>, d: &[u8]) {
    w.extend_from_slice(&(d.len() as u16).to_be_bytes());
    w.extend_from_slice(d);
}

fn put_failure(w: &mut Vec<u8>, e: &RuntimeError, l: &[ReceiptLog]) {
    use crate::tx::put_str;
    let (code, target, template, func, msg) = match e {
        RuntimeError::OOG => (0, None, None, None, None),
        RuntimeError::TemplateNotFound(t) => (1, None, Some(t), None, None),
        RuntimeError::AccountNotFound(a) => (2, Some(a), None, None, None),
        RuntimeError::CompilationFailed { target, template, msg } => (3, Some(target), Some(template), None, Some(msg)),
        RuntimeError::InstantiationFailed { target, template, msg } => (4, Some(target), Some(template), None, Some(msg)),
        RuntimeError::FuncNotFound { target, template, func } => (5, Some(target), Some(template), Some(func), None),
        RuntimeError::FuncFailed { target, template, func, msg } => (6, Some(target), Some(template), Some(func), Some(msg)),
        RuntimeError::FuncNotCtor { template, func } => (7, None, Some(template), Some(func), None),
        RuntimeError::FuncNotAllowed { target, template, func, msg } => (8, Some(target), Some(template), Some(func), Some(msg)),
        RuntimeError::FuncInvalidSignature { target, template, func } => (9, Some(target), Some(template), Some(func), None),
    };
    w.push(code);
    put_logs(w, l);
    if let Some(t) = template {
        w.extend_from_slice(&t.0);
    }
    if let Some(t) = target {
        w.extend_from_slice(&t.0);
    }
    func.into_iter().for_each(|x| put_str(w, x));
    msg.into_iter().for_each(|x| put_str(w, x));
}

vp::entry! {
    fn h_rc_call() {
        let r = CallReceipt {
            version: 0,
            success: true,
            error: None,
            new_state: Some(State(vp::bytes::<32>("state"))),
            returndata: Some(blob("returndata", &[0, 1, 2, 300])),
            gas_used: gas(),
            touched_accounts: touched(),
            logs: logs(),
        };
        let b = round_trip(&r);
        let mut w = vec![2, 0, 0, 1];
        w.extend_from_slice(&r.new_state().0);
        put_data(&mut w, r.returndata());
        put_gas(&mut w, r.gas_used);
        put_touched(&mut w, &r.touched_accounts);
        put_logs(&mut w, &r.logs);
        vp::check(b == w, "call receipt layout");
        round_trip(&Receipt::Call(r));
        vp::reach("end")
    }
    fn h_rc_spawn() {
        let r = SpawnReceipt {
            version: 0,
            success: true,
            error: None,
            account_addr: Some(Address(vp::bytes::<20>("account"))),
            init_state: Some(State(vp::bytes::<32>("state"))),
            returndata: Some(blob("returndata", &[0, 1, 2, 300])),
            gas_used: gas(),
            touched_accounts: touched(),
            logs: logs(),
        };
        let b = round_trip(&r);
        let mut w = vec![1, 0, 0, 1];
        w.extend_from_slice(&r.account_addr().0);
        w.extend_from_slice(&r.init_state().0);
        put_data(&mut w, r.returndata());
        put_gas(&mut w, r.gas_used);
        put_touched(&mut w, &r.touched_accounts);
        put_logs(&mut w, &r.logs);
        vp::check(b == w, "spawn receipt layout");
        round_trip(&Receipt::Spawn(r));
        vp::reach("end")
    }
    fn h_rc_deploy() {
        let mut r = DeployReceipt::new(TemplateAddr(vp::bytes::<20>("template")), gas());
        r.logs = logs();
        let b = round_trip(&r);
        let mut w = vec![0, 0, 0, 1];
        w.extend_from_slice(&r.template_addr().0);
        put_gas(&mut w, r.gas_used);
        put_logs(&mut w, &r.logs);
        vp::check(b == w, "deploy receipt layout");
        round_trip(&Receipt::Deploy(r));
        vp::reach("end")
    }
    fn h_rc_many() {
        // counts and sizes that need every bit of their field
        let big = vp::choose(4, "what");
        let mut t = HashSet::new();
        if big == 0 {
            for i in 0..260u16 { let mut a = [0; 20]; a[7] = (i >> 8) as u8; a[19] = i as u8; t.insert(Address(a)); }
        }
        let n = if big == 1 { 255 } else { 1 };
        let l = if big == 2 { 0x8101 } else { 1 };
        let r = CallReceipt {
            version: 0, success: true, error: None,
            new_state: Some(State(vp::bytes::<32>("state"))),
            returndata: Some(if big == 3 { vp::vec(0x8203, "returndata") } else { vec![] }),
            gas_used: gas(), touched_accounts: t,
            logs: (0..n).map(|_| ReceiptLog::new(if l > 1 { vec![7; l] } else { vp::vec(l, "log") })).collect(),
        };
        round_trip(&r);
        vp::reach("end")
    }
    fn h_rc_failed() {
        let e = error();
        let l = logs();
        let k = vp::choose(3, "kind");
        let mut w = vec![[2, 1, 0][k], 0, 0, 0];
        put_failure(&mut w, &e, &l);
        let b = match k {
            0 => round_trip(&Receipt::Call(CallReceipt::from_err(e, l))),
            1 => round_trip(&Receipt::Spawn(SpawnReceipt::from_err(e, l))),
            _ => round_trip(&Receipt::Deploy(DeployReceipt::from_err(e, l))),
        };
        vp::check(b == w, "failure receipt layout");
        vp::reach("end")
    }
    fn h_rc_long_msg() {
        // a message that is too long is cut to a prefix of at most 255 bytes that is still text
        let n = 250 + vp::choose(5, "ascii");
        let k = vp::choose(4, "width");
        let wide = ["a", "\u{e9}", "\u{20ac}", "\u{1f600}"][k];
        let mut msg = "x".repeat(n);
        for _ in 0..4 { msg.push_str(wide); }
        let func_target = Address(vp::bytes::<20>("target"));
        let (target, template) = (func_target, TemplateAddr(vp::bytes::<20>("template")));
        let which = vp::choose(4, "error");
        let e = match which {
            0 => RuntimeError::FuncFailed { target, template, func: text_n(1, "func"), msg: msg.clone() },
            1 => RuntimeError::FuncNotAllowed { target, template, func: text_n(1, "func"), msg: msg.clone() },
            2 => RuntimeError::CompilationFailed { target, template, msg: msg.clone() },
            _ => RuntimeError::InstantiationFailed { target, template, msg: msg.clone() },
        };
        let b = Receipt::Call(CallReceipt::from_err(e, logs())).encode_to_vec();
        let (d, n2) = match dec::<Receipt>(&b) {
            Ok(x) => x,
            Err(_) => { vp::check(false, "a failure receipt cannot be decoded"); return; }
        };
        vp::check(n2 == b.len(), "bytes left");
        let got = match d.error() {
            RuntimeError::FuncFailed { msg, .. } | RuntimeError::FuncNotAllowed { msg, .. } | RuntimeError::CompilationFailed { msg, .. } | RuntimeError::InstantiationFailed { msg, .. } => msg.clone(),
            _ => { vp::check(false, "the error changed its kind"); return; }
        };
        vp::check(msg.starts_with(&got) && got.len() <= 255 && (got.len() == msg.len() || got.len() > 251), "the message is not a maximal prefix");
        vp::reach("end")
    }
    fn h_rc_one_encoding() {
        // equal receipts have equal encodings, however the set of touched accounts came about
        let order = vp::choose(4, "order");
        let shift = vp::choose(4, "seed");
        for _ in 0..shift {
            let s: HashSet<u8> = HashSet::new();
            std::mem::drop(s);
        }
        let mut a = HashSet::new();
        let mut b = HashSet::with_capacity(if order > 1 { 64 } else { 0 });
        for i in 0..5 {
            a.insert(some_addr(i));
        }
        for i in 0..5 {
            b.insert(some_addr((i * (order + 1) + order) % 5));
        }
        let mk = |t: HashSet<Address>| CallReceipt {
            version: 0, success: true, error: None, new_state: Some(State([3; 32])), returndata: Some(vec![]),
            gas_used: Gas::with(5), touched_accounts: t, logs: vec![],
        };
        vp::assume(a == b);
        vp::check(mk(a).encode_to_vec() == mk(b).encode_to_vec(), "two encodings of one receipt");
        vp::reach("end")
    }
}
