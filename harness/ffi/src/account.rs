//! Accounts and layers through the C API.
use crate::*;

#[derive(Clone, Copy, PartialEq)]
struct Acc(u64, u64, u64);
type Accs = [Option<Acc>; 2];
fn same(p: *mut c_void, m: &Accs) {
    for i in 0..2 {
        let x = account(p, &addr(i));
        vp::check(x.is_some() == m[i].is_some(), "svm_get_account finds an account or not");
        if let (Some(x), Some(a)) = (x, m[i]) {
            vp::check(x.balance == a.0, "the balance of an account");
            vp::check(x.counter_upper_bits == a.1 && x.counter_lower_bits == a.2, "the counter of an account");
            vp::check(x.counter() == (a.1 as u128) << 64 | a.2 as u128, "the 128-bit counter of an account");
            vp::check(x.template_addr == svm_genesis_config::sct().0 .0, "the template of an account");
            vp::check(x.address == addr(i).0, "the address of an account");
        }
    }
}
fn history(steps: usize) {
    vp::check(ok(svm_init()), "svm_init");
    let p = create();
    vp::check(layer_info(p).is_none(), "a layer before the first commit");
    vp::check(ok(unsafe { svm_commit(p) }), "svm_commit");
    let (first, _) = layer_info(p).unwrap();
    let mut now: Accs = [None; 2];
    let mut layers: Vec<(Accs, [u8; 32])> = vec![(now, layer_info(p).unwrap().1)];
    let mut dirty = false;
    for _ in 0..steps {
        let i = vp::choose(2, "account");
        match vp::choose(5, "step") {
            0 => {
                vp::assume(now[i].is_none());
                let a = Acc(vp::u64("balance"), vp::u64("upper"), vp::u64("lower"));
                vp::check(ok(unsafe { svm_create_genesis_account(p, addr(i).0.as_ptr(), a.0, a.1, a.2) }), "svm_create_genesis_account");
                now[i] = Some(a);
                dirty = true;
            }
            1 => {
                let v = vp::u64("amount");
                let r = ok(unsafe { svm_increase_balance(p, addr(i).0.as_ptr(), v) });
                let sum = now[i].and_then(|a| a.0.checked_add(v));
                vp::check(r == sum.is_some(), "svm_increase_balance");
                if let Some(s) = sum {
                    now[i].as_mut().unwrap().0 = s;
                    dirty = true;
                }
            }
            2 => {
                let j = vp::choose(2, "to");
                let v = vp::u64("amount");
                let r = ok(unsafe { svm_transfer(p, addr(i).0.as_ptr(), addr(j).0.as_ptr(), v) });
                let can = match (now[i], now[j]) {
                    (Some(a), Some(b)) => a.0 >= v && (i == j || b.0.checked_add(v).is_some()),
                    _ => false,
                };
                vp::check(r == can, "svm_transfer");
                if can && i != j {
                    now[i].as_mut().unwrap().0 -= v;
                    now[j].as_mut().unwrap().0 += v;
                    dirty = true;
                }
            }
            3 => {
                vp::assume(i == 0);
                vp::check(ok(unsafe { svm_commit(p) }), "svm_commit");
                let (l, h) = layer_info(p).unwrap();
                vp::check(l == first + layers.len() as u64, "the layer after svm_commit");
                layers.push((now, h));
                dirty = false;
            }
            _ => {
                vp::assume(i == 0);
                let k = vp::choose(layers.len() + 2, "layer");
                let id = if k == layers.len() + 1 { u64::MAX - vp::upto(1, "huge") } else { first + k as u64 };
                let r = ok(unsafe { svm_rewind(p, id) });
                vp::check(r == (k < layers.len() && !dirty), "svm_rewind");
                if r {
                    layers.truncate(k + 1);
                    now = layers[k].0;
                    dirty = false;
                }
            }
        }
        same(p, &now);
        let clean = ok(unsafe { svm_uncommitted_changes(p) });
        vp::check(!clean || !dirty, "uncommitted changes are not reported");
        if dirty {
            vp::reach("dirty");
        } else {
            vp::check(clean, "changes are reported after a commit or rewind");
            let (l, h) = layer_info(p).unwrap();
            vp::check(l == first + layers.len() as u64 - 1 && h == layers.last().unwrap().1, "svm_layer_info");
        }
    }
    vp::reach("end");
}
vp::entry! {
    fn h_ffi_accounts() {
        history(3)
    }
    fn h_ffi_accounts_deep() {
        history(4)
    }
}
