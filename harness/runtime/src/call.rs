//! Calls: a successful one has exactly the effects of its host calls, a failed one none.
use crate::*;

struct S {
    steps: Vec<usize>,
    end: usize,
    want: Option<Obs>,
    fails: bool,
    touched: Vec<Address>,
    logs: Vec<Vec<u8>>,
    ret: Option<Vec<u8>>,
    kinds: usize,
}
static mut ST: S = S { steps: vec![], end: 0, want: None, fails: false, touched: vec![], logs: vec![], ret: None, kinds: 0 };
fn st() -> &'static mut S {
    unsafe { &mut ST }
}
const MISSING: usize = 9;
fn pay(g: &Guest, src: usize, dst: usize) {
    let s = st();
    let w = s.want.as_mut().unwrap();
    let amount = vp::u64("amount");
    g.write(300, &addr(src).0);
    g.write(340, &addr(dst).0);
    let ok = amount == 0 || (src == 0 && dst != MISSING && w.bal[0] >= amount && (dst == 0 || w.bal[dst].checked_add(amount).is_some()));
    if !ok {
        s.fails = true;
    } else if amount != 0 {
        w.bal[0] -= amount;
        w.bal[dst] += amount;
        s.touched.push(addr(0));
        s.touched.push(addr(dst));
    }
    g.host("svm_transfer", &[Val::I32(300), Val::I32(340), amount.into()]);
    vp::check(ok, "a transfer that must not happen went through");
}
fn guest(g: &Guest, name: &'static str, _: &[Val]) -> Result<Vec<Val>, String> {
    let s = st();
    let w = s.want.as_mut().unwrap();
    vp::check(name == "run", "another function was run");
    for k in s.steps.clone() {
        match k {
            0 => {
                let v = vp::u64("value");
                *w.var(0, 1) = v.to_le_bytes().to_vec();
                g.host("svm_set64", &[Val::I32(1), v.into()]);
            }
            1 => {
                let v = vp::u32("value");
                *w.var(0, 2) = v.to_le_bytes().to_vec();
                g.host("svm_set32", &[Val::I32(2), v.into()]);
            }
            2 => {
                let v = vp::vec(20, "value");
                g.write(100, &v);
                *w.var(0, 3) = v;
                g.host("svm_store160", &[Val::I32(100), Val::I32(3)]);
            }
            3 => pay(g, 0, 1 + vp::choose(2, "to")),
            4 => {
                let v = vp::vec(3, "log");
                g.write(200, &v);
                s.logs.push(v);
                g.host("svm_log", &[Val::I32(200), Val::I32(3)]);
            }
            5 => {
                let v = vp::vec(2, "return");
                g.write(400, &v);
                s.ret = Some(v);
                g.host("svm_set_returndata", &[Val::I32(400), Val::I32(2)]);
            }
            6 => {
                // what was written is read back, nothing else
                let x = g.host("svm_get64", &[Val::I32(1)]).unwrap();
                vp::check(x.i64().unwrap().to_le_bytes()[..] == w.var(0, 1)[..], "svm_get64");
                let x = g.host("svm_get32", &[Val::I32(2)]).unwrap();
                vp::check(x.i32().unwrap().to_le_bytes()[..] == w.var(0, 2)[..], "svm_get32");
                g.write(500, &[0xEE; 22]);
                g.host("svm_load160", &[Val::I32(3), Val::I32(501)]);
                let m = g.read(500, 22);
                vp::check(m[1..21] == w.var(0, 3)[..] && m[0] == 0xEE && m[21] == 0xEE, "svm_load160");
            }
            _ => pay(g, [0, 1, 0, 0][k - 7], [0, 0, MISSING, 1][k - 7]),
        }
    }
    match s.end {
        0 => Ok(vec![]),
        1 => {
            s.fails = true;
            Err("trap".to_string())
        }
        2 => {
            // a variable that does not exist
            s.fails = true;
            g.host("svm_set64", &[Val::I32(SIZES.len() as i32), 1u64.into()]);
            vp::check(false, "a variable that does not exist was written");
            Ok(vec![])
        }
        _ => {
            // return data outside of the memory
            s.fails = true;
            g.host("svm_set_returndata", &[Val::I32(0xFFFF), Val::I32(2)]);
            Ok(vec![])
        }
    }
}
fn run(steps: Vec<usize>, end: usize) {
    let mut w = world(guest);
    // changes that are waiting when the call is made belong to someone else
    let waiting = vp::choose(2, "waiting") == 1;
    if waiting {
        let v = vp::u64("waiting balance");
        w.tk.block_on(w.account(2).set_balance(v)).unwrap();
        w.bal[2] = v;
    }
    let before = fresh(w.bal);
    w.expect(&before, "before");
    *st() = S { steps, end, want: Some(before.clone()), fails: false, touched: vec![addr(0)], logs: vec![], ret: None, kinds: 0 };
    let l = w.root();
    let r = vp::catch(|| w.rt.call(&Envelope::default(), &call(0, "run", &[]), &Context::default()));
    let s = st();
    let ok = r.as_ref().map_or(false, |r| r.success);
    vp::check(ok != s.fails, "a call succeeds or fails against what it did");
    if let Some(r) = r {
        let logs: Vec<Vec<u8>> = r.logs.iter().map(|l| l.as_bytes().to_vec()).collect();
        vp::check(logs == s.logs, "logs of a call");
        if r.success {
            vp::check(r.error.is_none() && r.returndata == Some(s.ret.clone().unwrap_or_default()), "return data of a call");
            vp::check(r.touched_accounts == s.touched.iter().cloned().collect(), "touched accounts of a call");
            let n = w.root();
            vp::check(r.new_state == Some(n.1) && n.0 .0 == l.0 .0 + 1, "the state root in the receipt");
        } else {
            vp::check(r.error.is_some() && r.returndata.is_none() && r.new_state.is_none(), "receipt of a failed call");
        }
    }
    if ok {
        w.expect(s.want.as_ref().unwrap(), "after a successful call");
        vp::check(!w.rt.has_uncommitted_changes().unwrap(), "changes of a successful call are not committed");
        vp::reach("success");
    } else {
        w.expect(&before, "after a failed call");
        w.idle_call();
        w.expect(&before, "after a failed call and a commit");
        if !waiting {
            vp::check(w.root().1 == l.1, "a failed call changed the state root");
        }
        vp::reach("failure");
    }
}
/// One of the six storage calls on a variable of any size, after one that set its contents.
fn sizes(g: &Guest, _: &'static str, _: &[Val]) -> Result<Vec<Val>, String> {
    let s = st();
    let w = s.want.as_mut().unwrap();
    let id = vp::choose(SIZES.len(), "variable");
    let n = SIZES[id] as usize;
    let v = vp::vec(20, "contents");
    let set = if n <= 4 { 4 } else if n <= 8 { 8 } else { 20 };
    let int = |k: usize| (0..k).fold(0u64, |x, i| x | (v[i] as u64) << (8 * i));
    match set {
        4 => g.host("svm_set32", &[Val::I32(id as i32), (int(4) as u32).into()]),
        8 => g.host("svm_set64", &[Val::I32(id as i32), int(8).into()]),
        _ => {
            g.write(100, &v);
            g.host("svm_store160", &[Val::I32(100), Val::I32(id as i32)])
        }
    };
    *w.var(0, id) = v[..n].to_vec();
    let x = vp::vec(20, "other");
    let int = |b: &[u8]| b.iter().enumerate().fold(0u64, |x, (i, b)| x | (*b as u64) << (8 * i));
    let v = |k: i32| Val::I32(k);
    let id32 = id as i32;
    let k = s.steps[0];
    let room = [4, 8, 4, 8, 20, 20][k];
    // set until the call is known to be accepted
    s.fails = n > room;
    match k {
        0 => {
            let r = g.host("svm_get32", &[v(id32)]).unwrap().i32().unwrap() as u32;
            vp::check(r as u64 == int(w.var(0, id)), "svm_get32 of a shorter variable");
        }
        1 => {
            let r = g.host("svm_get64", &[v(id32)]).unwrap().i64().unwrap() as u64;
            vp::check(r == int(w.var(0, id)), "svm_get64 of a shorter variable");
        }
        2 => {
            g.host("svm_set32", &[v(id32), (int(&x[..4]) as u32).into()]);
            *w.var(0, id) = x[..n.min(20)].to_vec();
        }
        3 => {
            g.host("svm_set64", &[v(id32), int(&x[..8]).into()]);
            *w.var(0, id) = x[..n].to_vec();
        }
        4 => {
            g.write(100, &x);
            if n < 20 {
                s.kinds = 1;
            }
            g.host("svm_store160", &[v(100), v(id32)]);
            *w.var(0, id) = x[..n].to_vec();
        }
        _ => {
            g.write(500, &x);
            if n < 20 {
                s.kinds = 1;
            }
            g.host("svm_load160", &[v(id32), v(500)]);
            vp::check(g.read(500, n as u32) == *w.var(0, id), "svm_load160 of a shorter variable");
        }
    }
    vp::check(n <= room, "a variable that doesn't fit was accessed");
    s.kinds = 0;
    Ok(vec![])
}
vp::entry! {
    fn h_rt_call() {
        let n = vp::choose(3, "steps");
        let steps = (0..n).map(|_| vp::choose(7, "step")).collect::<Vec<_>>();
        vp::assume(steps.iter().filter(|k| **k == 5).count() < 2);
        let ends = if steps.contains(&5) { 3 } else { 4 };
        run(steps, vp::choose(ends, "end"));
    }
    fn h_rt_vars() {
        // storage calls on variables of each size: the exact value, or refused
        let mut w = world(sizes);
        let before = fresh(w.bal);
        *st() = S { steps: vec![vp::choose(6, "call")], end: 0, want: Some(before.clone()), fails: false, touched: vec![], logs: vec![], ret: None, kinds: 0 };
        let r = vp::catch(|| w.rt.call(&Envelope::default(), &call(0, "run", &[]), &Context::default()));
        let s = st();
        let ok = r.as_ref().map_or(false, |r| r.success);
        // addresses in shorter variables may be refused or shortened
        vp::check(ok != s.fails || s.kinds == 1, "a storage call is refused iff the variable doesn't fit");
        if ok {
            w.expect(s.want.as_ref().unwrap(), "after a storage call");
            vp::reach("done");
        } else {
            w.idle_call();
            w.expect(&before, "after a refused storage call");
            vp::reach("refused");
        }
    }
    fn h_rt_call_transfer() {
        // transfers of the running account's coins, of another account's, to itself and to a missing account
        let n = 1 + vp::choose(2, "steps");
        let steps = (0..n).map(|_| 7 + vp::choose(4, "step")).collect::<Vec<_>>();
        run(steps, vp::choose(2, "end"));
    }
    fn h_rt_transfer() {
        // transfers ordered by the host
        let w = world(guest);
        let (src, dst) = (vp::choose(4, "source"), vp::choose(4, "destination"));
        let a = vp::u64("amount");
        let at = |i: usize| addr(if i == 3 { MISSING } else { i });
        let ok = src < 3 && dst < 3 && w.bal[src] >= a && (src == dst || w.bal[dst].checked_add(a).is_some());
        let done = vp::catch(|| w.rt.transfer(&at(src), &at(dst), a)).is_some();
        vp::check(ok == done, "a transfer happens iff it is covered and fits");
        let mut want = fresh(w.bal);
        if ok {
            want.bal[src] -= a;
            want.bal[dst] += a;
        }
        w.expect(&want, "after a transfer");
        vp::check(w.rt.get_account(&addr(MISSING)).is_none(), "a transfer created an account");
        vp::reach(if done { "done" } else { "refused" })
    }
    fn h_rt_balance() {
        let mut w = world(guest);
        let a = vp::u64("amount");
        let i = vp::choose(4, "account");
        let ok = i < 3 && w.bal[i].checked_add(a).is_some();
        let done = vp::catch(|| w.rt.increase_balance(&addr(if i == 3 { MISSING } else { i }), a).unwrap()).is_some();
        vp::check(ok == done, "a balance is increased iff it fits");
        let mut want = fresh(w.bal);
        if ok {
            want.bal[i] += a;
        }
        w.expect(&want, "after increasing a balance");
        for k in 0..3 {
            vp::check(w.rt.get_account(&addr(k)) == Some((want.bal[k], k as u128, taddr(k / 2))), "get_account");
        }
        vp::check(w.rt.get_account(&addr(MISSING)).is_none(), "an account that does not exist");
        // commits and rewinds of the runtime
        vp::check(w.rt.has_uncommitted_changes().unwrap() == ok, "uncommitted changes");
        let l = w.root();
        vp::check(w.rt.commit().is_ok(), "commit");
        vp::check(!w.rt.has_uncommitted_changes().unwrap(), "uncommitted changes after a commit");
        let n = w.root();
        vp::check(n.0 .0 == l.0 .0 + 1, "layer after a commit");
        w.expect(&want, "after a commit");
        vp::check(w.rt.rewind(l.0).is_ok(), "rewind");
        w.expect(&fresh(w.bal), "after a rewind");
        vp::check(w.root() == l, "state root after a rewind");
        vp::reach(if done { "done" } else { "refused" })
    }
}
