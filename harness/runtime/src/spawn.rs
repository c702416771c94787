//! Deployments, spawns and verification.
use crate::*;

struct S {
    fails: bool,
    mode: usize,
    value: u64,
    ran: Vec<&'static str>,
}
static mut ST: S = S { fails: false, mode: 0, value: 0, ran: vec![] };
fn st() -> &'static mut S {
    unsafe { &mut ST }
}
fn ctor(g: &Guest, name: &'static str, _: &[Val]) -> Result<Vec<Val>, String> {
    let s = st();
    s.ran.push(name);
    if name == "svm_alloc" {
        return Ok(vec![Val::I32(64)]);
    }
    s.value = vp::u64("value");
    g.host("svm_set64", &[Val::I32(1), s.value.into()]);
    match s.mode {
        0 => Ok(vec![]),
        1 => Err("trap".to_string()),
        _ => {
            g.host("svm_set64", &[Val::I32(99), s.value.into()]);
            Ok(vec![])
        }
    }
}
fn gas(name: &str) -> Gas {
    if vp::choose(2, name) == 0 {
        Gas::new()
    } else {
        Gas::with(vp::u64("gas limit"))
    }
}
fn envelope(g: Gas) -> Envelope {
    Envelope::new(addr(1), vp::u64("attached"), 0, g, 0)
}
fn verify(g: &Guest, name: &'static str, _: &[Val]) -> Result<Vec<Val>, String> {
    let s = st();
    s.ran.push(name);
    if name == "svm_alloc" {
        return Ok(vec![Val::I32(64)]);
    }
    if name != "svm_verify" {
        return Ok(vec![]);
    }
    if s.mode >= 2 {
        s.fails = true;
    }
    let v = vp::u64("value");
    g.write(300, &addr(0).0);
    g.write(340, &addr(1).0);
    match s.mode {
        0 => {
            let o = g.host("svm_calldata_offset", &[]).unwrap().i32().unwrap();
            let n = g.host("svm_calldata_len", &[]).unwrap().i32().unwrap();
            vp::check(g.read(o as u32, n as u32) == [7], "the data given to svm_verify");
            return Ok(vec![Val::I32(0)]);
        }
        1 => {
            s.fails = true;
            return Err("no".to_string());
        }
        2 => g.host("svm_set64", &[Val::I32(1), v.into()]),
        3 => g.host("svm_set32", &[Val::I32(2), 5u32.into()]),
        4 => g.host("svm_store160", &[Val::I32(300), Val::I32(3)]),
        5 => {
            vp::assume(v != 0);
            g.host("svm_transfer", &[Val::I32(300), Val::I32(340), v.into()])
        }
        6 => g.host("svm_get64", &[Val::I32(1)]),
        7 => g.host("svm_get32", &[Val::I32(2)]),
        _ => g.host("svm_load160", &[Val::I32(3), Val::I32(300)]),
    };
    vp::check(false, "svm_verify or svm_alloc got access to the storage");
    Ok(vec![])
}
fn alloc(g: &Guest, name: &'static str, a: &[Val]) -> Result<Vec<Val>, String> {
    if name == "svm_alloc" && st().mode >= 2 {
        // same accesses, while memory is allocated for the calldata
        verify(g, "svm_verify", a)?;
    }
    if name != "svm_alloc" {
        // full access again
        g.host("svm_set64", &[Val::I32(1), st().value.into()]);
    }
    Ok(if name == "svm_alloc" { vec![Val::I32(64)] } else { vec![] })
}
vp::entry! {
    fn h_rt_spawn() {
        let mut w = world(ctor);
        let before = fresh(w.bal);
        let l = w.root();
        let mode = vp::choose(3, "end");
        *st() = S { fails: false, mode, value: 0, ran: vec![] };
        let name = ["init", "run", "nope"][vp::choose(3, "constructor")];
        let data = vp::vec(vp::choose(2, "data"), "data");
        let acc = SpawnAccount::new(0, &taddr(0), "xy", name, data);
        let msg = acc.encode_to_vec();
        let to = compute_account_addr(&acc);
        let limit = gas("limit");
        let price = svm_gas::transaction::spawn(&msg);
        let r = vp::catch(|| w.rt.spawn(&envelope(limit), &msg, &Context::default()));
        let ok = r.as_ref().map_or(false, |r| r.success);
        let s = st();
        if limit.is_some() && limit.unwrap() < price {
            vp::check(!ok && s.ran.is_empty(), "a spawn ran without enough gas");
        }
        if name != "init" {
            vp::check(!ok && s.ran.is_empty(), "a function that is no constructor ran in a spawn");
            vp::check(r.is_some(), "a spawn with a function that is no constructor stops the host");
        }
        if name == "init" && limit.unwrap_or(u64::MAX) > price + 10_000 {
            vp::check(ok == (mode == 0), "the outcome of a spawn differs from its constructor's");
        }
        if ok {
            let r = r.unwrap();
            vp::check(r.account_addr == Some(to) && r.init_state == Some(w.root().1), "receipt of a spawn");
            vp::check(r.touched_accounts == [to, addr(1)].into_iter().collect(), "accounts touched by a spawn");
            vp::check(w.rt.get_account(&to) == Some((0, 0, taddr(0))), "a spawned account");
            let a = w.tk.block_on(AccountStorage::load(w.gs.clone(), &to)).unwrap();
            vp::check(w.tk.block_on(a.name()).unwrap() == "xy", "name of a spawned account");
            vp::check(w.tk.block_on(a.get_var_vec(1)).unwrap() == s.value.to_le_bytes(), "a variable set by a constructor");
            vp::check(w.tk.block_on(a.get_var_vec(5)).unwrap() == [0; 8], "a variable not set by a constructor");
            vp::reach("success");
        } else {
            vp::check(w.rt.get_account(&to).is_none(), "a failed spawn left an account");
            w.idle_call();
            vp::check(w.rt.get_account(&to).is_none(), "a failed spawn left an account that is committed later");
            vp::check(w.root().1 == l.1, "a failed spawn changed the state root");
            vp::reach("failure");
        }
        w.expect(&before, "other accounts after a spawn");
    }
    fn h_rt_respawn() {
        // coins of a spawned account, when its template is spawned once more
        let mut w = world(ctor);
        let msg = |n: &str| SpawnAccount::new(0, &taddr(0), n, "init", vec![]);
        let to = compute_account_addr(&msg("xy"));
        *st() = S { fails: false, mode: 0, value: 0, ran: vec![] };
        let r = w.rt.spawn(&envelope(Gas::new()), &msg("xy").encode_to_vec(), &Context::default());
        vp::check(r.success && r.account_addr == Some(to), "the first spawn");
        let coins = vp::u64("coins");
        w.rt.increase_balance(&to, coins).unwrap();
        let _ = vp::catch(|| w.rt.spawn(&envelope(Gas::new()), &msg(["xy", "z"][vp::choose(2, "name")]).encode_to_vec(), &Context::default()));
        w.expect(&fresh(w.bal), "other accounts after a second spawn");
        vp::check(w.rt.get_account(&to).map(|a| a.0) == Some(coins), "coins of a spawned account are lost when its template is spawned again");
        vp::reach("end")
    }
    fn h_rt_deploy() {
        let mut w = world(ctor);
        let before = fresh(w.bal);
        let mut s = sections(&CODE);
        let v = vp::u32("version");
        s.insert(Section::Header(HeaderSection::new(v, "n".to_string(), "d".to_string())));
        let t = Template::from_sections(s.clone());
        let msg = svm_codec::template::encode(&t);
        let addr = svm_types::compute_template_addr(t.code_section());
        let limit = gas("limit");
        let price = svm_gas::transaction::deploy(&msg);
        let r = w.rt.deploy(&envelope(limit), &msg, &Context::default());
        let enough = limit.is_none() || limit.unwrap() >= price;
        vp::check(r.success == enough, "a deployment succeeds iff its gas suffices");
        if enough {
            vp::check(r.addr == Some(addr) && r.gas_used == Gas::with(price) && r.error.is_none(), "receipt of a deployment");
            vp::check(w.rt.commit().is_ok(), "commit of a deployment");
            let got = w.tk.block_on(TemplateStorage::load(w.gs.clone(), &addr).unwrap().sections()).unwrap();
            vp::check(got == s, "a deployed template");
            // it can be spawned
            *st() = S { fails: false, mode: 0, value: 0, ran: vec![] };
            let r = w.rt.spawn(&envelope(Gas::new()), &SpawnAccount::new(0, &addr, "x", "init", vec![]).encode_to_vec(), &Context::default());
            vp::check(r.success, "a deployed template cannot be spawned");
            vp::reach("deployed");
        } else {
            vp::check(r.error == Some(RuntimeError::OOG) && r.addr.is_none(), "receipt of a deployment without gas");
            vp::check(w.tk.block_on(TemplateStorage::load(w.gs.clone(), &addr).unwrap().sections()).is_err(), "a template was stored without gas");
            vp::check(!w.rt.has_uncommitted_changes().unwrap(), "a deployment without gas changed the state");
            vp::reach("refused");
        }
        w.expect(&before, "accounts after a deployment");
    }
    fn h_rt_verify() {
        let mut w = world(verify);
        let before = fresh(w.bal);
        let l = w.root();
        *st() = S { fails: false, mode: vp::choose(9, "access"), value: 0, ran: vec![] };
        let r = vp::catch(|| w.rt.verify(&envelope(Gas::new()), &call(0, "run", &[]), &Context::default()));
        let ok = r.as_ref().map_or(false, |r| r.success);
        vp::check(ok != st().fails, "the outcome of a verification");
        vp::check(st().ran.iter().all(|n| *n != "run"), "a verification ran the call");
        w.expect(&before, "after a verification");
        vp::check(!w.rt.has_uncommitted_changes().unwrap() && w.root() == l, "a verification changed the state");
        vp::reach(if ok { "verified" } else { "refused" })
    }
    fn h_rt_alloc_access() {
        // while svm_alloc runs for the calldata nothing may be accessed; the call itself has full access
        let mut w = world(alloc);
        let mut want = fresh(w.bal);
        *st() = S { fails: false, mode: vp::choose(9, "access"), value: vp::u64("value"), ran: vec![] };
        let r = vp::catch(|| w.rt.call(&envelope(Gas::new()), &call(0, "run", &[1, 2]), &Context::default()));
        let ok = r.as_ref().map_or(false, |r| r.success);
        vp::check(ok != st().fails, "the outcome of a call");
        if ok {
            *want.var(0, 1) = st().value.to_le_bytes().to_vec();
        } else {
            w.idle_call();
        }
        w.expect(&want, "after a call with calldata");
        vp::reach(if ok { "done" } else { "refused" })
    }
    fn h_rt_addrs() {
        // the addresses of templates and of their accounts
        let bytes = |n: &'static str| {
            let mut a = [0u8; 20];
            a.copy_from_slice(&vp::vec(20, n));
            TemplateAddr(a)
        };
        let (t, u) = (bytes("template"), bytes("other template"));
        let account = |t: &TemplateAddr| svm_runtime::compute_account_addr(&SpawnAccount::new(0, t, "n", "init", vec![1]));
        vp::check((account(&t) == account(&u)) == (t.0 == u.0), "accounts of different templates have one address");
        let code = |n: &'static str| vp::vec([1, 2, 40][vp::choose(3, "code size")], n);
        let (c, d) = (code("code"), code("other code"));
        let template = |c: &[u8]| svm_types::compute_template_addr(&CodeSection::new(CodeKind::Wasm, c.to_vec(), 0, GasMode::Fixed, 0));
        vp::check((template(&c) == template(&d)) == (c == d), "templates with different code have one address");
        vp::reach("end")
    }
    fn h_rt_targets() {
        // functions that cannot be called
        let mut w = world(ctor);
        let before = fresh(w.bal);
        let l = w.root();
        *st() = S { fails: false, mode: 0, value: 0, ran: vec![] };
        let f = ["init", "nope", "badsig", "gone"][vp::choose(4, "function")];
        let data = vp::vec(vp::choose(2, "data"), "data");
        let r = w.rt.call(&envelope(Gas::new()), &call(0, f, &data), &Context::default());
        vp::check(!r.success && st().ran.is_empty(), "a function that cannot be called was run");
        let want = match f {
            "init" | "gone" => matches!(r.error, Some(RuntimeError::FuncNotAllowed { .. })),
            "nope" => matches!(r.error, Some(RuntimeError::FuncNotFound { .. })),
            _ => matches!(r.error, Some(RuntimeError::FuncInvalidSignature { .. })),
        };
        vp::check(want, "the error of a call that cannot be made");
        w.expect(&before, "after a call that cannot be made");
        vp::check(!w.rt.has_uncommitted_changes().unwrap() && w.root() == l, "a call that cannot be made changed the state");
        vp::reach("end")
    }
}
