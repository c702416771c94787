//! Accounts and templates: every variable and every item of metadata holds exactly what was last written to it.
use crate::*;
use svm_layout::{FixedLayout, Layout};

pub fn sections(sizes: &[u32], first: u32) -> (Sections, Sections) {
    let mut core = Sections::default();
    core.insert(Section::Code(CodeSection::new(CodeKind::Wasm, vec![1, 2], 0, GasMode::Fixed, 0)));
    core.insert(Section::Data(DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(first, sizes)))));
    core.insert(Section::Ctors(CtorsSection::new(vec!["init".to_string()])));
    let mut non = Sections::default();
    non.insert(Section::Header(HeaderSection::new(3, "n".to_string(), "d".to_string())));
    (core, non)
}
pub fn template(gs: &GlobalState, i: u8, sizes: &[u32], first: u32) -> TemplateAddr {
    let t = TemplateAddr([i; 20]);
    let (c, n) = sections(sizes, first);
    run(TemplateStorage::create(gs.clone(), &t, c, n)).unwrap();
    t
}
fn account(gs: &GlobalState, a: usize, t: TemplateAddr) -> AccountStorage {
    run(AccountStorage::create(gs.clone(), &addr(a), "acc".to_string(), t, 7, 9)).unwrap()
}
const SIZES: [u32; 8] = [0, 1, 8, 20, 31, 32, 33, 70];
fn vars(sizes: &[u32], first: u32, save: usize) {
    let mut gs = run(GlobalState::in_memory(no_genesis()));
    let t = template(&gs, 0x80, sizes, first);
    let mut acc = account(&gs, 0, t);
    let other = account(&gs, 1, t);
    let mut want: Vec<Vec<u8>> = sizes.iter().map(|s| vec![0; *s as usize]).collect();
    for _ in 0..2 {
        let i = vp::choose(sizes.len(), "variable");
        let v = vp::vec(sizes[i] as usize, "value");
        run(acc.set_var_bytes(first + i as u32, &v)).unwrap();
        want[i] = v;
        if save > 0 {
            run(gs.checkpoint()).unwrap();
        }
        if save > 1 {
            run(gs.commit()).unwrap();
        }
    }
    let acc = if save == 0 { acc } else { run(AccountStorage::load(gs.clone(), &addr(0))).unwrap() };
    for i in 0..sizes.len() {
        let id = first + i as u32;
        vp::check(run(acc.get_var_vec(id)).unwrap() == want[i], "a variable does not hold the value last written to it");
        vp::check(run(other.get_var_vec(id)).unwrap().iter().all(|b| *b == 0), "writing a variable changed another account");
    }
    vp::check(run(acc.balance()).unwrap() == 7 && run(acc.counter()).unwrap() == 9, "writing a variable changed the balance or counter");
}
vp::entry! {
    fn h_var_sizes() {
        let k: Vec<u32> = (0..3).map(|_| SIZES[vp::choose(SIZES.len(), "size")]).collect();
        vars(&k, 0, 0);
        vp::reach("end")
    }
    fn h_var_saved() {
        let sets: [&[u32]; 5] = [&[10, 20, 4, 30, 64], &[32, 32, 1], &[31, 2, 40], &[8, 8, 8, 8, 8], &[100, 4]];
        vars(sets[vp::choose(5, "sizes")], [0, 1, 5][vp::choose(3, "first")], 1 + vp::choose(2, "save"));
        vp::reach("end")
    }
    fn h_var_numbers() {
        // integers are stored as little endian
        let mut gs = run(GlobalState::in_memory(no_genesis()));
        let t = template(&gs, 0x80, &[30, 4, 8, 4, 8], 0);
        let mut acc = account(&gs, 0, t);
        let (a, b) = (vp::u32("a") as i32, vp::u64("b") as i64);
        let k = vp::choose(2, "which") as u32 * 2;
        run(acc.set_var_i32(1 + k, a)).unwrap();
        run(acc.set_var_i64(2 + k, b)).unwrap();
        if vp::choose(2, "commit") == 1 {
            run(gs.checkpoint()).unwrap();
            run(gs.commit()).unwrap();
        }
        vp::check(run(acc.get_var_i32(1 + k)).unwrap() == a && run(acc.get_var_i64(2 + k)).unwrap() == b, "an integer variable");
        vp::check(run(acc.get_var_vec(1 + k)).unwrap() == a.to_le_bytes() && run(acc.get_var_vec(2 + k)).unwrap() == b.to_le_bytes(), "byte order of an integer variable");
        vp::check(run(acc.get_var_i32(3 - k)).unwrap() == 0 && run(acc.get_var_i64(4 - k)).unwrap() == 0, "another variable changed");
        vp::reach("end")
    }
    fn h_var_buffer() {
        // a longer buffer is used up to the variable's size, a shorter one is refused without a change
        let gs = run(GlobalState::in_memory(no_genesis()));
        let size = [1u32, 8, 20, 33][vp::choose(4, "size")];
        let t = template(&gs, 0x80, &[13, size, 40], 0);
        let mut acc = account(&gs, 0, t);
        let before = vp::vec(size as usize, "before");
        run(acc.set_var_bytes(1, &before)).unwrap();
        let n = [0, size as usize - 1, size as usize, size as usize + 1, size as usize + 30][vp::choose(5, "buffer")];
        let v = vp::vec(n, "value");
        let ok = vp::catch(|| run(acc.set_var_bytes(1, &v)).unwrap()).is_some();
        vp::check(ok == (n >= size as usize), "size check of a written value");
        let got = run(acc.get_var_vec(1)).unwrap();
        vp::check(got == if ok { v[..size as usize].to_vec() } else { before }, "a value written from a longer or shorter buffer");
        let mut buf = vec![0xEEu8; n];
        let ok = vp::catch(|| run(acc.get_var(1, &mut buf)).unwrap()).is_some();
        vp::check(ok == (n >= size as usize), "size check of a read");
        if ok {
            vp::check(buf[..size as usize] == got[..] && buf[size as usize..].iter().all(|b| *b == 0xEE), "a value read into a longer buffer");
        }
        vp::check(run(acc.get_var_vec(0)).unwrap().iter().all(|b| *b == 0) && run(acc.get_var_vec(2)).unwrap().iter().all(|b| *b == 0), "neighbours changed");
        vp::check(vp::catch(|| run(acc.get_var_vec(3))).is_none(), "a variable that does not exist was read");
        vp::reach(if ok { "fits" } else { "refused" })
    }
    fn h_var_layers() {
        // variables in earlier layers
        let mut gs = run(GlobalState::in_memory(no_genesis()));
        let t = template(&gs, 0x80, &[20, 20], 0);
        let mut acc = account(&gs, 0, t);
        let mut vals = Vec::new();
        for i in 0..3 {
            let v = vp::vec(20, "value");
            run(acc.set_var_bytes(1, &v)).unwrap();
            vals.push(v);
            if i < 2 {
                run(gs.checkpoint()).unwrap();
                run(gs.commit()).unwrap();
            }
        }
        let mut old = acc.clone();
        let l = vp::choose(2, "layer");
        *old.gs.layer_query_parameter_mut() = Some(Layer(l as u64));
        vp::check(run(old.get_var_vec(1)).unwrap() == vals[l], "a variable read at an earlier layer");
        vp::check(run(old.get_var_vec(0)).unwrap() == vec![0; 20], "another variable read at an earlier layer");
        vp::check(run(acc.get_var_vec(1)).unwrap() == vals[2], "a variable read at present");
        vp::reach("end")
    }
    fn h_acc_meta() {
        let mut gs = run(GlobalState::in_memory(no_genesis()));
        let t = template(&gs, 0x80, &[4], 0);
        let t2 = template(&gs, 0x81, &[8], 0);
        let (b, c) = (vp::u64("balance"), vp::u128("counter"));
        let name = vp::vec(2, "name");
        for x in name.iter() {
            vp::assume(*x < 0x80);
        }
        let name = unsafe { String::from_utf8_unchecked(name) };
        let mut acc = run(AccountStorage::create(gs.clone(), &addr(0), name.clone(), t, b, c)).unwrap();
        let other = account(&gs, 1, t2);
        let (mut wb, mut wc) = (b, c);
        for _ in 0..2 {
            match vp::choose(5, "operation") {
                0 => {
                    wb = vp::u64("new balance");
                    run(acc.set_balance(wb)).unwrap();
                }
                1 => {
                    wc = vp::u128("new counter");
                    run(acc.set_counter(wc)).unwrap();
                }
                2 => run(gs.checkpoint()).unwrap(),
                3 => {
                    run(gs.checkpoint()).unwrap();
                    run(gs.commit()).unwrap();
                }
                _ => run(acc.set_var_i32(0, vp::u32("value") as i32)).unwrap(),
            }
        }
        let load = run(AccountStorage::load(gs.clone(), &addr(0))).unwrap();
        for a in [&acc, &load] {
            vp::check(run(a.balance()).unwrap() == wb && run(a.counter()).unwrap() == wc, "balance or counter");
            vp::check(run(a.name()).unwrap() == name && run(a.template_addr()).unwrap() == t, "name or template");
        }
        vp::check(run(other.balance()).unwrap() == 7 && run(other.counter()).unwrap() == 9 && run(other.name()).unwrap() == "acc" && run(other.template_addr()).unwrap() == t2, "another account changed");
        vp::check(run(AccountStorage::load(gs, &addr(2))).is_err(), "an account that does not exist was loaded");
        vp::reach("end")
    }
    fn h_tmpl_sections() {
        let mut gs = run(GlobalState::in_memory(no_genesis()));
        let t = template(&gs, 0x80, &[4], 0);
        let t2 = template(&gs, 0x81, &[8, 2], 3);
        let (mut core, mut non) = sections(&[4], 0);
        let mut st = TemplateStorage::load(gs.clone(), &t).unwrap();
        for _ in 0..2 {
            match vp::choose(4, "operation") {
                0 => {
                    let (c, _) = sections(&[vp::u16("size") as u32], vp::u16("first") as u32);
                    run(st.set_core(&c)).unwrap();
                    core = c;
                }
                1 => {
                    let mut n = Sections::default();
                    n.insert(Section::Header(HeaderSection::new(vp::u32("version"), "x".to_string(), "".to_string())));
                    run(st.set_noncore(&n)).unwrap();
                    non = n;
                }
                2 => run(gs.checkpoint()).unwrap(),
                _ => {
                    run(gs.checkpoint()).unwrap();
                    run(gs.commit()).unwrap();
                }
            }
        }
        let mut want = core;
        for s in non.iter() {
            want.insert(s.clone());
        }
        vp::check(run(st.sections()).unwrap() == want, "the sections of a template");
        let (c, n) = sections(&[8, 2], 3);
        let mut want = c;
        for s in n.iter() {
            want.insert(s.clone());
        }
        vp::check(run(TemplateStorage::load(gs.clone(), &t2).unwrap().sections()).unwrap() == want, "another template changed");
        vp::check(run(TemplateStorage::load(gs, &TemplateAddr([1; 20])).unwrap().sections()).is_err(), "a template that does not exist was loaded");
        vp::reach("end")
    }
    fn h_genesis() {
        // genesis templates are stored once, before layer 0, and never again
        let (c, n) = sections(&[4, 30], 0);
        let mut all = c.clone();
        for s in n.iter() {
            all.insert(s.clone());
        }
        let t = TemplateAddr([0x33; 20]);
        let conf = |x: Sections| GenesisConfig { templates: [(t, Template::from_sections(x))].into_iter().collect() };
        let uri = "sqlite:genesis.db";
        let mut gs = run(GlobalState::new(uri, conf(all.clone())));
        let mut acc = account(&gs, 0, t);
        let v = vp::u64("balance");
        run(acc.set_balance(v)).unwrap();
        run(gs.checkpoint()).unwrap();
        vp::check(run(gs.commit()).unwrap().0 == Layer(0), "the first layer");
        drop((gs, acc));
        let (mut d, e) = sections(&[9], 1);
        for s in e.iter() {
            d.insert(s.clone());
        }
        let gs = run(GlobalState::new(uri, conf(d)));
        vp::check(run(TemplateStorage::load(gs.clone(), &t).unwrap().sections()).unwrap() == all, "the genesis template");
        let acc = run(AccountStorage::load(gs, &addr(0))).unwrap();
        vp::check(run(acc.balance()).unwrap() == v, "an account after genesis");
        vp::reach("end")
    }
}
