//! The state root: a function of the stored values alone, and a different one for different values.
use crate::account::{sections, template};
use crate::*;

/// Writes balances of the accounts in `set` with the given history and returns the root.
struct G(GlobalState);
impl G {
    fn new() -> G {
        G(run(GlobalState::in_memory(no_genesis())))
    }
    fn put(&mut self, a: usize, v: u64) {
        handle(&self.0, a, v, 0);
    }
    fn save(&mut self) {
        run(self.0.checkpoint()).unwrap();
    }
    fn commit(&mut self) -> State {
        self.save();
        let (l, s) = run(self.0.commit()).unwrap();
        vp::check(run(self.0.current_layer()).unwrap() == (l, s), "the current layer has another root than its commit returned");
        s
    }
}
/// Any history of `n` steps, after which two accounts get their final values: the root is the one
/// of a fresh state with these values.
fn history(n: usize) {
    let (x, y) = (vp::u64("x"), vp::u64("y"));
    let mut a = G::new();
    a.put(0, x);
    a.put(1, y);
    let ra = a.commit();
    let mut b = G::new();
    let (mut layers, mut dirty) = (0u64, false);
    for _ in 0..n {
        match vp::choose(6, "step") {
            k @ (0 | 1) => {
                b.put(k, vp::u64("z"));
                dirty = true;
            }
            2 => {
                b.save();
                dirty = false;
            }
            3 => {
                run(b.0.rollback()).unwrap();
                dirty = false;
            }
            4 => {
                b.commit();
                layers += 1;
                dirty = false;
            }
            _ => {
                vp::assume(layers > 0 && !dirty);
                run(b.0.rewind(Layer(0))).unwrap();
                layers = 1;
            }
        }
    }
    b.put(0, x);
    b.put(1, y);
    let rb = b.commit();
    vp::check(ra == rb, "equal contents have different state roots");
    vp::reach("end")
}
vp::entry! {
    fn h_root_same() {
        // the same values, reached in different ways and numbers of layers
        let (x, y, z) = (vp::u64("x"), vp::u64("y"), vp::u64("z"));
        let mut a = G::new();
        a.put(0, x);
        a.put(1, y);
        let ra = a.commit();
        let mut b = G::new();
        let rb = match vp::choose(9, "history") {
            0 => { b.put(1, y); b.put(0, x); b.commit() }
            1 => { b.put(1, y); b.save(); b.put(0, x); b.commit() }
            2 => { b.put(1, y); b.commit(); b.put(0, x); b.commit() }
            3 => { b.put(0, z); b.save(); b.put(1, y); b.save(); b.put(0, x); b.commit() }
            4 => { b.put(0, z); b.put(1, z); b.commit(); b.put(0, x); b.commit(); b.put(1, y); b.commit() }
            5 => { b.put(0, x); b.put(1, y); b.commit(); b.put(1, z); b.commit(); b.put(1, y); b.commit() }
            6 => { b.put(0, x); b.put(1, y); b.commit(); b.commit() }
            7 => {
                b.put(0, x); b.put(1, y); b.commit(); b.put(0, z); b.put(2, z); b.commit();
                run(b.0.rewind(Layer(0))).unwrap();
                let c = run(b.0.current_layer()).unwrap().1;
                let d = b.commit();
                vp::check(c == d, "an empty layer changed the root");
                d
            }
            _ => { b.put(0, z); run(b.0.rollback()).unwrap(); b.put(0, x); b.put(1, y); b.save(); b.put(2, z); run(b.0.rollback()).unwrap(); b.commit() }
        };
        vp::check(ra == rb, "equal contents have different state roots");
        vp::reach("end")
    }
    fn h_root_history() {
        history(4)
    }
    fn h_root_history_deep() {
        history(6)
    }
    fn h_root_differs() {
        // one value differs, or one account is missing
        let (x, y, x2) = (vp::u64("x"), vp::u64("y"), vp::u64("x2"));
        vp::assume(x != x2);
        let layers = vp::choose(2, "layers") == 1;
        let build = |first: u64, extra: bool| {
            let mut g = G::new();
            if layers {
                g.put(1, y);
                g.commit();
            } else {
                g.put(1, y);
            }
            g.put(0, first);
            if extra {
                g.put(2, y);
            }
            g.commit()
        };
        let a = build(x, false);
        let b = build(x2, false);
        vp::check(a != b, "different contents have the same state root");
        vp::reach("end")
    }
    fn h_root_fields() {
        // two states that differ in one field of one account or template
        let field = vp::choose(7, "field");
        let at = if field == 4 { [0, 31, 32, 69][vp::choose(4, "at")] } else { 0 };
        let (x, x2) = (vp::u64("x"), vp::u64("x2"));
        let (b, b2) = (vp::u8("b"), vp::u8("b2"));
        match field {
            0 | 1 => vp::assume(x != x2),
            3 => {}
            _ => vp::assume(b < 0x80 && b2 < 0x80 && b != b2),
        }
        let build = |x: u64, b: u8, second: bool| {
            let mut g = G::new();
            let t = template(&g.0, 0x80, &[70], 0);
            let t2 = template(&g.0, 0x81, &[70], 0);
            let name = if field == 2 { format!("a long name, twenty-four {}", b as char) } else { "a".to_string() };
            let balance = if field == 0 { x } else { 7 };
            let counter = if field == 1 { (x as u128) << 64 } else { 9 };
            let on = if field == 3 && second { t2 } else { t.clone() };
            let mut a = run(AccountStorage::create(g.0.clone(), &addr(0), name, on, balance, counter)).unwrap();
            let mut v = [3u8; 70];
            if field == 4 {
                v[at] = b;
            }
            run(a.set_var_bytes(0, &v)).unwrap();
            let mut st = TemplateStorage::load(g.0.clone(), &t).unwrap();
            if field == 5 {
                let mut code = vec![1u8; 48];
                code[47] = b;
                let (mut c, _) = sections(&[70], 0);
                c.insert(Section::Code(CodeSection::new(CodeKind::Wasm, code, 0, GasMode::Fixed, 0)));
                run(st.set_core(&c)).unwrap();
            }
            if field == 6 {
                let mut n = Sections::default();
                n.insert(Section::Header(HeaderSection::new(0, "x".to_string(), format!("a description of some length, {}", b as char))));
                run(st.set_noncore(&n)).unwrap();
            }
            g.commit()
        };
        let a = build(x, b, false);
        let c = build(x2, b2, true);
        vp::check(a != c, "states that differ in a field have the same state root");
        vp::reach("end")
    }
    fn h_root_concrete() {
        // every pair of different contents over three accounts and small values
        let val = |k: usize| [None, Some(0u64), Some(1 << 40)][k];
        let c: Vec<usize> = (0..6).map(|_| vp::choose(3, "value")).collect();
        let build = |c: &[usize], split: bool| {
            let mut g = G::new();
            for i in 0..3 {
                if let Some(v) = val(c[i]) {
                    g.put(i, v);
                    if split {
                        g.commit();
                    }
                }
            }
            g.commit()
        };
        let a = build(&c[..3], false);
        let b = build(&c[3..], true);
        vp::check((a == b) == (c[..3] == c[3..]), "roots are equal although contents differ, or differ although contents are equal");
        vp::reach("end")
    }
}
