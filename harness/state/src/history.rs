//! Layers: reads give the last written value; checkpoints, commits, rollbacks and rewinds do exactly what they say.
use crate::*;

const N: usize = 2;
type Map = [Option<u64>; N];
struct Model {
    layers: Vec<Map>,
    saved: Map,
    dirty: Map,
}
fn over(a: Map, b: Map) -> Map {
    let mut r = a;
    for i in 0..N {
        if b[i].is_some() {
            r[i] = b[i];
        }
    }
    r
}
impl Model {
    fn last(&self) -> Map {
        self.layers.last().copied().unwrap_or([None; N])
    }
    fn now(&self) -> Map {
        over(over(self.last(), self.saved), self.dirty)
    }
    fn is_dirty(&self) -> bool {
        self.dirty.iter().any(|x| x.is_some())
    }
}
fn read(gs: &GlobalState, h: &[AccountStorage], at: Option<u64>) -> Map {
    let mut r = [None; N];
    for i in 0..N {
        let mut a = h[i].clone();
        let _ = gs;
        *a.gs.layer_query_parameter_mut() = at.map(Layer);
        r[i] = match run(a.balance()) {
            Ok(b) => Some(b),
            Err(StorageError::NotFound { .. }) => None,
            Err(_) => {
                vp::check(false, "reading fails");
                unreachable!()
            }
        };
    }
    r
}
fn same(a: Map, b: Map) -> bool {
    a == b
}
fn rounds(n: usize, m: &mut Model, gs: &mut GlobalState, h: &mut Vec<AccountStorage>) {
    for _ in 0..n {
        let w = vp::choose(4, "write");
        for i in 0..N {
            if w >> i & 1 == 1 {
                let v = vp::u64("balance");
                *h[i].gs.layer_query_parameter_mut() = None;
                let x = handle(gs, i, v, 0);
                h[i] = x;
                m.dirty[i] = Some(v);
            }
        }
        match vp::choose(3, "then") {
            0 => {
                vp::check(run(gs.checkpoint()).is_ok(), "checkpoint fails");
                m.saved = over(m.saved, m.dirty);
                m.dirty = [None; N];
            }
            1 => {
                vp::check(run(gs.rollback()).is_ok(), "rollback fails");
                m.dirty = [None; N];
            }
            _ => {}
        }
        vp::check(gs.has_uncommitted_changes() == m.is_dirty(), "dirty changes are misreported");
        vp::check(same(read(gs, h, None), m.now()), "a read differs from the last value written");
        match vp::choose(3, "finally") {
            0 => match run(gs.commit()) {
                Ok((l, _)) => {
                    vp::check(!m.is_dirty(), "dirty changes were committed");
                    vp::check(l.0 == m.layers.len() as u64, "layer number");
                    m.layers.push(m.now());
                    m.saved = [None; N];
                }
                Err(_) => vp::check(m.is_dirty(), "commit fails"),
            },
            1 if !m.layers.is_empty() => {
                let l = vp::choose(m.layers.len(), "layer");
                match run(gs.rewind(Layer(l as u64))) {
                    Ok(()) => {
                        vp::check(!m.is_dirty(), "dirty changes were rewound");
                        m.layers.truncate(l + 1);
                        m.saved = [None; N];
                    }
                    Err(_) => vp::check(m.is_dirty(), "rewind fails"),
                }
            }
            _ => {}
        }
        vp::check(same(read(gs, h, None), m.now()), "a read after a commit or rewind differs from the last value written");
    }
    for l in 0..m.layers.len() {
        vp::check(same(read(gs, h, Some(l as u64)), m.layers[l]), "a historical read differs from the value of that layer");
    }
    if !m.layers.is_empty() {
        let c = run(gs.current_layer()).unwrap();
        vp::check(c.0 .0 + 1 == m.layers.len() as u64, "current layer");
    }
}
fn start(uri: &str) -> (Model, GlobalState, Vec<AccountStorage>) {
    let gs = run(GlobalState::new(uri, no_genesis()));
    // handles are independent of the stored state
    let other = run(GlobalState::in_memory(no_genesis()));
    let h = (0..N)
        .map(|i| {
            let mut a = handle(&other, i, 0, 0);
            a.gs = gs.clone();
            a
        })
        .collect();
    (Model { layers: vec![], saved: [None; N], dirty: [None; N] }, gs, h)
}
/// The process ends: what was not committed is gone; the database is opened again.
fn reopen(uri: &str, m: &mut Model, gs: GlobalState, h: Vec<AccountStorage>) -> (GlobalState, Vec<AccountStorage>) {
    std::mem::forget((gs, h));
    sqlx::vp::restart();
    m.saved = [None; N];
    m.dirty = [None; N];
    let (_, gs, h) = start(uri);
    (gs, h)
}
fn layer(m: &mut Model, gs: &mut GlobalState, h: &mut Vec<AccountStorage>, set: usize) {
    for i in 0..N {
        if set >> i & 1 == 1 {
            let v = vp::u64("balance");
            h[i] = handle(gs, i, v, 0);
            m.dirty[i] = Some(v);
        }
    }
    run(gs.checkpoint()).unwrap();
    run(gs.commit()).unwrap();
    m.layers.push(m.now());
    m.dirty = [None; N];
}
fn all_layers(m: &Model, gs: &mut GlobalState, h: &[AccountStorage]) {
    vp::check(same(read(gs, h, None), m.now()), "the most recent values changed");
    for l in 0..m.layers.len() {
        vp::check(same(read(gs, h, Some(l as u64)), m.layers[l]), "the values of a layer changed");
    }
    if !m.layers.is_empty() {
        vp::check(run(gs.current_layer()).unwrap().0 .0 + 1 == m.layers.len() as u64, "the current layer changed");
    }
}
fn delay() -> bool {
    vp::choose(2, "delay") == 1
}
fn crash_commit(layers: usize, crashes: usize, again: usize) {
    let (mut m, mut gs, mut h) = start(URI);
    for i in 0..layers {
        layer(&mut m, &mut gs, &mut h, 1 << i);
    }
    let v = [vp::u64("balance"), vp::u64("balance")];
    let set = 1 + vp::choose(3, "write");
    let old = m.last();
    let mut new = old;
    for i in 0..N {
        if set >> i & 1 == 1 {
            h[i] = handle(&gs, i, v[i], 0);
            new[i] = Some(v[i]);
        }
    }
    run(gs.checkpoint()).unwrap();
    sqlx::vp::crash_after(vp::choose(crashes, "crash"));
    sqlx::vp::set_delay(Some(delay));
    let done = matches!(vp::catch(|| run(gs.commit()).is_ok()), Some(true));
    sqlx::vp::set_delay(None);
    if done {
        m.layers.push(new);
        vp::reach("committed");
    } else {
        vp::reach("crashed");
    }
    let n = m.layers.len() as u64;
    let (mut gs, mut h) = reopen(URI, &mut m, gs, h);
    if !done {
        // all of the layer or nothing of it
        let now = read(&gs, &h, None);
        let c = vp::catch(|| run(gs.current_layer()).unwrap().0 .0 + 1).unwrap_or(0);
        if c == n + 1 {
            m.layers.push(new);
        } else {
            vp::check(c == n, "the current layer after a crash");
        }
        vp::check(same(now, m.last()), "a crash left a part of a layer");
    }
    all_layers(&m, &mut gs, &h);
    let set = 3 - vp::choose(again, "write again");
    layer(&mut m, &mut gs, &mut h, set);
    all_layers(&m, &mut gs, &h);
    vp::reach("end")
}
/// One database statement fails: the operation reports it, nothing is lost, and trying again works.
fn faults(layers: usize, ops: usize, delays: bool) {
    let (mut m, mut gs, mut h) = start(":memory:");
    for i in 0..layers {
        layer(&mut m, &mut gs, &mut h, 3 >> i);
    }
    // checkpointed and dirty changes
    let saved = vp::choose(4, "saved");
    let dirty = vp::choose(4, "dirty");
    for (set, save) in [(saved, true), (dirty, false)] {
        for i in 0..N {
            if set >> i & 1 == 1 {
                let v = vp::u64("balance");
                h[i] = handle(&gs, i, v, 0);
                m.dirty[i] = Some(v);
            }
        }
        if save {
            run(gs.checkpoint()).unwrap();
            for i in 0..N {
                m.saved[i] = m.dirty[i].take();
            }
        }
    }
    for _ in 0..ops {
        let op = vp::choose(5, "operation");
        let l = if op == 2 && !m.layers.is_empty() { vp::choose(m.layers.len(), "layer") } else { 0 };
        vp::assume(!matches!(op, 2 | 3) || !m.layers.is_empty());
        let i = if op == 4 { vp::choose(N, "account") } else { 0 };
        let v = if op == 4 { vp::u64("balance") } else { 0 };
        vp::assume(op != 4 || m.now()[i].is_some());
        let refused = matches!(op, 1 | 2) && m.dirty.iter().any(|d| d.is_some());
        sqlx::vp::fail_after(Some(vp::choose([4, 9, 4, 2, 3][op], "failure")));
        if delays && op == 1 {
            sqlx::vp::set_delay(Some(delay));
        }
        let r = vp::catch(|| match op {
            0 => run(gs.checkpoint()).is_ok(),
            1 => run(gs.commit()).is_ok(),
            2 => run(gs.rewind(Layer(l as u64))).is_ok(),
            3 => run(gs.current_layer()).is_ok(),
            _ => run(h[i].set_balance(v)).is_ok(),
        });
        sqlx::vp::set_delay(None);
        let failed = !sqlx::vp::fail_pending();
        sqlx::vp::fail_after(None);
        vp::check(r.is_some(), "a database error panics");
        let ok = r.unwrap();
        vp::check(ok == !(failed || refused), "a database error is not reported");
        vp::reach(if ok { "done" } else { "failed" });
        if ok {
            match op {
                0 => {
                    for i in 0..N {
                        if let Some(v) = m.dirty[i].take() {
                            m.saved[i] = Some(v);
                        }
                    }
                }
                1 => {
                    m.layers.push(m.now());
                    m.saved = [None; N];
                }
                2 => {
                    m.layers.truncate(l + 1);
                    m.saved = [None; N];
                }
                3 => {}
                _ => m.dirty[i] = Some(v),
            }
        }
        all_layers(&m, &mut gs, &h);
    }
    // the same state as if nothing had failed
    run(gs.checkpoint()).unwrap();
    let r = run(gs.commit());
    vp::check(r.is_ok(), "nothing can be committed after a database error");
    m.layers.push(m.now());
    m.saved = [None; N];
    m.dirty = [None; N];
    all_layers(&m, &mut gs, &h);
    let root = r.unwrap().1;
    let (_, mut gs2, mut h2) = start(":memory:");
    for i in 0..N {
        if let Some(v) = m.now()[i] {
            h2[i] = handle(&gs2, i, v, 0);
        }
    }
    run(gs2.checkpoint()).unwrap();
    vp::check(run(gs2.commit()).unwrap().1 == root, "the state root after a database error is another than without");
    vp::reach("end")
}
const URI: &str = "sqlite:state.db";

vp::entry! {
    fn h_gs_history() {
        let (mut m, mut gs, mut h) = start(":memory:");
        match vp::choose(3, "before") {
            0 => {}
            1 => layer(&mut m, &mut gs, &mut h, 1),
            _ => {
                layer(&mut m, &mut gs, &mut h, 3);
                layer(&mut m, &mut gs, &mut h, 2);
            }
        }
        rounds(2, &mut m, &mut gs, &mut h);
        vp::reach("end")
    }
    fn h_gs_history_deep() {
        let (mut m, mut gs, mut h) = start(":memory:");
        rounds(3, &mut m, &mut gs, &mut h);
        vp::reach("end")
    }
    fn h_gs_reopen() {
        let (mut m, mut gs, mut h) = start(URI);
        for i in 0..vp::choose(3, "layers") {
            layer(&mut m, &mut gs, &mut h, 1 << i);
        }
        rounds(1, &mut m, &mut gs, &mut h);
        let root = if m.layers.is_empty() { None } else { Some(run(gs.current_layer()).unwrap()) };
        let (mut gs, mut h) = reopen(URI, &mut m, gs, h);
        all_layers(&m, &mut gs, &h);
        if let Some(r) = root {
            vp::check(run(gs.current_layer()).unwrap() == r, "the state root changed when the database was opened again");
        }
        rounds(1, &mut m, &mut gs, &mut h);
        let (mut gs, h) = reopen(URI, &mut m, gs, h);
        all_layers(&m, &mut gs, &h);
        vp::reach("end")
    }
    fn h_gs_crash_commit() {
        crash_commit(vp::choose(2, "layers"), 7, 2)
    }
    fn h_gs_crash_commit_deep() {
        crash_commit(vp::choose(3, "layers"), 9, 4)
    }
    fn h_gs_faults() {
        faults(vp::choose(2, "layers"), 1, false)
    }
    fn h_gs_faults_deep() {
        faults(vp::choose(3, "layers"), 1, true)
    }
    fn h_gs_crash_rewind() {
        let (mut m, mut gs, mut h) = start(URI);
        for i in 0..3 {
            layer(&mut m, &mut gs, &mut h, if i == 1 { 3 } else { 1 });
        }
        sqlx::vp::crash_after(vp::choose(4, "crash"));
        let l = vp::choose(3, "layer");
        let done = matches!(vp::catch(|| run(gs.rewind(Layer(l as u64))).is_ok()), Some(true));
        let (mut gs, mut h) = reopen(URI, &mut m, gs, h);
        let c = run(gs.current_layer()).unwrap().0 .0 as usize;
        vp::check(if done { c == l } else { c == 2 || c == l }, "a crash left a rewind half done");
        m.layers.truncate(c + 1);
        all_layers(&m, &mut gs, &h);
        rounds(1, &mut m, &mut gs, &mut h);
        vp::reach(if done { "done" } else { "crashed" })
    }
    fn h_gs_crash_init() {
        // a crash while the database is created or opened
        let fresh = vp::choose(2, "fresh") == 1;
        let mut m = Model { layers: vec![], saved: [None; N], dirty: [None; N] };
        if !fresh {
            let (m2, mut gs, mut h) = start(URI);
            m = m2;
            layer(&mut m, &mut gs, &mut h, 3);
            std::mem::forget((gs, h));
        }
        let k = vp::choose(30, "crash");
        sqlx::vp::crash_after(k);
        let done = vp::catch(|| std::mem::forget(start(URI))).is_some();
        sqlx::vp::restart();
        let (_, mut gs, mut h) = start(URI);
        all_layers(&m, &mut gs, &h);
        let set = vp::choose(4, "write");
        layer(&mut m, &mut gs, &mut h, set);
        all_layers(&m, &mut gs, &h);
        vp::reach(if done { "done" } else { "crashed" })
    }
}
