//! Host calls stay inside of the guest's memory and move exactly the bytes they are asked to.
use crate::*;

static mut DATA: Vec<u8> = Vec::new();
static mut AT: u32 = 0;
static mut MODE: usize = 0;
static mut LEN: u32 = 0;
static mut OK: bool = false;
static mut BYTES: Vec<u8> = Vec::new();
const PAGE: u32 = 65536;
const EDGES: [u32; 8] = [0, 1, 20, PAGE - 21, PAGE - 20, PAGE - 19, PAGE, 0xFFFF_FFFF];

fn calldata(g: &Guest, name: &'static str, a: &[Val]) -> Result<Vec<Val>, String> {
    unsafe {
        if name == "svm_alloc" {
            vp::check(a[0].i32().unwrap() as usize == DATA.len(), "size asked from svm_alloc");
            return Ok(vec![Val::I32(AT as i32)]);
        }
        let o = g.host("svm_calldata_offset", &[]).unwrap().i32().unwrap() as u32;
        let n = g.host("svm_calldata_len", &[]).unwrap().i32().unwrap() as u32;
        vp::check(o == AT && n as usize == DATA.len(), "place of the calldata");
        vp::check(g.read(o, n) == DATA, "the calldata");
        let all = g.memory.view::<u8>();
        for (i, c) in all.iter().enumerate() {
            if i < o as usize || i >= (o + n) as usize {
                if c.get() != 0 {
                    vp::check(false, "bytes around the calldata changed");
                }
            }
        }
        Ok(vec![])
    }
}
fn pointers(g: &Guest, _: &'static str, _: &[Val]) -> Result<Vec<Val>, String> {
    unsafe {
        let n = match MODE {
            0 | 4 => LEN,
            _ => 20,
        };
        let v = if n <= 300 { vp::vec(n as usize, "bytes") } else { (0..n).map(|i| (i % 251) as u8 + 1).collect() };
        OK = AT as u64 + n as u64 <= PAGE as u64 && !(MODE == 4 && n == 0);
        if AT as u64 + n as u64 <= PAGE as u64 {
            g.write(AT, &v[..n as usize]);
        }
        BYTES = v[..n as usize].to_vec();
        let p = Val::I32(AT as i32);
        match MODE {
            0 => {
                g.host("svm_log", &[p, Val::I32(n as i32)]);
            }
            1 => {
                g.host("svm_store160", &[p, Val::I32(3)]);
            }
            2 => {
                g.host("svm_load160", &[Val::I32(0), p]);
                vp::check(OK, "svm_load160 wrote outside of the memory");
                vp::check(g.read(AT, 20) == [0x5A; 20], "svm_load160");
                if AT > 0 {
                    vp::check(g.read(AT - 1, 1) == [0], "svm_load160 wrote too much");
                }
                if AT + 20 < PAGE {
                    vp::check(g.read(AT + 20, 1) == [0], "svm_load160 wrote too much");
                }
            }
            3 => {
                if OK {
                    g.write(AT, &addr(1).0);
                }
                let own = if AT > PAGE / 2 { 64 } else { 1000 };
                g.write(own, &addr(0).0);
                g.host("svm_transfer", &[Val::I32(own as i32), p, 3u64.into()]);
            }
            _ => {
                g.host("svm_set_returndata", &[p, Val::I32(n as i32)]);
            }
        }
        Ok(vec![])
    }
}
fn blocks(g: &Guest, _: &'static str, _: &[Val]) -> Result<Vec<Val>, String> {
    let mut got: Vec<(u64, u64)> = Vec::new();
    for _ in 0..3 {
        let n = [1u32, 7, 4096, 32768, 65535, 65536, 65537, 0x8000_0000, 0xFFFF_FF00, 0xFFFF_FFFF][vp::choose(10, "size")];
        let p = g.host("svm_static_alloc", &[n.into()]).unwrap().i32().unwrap() as u32 as u64;
        let e = p + n as u64;
        vp::check(e <= g.memory.data_size(), "an allocated block lies outside of the memory");
        vp::check(got.iter().all(|b| e <= b.0 || b.1 <= p), "allocated blocks overlap");
        got.push((p, e));
    }
    vp::reach("allocated");
    Ok(vec![])
}
vp::entry! {
    fn h_rt_calldata() {
        let mut w = world(calldata);
        let n = [1usize, 2, 20, 255][vp::choose(4, "length")];
        let d = vp::vec(n, "calldata");
        let at = [1u32, 64, PAGE - 255, PAGE - 20, PAGE - 1, PAGE, 0xFFFF_FFFF, 0][vp::choose(8, "at")];
        unsafe {
            DATA = d.clone();
            AT = at;
        }
        let r = vp::catch(|| w.rt.call(&Envelope::default(), &call(0, "run", &d), &Context::default()));
        let ok = r.map_or(false, |r| r.success);
        let fits = at as u64 + n as u64 <= PAGE as u64;
        vp::check(ok == fits, "calldata is passed iff it fits in the memory");
        w.expect(&fresh(w.bal), "after a call that only looks at its calldata");
        vp::reach(if ok { "passed" } else { "refused" })
    }
    fn h_rt_pointers() {
        let mut w = world(pointers);
        w.tk.block_on(w.account(0).set_var_bytes(0, &[0x5A; 20])).unwrap();
        let mut want = fresh(w.bal);
        *want.var(0, 0) = vec![0x5A; 20];
        unsafe {
            MODE = vp::choose(5, "call");
            AT = EDGES[vp::choose(8, "at")];
            LEN = if MODE == 0 || MODE == 4 { [0u32, 1, 20, 260, 40000][vp::choose(5, "length")] } else { 20 };
            if MODE == 3 {
                vp::assume(w.bal[0] >= 3 && w.bal[1] < u64::MAX - 3);
            }
            let r = vp::catch(|| w.rt.call(&Envelope::default(), &call(0, "run", &[]), &Context::default()));
            let ok = r.as_ref().map_or(false, |r| r.success);
            vp::check(ok == OK, "a host call succeeds iff its bytes lie inside of the memory");
            if ok {
                let r = r.unwrap();
                match MODE {
                    0 => vp::check(r.logs.len() == 1 && r.logs[0].as_bytes() == BYTES, "a log entry"),
                    1 => *want.var(0, 3) = BYTES.clone(),
                    3 => {
                        want.bal[0] -= 3;
                        want.bal[1] += 3;
                    }
                    4 => vp::check(r.returndata == Some(BYTES.clone()), "return data"),
                    _ => {}
                }
            } else {
                w.idle_call();
            }
            w.expect(&want, "after a host call");
            vp::reach(if ok { "done" } else { "refused" })
        }
    }
    fn h_rt_blocks() {
        let mut w = world(blocks);
        let _ = vp::catch(|| w.rt.call(&Envelope::default(), &call(0, "run", &[]), &Context::default()));
        w.idle_call();
        w.expect(&fresh(w.bal), "after allocating memory");
        vp::reach("end")
    }
}
