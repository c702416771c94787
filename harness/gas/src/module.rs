//! Modules as bytes.
use crate::*;

fn leb(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n & 127) as u8;
        n >>= 7;
        v.push(if n > 0 { b | 128 } else { b });
        if n == 0 {
            return v;
        }
    }
}
pub fn section(out: &mut Vec<u8>, id: u8, items: &[Vec<u8>]) {
    let mut b = leb(items.len());
    for i in items {
        b.extend(i);
    }
    out.push(id);
    out.extend(leb(b.len()));
    out.extend(b);
}
pub fn body(code: &[u8]) -> Vec<u8> {
    let mut b = vec![0];
    b.extend(code);
    let mut v = leb(b.len());
    v.extend(b);
    v
}
pub const HEADER: [u8; 8] = [0, 97, 115, 109, 1, 0, 0, 0];
fn is_float(op: u8) -> bool {
    matches!(op, 0x2a | 0x2b | 0x38 | 0x39 | 0x43 | 0x44 | 0x5b..=0x66 | 0x8b..=0xa6 | 0xa8..=0xab | 0xae..=0xbf)
}
/// How many bytes follow an opcode; `None`: not an instruction of WebAssembly 1.0.
fn immediates(op: u8) -> Option<usize> {
    Some(match op {
        0x00 | 0x01 | 0x0f | 0x1a | 0x1b | 0x45..=0xc4 => 0,
        0x0c | 0x0d | 0x10 | 0x20..=0x24 | 0x3f | 0x40 | 0x41 | 0x42 => 1,
        0x28..=0x3e | 0x11 => 2,
        0x43 => 4,
        0x44 => 8,
        _ => return None,
    })
}
vp::entry! {
    /// One function of one instruction, any opcode.
    fn h_mod_floats() {
        let op = vp::u8("opcode");
        let n = match immediates(op) {
            Some(n) => n,
            None => {
                vp::assume(false);
                0
            }
        };
        let mut m = HEADER.to_vec();
        section(&mut m, 1, &[vec![0x60, 0, 0]]);
        section(&mut m, 3, &[vec![0], vec![0]]);
        let mut code = vec![op];
        code.resize(1 + n, 0);
        code.push(0x0b);
        let first = vp::choose(2, "function") == 0;
        let (a, b) = if first { (code, vec![1, 0x0b]) } else { (vec![1, 0x0b], code) };
        section(&mut m, 10, &[body(&a), body(&b)]);
        match vp::no_panic("reading a module", || Program::new(&m, false)) {
            Ok(p) => {
                vp::check(!is_float(op), "a floating-point instruction is accepted");
                vp::check(p.func_indexes() == [FuncIndex(0), FuncIndex(1)], "the functions of a module");
                vp::reach("accepted");
            }
            Err(ProgramError::FloatsNotAllowed) => {
                vp::check(is_float(op), "an instruction is refused as floating-point");
                vp::reach("float");
            }
            Err(_) => vp::check(op >= 0xc0, "a module is refused"),
        }
    }
    /// The functions every template exports.
    fn h_mod_exports() {
        let imports = vp::choose(2, "imports");
        let types: [&[u8]; 4] = [&[0x60, 1, 0x7f, 1, 0x7f], &[0x60, 0, 1, 0x7f], &[0x60, 0, 0], &[0x60, 1, 0x7e, 1, 0x7f]];
        let mut m = HEADER.to_vec();
        section(&mut m, 1, &types.map(|t| t.to_vec()));
        if imports > 0 {
            section(&mut m, 2, &[vec![1, b'm', 1, b'f', 0, 2]]);
        }
        let (t0, t1) = (vp::upto(5, "type") as u8, vp::upto(5, "type") as u8);
        section(&mut m, 3, &[vec![t0], vec![t1]]);
        let names = ["svm_alloc", "svm_verify", "svm_other"];
        let pick = [vp::choose(3, "name"), vp::choose(3, "name")];
        let kind = [vp::upto(3, "kind") as u8, vp::upto(3, "kind") as u8];
        let index = [vp::upto(5, "index") as u8, vp::upto(5, "index") as u8];
        let mut e = vec![];
        for i in 0..2 {
            let mut x = vec![names[pick[i]].len() as u8];
            x.extend(names[pick[i]].bytes());
            x.push(kind[i]);
            x.push(index[i]);
            e.push(x);
        }
        section(&mut m, 7, &e);
        section(&mut m, 10, &[body(&[1, 0x0b]), body(&[1, 0x0b])]);
        // the type an exported function must have
        let good = |name: usize| {
            let mut seen = false;
            for i in 0..2 {
                if pick[i] == name {
                    seen = true;
                    let f = index[i] as usize;
                    let t = if kind[i] != 0 || f < imports || f >= imports + 2 { 9 } else { [t0, t1][f - imports] };
                    if t as usize != name {
                        return false;
                    }
                }
            }
            seen
        };
        let want = good(0) && good(1);
        let r = vp::no_panic("reading a module", || Program::new(&m, true));
        vp::check(r.is_ok() == want, "a module is accepted iff it exports svm_alloc and svm_verify with their types");
        vp::reach(if want { "accepted" } else { "refused" });
        if let Ok(p) = vp::no_panic("reading a module", || Program::new(&m, false)) {
            for i in 0..2 {
                if kind[i] == 0 && pick[0] != pick[1] {
                    vp::check(p.exports().get(names[pick[i]]) == Some(FuncIndex(index[i] as u32)), "an exported function");
                }
                if kind[0] != 0 && kind[1] != 0 {
                    vp::check(!p.is_exported(names[pick[i]]), "something that is no function is an exported function");
                }
            }
            vp::check(p.is_imported(FuncIndex(0)) == (imports > 0) && !p.is_imported(FuncIndex(1)), "the imported functions");
        }
    }
    /// Functions are numbered from the imported ones on; other imports do not count.
    fn h_mod_imports() {
        let kinds = [vp::choose(4, "kind"), vp::choose(4, "kind"), vp::choose(4, "kind")];
        let names: Vec<u8> = (0..3).map(|_| b'a' + vp::upto(1, "name") as u8).collect();
        let mut m = HEADER.to_vec();
        section(&mut m, 1, &[vec![0x60, 0, 0]]);
        let mut imports = vec![];
        let mut want = vec![];
        for i in 0..3 {
            let mut e = vec![1, b'm' + i as u8, 1, names[i], kinds[i] as u8];
            e.extend(match kinds[i] {
                0 => vec![0],
                1 => vec![0x70, 0, 1],
                2 => vec![0, 1],
                _ => vec![0x7f, 0],
            });
            if kinds[i] == 0 {
                want.push((["m", "n", "o"][i], names[i]));
            }
            imports.push(e);
        }
        section(&mut m, 2, &imports);
        section(&mut m, 3, &[vec![0], vec![0]]);
        let target = vp::u8("target") & 0x7f;
        section(&mut m, 10, &[body(&[0x10, target, 0x0b]), body(&[1, 0x0b])]);
        let p = vp::no_panic("reading a module", || Program::new(&m, false).unwrap());
        let n = want.len() as u32;
        vp::check(p.imports().count() == n as usize && p.func_indexes() == [FuncIndex(n), FuncIndex(n + 1)], "the numbers of functions");
        for i in 0..5 {
            vp::check(p.is_imported(FuncIndex(i)) == (i < n), "the imported functions");
            let got = p.imports().try_resolve(FuncIndex(i));
            match want.get(i as usize) {
                Some((m, f)) => vp::check(got.map_or(false, |g| g.0 == *m && g.1.as_bytes() == [*f]), "the name of an import"),
                None => vp::check(got.is_none(), "the name of an import"),
            }
        }
        let code: Vec<I> = p.get_func(FuncIndex(n)).iter().map(|o| o.raw().clone()).collect();
        vp::check(code == [I::Call(target as u32), I::End], "the code of a function");
        let code: Vec<I> = p.get_func(FuncIndex(n + 1)).iter().map(|o| o.raw().clone()).collect();
        vp::check(code == [I::Nop, I::End], "the code of a function");
        vp::reach("end");
    }
    /// Any bytes after the header.
    fn h_mod_untrusted() {
        untrusted(5)
    }
    fn h_mod_untrusted_deep() {
        untrusted(6)
    }
    /// A module with any byte replaced.
    fn h_mod_mutated() {
        mutated()
    }
}
/// With an import, a table, svm_alloc, svm_verify and a function of many instructions.
fn sample() -> Vec<u8> {
    let mut m = HEADER.to_vec();
    section(&mut m, 1, &[vec![0x60, 1, 0x7f, 1, 0x7f], vec![0x60, 0, 1, 0x7f], vec![0x60, 0, 0]]);
    section(&mut m, 2, &[vec![1, b'm', 1, b'f', 0, 2]]);
    section(&mut m, 3, &[vec![0], vec![1], vec![2]]);
    section(&mut m, 5, &[vec![0, 1]]);
    let e = |n: &str, i: u8| {
        let mut v = vec![n.len() as u8];
        v.extend(n.bytes());
        v.extend([0, i]);
        v
    };
    section(&mut m, 7, &[e("svm_alloc", 1), e("svm_verify", 2)]);
    section(&mut m, 10, &[body(&[0x41, 0, 0x0b]), body(&[0x41, 0, 0x0b]), body(&[2, 0x40, 0x10, 0, 0x0b, 0x10, 1, 0x0b])]);
    m
}
fn read(m: &[u8]) -> Option<Program> {
    let exports = vp::choose(2, "exports") == 0;
    let r = vp::no_panic("reading a module", || Program::new(m, exports));
    if let Ok(p) = &r {
        let _ = vp::no_panic("validation of a module", || validate_wasm(p, false));
    }
    r.ok()
}
fn untrusted(n: usize) {
    let mut m = HEADER.to_vec();
    m.extend(vp::vec(vp::choose(n, "length"), "bytes"));
    read(&m);
    vp::reach("end");
}
fn mutated() {
    let mut m = sample();
    let at = HEADER.len() + vp::choose(m.len() - HEADER.len(), "position");
    m[at] = vp::u8("byte");
    vp::reach(if read(&m).is_some() { "accepted" } else { "refused" });
}
