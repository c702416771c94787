//! Queries: each request gives the variable's value as the schema describes it.
use serde_json::Value as Json;
use svm_query::query::*;
use svm_query::render::*;
use svm_query::schema::*;

/// Memory with `short` bytes missing at the end of (or, negative, added to) each variable read.
struct Mem {
    bytes: Vec<u8>,
    cut: usize,
    more: usize,
    reads: Vec<usize>,
}
impl StorageReader<Json, JsonVarRenderer> for Mem {
    fn read_var_raw(&mut self, req: &StorageReq, var: &Var) -> Option<Vec<u8>> {
        self.reads.push(req.var_id);
        vp::check(req.var_id == var.id, "a request is given another variable");
        let (o, n) = (var.layout.offset, var.layout.length);
        if o + n > self.bytes.len() {
            return None;
        }
        let mut b = self.bytes[o..o + n].to_vec();
        for _ in 0..self.cut {
            b.pop();
        }
        for _ in 0..self.more {
            b.push(vp::u8("more"));
        }
        Some(b)
    }
}
fn ty(k: usize) -> VarType {
    match k {
        0 => VarType::Bool,
        1 => VarType::Int(false),
        2 => VarType::Int(true),
        3 => VarType::Blob,
        4 => VarType::Balance,
        5 => VarType::PubKey,
        _ => VarType::Address,
    }
}
fn digit(c: u8) -> u8 {
    if c > b'9' {
        c - 55
    } else {
        c - 48
    }
}
/// Whether `j` is exactly what a variable of this type with these bytes looks like.
fn expect(t: &VarType, b: &[u8], j: &Option<Json>) {
    match t {
        VarType::Bool => match (b, j) {
            ([x], Some(Json::Bool(v))) => vp::check(*x == *v as u8, "a boolean is shown wrong"),
            ([x], None) => vp::check(*x > 1, "a boolean isn't shown"),
            (_, j) => vp::check(j.is_none(), "a boolean of another size is shown"),
        },
        VarType::Int(signed) => {
            if b.is_empty() || b.len() > 8 {
                vp::check(j.is_none(), "an integer that's too long is shown");
                return;
            }
            int(b, *signed, j)
        }
        VarType::Balance => {
            if b.is_empty() || b.len() > 8 {
                return;
            }
            int(b, false, j)
        }
        VarType::Blob => text(b, "", j),
        VarType::PubKey | VarType::Address => text(b, "0x", j),
    }
}
fn int(b: &[u8], signed: bool, j: &Option<Json>) {
    let mut v = if signed && b[0] >= 0x80 { !0u64 } else { 0 };
    for x in b {
        v = v << 8 | *x as u64;
    }
    match j {
        Some(Json::Number(n)) => {
            if signed {
                vp::check(n.as_i64() == Some(v as i64), "a signed integer is shown wrong");
            } else {
                vp::check(n.as_u64() == Some(v), "an unsigned integer is shown wrong");
            }
        }
        _ => vp::check(false, "an integer isn't shown"),
    }
}
fn text(b: &[u8], prefix: &str, j: &Option<Json>) {
    match j {
        Some(Json::String(s)) => {
            let s = s.as_bytes();
            let n = prefix.len();
            vp::check(s.len() == n + 2 * b.len(), "bytes are shown in another length");
            vp::check(s[..n] == *prefix.as_bytes(), "bytes are shown with another prefix");
            for i in 0..b.len() {
                let (h, l) = (s[n + 2 * i], s[n + 2 * i + 1]);
                vp::check(h == b"0123456789ABCDEF"[digit(h) as usize & 15], "not hexadecimal text");
                vp::check(l == b"0123456789ABCDEF"[digit(l) as usize & 15], "not hexadecimal text");
                vp::check(digit(h) << 4 | digit(l) == b[i], "bytes are shown wrong");
            }
        }
        _ => vp::check(false, "bytes aren't shown"),
    }
}
fn var(id: usize, k: usize, offset: usize, length: usize) -> Var {
    Var { id, layout: VarLayout { offset, length }, ty: ty(k), name: "n".into(), desc: "d".into() }
}
fn req(var_id: usize) -> StorageReq {
    StorageReq { var_id, kind: StorageReqKind::Get, params: vec![] }
}

vp::entry! {
    /// One variable of any type, size and contents.
    fn h_query_var() {
        let k = vp::choose(7, "type");
        let n = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 20, 32][vp::choose(12, "length")];
        let o = vp::choose(2, "offset");
        let mut schema = Schema::new();
        schema.add_var(var(3, k, o, n));
        let bytes = vp::vec(n + 3, "bytes");
        let b = bytes[o..o + n].to_vec();
        let mut m = Mem { bytes, cut: 0, more: 0, reads: vec![] };
        let mut q = StorageQuery::new();
        q.add_req(req(3));
        let r = q.run(&schema, &mut m);
        vp::check(r.len() == 1, "a request has more or less than one result");
        expect(&ty(k), &b, &r[0]);
        vp::reach(if r[0].is_some() { "shown" } else { "not shown" });
    }
    /// Several requests: results in their order, missing variables and unreadable ones reported.
    fn h_query_batch() {
        let mut schema = Schema::new();
        schema.add_var(var(0, 1, 0, 2));
        schema.add_var(var(1, 3, 2, 1));
        // lies outside of the storage
        schema.add_var(var(2, 2, 4, 2));
        let bytes = vp::vec(5, "bytes");
        let mut m = Mem { bytes: bytes.clone(), cut: 0, more: 0, reads: vec![] };
        let mut q = StorageQuery::new();
        let n = vp::choose(4, "requests");
        let mut ids = vec![];
        for _ in 0..n {
            let id = vp::choose(4, "id");
            ids.push(id);
            q.add_req(req(id));
        }
        let r = q.run(&schema, &mut m);
        vp::check(r.len() == n, "a query has more or fewer results than requests");
        for (i, id) in ids.iter().enumerate() {
            match id {
                0 => expect(&VarType::Int(false), &bytes[..2], &r[i]),
                1 => expect(&VarType::Blob, &bytes[2..3], &r[i]),
                _ => vp::check(r[i].is_none(), "a variable that can't be read is shown"),
            }
        }
        for id in &m.reads {
            vp::check(ids.contains(id), "another variable is read than requested");
        }
        vp::reach("end");
    }
    /// A storage that doesn't match the schema: nothing is shown.
    fn h_query_mismatch() {
        let k = vp::choose(7, "type");
        let n = [1, 2, 8, 20][vp::choose(4, "length")];
        let mut schema = Schema::new();
        schema.add_var(var(0, k, 0, n));
        let more = vp::choose(3, "more");
        let cut = if more == 0 { 1 } else { 0 };
        let mut m = Mem { bytes: vp::vec(n, "bytes"), cut, more, reads: vec![] };
        let mut q = StorageQuery::new();
        q.add_req(req(0));
        let r = q.run(&schema, &mut m);
        vp::check(r.len() == 1 && r[0].is_none(), "data of another size than the variable's is shown");
        vp::reach("end");
    }
    /// Defining a variable again replaces it; variables are found by their ids alone.
    fn h_query_schema() {
        let mut schema = Schema::new();
        let mut last: [Option<Var>; 3] = [None, None, None];
        for _ in 0..3 {
            let id = vp::choose(3, "id");
            let v = Var {
                id,
                layout: VarLayout { offset: vp::usize("offset"), length: vp::usize("length") },
                ty: ty(vp::choose(2, "type")),
                name: "x".into(),
                desc: "y".into(),
            };
            last[id] = Some(v.clone());
            schema.add_var(v);
        }
        for id in 0..4 {
            let want = if id < 3 { last[id].take() } else { None };
            vp::check(schema.var(id) == want, "a schema has another variable");
        }
        vp::reach("end");
    }
}
