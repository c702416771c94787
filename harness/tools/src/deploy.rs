//! Deployments crafted by the command line tool from the metadata that the SDK emits.
use svm_layout::Layout;

#[allow(unused, dead_code)]
mod meta {
    include!("/repo/crates/host/cli/src/subcmd_craft_deploy/meta.rs");
}
use meta::TemplateMeta;

/// What the metadata says.
struct Field {
    id: u64,
    offset: usize,
    size: usize,
    len: Option<usize>,
}
fn layout(m: &TemplateMeta) -> Vec<(u32, u32, u32)> {
    match m.data_section().layouts() {
        [Layout::Fixed(f)] => f.iter().map(|v| (v.id, v.offset, v.byte_size)).collect(),
        _ => {
            vp::check(false, "a data section has other than one layout");
            vec![]
        }
    }
}
fn check_layout(m: &TemplateMeta, fields: &[Field]) {
    let got = layout(m);
    let mut i = 0;
    for f in fields {
        for k in 0..f.len.unwrap_or(1) {
            vp::check(i < got.len(), "a field has no variable");
            let (id, offset, size) = got[i];
            vp::check(id as u64 == f.id + k as u64, "a field has another variable id than its metadata says");
            vp::check(offset as usize == f.offset + k * f.size, "a field lies elsewhere than its metadata says");
            vp::check(size as usize == f.size, "a field has another size than its metadata says");
            i += 1;
        }
    }
    vp::check(i == got.len(), "a layout has more variables than there are fields");
}
fn num(s: &mut String, n: u64) {
    let mut d = vec![];
    let mut n = n;
    loop {
        d.push(b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    d.reverse();
    s.push_str(unsafe { std::str::from_utf8_unchecked(&d) });
}
fn field(s: &mut String, name: &str, v: u64) {
    s.push('"');
    s.push_str(name);
    s.push_str("\":");
    num(s, v);
}

use svm_sdk_mock::storage::MockStorage;
use svm_sdk_mock::traits::Storage as _;
use svm_sdk_mock::Amount;

#[svm_sdk_mock::template]
mod Contract {
    #[storage]
    struct Store {
        a: bool,
        b: [i16; 3],
        c: svm_sdk::Address,
        i: [u32; 9],
        d: u64,
        e: [svm_sdk::Amount; 2],
        f: u32,
        g: [svm_sdk::Address; 2],
        h: i8,
    }
    #[ctor]
    fn first() {}
    #[endpoint]
    fn use_it(x: u32) -> u32 {
        x
    }
    #[ctor]
    fn second(_x: u64) {}
}
fn parse(s: &str) -> Option<TemplateMeta> {
    serde_json::from_str(s).ok()
}

vp::entry! {
    /// Any sizes and lengths of the fields.
    fn h_cli_layout() {
        let n = vp::choose(4, "fields");
        let mut s = String::from("{\"schema\":[");
        let mut fields = vec![];
        let (mut id, mut offset) = (0, 0);
        for i in 0..n {
            if i > 0 {
                s.push(',');
            }
            let len = match vp::choose(5, "length") {
                4 => None,
                l => Some(l),
            };
            // a size of one or two symbolic digits
            let d = vp::vec(1 + vp::choose(2, "digits"), "size");
            let mut size = 0usize;
            for (k, c) in d.iter().enumerate() {
                vp::assume(*c >= if k == 0 { b'1' } else { b'0' } && *c <= b'9');
                size = size * 10 + (*c - b'0') as usize;
            }
            s.push('{');
            field(&mut s, "id", id);
            s.push_str(",\"name\":\"x\",\"type\":\"u8\",\"offset\":0,\"byte_count\":");
            s.push_str(unsafe { std::str::from_utf8_unchecked(&d) });
            if let Some(l) = len {
                s.push(',');
                field(&mut s, "length", l as u64);
            }
            s.push('}');
            fields.push(Field { id, offset, size, len });
            id += len.unwrap_or(1) as u64;
            offset += size * len.unwrap_or(1);
        }
        s.push_str("],\"api\":[]}");
        match parse(&s) {
            Some(m) => check_layout(&m, &fields),
            None => vp::check(false, "valid metadata is refused"),
        }
        vp::reach("end");
    }
    /// The constructors, and nothing else, are listed.
    fn h_cli_ctors() {
        let n = vp::choose(4, "functions");
        let mut s = String::from("{\"schema\":[],\"api\":[");
        let mut want = vec![];
        for i in 0..n {
            if i > 0 {
                s.push(',');
            }
            let name = vp::vec(1 + i % 2, "name");
            for c in &name {
                vp::assume(*c >= 0x20 && *c < 0x80 && *c != b'"' && *c != b'\\');
            }
            let name = unsafe { String::from_utf8_unchecked(name) };
            let (ctor, fund) = (vp::choose(2, "ctor") == 1, vp::choose(2, "fund") == 1);
            s.push_str("{\"name\":\"");
            s.push_str(&name);
            s.push_str("\",\"wasm_name\":\"");
            s.push_str(&name);
            s.push_str("\",\"is_ctor\":");
            s.push_str(if ctor { "true" } else { "false" });
            s.push_str(",\"is_fundable\":");
            s.push_str(if fund { "true" } else { "false" });
            s.push_str(",\"doc\":\"\",\"signature\":{\"params\":[");
            if vp::choose(2, "param") == 1 {
                s.push_str("{\"name\":\"p\",\"type\":\"[u8]\",\"length\":2}");
            }
            s.push_str("],\"returns\":{}}}");
            if ctor {
                want.push(name);
            }
        }
        s.push_str("]}");
        match parse(&s) {
            Some(m) => {
                let got = m.ctors_section();
                vp::check(got.ctors() == &want[..], "other functions than the constructors are listed");
            }
            None => vp::check(false, "valid metadata is refused"),
        }
        vp::reach("end");
    }
    /// The metadata that the SDK emits for a contract gives the layout its accessors use.
    fn h_cli_sdk() {
        let raw = raw_meta();
        let j: serde_json::Value = serde_json::from_str(&raw).unwrap();
        let fields: Vec<Field> = j["schema"]
            .as_array()
            .unwrap()
            .iter()
            .map(|f| Field {
                id: f["id"].as_u64().unwrap(),
                offset: f["offset"].as_u64().unwrap() as usize,
                size: f["byte_count"].as_u64().unwrap() as usize,
                len: f.get("length").map(|l| l.as_u64().unwrap() as usize),
            })
            .collect();
        match parse(&raw) {
            Some(m) => {
                check_layout(&m, &fields);
                let c = m.ctors_section();
                let mut names: Vec<&str> = c.ctors().iter().map(|s| s.as_str()).collect();
                names.sort();
                vp::check(names == ["first", "second"], "other constructors");
                vp::check(fields.len() == 9, "fields are missing");
                let id = |n: &str, k: u32| {
                    let f = j["schema"].as_array().unwrap().iter().find(|f| f["name"] == n).unwrap();
                    f["id"].as_u64().unwrap() as u32 + k
                };
                let (a, b, d, e, f, h) = (vp::bool("a"), vp::i16("b"), vp::u64("d"), vp::u64("e"), vp::u32("f"), vp::i8("h"));
                let k = vp::choose(2, "index");
                let (l, i) = (vp::choose(9, "long index"), vp::u32("i"));
                Store::set_i(l, i);
                Store::set_a(a);
                Store::set_b(k, b);
                Store::set_d(d);
                Store::set_e(k, Amount(e));
                Store::set_f(f);
                Store::set_h(h);
                vp::check(MockStorage::get32(id("i", l as u32)) == i, "an accessor uses another variable than the metadata says");
                vp::check(MockStorage::get32(id("a", 0)) == a as u32, "an accessor uses another variable than the metadata says");
                vp::check(MockStorage::get32(id("b", k as u32)) as i16 == b, "an accessor uses another variable than the metadata says");
                vp::check(MockStorage::get64(id("d", 0)) == d, "an accessor uses another variable than the metadata says");
                vp::check(MockStorage::get64(id("e", k as u32)) == e, "an accessor uses another variable than the metadata says");
                vp::check(MockStorage::get32(id("f", 0)) == f, "an accessor uses another variable than the metadata says");
                vp::check(MockStorage::get32(id("h", 0)) as i8 == h, "an accessor uses another variable than the metadata says");
            }
            None => vp::check(false, "the command line tool refuses the SDK's metadata"),
        }
        vp::reach("end");
    }
}
