//! Templates: every set of sections round-trips, sections can be skipped, layouts keep their variables.
use crate::{blob, round_trip, text_n};
use std::collections::HashSet;
use std::io::Cursor;
use svm_codec::{template, Codec, SectionsDecoder};
use svm_layout::{FixedLayout, Layout};
use svm_types::*;

fn code(lens: &[usize]) -> CodeSection {
    CodeSection::new(CodeKind::Wasm, blob("code", lens), vp::u64("flags"), GasMode::Fixed, vp::u32("svm_version"))
}
fn layout(max: usize) -> Layout {
    let n = vp::choose(max + 1, "vars");
    let sizes: Vec<u32> = (0..n).map(|_| vp::u16("size") as u32).collect();
    if n == 0 {
        return Layout::Fixed(FixedLayout::default());
    }
    let first = vp::u32("first");
    vp::assume(first <= u32::MAX - 8);
    Layout::Fixed(FixedLayout::from_byte_sizes(first, &sizes))
}
fn data(layouts: usize, vars: usize) -> DataSection {
    let mut d = DataSection::default();
    for _ in 0..layouts {
        d.add_layout(layout(vars));
    }
    d
}
fn ctors(n: usize, len: usize) -> CtorsSection {
    if n > 100 {
        return CtorsSection::new((0..n).map(|i| if len == 0 { String::new() } else { ((i % 26) as u8 + b'a').to_string() }).collect());
    }
    CtorsSection::new((0..n).map(|_| text_n(len, "ctor")).collect())
}
fn header(a: usize, b: usize) -> HeaderSection {
    HeaderSection::new(vp::u32("code_version"), text_n(a, "name"), text_n(b, "description"))
}
fn deploy() -> DeploySection {
    DeploySection::new(TransactionId(vp::bytes::<32>("tx")), Layer(vp::u64("layer")), Address(vp::bytes::<20>("deployer")), TemplateAddr(vp::bytes::<20>("template")))
}

const KINDS: [SectionKind; 5] = [SectionKind::Code, SectionKind::Data, SectionKind::Ctors, SectionKind::Header, SectionKind::Deploy];
/// Sections in a rotated insertion order; `mask` selects the optional ones.
fn sections(mask: usize, rot: usize) -> Sections {
    let mut s = Sections::default();
    for i in 0..5 {
        let k = (i + rot) % 5;
        if mask >> k & 1 == 0 {
            continue;
        }
        s.insert(match k {
            0 => Section::Code(code(&[2])),
            1 => Section::Data(data(1, 1)),
            2 => Section::Ctors(ctors(1, 1)),
            3 => Section::Header(header(1, 0)),
            _ => Section::Deploy(deploy()),
        });
    }
    s
}

vp::entry! {
    fn h_sec_code() {
        let c = code(&[0, 1, 3, 300]);
        let b = round_trip(&c);
        let mut want = vec![0, 1];
        want.extend_from_slice(&c.flags().to_be_bytes());
        want.extend_from_slice(&1u64.to_be_bytes());
        want.extend_from_slice(&c.svm_version().to_be_bytes());
        want.extend_from_slice(&(c.code().len() as u32).to_be_bytes());
        want.extend_from_slice(c.code());
        vp::check(b == want, "code section layout");
        vp::reach("end")
    }
    fn h_sec_data() {
        let n = vp::choose(3, "layouts");
        let d = data(n, 2);
        let b = round_trip(&d);
        let mut want = (n as u16).to_be_bytes().to_vec();
        for l in d.layouts() {
            let l = l.as_fixed();
            want.extend_from_slice(&[0, 1]);
            want.extend_from_slice(&(l.len() as u16).to_be_bytes());
            if l.len() > 0 {
                want.extend_from_slice(&l.first().to_be_bytes());
            }
            for v in l.iter() {
                want.extend_from_slice(&(v.byte_size as u16).to_be_bytes());
            }
        }
        vp::check(b == want, "data section layout");
        vp::reach("end")
    }
    fn h_sec_data_wide() {
        // a variable size that the format cannot hold is refused, never changed
        let sizes = [vp::u32("a"), vp::u32("b")];
        let d = DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(5, &sizes)));
        match vp::catch(|| d.encode_to_vec()) {
            Some(b) => {
                let (e, n) = crate::dec::<DataSection>(&b).unwrap();
                vp::check(e == d && n == b.len(), "a variable changed its size in the round trip");
                vp::reach("fits")
            }
            None => {
                vp::check(sizes[0] > 0xffff || sizes[1] > 0xffff, "a layout that fits was refused");
                vp::reach("refused")
            }
        }
    }
    fn h_sec_ctors() {
        let n = vp::choose(4, "count");
        let l = vp::choose(3, "length");
        let c = ctors(n, l);
        let b = round_trip(&c);
        let mut want = vec![n as u8];
        for x in c.ctors() { crate::tx::put_str(&mut want, x); }
        vp::check(b == want, "ctors section layout");
        vp::reach("end")
    }
    fn h_sec_header() {
        let a = vp::choose(3, "name length");
        let b = [0, 1, 2, 255][vp::choose(4, "description length")];
        let h = header(a, b);
        let e = round_trip(&h);
        let mut want = h.code_version().to_be_bytes().to_vec();
        crate::tx::put_str(&mut want, h.name());
        crate::tx::put_str(&mut want, h.desc());
        vp::check(e == want, "header section layout");
        vp::reach("end")
    }
    fn h_sec_many() {
        // counts that need every bit of their field
        match vp::choose(4, "what") {
            0 => { round_trip(&ctors(254, 0)); }
            1 => { round_trip(&ctors(130, 1)); }
            2 => {
                let sizes: Vec<u32> = (0..300).map(|i| if i % 100 == 7 { vp::u16("size") as u32 } else { i }).collect();
                let mut d = DataSection::default();
                d.add_layout(Layout::Fixed(FixedLayout::from_byte_sizes(vp::u16("first") as u32, &sizes)));
                round_trip(&d);
            }
            _ => {
                let mut d = DataSection::default();
                for i in 0..260u32 { d.add_layout(Layout::Fixed(FixedLayout::from_byte_sizes(i, &[i]))); }
                round_trip(&d);
            }
        }
        vp::reach("end")
    }
    fn h_sec_deploy() {
        let d = deploy();
        let b = round_trip(&d);
        let mut want = d.tx_id().0.to_vec();
        want.extend_from_slice(&d.layer().0.to_be_bytes());
        want.extend_from_slice(&d.deployer().0);
        want.extend_from_slice(&d.template().0);
        vp::check(b == want, "deploy section layout");
        vp::reach("end")
    }
    fn h_sec_template() {
        let opt = vp::choose(4, "optional");
        let rot = vp::choose(5, "order");
        let s = sections(7 | opt << 3, rot);
        let b = round_trip(&s);
        // #sections, then kind, size and content of each, in order of insertion
        let mut want = (s.len() as u16).to_be_bytes().to_vec();
        for i in 0..5 {
            let k = (i + rot) % 5;
            let (kind, body) = match s.try_get(KINDS[k]) {
                Some(Section::Code(x)) => (1u16, x.encode_to_vec()),
                Some(Section::Data(x)) => (2, x.encode_to_vec()),
                Some(Section::Ctors(x)) => (3, x.encode_to_vec()),
                Some(Section::Header(x)) => (6, x.encode_to_vec()),
                Some(Section::Deploy(x)) => (7, x.encode_to_vec()),
                _ => continue,
            };
            want.extend_from_slice(&kind.to_be_bytes());
            want.extend_from_slice(&(body.len() as u32).to_be_bytes());
            want.extend_from_slice(&body);
        }
        vp::check(b == want, "template layout");
        let t = template::decode(&mut Cursor::new(&b[..]), None).unwrap();
        vp::check(*t.sections() == s, "template sections changed");
        vp::check(template::encode(&t) == b, "re-encoding a decoded template gives other bytes");
        vp::reach("end")
    }
    fn h_sec_interest() {
        // decoding only some sections gives exactly those sections
        let opt = vp::choose(4, "optional");
        let rot = vp::choose(5, "order");
        let s = sections(7 | opt << 3, rot);
        let b = s.encode_to_vec();
        let mut want = HashSet::new();
        let pick = vp::choose(4, "interest");
        for k in 0..3 {
            want.insert(KINDS[k]);
        }
        for k in 3..5 {
            if pick >> (k - 3) & 1 == 1 {
                want.insert(KINDS[k]);
            }
        }
        let t = template::decode(&mut Cursor::new(&b[..]), Some(want.clone())).unwrap();
        for k in KINDS.iter() {
            let got = t.try_get(*k);
            if want.contains(k) {
                vp::check(got == s.try_get(*k), "a requested section is missing or changed");
            } else {
                vp::check(got.is_none(), "a section that was not requested");
            }
        }
        // core sections are mandatory
        want.remove(&KINDS[vp::choose(3, "dropped")]);
        vp::check(template::decode(&mut Cursor::new(&b[..]), Some(want)).is_err(), "a template without a core section");
        vp::reach("end")
    }
    fn h_sec_skip() {
        let mask = vp::choose(32, "sections");
        let s = sections(mask, vp::choose(3, "order"));
        let mut b = s.encode_to_vec();
        b.push(0x77);
        let mut c = Cursor::new(&b[..]);
        let mut d = SectionsDecoder::new(&mut c).unwrap();
        vp::check(d.section_count() == s.len(), "section count");
        let mut i = 0;
        while !d.is_eof() {
            let p = d.next_preview().unwrap();
            if vp::choose(2, "skip") == 1 {
                d.skip_section().unwrap();
            } else {
                let x = d.decode_section().unwrap();
                vp::check(x.kind() == p.kind() && Some(&x) == s.try_get(p.kind()), "a section changed after others were skipped");
            }
            i += 1;
        }
        vp::check(i == s.len() && d.next_preview().is_err(), "sections lost or invented");
        vp::check(c.position() as usize == b.len() - 1, "sections overrun their bytes");
        vp::reach("end")
    }
    fn h_sec_big() {
        // a code section of more than 64 KiB, decoded and skipped
        let mut wasm = vec![0x5a; 70_001];
        let at = [0, 65_535, 70_000][vp::choose(3, "at")];
        wasm[at] = vp::u8("byte");
        let c = CodeSection::new(CodeKind::Wasm, wasm, vp::u64("flags"), GasMode::Fixed, vp::u32("svm_version"));
        let mut s = sections(0b11110, vp::choose(2, "order"));
        s.insert(Section::Code(c.clone()));
        let b = s.encode_to_vec();
        let (d, n) = crate::dec::<Sections>(&b).unwrap();
        vp::check(n == b.len() && d == s, "sections changed");
        let mut cur = Cursor::new(&b[..]);
        let mut d = SectionsDecoder::new(&mut cur).unwrap();
        while !d.is_eof() {
            let p = d.next_preview().unwrap();
            if p.kind() == SectionKind::Code {
                d.skip_section().unwrap();
            } else {
                let x = d.decode_section().unwrap();
                vp::check(Some(&x) == s.try_get(p.kind()), "a section changed after a big one was skipped");
            }
        }
        vp::check(cur.position() as usize == b.len(), "sections overrun their bytes");
        vp::reach("end")
    }
    fn h_layout() {
        // variables lie next to each other, in order, and never overlap
        let n = vp::choose(5, "vars");
        let first = vp::u32("first");
        vp::assume(first <= u32::MAX - 8);
        let sizes: Vec<u32> = (0..n).map(|_| vp::u16("size") as u32).collect();
        let l = FixedLayout::from_byte_sizes(first, &sizes);
        vp::check(l.len() == n && l.is_empty() == (n == 0), "number of variables");
        let mut off = 0u64;
        for i in 0..n {
            let v = *l.get(first + i as u32);
            vp::check(v.id == first + i as u32 && v.byte_size == sizes[i] && v.offset as u64 == off, "variable placement");
            vp::check(l.try_get(first + i as u32).copied() == Some(v), "variable lookup");
            off += sizes[i] as u64;
        }
        let mut i = 0;
        for v in l.iter() {
            vp::check(v == *l.get(first + i), "iteration order");
            i += 1;
        }
        vp::check(i as usize == n, "iteration length");
        let other = vp::u32("other");
        vp::assume(other < first || other - first >= n as u32);
        vp::check(vp::catch(|| l.get(other).byte_size).is_none(), "a variable outside the layout was found");
        vp::reach("end")
    }
    fn h_layout_many() {
        // many variables, of small and large sizes, two of them of any size
        let n = [9usize, 17, 40, 300][vp::choose(4, "vars")];
        let at = [0, n / 2][vp::choose(2, "at")];
        let base = [0u32, 1, 31, 1000][vp::choose(4, "sizes")];
        let mut sizes: Vec<u32> = (0..n as u32).map(|i| base + i % 3).collect();
        sizes[at] = vp::u16("size") as u32;
        sizes[at + 2] = vp::u16("other size") as u32;
        let first = [0u32, 77][vp::choose(2, "first")];
        let l = FixedLayout::from_byte_sizes(first, &sizes);
        vp::check(l.len() == n, "number of variables");
        let mut off = 0u32;
        for (i, v) in l.iter().enumerate() {
            vp::check(v.id == first + i as u32 && v.byte_size == sizes[i] && v.offset == off && *l.get(v.id) == v, "variable placement");
            off += sizes[i];
        }
        vp::reach("end")
    }
}
