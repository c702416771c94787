//! Transactions through the C API do what the Rust API does.
use crate::*;

pub const CODE: [u8; 119] = [
    0, 97, 115, 109, 1, 0, 0, 0, 1, 13, 3, 96, 1, 127, 1, 127, 96, 0, 1, 127, 96, 0, 0, 3, 6, 5, 0, 1, 2, 2, 2, 5, 3, 1, 0, 1, 7, 56, 6, 6, 109, 101, 109, 111, 114, 121, 2, 0, 9, 115, 118, 109, 95, 97, 108, 108, 111, 99, 0, 0, 10, 115, 118, 109, 95, 118, 101, 114, 105, 102, 121, 0, 1, 4, 105, 110, 105, 116, 0, 2, 3, 114, 117, 110, 0, 3, 5, 111, 116, 104, 101, 114, 0, 4, 10, 23, 5, 5, 0, 65, 192, 0, 11, 4, 0, 65, 0, 11, 4, 0, 1, 1, 11, 2, 0, 11, 2, 0, 11,
];
const EXPORTS: &[(&str, &[Type], &[Type])] = &[
    ("svm_alloc", &[Type::I32], &[Type::I32]),
    ("svm_verify", &[], &[Type::I32]),
    ("init", &[], &[]),
    ("run", &[], &[]),
    ("other", &[], &[]),
];
/// What the guest did in the last transaction.
static mut RAN: Vec<(&'static str, Vec<u8>)> = vec![];
static mut MODE: usize = 0;
fn guest(g: &Guest, name: &'static str, _: &[Val]) -> Result<Vec<Val>, String> {
    let mut data = vec![];
    if name == "svm_alloc" {
        unsafe { RAN.push((name, data)) };
        return Ok(vec![Val::I32(64)]);
    }
    let o = g.host("svm_calldata_offset", &[]).unwrap().i32().unwrap();
    let n = g.host("svm_calldata_len", &[]).unwrap().i32().unwrap();
    if n > 0 {
        data = g.read(o as u32, n as u32);
    }
    unsafe { RAN.push((name, data)) };
    let result = if name == "svm_verify" { vec![Val::I32(0)] } else { vec![] };
    match unsafe { MODE } {
        0 => {
            g.write(200, b"out");
            g.host("svm_set_returndata", &[Val::I32(200), Val::I32(3)]);
            Ok(result)
        }
        1 => Err("trap".to_string()),
        _ => {
            g.host("svm_set64", &[Val::I32(99), 1u64.into()]);
            Ok(result)
        }
    }
}
fn sections(code: &[u8]) -> Sections {
    let mut s = Sections::default();
    s.insert(Section::Code(CodeSection::new(CodeKind::Wasm, code.to_vec(), 0, GasMode::Fixed, 0)));
    s.insert(Section::Data(DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(0, &[8])))));
    s.insert(Section::Ctors(CtorsSection::new(vec!["init".to_string()])));
    s.insert(Section::Header(HeaderSection::new(0, "n".to_string(), "d".to_string())));
    s
}
fn twin() -> Runtime {
    let tk = Arc::new(Tokio::new().unwrap());
    let gs = tk.block_on(GlobalState::in_memory(GenesisConfig::mainnet()));
    Runtime::new(tk, gs, TemplatePriceCache::new(PriceResolverRegistry::default()))
}
fn envelope() -> Vec<u8> {
    let gas = if vp::choose(2, "limited") == 0 { Gas::new() } else { Gas::with(vp::u64("gas limit")) };
    Envelope::new(addr(vp::choose(2, "principal")), vp::u64("amount"), 0, gas, vp::u64("fee")).encode_to_vec()
}
fn context() -> Vec<u8> {
    Context::new(TransactionId(vp::bytes("id")), Layer(vp::u64("layer")), State(vp::bytes("state"))).encode_to_vec()
}
#[derive(PartialEq)]
enum Kind {
    Deploy,
    Spawn,
    Verify,
    Call,
}
use Kind::*;
/// Runs one transaction through both interfaces.
fn both(p: *mut c_void, rt: &mut Runtime, kind: &Kind, e: &[u8], m: &[u8], c: &[u8]) -> bool {
    unsafe { RAN = vec![] };
    let r = unsafe {
        let n = m.len() as u32;
        match kind {
            Deploy => svm_deploy(p, e.as_ptr(), m.as_ptr(), n, c.as_ptr()),
            Spawn => svm_spawn(p, e.as_ptr(), m.as_ptr(), n, c.as_ptr()),
            Verify => svm_verify(p, e.as_ptr(), m.as_ptr(), n, c.as_ptr()),
            Call => svm_call(p, e.as_ptr(), m.as_ptr(), n, c.as_ptr()),
        }
    };
    let got = take(r);
    let ran = unsafe { std::mem::take(&mut RAN) };
    let want = match (Envelope::decode_bytes(e), Context::decode_bytes(c)) {
        (Ok(e), Ok(c)) => vp::catch(|| match kind {
            Deploy => rt.deploy(&e, m, &c).encode_to_vec(),
            Spawn => rt.spawn(&e, m, &c).encode_to_vec(),
            Verify => rt.verify(&e, m, &c).encode_to_vec(),
            Call => rt.call(&e, m, &c).encode_to_vec(),
        }),
        _ => None,
    };
    vp::check(unsafe { RAN == ran }, "another part of the code ran through the C API");
    let fine = match (got, want) {
        (Ok(Some(g)), Some(w)) => {
            vp::check(g == w, "the receipt differs from the runtime's");
            true
        }
        (Err(m), None) => {
            vp::check(!m.is_empty(), "an error without a message");
            false
        }
        (g, _) => {
            vp::check(g.is_ok(), "the C API fails where the runtime does not");
            vp::check(g.is_err(), "the C API succeeds where the runtime fails");
            false
        }
    };
    let now = vp::catch(|| rt.current_layer()).map(|(l, h)| (l.0, h.0));
    vp::check(layer_info(p) == now, "the layer differs from the runtime's");
    vp::check(ok(unsafe { svm_uncommitted_changes(p) }) != rt.has_uncommitted_changes().unwrap_or(true), "uncommitted changes differ from the runtime's");
    fine
}
/// Up to 6 bytes; a deployment has up to one section.
fn message() -> Vec<u8> {
    let mut m = vp::vec(vp::choose(7, "length"), "message");
    if m.len() >= 2 {
        m[0] = 0;
        m[1] = vp::choose(2, "sections") as u8;
    }
    m
}
fn world() -> (*mut c_void, Runtime) {
    register(&CODE, Program { pages: 1, max_pages: None, memory: true, start: false, exports: EXPORTS, code: guest });
    vp::check(ok(svm_init()), "svm_init");
    (create(), twin())
}
fn calls(to: &Address) -> Vec<u8> {
    let func = ["run", "svm_verify", "nope"][vp::choose(3, "function")];
    let t = Transaction { version: 0, func_name: func.to_string(), target: to.clone(), verifydata: vp::vec(1, "data"), calldata: vp::vec(vp::choose(2, "length"), "data") };
    t.encode_to_vec()
}
vp::entry! {
    fn h_ffi_actions() {
        let (p, mut rt) = world();
        let (e0, c0) = (Envelope::default().encode_to_vec(), Context::default().encode_to_vec());
        let s = sections(&CODE);
        let t = compute_template_addr(s.get(SectionKind::Code).as_code());
        let spawn = SpawnAccount::new(0, &t, "xy", "init", vp::vec(1, "data"));
        let to = compute_account_addr(&spawn);
        let stage = vp::choose(3, "stage");
        if stage > 0 {
            vp::check(both(p, &mut rt, &Deploy, &e0, &s.encode_to_vec(), &c0), "deploy");
        }
        if stage > 1 {
            vp::check(both(p, &mut rt, &Spawn, &e0, &spawn.encode_to_vec(), &c0), "spawn");
        }
        let (e, c) = (envelope(), context());
        unsafe { MODE = vp::choose(3, "outcome") };
        match stage {
            0 => {
                both(p, &mut rt, &Deploy, &e, &s.encode_to_vec(), &c);
                vp::reach("deploy");
            }
            1 => {
                both(p, &mut rt, &Spawn, &e, &spawn.encode_to_vec(), &c);
                vp::reach("spawn");
            }
            _ => {
                let m = calls(&to);
                if both(p, &mut rt, &Verify, &e, &m, &c) {
                    vp::reach("verify");
                }
                if both(p, &mut rt, &Call, &e, &m, &c) {
                    vp::reach("call");
                }
            }
        }
        // still of use
        unsafe { MODE = 0 };
        vp::check(ok(unsafe { svm_create_genesis_account(p, addr(0).0.as_ptr(), 5, 0, 0) }), "the runtime is of no use any more");
        rt.create_genesis_account(&addr(0), "", 5, 0).unwrap_or(());
        for a in [&addr(0), &to] {
            let x = account(p, a).map(|x| (x.balance, x.counter(), TemplateAddr(x.template_addr)));
            vp::check(x == rt.get_account(a), "an account differs from the runtime's");
        }
        vp::check(ok(unsafe { svm_commit(p) }) == rt.commit().is_ok(), "svm_commit");
        let (l, h) = rt.current_layer();
        vp::check(layer_info(p) == Some((l.0, h.0)), "the layer differs from the runtime's");
        vp::reach("end");
    }
    /// Envelopes, messages and contexts of any bytes.
    fn h_ffi_garbage() {
        let (p, mut rt) = world();
        let mut e = Envelope::default().encode_to_vec();
        let mut c = Context::default().encode_to_vec();
        let mut m = vec![];
        match vp::choose(3, "garbage") {
            0 => {
                let n = e.len();
                vp::fill(&mut e[n - 26..], "envelope");
            }
            1 => vp::fill(&mut c, "context"),
            _ => m = message(),
        }
        let kind = [Deploy, Spawn, Verify, Call];
        let k = &kind[vp::choose(4, "kind")];
        both(p, &mut rt, k, &e, &m, &c);
        both(p, &mut rt, &Deploy, &Envelope::default().encode_to_vec(), &sections(&CODE).encode_to_vec(), &Context::default().encode_to_vec());
        vp::reach("end");
    }
    fn h_ffi_validate() {
        let (p, rt) = world();
        let m = match vp::choose(5, "message") {
            0 => message(),
            1 => sections(&CODE).encode_to_vec(),
            2 => sections(&CODE[..8]).encode_to_vec(),
            3 => SpawnAccount::new(0, &TemplateAddr([9; 20]), "xy", "init", vp::vec(1, "data")).encode_to_vec(),
            _ => calls(&addr(0)),
        };
        let before = layer_info(p);
        let n = m.len() as u32;
        let (got, want) = unsafe {
            match vp::choose(3, "kind") {
                0 => (take(svm_validate_deploy(p, m.as_ptr(), n)), vp::catch(|| rt.validate_deploy(&m).map_err(|e| e.to_string()))),
                1 => (take(svm_validate_spawn(p, m.as_ptr(), n)), vp::catch(|| rt.validate_spawn(&m).map_err(|e| e.to_string()))),
                _ => (take(svm_validate_call(p, m.as_ptr(), n)), vp::catch(|| rt.validate_call(&m).map_err(|e| e.to_string()))),
            }
        };
        match want {
            Some(Ok(())) => {
                vp::check(got == Ok(None), "a valid message is refused");
                vp::reach("valid");
            }
            Some(Err(w)) => {
                vp::check(got == Err(w.into_bytes()), "the reason of a refusal");
                vp::reach("refused");
            }
            None => vp::check(got.is_err(), "an invalid message is accepted"),
        }
        vp::check(layer_info(p) == before && ok(unsafe { svm_uncommitted_changes(p) }), "validation changes the state");
        vp::reach("end");
    }
}
