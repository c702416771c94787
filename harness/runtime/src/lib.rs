vp::runtime!();
mod call;
mod spawn;
mod memory;

pub use std::sync::Arc;
pub use svm_codec::Codec;
pub use svm_genesis_config::GenesisConfig;
pub use svm_layout::{FixedLayout, Layout};
pub use svm_runtime::*;
pub use svm_state::*;
pub use svm_types::*;
pub use tokio::runtime::Runtime as Tokio;
pub use wasmer::vp::{register, Guest, GuestCode, Program};
pub use wasmer::{Type, Val};

/// A module with svm_alloc, svm_verify, init, run and other.
pub const CODE: [u8; 119] = [
    0, 97, 115, 109, 1, 0, 0, 0, 1, 13, 3, 96, 1, 127, 1, 127, 96, 0, 1, 127, 96, 0, 0, 3, 6, 5, 0, 1, 2, 2, 2, 5, 3, 1, 0, 1, 7, 56, 6, 6, 109, 101, 109, 111, 114, 121, 2, 0, 9, 115, 118, 109, 95, 97, 108, 108, 111, 99, 0, 0, 10, 115, 118, 109, 95, 118, 101, 114, 105, 102, 121, 0, 1, 4, 105, 110, 105, 116, 0, 2, 3, 114, 117, 110, 0, 3, 5, 111, 116, 104, 101, 114, 0, 4, 10, 23, 5, 5, 0, 65, 192, 0, 11, 4, 0, 65, 0, 11, 4, 0, 1, 1, 11, 2, 0, 11, 2, 0, 11,
];
/// Another module with the same exports: it does nothing when run.
pub fn code2() -> Vec<u8> {
    let mut c = CODE.to_vec();
    c[100] = 193;
    c
}
pub const EXPORTS: &[(&str, &[Type], &[Type])] = &[
    ("svm_alloc", &[Type::I32], &[Type::I32]),
    ("svm_verify", &[], &[Type::I32]),
    ("init", &[], &[]),
    ("run", &[], &[]),
    ("other", &[], &[]),
    ("badsig", &[Type::I32], &[]),
];
fn idle(_: &Guest, name: &'static str, _: &[Val]) -> Result<Vec<Val>, String> {
    Ok(match name {
        "svm_alloc" => vec![Val::I32(64)],
        "svm_verify" => vec![Val::I32(0)],
        _ => vec![],
    })
}
pub fn program(code: GuestCode) -> Program {
    Program { pages: 1, max_pages: None, memory: true, start: false, exports: EXPORTS, code }
}
pub const SIZES: [u32; 6] = [20, 8, 4, 20, 1, 8];
pub fn sections(code: &[u8]) -> Sections {
    let mut s = Sections::default();
    s.insert(Section::Code(CodeSection::new(CodeKind::Wasm, code.to_vec(), 0, GasMode::Fixed, 0)));
    s.insert(Section::Data(DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(0, &SIZES)))));
    s.insert(Section::Ctors(CtorsSection::new(vec!["init".to_string(), "gone".to_string()])));
    s
}
pub fn addr(i: usize) -> Address {
    Address([0x41 + i as u8; 20])
}
pub fn taddr(i: usize) -> TemplateAddr {
    TemplateAddr([0x80 + i as u8; 20])
}
pub struct W {
    pub rt: Runtime,
    pub gs: GlobalState,
    pub tk: Arc<Tokio>,
    pub bal: [u64; 3],
}
pub fn gs_of(tk: &Tokio) -> GlobalState {
    tk.block_on(GlobalState::in_memory(GenesisConfig { templates: Default::default() }))
}
pub fn runtime_of(tk: &Arc<Tokio>, gs: &GlobalState) -> Runtime {
    Runtime::new(tk.clone(), gs.clone(), TemplatePriceCache::new(PriceResolverRegistry::default()))
}
/// Accounts 0 and 1 run `code`, account 2 does nothing. All are committed.
pub fn world(code: GuestCode) -> W {
    register(&CODE, program(code));
    register(&code2(), program(idle));
    let tk = Arc::new(Tokio::new().unwrap());
    let gs = gs_of(&tk);
    let mut rt = runtime_of(&tk, &gs);
    for (i, c) in [CODE.to_vec(), code2()].iter().enumerate() {
        let s = sections(c);
        tk.block_on(TemplateStorage::create(gs.clone(), &taddr(i), s.clone(), s)).unwrap();
    }
    let bal = [vp::u64("balance"), vp::u64("balance"), vp::u64("balance")];
    for i in 0..3 {
        rt.create_account(&addr(i), taddr(i / 2), "n".to_string(), bal[i], i as u128).unwrap();
    }
    let mut g = gs.clone();
    tk.block_on(g.checkpoint()).unwrap();
    tk.block_on(g.commit()).unwrap();
    W { rt, gs, tk, bal }
}
#[derive(Clone, PartialEq)]
pub struct Obs {
    pub bal: [u64; 3],
    pub vars: Vec<Vec<u8>>,
}
pub fn fresh(bal: [u64; 3]) -> Obs {
    let mut vars = Vec::new();
    for _ in 0..3 {
        for s in SIZES {
            vars.push(vec![0; s as usize]);
        }
    }
    Obs { bal, vars }
}
impl Obs {
    pub fn var(&mut self, acc: usize, id: usize) -> &mut Vec<u8> {
        &mut self.vars[acc * SIZES.len() + id]
    }
}
impl W {
    pub fn account(&self, i: usize) -> AccountStorage {
        self.tk.block_on(AccountStorage::load(self.gs.clone(), &addr(i))).unwrap()
    }
    pub fn observe(&self) -> Obs {
        let mut vars = Vec::new();
        let mut bal = [0; 3];
        for i in 0..3 {
            let a = self.account(i);
            bal[i] = self.tk.block_on(a.balance()).unwrap();
            vp::check(self.tk.block_on(a.counter()).unwrap() == i as u128, "a counter changed");
            vp::check(self.tk.block_on(a.template_addr()).unwrap() == taddr(i / 2), "the template of an account changed");
            for v in 0..SIZES.len() {
                vars.push(self.tk.block_on(a.get_var_vec(v as u32)).unwrap());
            }
        }
        Obs { bal, vars }
    }
    pub fn expect(&self, o: &Obs, msg: &str) {
        let n = self.observe();
        vp::check(n.bal == o.bal, &format!("{}: balances", msg));
        for (a, b) in n.vars.iter().zip(&o.vars) {
            vp::check(a == b, &format!("{}: variables", msg));
        }
    }
    pub fn root(&mut self) -> (Layer, State) {
        self.rt.current_layer()
    }
    /// Account 2 runs a function that does nothing: what is in the state is now committed.
    pub fn idle_call(&mut self) {
        let r = self.rt.call(&Envelope::default(), &call(2, "other", &[]), &Context::default());
        vp::check(r.success, "a call that does nothing fails");
    }
}
pub fn call(target: usize, func: &str, calldata: &[u8]) -> Vec<u8> {
    Transaction { version: 0, func_name: func.to_string(), target: addr(target), verifydata: vec![7], calldata: calldata.to_vec() }.encode_to_vec()
}
