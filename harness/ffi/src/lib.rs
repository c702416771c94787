vp::runtime!();
mod account;
mod action;
mod handle;
mod result;

pub use std::ffi::c_void;
pub use std::ptr::null_mut;
pub use std::sync::Arc;
pub use svm_codec::Codec;
pub use svm_genesis_config::GenesisConfig;
pub use svm_layout::{FixedLayout, Layout};
pub use svm_runtime::{compute_account_addr, PriceResolverRegistry, Runtime, TemplatePriceCache};
pub use svm_runtime_ffi::*;
pub use svm_state::GlobalState;
pub use svm_types::*;
pub use tokio::runtime::Runtime as Tokio;
pub use wasmer::vp::{register, Guest, Program};
pub use wasmer::{Type, Val};

/// Bytes that are allocated.
pub fn live() -> isize {
    unsafe { wee_alloc::LIVE }
}
/// What C sees of a result.
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Raw {
    pub receipt: *const u8,
    pub error: *const u8,
    pub size: u32,
}
pub fn raw(r: &svm_result_t) -> Raw {
    vp::check(std::mem::size_of::<svm_result_t>() == std::mem::size_of::<Raw>(), "the layout of results");
    unsafe { *(r as *const svm_result_t as *const Raw) }
}
/// Checks the form of a result: `Ok(None)`, `Ok(receipt)` or `Err(message)`.
pub fn view(r: &svm_result_t) -> Result<Option<Vec<u8>>, Vec<u8>> {
    let c = raw(r);
    vp::check(r.is_ok() == c.error.is_null() && r.is_err() != r.is_ok(), "is_ok and is_err of a result");
    vp::check(c.error.is_null() || c.receipt.is_null(), "a result has both a receipt and an error");
    let bytes = |p: *const u8| unsafe { std::slice::from_raw_parts(p, c.size as usize) }.to_vec();
    if !c.error.is_null() {
        vp::check(r.receipt().is_none(), "an error has a receipt");
        Err(bytes(c.error))
    } else if !c.receipt.is_null() {
        let b = bytes(c.receipt);
        vp::check(r.receipt() == Some(&b[..]), "the receipt of a result");
        Ok(Some(b))
    } else {
        vp::check(r.receipt().is_none() && c.size == 0, "a result without data");
        Ok(None)
    }
}
/// Takes the result as C does and frees it.
pub fn take(r: svm_result_t) -> Result<Option<Vec<u8>>, Vec<u8>> {
    let v = view(&r);
    unsafe { svm_free_result(r) };
    v
}
pub fn ok(r: svm_result_t) -> bool {
    match take(r) {
        Ok(b) => {
            vp::check(b.is_none(), "a receipt from a function that has none");
            true
        }
        Err(m) => {
            vp::check(!m.is_empty(), "an error without a message");
            false
        }
    }
}
pub fn create() -> *mut c_void {
    let mut p = null_mut();
    let r = unsafe { svm_runtime_create(&mut p, std::ptr::null(), 0) };
    vp::check(ok(r) && !p.is_null(), "a runtime cannot be created");
    p
}
pub fn layer_info(p: *mut c_void) -> Option<(u64, [u8; 32])> {
    let (mut h, mut l) = ([0u8; 32], 0);
    ok(unsafe { svm_layer_info(p, h.as_mut_ptr(), &mut l) }).then(|| (l, h))
}
pub fn account(p: *mut c_void, a: &Address) -> Option<svm_account> {
    let mut x = svm_account { address: [0xEE; 20], balance: 1, counter_upper_bits: 2, counter_lower_bits: 3, template_addr: [0xEE; 20] };
    ok(unsafe { svm_get_account(p, a.0.as_ptr(), &mut x) }).then(|| x)
}
pub fn addr(i: usize) -> Address {
    Address([0x41 + i as u8; 20])
}
