vp::runtime!();
mod history;
mod root;
mod account;

use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use svm_genesis_config::GenesisConfig;
use svm_state::*;
use svm_types::*;

/// Polls a future to its end.
pub fn run<T>(mut f: impl Future<Output = T>) -> T {
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VT)
    }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    let w = unsafe { Waker::from_raw(clone(std::ptr::null())) };
    let mut cx = Context::from_waker(&w);
    let mut f = unsafe { Pin::new_unchecked(&mut f) };
    for _ in 0..64 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
    vp::check(false, "an operation never completes");
    unreachable!()
}
pub fn no_genesis() -> GenesisConfig {
    GenesisConfig { templates: HashMap::new() }
}
pub fn addr(i: usize) -> Address {
    Address([0x41 + i as u8; 20])
}
pub fn handle(gs: &GlobalState, a: usize, balance: u64, counter: u128) -> AccountStorage {
    run(AccountStorage::create_stub(gs.clone(), &addr(a), "a".to_string(), balance, counter)).unwrap()
}
