//! Stand-in for tokio: a runtime that polls one future to its end on the calling thread.
pub mod runtime {
    use std::cell::Cell;
    use std::future::Future;
    use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

    thread_local!(static INSIDE: Cell<bool> = Cell::new(false));
    #[derive(Debug)]
    pub struct Runtime(u8);
    struct Leave;
    impl Drop for Leave {
        fn drop(&mut self) {
            INSIDE.with(|x| x.set(false))
        }
    }
    impl Runtime {
        pub fn new() -> std::io::Result<Runtime> {
            Ok(Runtime(0))
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            fn clone(_: *const ()) -> RawWaker {
                RawWaker::new(std::ptr::null(), &VT)
            }
            fn nop(_: *const ()) {}
            static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
            if INSIDE.with(|x| x.replace(true)) {
                std::mem::forget(Leave);
                panic!("Cannot start a runtime from within a runtime");
            }
            let _leave = Leave;
            let w = unsafe { Waker::from_raw(clone(std::ptr::null())) };
            let mut cx = Context::from_waker(&w);
            let mut f = Box::pin(f);
            for _ in 0..64 {
                if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
                    return x;
                }
            }
            panic!("a future never completes");
        }
    }
}
