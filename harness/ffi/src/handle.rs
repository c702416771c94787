//! Creating, using and destroying runtimes.
use crate::*;

vp::entry! {
    fn h_ffi_create() {
        let mut p = null_mut();
        vp::check(svm_runtimes_count() == 0, "runtimes before the first one");
        if vp::choose(2, "without initialization") == 0 {
            let r = unsafe { svm_runtime_create(&mut p, std::ptr::null(), 0) };
            vp::check(!ok(r) && p.is_null(), "a runtime before svm_init");
            vp::check(svm_runtimes_count() == 0, "a runtime that was not created is counted");
            vp::check(!ok(unsafe { svm_commit(p) }), "a null handle is accepted");
            vp::check(!ok(svm_runtime_destroy(p)), "a null handle is destroyed");
        }
        vp::check(ok(svm_init()), "svm_init");
        if vp::choose(2, "wrong path") == 0 {
            let path = vp::bytes::<2>("path");
            vp::assume(std::str::from_utf8(&path).is_err());
            let r = unsafe { svm_runtime_create(&mut p, path.as_ptr(), 2) };
            vp::check(!ok(r) && p.is_null() && svm_runtimes_count() == 0, "a runtime at an invalid path");
            vp::reach("invalid path");
        }
        vp::check(vp::catch(|| ok(svm_init())) == Some(true), "svm_init after a failure");
        let q = create();
        vp::check(svm_runtimes_count() == 1 && ok(unsafe { svm_uncommitted_changes(q) }), "the first runtime");
        vp::check(ok(svm_runtime_destroy(q)) && svm_runtimes_count() == 0, "destroying a runtime");
        vp::reach("end");
    }
    fn h_ffi_handles() {
        vp::check(ok(svm_init()), "svm_init");
        let junk = 8usize;
        let mut all: Vec<(*mut c_void, bool, u64)> = vec![(null_mut(), false, 0), (junk as *mut c_void, false, 0)];
        for _ in 0..3 {
            let k = vp::choose(all.len() + 1, "step");
            if k == all.len() {
                let p = create();
                vp::check(all.iter().all(|h| h.0 != p || !h.1), "two runtimes have the same handle");
                all.retain(|h| h.0 != p);
                all.push((p, true, 0));
            } else {
                let (p, alive, amount) = all[k];
                if vp::choose(2, "destroy") == 0 {
                    vp::check(ok(svm_runtime_destroy(p)) == alive, "svm_runtime_destroy of a handle");
                    all[k].1 = false;
                } else {
                    let had = account(p, &addr(0));
                    vp::check(had.map(|a| a.balance) == if amount > 0 { Some(amount) } else { None }, "an account of another runtime");
                    if amount == 0 {
                        let v = vp::upto(1000, "amount") + 1;
                        let r = ok(unsafe { svm_create_genesis_account(p, addr(0).0.as_ptr(), v, 0, 0) });
                        vp::check(r == alive, "use of a handle");
                        all[k].2 = if alive { v } else { 0 };
                    }
                    vp::check(ok(unsafe { svm_commit(p) }) == alive && layer_info(p).is_some() == alive, "use of a handle");
                }
                if !all[k].1 {
                    all[k].2 = 0;
                }
            }
            vp::check(svm_runtimes_count() == all.iter().filter(|h| h.1).count() as u64, "the number of runtimes");
        }
        vp::reach("end");
    }
    /// A destroyed runtime leaves nothing behind.
    fn h_ffi_destroy() {
        vp::check(ok(svm_init()), "svm_init");
        let n = vp::choose(2, "more runtimes");
        for _ in 0..n + 1 {
            ok(svm_runtime_destroy(create()));
        }
        let before = live();
        let p = create();
        if vp::choose(2, "use") == 0 {
            vp::check(ok(unsafe { svm_create_genesis_account(p, addr(0).0.as_ptr(), 5, 0, 0) }), "an account");
            vp::check(ok(unsafe { svm_commit(p) }), "commit");
        }
        vp::check(live() > before, "a runtime needs no memory");
        vp::check(ok(svm_runtime_destroy(p)), "destroying a runtime");
        vp::check(live() == before, "a destroyed runtime is not freed");
        vp::reach("end");
    }
}
vp::entry! {
    /// A runtime with a path finds what was committed there, and only there.
    fn h_ffi_reopen() {
        vp::check(ok(svm_init()), "svm_init");
        // the path ends before the last byte
        let at = |name: &[u8], n: u32| {
            let mut p = null_mut();
            vp::check(ok(unsafe { svm_runtime_create(&mut p, name.as_ptr(), n) }), "a runtime with a path");
            p
        };
        let p = at(b"sqlite://onex", 12);
        let v = [vp::u64("balance"), vp::u64("balance")];
        for i in 0..2 {
            vp::check(ok(unsafe { svm_create_genesis_account(p, addr(i).0.as_ptr(), v[i], 0, 0) }), "an account");
            if i == 0 {
                vp::check(ok(unsafe { svm_commit(p) }), "svm_commit");
            }
        }
        let info = layer_info(p);
        let other = vp::choose(3, "other");
        let keep = if vp::choose(2, "destroy") == 0 {
            vp::check(ok(svm_runtime_destroy(p)), "destroying a runtime");
            0
        } else {
            1
        };
        let q = match other {
            0 => at(b"sqlite://oney", 12),
            1 => at(b"sqlite://twox", 12),
            _ => create(),
        };
        vp::check(svm_runtimes_count() == 1 + keep, "the number of runtimes");
        let a = account(q, &addr(0)).map(|a| a.balance);
        vp::check(account(q, &addr(1)).is_none(), "an account that was not committed");
        if other == 0 {
            vp::check(a == Some(v[0]) && layer_info(q) == info, "a commit is not found again");
        } else {
            vp::check(a.is_none() && layer_info(q).is_none(), "an account of another database");
        }
        vp::reach("end");
    }
}
