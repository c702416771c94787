//! Results and who owns their memory.
use crate::*;

vp::entry! {
    fn h_ffi_result() {
        let n = vp::choose(5, "length");
        let d = vp::vec(n, "data");
        let kind = vp::choose(3, "kind");
        let make = || match kind {
            0 => svm_result_t::OK,
            1 => svm_result_t::new_receipt(&d),
            _ => svm_result_t::new_error(&d),
        };
        let right = |r: &svm_result_t| match kind {
            0 => view(r) == Ok(None),
            1 => view(r) == Ok(Some(d.clone())),
            _ => view(r) == Err(d.clone()),
        };
        let before = live();
        let r = make();
        vp::check(right(&r), "a result does not hold what it was made of");
        match vp::choose(if kind == 2 { 3 } else { 4 }, "use") {
            0 => drop(r),
            1 => unsafe { svm_free_result(r) },
            2 => {
                let c = r.clone();
                vp::check(right(&c) && c == r, "the copy of a result");
                if vp::choose(2, "order") == 0 {
                    drop(r);
                    vp::check(right(&c), "a copy changes when the original is freed");
                    drop(c);
                } else {
                    drop(c);
                    vp::check(right(&r), "a result changes when its copy is freed");
                    drop(r);
                }
            }
            _ => {
                let u = r.unwrap();
                let want = if kind == 0 { None } else { Some(d.clone()) };
                vp::check(u == want, "what unwrap returns");
                let again = make();
                vp::check(u == want && right(&again), "unwrapped data changes later");
            }
        }
        vp::check(live() == before, "a result frees its memory never or twice");
        vp::reach("end");
    }
    /// Two results alive at once: freeing one leaves the other.
    fn h_ffi_results() {
        let a = vp::vec(vp::choose(3, "length"), "data");
        let b = vp::vec(vp::choose(3, "length"), "data");
        let before = live();
        let x = svm_result_t::new_receipt(&a);
        let y = svm_result_t::new_error(&b);
        vp::check((x == y) == false, "a receipt equals an error");
        if vp::choose(2, "order") == 0 {
            drop(x);
            vp::check(view(&y) == Err(b.clone()), "freeing a result changes another one");
            drop(y);
        } else {
            drop(y);
            vp::check(view(&x) == Ok(Some(a.clone())), "freeing a result changes another one");
            drop(x);
        }
        vp::check(live() == before, "a result frees its memory never or twice");
        vp::reach("end");
    }
}
vp::entry! {
    fn h_ffi_unwrap_error() {
        let d = vp::vec(vp::choose(3, "length"), "data");
        vp::check(vp::catch(|| svm_result_t::new_error(&d).unwrap()).is_none(), "unwrap of an error");
        vp::reach("end");
    }
}
