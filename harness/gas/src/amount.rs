//! Amounts of gas: limits that may be absent, and ranges.
use crate::Gas as Range;
use svm_types::{Gas, GasMode, OOGError};

/// The least and the most.
fn bounds(g: Range) -> (u64, u64) {
    match g {
        Range::Fixed(x) => (x, x),
        Range::Range { min, max } => (min, max),
    }
}
fn range(n: &str) -> Range {
    let a = vp::u64(n);
    if vp::choose(2, n) == 0 {
        return Range::Fixed(a);
    }
    let b = vp::u64(n);
    vp::assume(a <= b);
    Range::Range { min: a, max: b }
}
vp::entry! {
    fn h_gas_limits() {
        let (a, n) = (vp::u64("gas"), vp::u64("amount"));
        let none = vp::choose(2, "limit") == 0;
        let g = if none { Gas::new() } else { Gas::with(a) };
        vp::check(g.is_none() == none && g.is_some() != none && g.unwrap_or(n) == if none { n } else { a }, "a limit");
        vp::check(none || (g.unwrap() == a && Gas::from(a) == g), "the gas of a limit");
        vp::check((g == n) == (!none && a == n) && (n == g) == (g == n), "a limit equals an amount");
        // no limit: more than any amount
        vp::check((g > n) == (none || a > n) && (g >= n) == (none || a >= n) && (g < n) == (!none && a < n) && (g <= n) == (!none && a <= n), "the order of a limit and an amount");
        vp::check(g - n == if none { Ok(Gas::new()) } else if a >= n { Ok(Gas::with(a - n)) } else { Err(OOGError {}) }, "gas is spent iff there is enough of it");
        vp::check(g.map(|x| x ^ 5) == if none { Gas::new() } else { Gas::with(a ^ 5) }, "a mapped limit");
        if a.checked_add(n).is_some() {
            let want = if none { Gas::new() } else { Gas::with(a + n) };
            let mut h = g;
            h += n;
            vp::check(g + n == want && h == want, "gas added to a limit");
            vp::reach("added");
        }
        vp::check(Gas::default() == Gas::new() && Gas::new() != Gas::with(a) && GasMode::Fixed != GasMode::Metering, "limits");
        vp::reach("end");
    }
    fn h_gas_ranges() {
        let (x, y) = (range("left"), range("right"));
        let ((a, b), (c, d)) = (bounds(x), bounds(y));
        // one or the other
        let (lo, hi) = bounds(x + y);
        vp::check(lo == a.min(c) && hi == b.max(d), "the gas of one of two programs");
        let mut z = x;
        z += y;
        vp::check(z == x + y, "the gas of one of two programs");
        // one after the other
        if b.checked_add(d).is_some() {
            let (lo, hi) = bounds(x * y);
            vp::check(lo == a + c && hi == b + d, "the gas of two programs");
            let mut z = x;
            z *= y;
            vp::check(z == x * y, "the gas of two programs");
            vp::reach("both");
        }
        vp::reach("end");
    }
    /// Transactions that store something pay for each of their bytes.
    fn h_gas_bytes() {
        let m = vec![0; vp::choose(300, "length")];
        vp::check(svm_gas::transaction::deploy(&m) == 1000 * m.len() as u64, "the price of a deployment");
        vp::check(svm_gas::transaction::spawn(&m) == 1000 * m.len() as u64, "the price of a spawn");
        vp::reach("end");
    }
}
