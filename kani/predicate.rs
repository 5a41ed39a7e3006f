//@new verif_p
// Evaluation of predicates, for every predicate and every value (doubles with NaN and signed zeros, and integers).
use crate::decoder::query::*;
#[cfg(kani)]
mod h {
    use super::*;
    fn bound<T: PredicateNumber>(k: u8, v: T) -> RangeValueImpl<T> {
        match k {
            0 => RangeValueImpl::Inclusive(v),
            1 => RangeValueImpl::Exclusive(v),
            _ => RangeValueImpl::None,
        }
    }
    fn above<T: PredicateNumber>(k: u8, v: T, x: T) -> bool {
        match k {
            0 => x > v || x == v,
            1 => x > v,
            _ => true,
        }
    }
    fn below<T: PredicateNumber>(k: u8, v: T, x: T) -> bool {
        match k {
            0 => x < v || x == v,
            1 => x < v,
            _ => true,
        }
    }
    fn check<T: PredicateNumber>(v: T, w: T, x: T) {
        assert!(PredicateImpl::Eq(v).eval(x) == (x == v));
        assert!(PredicateImpl::Ne(v).eval(x) == !(x == v));
        let (k, l): (u8, u8) = kani::any();
        kani::assume(k < 3 && l < 3);
        let mut r = RangeImpl::new(bound(k, v), bound(l, w));
        let want = above(k, v, x) && below(l, w, x);
        assert!(r.eval(x) == want);
        assert!(PredicateImpl::Range(r).eval(x) == want);
        assert!(bound(2, x) == RangeValueImpl::None);
        r.swap();
        assert!(r.eval(x) == (above(l, w, x) && below(k, v, x)));
        kani::cover!(want);
        kani::cover!(!want);
    }
    #[kani::proof]
    fn eval_doubles() {
        check::<f64>(kani::any(), kani::any(), kani::any());
    }
    #[kani::proof]
    fn eval_integers() {
        check::<i64>(kani::any(), kani::any(), kani::any());
    }
    // mapping the constants of a predicate: each constant once, kind and side unchanged
    #[kani::proof]
    fn map_constants() {
        let (a, b, ma, mb, x): (u32, u32, i64, i64, i64) = kani::any();
        kani::assume(a != b || ma == mb);
        let f = |v: u32| if v == a { ma } else { mb };
        assert!(PredicateImpl::Eq(a).map(f) == PredicateImpl::Eq(ma));
        assert!(PredicateImpl::Ne(a).map(f) == PredicateImpl::Ne(ma));
        let (k, l): (u8, u8) = kani::any();
        kani::assume(k < 3 && l < 3);
        let r = RangeImpl::new(bound(k, a), bound(l, b));
        assert!(bound(k, a).map(f) == bound(k, ma));
        assert!(r.map(f) == RangeImpl::new(bound(k, ma), bound(l, mb)));
        assert!(PredicateImpl::Range(r).map(f).eval(x) == (above(k, ma, x) && below(l, mb, x)));
        kani::cover!(true);
    }
}
