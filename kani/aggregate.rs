//@new verif_a
// Combining partial results, for every pair of partial results.
use crate::api::decoder::{AggregationKind, AggregationResult};
#[cfg(kani)]
mod h {
    use super::*;
    fn same(a: f64, b: f64) -> bool {
        a == b || (a.is_nan() && b.is_nan())
    }
    fn kind(k: u8) -> AggregationKind {
        match k {
            0 => AggregationKind::None,
            1 => AggregationKind::Max,
            2 => AggregationKind::Min,
            _ => AggregationKind::Sum,
        }
    }
    // the larger (smaller) of two, a number before NaN
    fn pick(a: f64, b: f64, max: bool) -> f64 {
        if a.is_nan() || (max && b > a) || (!max && b < a) {
            b
        } else {
            a
        }
    }
    #[kani::proof]
    fn neutral_and_combine() {
        let (a, b): (f64, f64) = kani::any();
        let k: u8 = kani::any();
        kani::assume(1 <= k && k <= 2);
        let mut z = AggregationResult::zero(kind(k));
        let s = z.scalar();
        assert!(s == Some([f64::NEG_INFINITY, f64::INFINITY, 0.0][k as usize - 1]));
        assert!(z.concat(AggregationResult::Scalar(a), kind(k)).is_ok());
        let v = z.scalar().unwrap();
        let one = match k {
            1 => pick(f64::NEG_INFINITY, a, true),
            2 => pick(f64::INFINITY, a, false),
            _ => 0.0 + a,
        };
        assert!(same(v, one));
        let mut y = AggregationResult::Scalar(a);
        assert!(y.concat(AggregationResult::Scalar(b), kind(k)).is_ok());
        let v = y.scalar().unwrap();
        match k {
            1 => assert!(same(v, pick(a, b, true))),
            2 => assert!(same(v, pick(a, b, false))),
            _ => assert!(same(v, a + b)),
        }
        kani::cover!(true);
    }
    #[kani::proof]
    fn sums_combine() {
        let (a, b): (f64, f64) = kani::any();
        let mut y = AggregationResult::Scalar(a);
        assert!(y.concat(AggregationResult::Scalar(b), AggregationKind::Sum).is_ok());
        assert!(same(y.scalar().unwrap(), a + b));
        assert!(AggregationResult::zero(AggregationKind::Sum).scalar() == Some(0.0));
        kani::cover!(true);
    }
    #[kani::proof]
    #[kani::unwind(4)]
    fn mismatches_are_errors() {
        let (a, b): (f64, f64) = kani::any();
        let n: usize = kani::any();
        let k: u8 = kani::any();
        kani::assume(k <= 3);
        let mut x = AggregationResult::Scalar(a);
        assert!(x.concat(AggregationResult::Scalar(b), AggregationKind::None).is_err());
        let mut x = AggregationResult::Scalar(a);
        assert!(x.concat(AggregationResult::Integer(n), kind(k)).is_err());
        let mut x = AggregationResult::Integer(n);
        assert!(x.concat(AggregationResult::Scalar(a), kind(k)).is_err());
        let mut x = AggregationResult::Scalar(a);
        assert!(x.concat(AggregationResult::Array(vec![b]), kind(k)).is_err());
        assert!(AggregationResult::Integer(n).scalar().is_none());
        kani::cover!(true);
    }
    // arrays are joined in order (two and two elements)
    #[kani::proof]
    #[kani::unwind(6)]
    fn arrays_join() {
        let v: [f64; 4] = kani::any();
        let k: u8 = kani::any();
        kani::assume(k <= 3);
        let mut x = AggregationResult::Array(vec![v[0], v[1]]);
        assert!(x.concat(AggregationResult::Array(vec![v[2], v[3]]), kind(k)).is_ok());
        match x {
            AggregationResult::Array(w) => {
                assert!(w.len() == 4);
                assert!(w[0].to_bits() == v[0].to_bits() && w[1].to_bits() == v[1].to_bits());
                assert!(w[2].to_bits() == v[2].to_bits() && w[3].to_bits() == v[3].to_bits());
            }
            _ => assert!(false),
        }
        kani::cover!(true);
    }
    // one chunk's partial result (three values)
    #[kani::proof]
    #[kani::unwind(6)]
    fn partial_results() {
        let v: [f64; 3] = kani::any();
        let w = || vec![v[0], v[1], v[2]];
        let m = AggregationKind::Max.dispatch_on_vec(w()).unwrap().scalar().unwrap();
        assert!(same(m, pick(pick(pick(f64::NEG_INFINITY, v[0], true), v[1], true), v[2], true)));
        let m = AggregationKind::Min.dispatch_on_vec(w()).unwrap().scalar().unwrap();
        assert!(same(m, pick(pick(pick(f64::INFINITY, v[0], false), v[1], false), v[2], false)));
        match AggregationKind::None.dispatch_on_vec(w()).unwrap() {
            AggregationResult::Array(a) => assert!(a.len() == 3 && a[1].to_bits() == v[1].to_bits() && a[2].to_bits() == v[2].to_bits()),
            _ => assert!(false),
        }
        kani::cover!(true);
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn partial_sums() {
        let v: [i8; 3] = kani::any();
        let s = AggregationKind::Sum.dispatch_on_vec(vec![v[0] as f64, v[1] as f64, v[2] as f64]).unwrap().scalar().unwrap();
        assert!(s == (v[0] as i32 + v[1] as i32 + v[2] as i32) as f64);
        kani::cover!(true);
    }
}
