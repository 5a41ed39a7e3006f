#![allow(dead_code)]
pub mod elf {
include!("@REPO@/ebi/src/compression_common/elf.rs");
#[cfg(kani)]
mod h {
    use super::*;
    const T: [f64; 20] = [1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1.0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9];
    // the decimal exponent: 10^sp <= v < 10^(sp+1)
    #[kani::proof]
    #[kani::unwind(13)]
    fn sp_is_decimal_exponent() {
        let v: f64 = kani::any();
        kani::assume(v >= 1e-10 && v < 1e9);
        let s = get_sp(v);
        assert!(s >= -10 && s <= 8);
        assert!(T[(s + 10) as usize] <= v && v < T[(s + 11) as usize]);
        kani::cover!(true);
    }
    // the encoder's variant gives the same exponent, and flags exactly the negative powers of ten
    #[kani::proof]
    #[kani::unwind(13)]
    fn sp_and_flag_agree() {
        let v: f64 = kani::any();
        kani::assume(v >= 1e-10 && v < 1e9);
        let (s, flag) = get_sp_and_10i_n_flag(v);
        assert!(s >= -10 && s <= 8);
        assert!(T[(s + 10) as usize] <= v && v < T[(s + 11) as usize]);
        assert!((flag == 1) == (v < 1.0 && v == T[(s + 10) as usize]));
        assert!(s == get_sp(v));
        kani::cover!(true);
    }
    // the least number of bits that holds 10^alpha values
    #[kani::proof]
    #[kani::unwind(22)]
    fn f_alpha_is_ceil_log2() {
        let a: u32 = kani::any();
        kani::assume(a <= 20);
        let r = get_f_alpha(a);
        let mut p: u128 = 1;
        let mut i = 0;
        while i < 20 {
            if i < a { p *= 10; }
            i += 1;
        }
        assert!((1u128 << r) >= p);
        assert!(if a == 0 { r == 0 } else { r > 0 && (1u128 << (r - 1)) < p });
        kani::cover!(true);
    }
    #[kani::proof]
    #[kani::unwind(23)]
    fn ten_powers() {
        let n: [f64; 21] = [1.0, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11, 1e-12, 1e-13, 1e-14, 1e-15, 1e-16, 1e-17, 1e-18, 1e-19, 1e-20];
        let p: [f64; 21] = [1.0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20];
        // every index in turn, as constants
        let mut i: u32 = 0;
        while i <= 20 {
            assert!(get_10i_n(i).to_bits() == n[i as usize].to_bits());
            assert!(get_10i_p(i).to_bits() == p[i as usize].to_bits());
            i += 1;
        }
        kani::cover!(true);
    }
}
}
