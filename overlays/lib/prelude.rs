#![feature(allocator_api, sized_hierarchy)]
#![allow(unused_macros, unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_assignments)]
use vstd::prelude::*;
// Console output is not modelled; assertions become obligations; a panic must be unreachable.
macro_rules! println { ($($t:tt)*) => { () } }
macro_rules! eprintln { ($($t:tt)*) => { () } }
macro_rules! dbg { ($($t:tt)*) => { () } }
macro_rules! debug_assert { ($c:expr $(, $($t:tt)*)?) => { if !($c) { crate::must_not_happen() } } }
macro_rules! debug_assert_eq { ($a:expr, $b:expr $(, $($t:tt)*)?) => { if !($a == $b) { crate::must_not_happen() } } }
macro_rules! debug_assert_ne { ($a:expr, $b:expr $(, $($t:tt)*)?) => { if $a == $b { crate::must_not_happen() } } }
verus! {
pub fn must_not_happen() requires false { }
global size_of usize == 8;
// Assumed contracts on the standard library (validated by cross-checking, see DESIGN.md).
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize)
    requires b > 0
    ensures r as int == (a as int + b as int - 1) / (b as int);
pub assume_specification<T, A: std::alloc::Allocator> [Vec::<T, A>::into_boxed_slice] (v: Vec<T, A>) -> (r: Box<[T], A>)
    ensures r@ == v@;
