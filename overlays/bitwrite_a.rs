//@include lib/prelude.rs
//@include lib/bits.rs
//@include lib/bitwrite_trait.rs
} // verus!
fn main() {}
