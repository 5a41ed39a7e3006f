//@include lib/prelude.rs
//@include lib/bits.rs
//@include lib/ext.rs
//@include lib/bitwrite_trait.rs
//@include lib/bitread.rs
//@include lib/xor.rs
//@include lib/chimp.rs
} // verus!
fn main() {}
