//@include lib/prelude.rs
//@include lib/float.rs
//@include lib/fx.rs
} // verus!
fn main() {}
