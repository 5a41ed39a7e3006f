//@include lib/prelude.rs
//@include lib/timer.rs
//@include lib/files.rs
//@include lib/filesr.rs
fn main() {}
}
