//@new verif_c
// The clock stands still: running times are no part of any property.
use std::time::{Duration, Instant};
pub fn now() -> Instant {
    unsafe { std::mem::zeroed() }
}
pub fn elapsed(_: &Instant) -> Duration {
    Duration::ZERO
}
