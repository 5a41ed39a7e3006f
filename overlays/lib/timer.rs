// stopwatch: no effect on results
pub enum SegmentKind { IORead, IOWrite, Xor, Delta, Quantization, BitPacking, CompareInsert, Sum, Decompression }
#[verifier::external_body]
pub struct SegmentedExecutionTimes { x: u64 }
#[verifier::external_body]
pub struct SegmentTimer { x: u64 }
impl SegmentedExecutionTimes {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn start_addition_measurement(&mut self, kind: SegmentKind) -> SegmentTimer { unimplemented!() }
    #[verifier::external_body]
    pub fn start_measurement(&mut self, kind: SegmentKind) -> SegmentTimer { unimplemented!() }
}
impl SegmentTimer {
    #[verifier::external_body]
    pub fn stop(self) { unimplemented!() }
}
#[verifier::external_body]
pub fn timer_add(a: &mut SegmentedExecutionTimes, b: SegmentedExecutionTimes) { unimplemented!() }
