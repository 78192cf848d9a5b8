//! Stand-in for digest 0.8 (not in the offline cache): the two traits /repo uses.
pub trait Input { fn input<B: AsRef<[u8]>>(&mut self, data: B); }
pub trait ExtendableOutput { type Reader; fn xof_result(self) -> Self::Reader; }
