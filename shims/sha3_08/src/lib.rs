//! Stand-in for sha3 0.8: SHAKE256.
pub use digest;
use digest::{ExtendableOutput, Input, XofReader};
#[derive(Clone)]
pub struct Shake256(vkeccak::Sponge);
impl Default for Shake256 { fn default() -> Self { Shake256(vkeccak::Sponge::new(136, 0x1f)) } }
impl Input for Shake256 { fn input<B: AsRef<[u8]>>(&mut self, d: B) { self.0.absorb(d.as_ref()) } }
pub struct Reader(vkeccak::Sponge);
impl XofReader for Reader { fn read(&mut self, b: &mut [u8]) { self.0.squeeze(b) } }
impl std::io::Read for Reader { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.0.squeeze(b); Ok(b.len()) } }
impl ExtendableOutput for Shake256 { type Reader = Reader; fn xof_result(self) -> Reader { Reader(self.0) } }
