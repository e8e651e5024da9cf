//! Stand-in for getrandom 0.2: the environment answer "entropy" is owned by the
//! harness. Each thread reads a deterministic stream chosen by `set_seed`;
//! `draws` counts requests so that a harness can see whether entropy was used.
use std::cell::Cell;
thread_local! { static S: Cell<u64> = Cell::new(0x9e3779b97f4a7c15); static N: Cell<u64> = Cell::new(0); static MODE: Cell<u8> = Cell::new(0); static B: Cell<u64> = Cell::new(0); static PRE: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(vec![]); }
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct Error(core::num::NonZeroU32);
impl Error {
    pub const UNSUPPORTED: Error = Error(unsafe { core::num::NonZeroU32::new_unchecked(1 << 31) });
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const INTERNAL_START: u32 = 1 << 31;
    pub fn code(self) -> core::num::NonZeroU32 { self.0 }
    pub fn raw_os_error(self) -> Option<i32> { None }
}
impl core::fmt::Display for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "getrandom error") } }
impl std::error::Error for Error {}
impl From<core::num::NonZeroU32> for Error { fn from(c: core::num::NonZeroU32) -> Self { Error(c) } }
impl From<Error> for std::io::Error { fn from(_: Error) -> Self { std::io::Error::new(std::io::ErrorKind::Other, "getrandom") } }
pub fn set_seed(s: u64) { S.with(|c| c.set(s.wrapping_mul(0x2545f4914f6cdd1d) ^ 0x9e3779b97f4a7c15)); N.with(|c| c.set(0)); MODE.with(|m| m.set(0)); B.with(|c| c.set(0)); PRE.with(|p| p.borrow_mut().clear()) }
/// 0: pseudo-random stream, 1: all-zero bytes, 2: all-0xff bytes then the stream
pub fn set_mode(m: u8) { MODE.with(|c| c.set(m)) }
/// The stream starts with these bytes.
pub fn set_prefix(p: Vec<u8>) { PRE.with(|c| *c.borrow_mut() = p) }
pub fn bytes_drawn() -> u64 { B.with(|c| c.get()) }
pub fn draws() -> u64 { N.with(|c| c.get()) }
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    let n = N.with(|c| { let n = c.get(); c.set(n + 1); n });
    let mode = MODE.with(|c| c.get());
    for b in dest.iter_mut() {
        let x = S.with(|c| { let s = c.get().wrapping_add(0x9e3779b97f4a7c15); c.set(s); s });
        let mut z = x; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        *b = match mode { 1 => 0, 2 if n == 0 => 0xff, _ => (z ^ (z >> 31)) as u8 };
        let at = B.with(|c| { let n = c.get(); c.set(n + 1); n }) as usize;
        PRE.with(|p| if let Some(x) = p.borrow().get(at) { *b = *x });
    }
    Ok(())
}
#[macro_export]
macro_rules! register_custom_getrandom { ($p:path) => {} }
