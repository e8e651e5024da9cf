//! Plain Keccak-f[1600] and the sponges built from it. Used by the stand-ins
//! for merlin and sha3, and as the reference for the repository's circuits.
pub fn keccak_f1600(s: &mut [u64; 25]) {
    const RC: [u64; 24] = [
        0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000,
        0x000000000000808b, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009,
        0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
        0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003,
        0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a,
        0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
    ];
    const ROT: [[u32; 5]; 5] = [
        [0, 36, 3, 41, 18], [1, 44, 10, 45, 2], [62, 6, 43, 15, 61],
        [28, 55, 25, 21, 56], [27, 20, 39, 8, 14],
    ];
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 { for y in 0..5 { c[x] ^= s[x + 5 * y]; } }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 { s[x + 5 * y] ^= d; }
        }
        let mut b = [0u64; 25];
        for x in 0..5 { for y in 0..5 {
            b[y + 5 * ((2 * x + 3 * y) % 5)] = s[x + 5 * y].rotate_left(ROT[x][y]);
        } }
        for x in 0..5 { for y in 0..5 {
            s[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
        } }
        s[0] ^= rc;
    }
}
pub fn f1600_bytes(st: &mut [u8; 200]) {
    let mut s = [0u64; 25];
    for i in 0..25 { s[i] = u64::from_le_bytes(st[8 * i..8 * i + 8].try_into().unwrap()); }
    keccak_f1600(&mut s);
    for i in 0..25 { st[8 * i..8 * i + 8].copy_from_slice(&s[i].to_le_bytes()); }
}
/// Sponge with byte-aligned padding `dom`, then squeezed.
#[derive(Clone)]
pub struct Sponge { st: [u8; 200], rate: usize, pos: usize, dom: u8, squeezing: bool }
impl Sponge {
    pub fn new(rate: usize, dom: u8) -> Self { Sponge { st: [0; 200], rate, pos: 0, dom, squeezing: false } }
    pub fn absorb(&mut self, d: &[u8]) {
        assert!(!self.squeezing);
        for b in d {
            self.st[self.pos] ^= b; self.pos += 1;
            if self.pos == self.rate { f1600_bytes(&mut self.st); self.pos = 0; }
        }
    }
    pub fn squeeze(&mut self, out: &mut [u8]) {
        if !self.squeezing {
            self.st[self.pos] ^= self.dom; self.st[self.rate - 1] ^= 0x80;
            f1600_bytes(&mut self.st); self.pos = 0; self.squeezing = true;
        }
        for o in out {
            if self.pos == self.rate { f1600_bytes(&mut self.st); self.pos = 0; }
            *o = self.st[self.pos]; self.pos += 1;
        }
    }
}
fn fixed<const N: usize>(rate: usize, dom: u8, d: &[u8]) -> [u8; N] {
    let mut s = Sponge::new(rate, dom); s.absorb(d); let mut o = [0; N]; s.squeeze(&mut o); o
}
pub fn keccak256(d: &[u8]) -> [u8; 32] { fixed(136, 0x01, d) }
pub fn sha3_256(d: &[u8]) -> [u8; 32] { fixed(136, 0x06, d) }
pub fn shake256(d: &[u8], out: &mut [u8]) { let mut s = Sponge::new(136, 0x1f); s.absorb(d); s.squeeze(out) }
#[cfg(test)]
mod t {
    fn hx(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
    #[test] fn vectors() {
        assert_eq!(hx(&super::keccak256(b"")), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
        assert_eq!(hx(&super::sha3_256(b"")), "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a");
        let mut o = [0; 32]; super::shake256(b"", &mut o);
        assert_eq!(hx(&o), "46b9dd2b0ba88d13233b3feb743eeb243fcd52ea62b81b82b50c27646ed5762f");
    }
}
