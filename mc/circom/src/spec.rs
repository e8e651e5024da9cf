//! Poseidon from its specification, and Keccak-256.
use mccore::*;
/// The Grain stream cipher of the specification, as generator of field elements.
struct Grain { s: Vec<u8> }
impl Grain {
    fn new(n: u64, t: u64, rf: u64, rp: u64) -> Grain {
        let mut s = vec![];
        for (v, w) in [(1, 2), (0, 4), (n, 12), (t, 12), (rf, 10), (rp, 10), ((1 << 30) - 1, 30)] { for i in (0..w).rev() { s.push((v >> i & 1) as u8) } }
        let mut g = Grain { s }; for _ in 0..160 { g.step(); } g
    }
    fn step(&mut self) -> u8 { let s = &self.s; let b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0]; self.s.remove(0); self.s.push(b); b }
    fn bit(&mut self) -> u8 { loop { let a = self.step(); let b = self.step(); if a == 1 { return b } } }
    fn number(&mut self) -> U { let mut b = [0u8; 32]; for i in 0..256 { b[i / 8] |= self.bit() << (7 - i % 8) } U::from_be(&b) }
}
pub struct Spec { f: Fp, rc: Vec<U>, mds: Vec<Vec<U>>, rf: usize, rp: usize }
impl Spec {
    pub fn new() -> Spec {
        let f = Fp::fast(P); let mut g = Grain::new(256, 3, 8, 56); let mut rc = vec![];
        while rc.len() < 64 * 3 { let x = g.number(); if x < P { rc.push(x) } }
        let xy: Vec<U> = (0..6).map(|_| f.red(&g.number())).collect();
        let mds = (0..3).map(|i| (0..3).map(|j| f.inv(&f.add(&xy[i], &xy[3 + j])).unwrap()).collect()).collect();
        Spec { f, rc, mds, rf: 8, rp: 56 }
    }
    pub fn keys(&self) -> &[U] { &self.rc }
    /// Inputs with which some S-box of the first or second round is given zero.
    pub fn zeros(&self) -> Vec<(U, U)> {
        let f = &self.f; let five = f.m.sub(&U::ONE).0; let (q, r) = (five.div(&U::from(5)), five.modulo(&U::from(5)).0[0]); let e = (1..5u64).find(|k| (k * r + 1) % 5 == 0).map(|k| { let mut t = U::from((k * r + 1) / 5); for _ in 0..k { t = t.add(&q).0 } t });
        let n = |i: usize| f.neg(&self.rc[i]); let mut v = vec![(n(1), U::from(5)), (U::from(5), n(2)), (n(1), n(2)), (n(1), U::ZERO), (U::ZERO, n(2))];
        let Some(e) = e else { return v }; let root = |x: &U| f.pow(x, &e); let p5 = |x: &U| f.mul(x, &f.sq(&f.sq(x)));
        for i in 0..3 { for a in [U::ZERO, U::ONE, f.neg(&U::ONE)] { let s0 = p5(&f.add(&U::from(3), &self.rc[0])); let s1 = p5(&f.add(&a, &self.rc[1])); let t = f.neg(&f.add(&self.rc[3 + i], &f.add(&f.mul(&self.mds[i][0], &s0), &f.mul(&self.mds[i][1], &s1)))); v.push((a, f.sub(&root(&f.mul(&t, &f.inv(&self.mds[i][2]).unwrap())), &self.rc[2]))) } }
        v
    }
    pub fn hash(&self, a: &U, b: &U) -> U {
        let f = &self.f; let mut s = [U::from(3).modulo(&f.m), *a, *b];
        for r in 0..self.rf + self.rp {
            for i in 0..3 { s[i] = f.add(&s[i], &self.rc[3 * r + i]) }
            let full = r < self.rf / 2 || r >= self.rf / 2 + self.rp;
            for x in s.iter_mut().take(if full { 3 } else { 1 }) { let q = f.sq(&f.sq(x)); *x = f.mul(x, &q) }
            let m: Vec<U> = (0..3).map(|i| (0..3).fold(U::ZERO, |t, j| f.add(&t, &f.mul(&self.mds[i][j], &s[j])))).collect();
            s = [m[0], m[1], m[2]];
        }
        s[1]
    }
}

const RC: [u64; 24] = [0x1, 0x8082, 0x800000000000808a, 0x8000000080008000, 0x808b, 0x80000001, 0x8000000080008081, 0x8000000000008009, 0x8a, 0x88, 0x80008009, 0x8000000a, 0x8000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008];
/// Rotations by the defining walk (x, y) -> (y, 2x + 3y), not from a table.
fn rot() -> [u32; 25] { let mut r = [0; 25]; let (mut x, mut y) = (1, 0); for t in 0..24u32 { r[x + 5 * y] = (t + 1) * (t + 2) / 2 % 64; (x, y) = (y, (2 * x + 3 * y) % 5) } r }
pub fn theta(a: &[u64; 25]) -> [u64; 25] { let c: Vec<u64> = (0..5).map(|x| (0..5).fold(0, |s, y| s ^ a[x + 5 * y])).collect(); let mut b = *a; for x in 0..5 { for y in 0..5 { b[x + 5 * y] ^= c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1) } } b }
pub fn rhopi(a: &[u64; 25]) -> [u64; 25] { let r = rot(); let mut b = [0; 25]; for x in 0..5 { for y in 0..5 { b[y + 5 * ((2 * x + 3 * y) % 5)] = a[x + 5 * y].rotate_left(r[x + 5 * y]) } } b }
pub fn chi(a: &[u64; 25]) -> [u64; 25] { let mut b = *a; for x in 0..5 { for y in 0..5 { b[x + 5 * y] = a[x + 5 * y] ^ (!a[(x + 1) % 5 + 5 * y] & a[(x + 2) % 5 + 5 * y]) } } b }
pub fn iota(a: &[u64; 25], r: usize) -> [u64; 25] { let mut b = *a; b[0] ^= RC[r]; b }
pub fn round(a: &[u64; 25], r: usize) -> [u64; 25] { iota(&chi(&rhopi(&theta(a))), r) }
pub fn keccak256(m: &[u8]) -> [u8; 32] {
    let mut p = m.to_vec(); p.push(1); while p.len() % 136 != 0 { p.push(0) } let n = p.len(); p[n - 1] |= 0x80; let mut a = [0u64; 25];
    for b in p.chunks(136) { for i in 0..17 { a[i] ^= u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()) } for r in 0..24 { a = round(&a, r) } }
    let mut o = [0; 32]; for i in 0..4 { o[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes()) } o
}
/// The address of a public key, as a number.
pub fn address(x: &U, y: &U) -> U { let h = keccak256(&[x.be(), y.be()].concat()); U::from_be(&h[12..]) }
