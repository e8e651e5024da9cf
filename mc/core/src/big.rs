//! 256-bit reference arithmetic: schoolbook products, shift-and-subtract
//! remainders, nothing clever, sharing no code or idea with the code under test.
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct U(pub [u64; 4]);

/// secp256k1 base field modulus (the Spartan scalar field).
pub const P: U = U([0xfffffffefffffc2f, u64::MAX, u64::MAX, u64::MAX]);
/// secp256k1 group order (the secq base field).
pub const Q: U = U([0xbfd25e8cd0364141, 0xbaaedce6af48a03b, 0xfffffffffffffffe, u64::MAX]);

impl Ord for U { fn cmp(&self, o: &U) -> Ordering { self.0.iter().rev().cmp(o.0.iter().rev()) } }
impl PartialOrd for U { fn partial_cmp(&self, o: &U) -> Option<Ordering> { Some(self.cmp(o)) } }
impl fmt::Debug for U { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "0x{}", self.hex()) } }
impl fmt::Display for U { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "0x{}", self.hex()) } }
impl From<u64> for U { fn from(x: u64) -> U { U([x, 0, 0, 0]) } }

impl U {
    pub const ZERO: U = U([0; 4]);
    pub const ONE: U = U([1, 0, 0, 0]);
    pub const MAX: U = U([u64::MAX; 4]);
    pub fn hex(&self) -> String { self.be().iter().map(|b| format!("{b:02x}")).collect() }
    pub fn from_hex(s: &str) -> U {
        let mut r = U::ZERO;
        for c in s.trim_start_matches("0x").chars() { r = r.shl(4).0; r.0[0] |= c.to_digit(16).unwrap() as u64 }
        r
    }
    pub fn from_dec(s: &str) -> U {
        let mut r = U::ZERO;
        for c in s.chars() {
            let w = r.mul(&U::from(10));
            r = U([w[0], w[1], w[2], w[3]]).add(&U::from(c.to_digit(10).unwrap() as u64)).0;
        }
        r
    }
    pub fn dec(&self) -> String {
        let mut v = self.0; let mut s = vec![];
        while v != [0; 4] { let mut r = 0u128; for i in (0..4).rev() { let t = (r << 64) | v[i] as u128; v[i] = (t / 10) as u64; r = t % 10 } s.push(b'0' + r as u8) }
        if s.is_empty() { s.push(b'0') }
        s.reverse(); String::from_utf8(s).unwrap()
    }
    pub fn le(&self) -> [u8; 32] { let mut b = [0; 32]; for i in 0..4 { b[8 * i..8 * i + 8].copy_from_slice(&self.0[i].to_le_bytes()) } b }
    pub fn be(&self) -> [u8; 32] { let mut b = self.le(); b.reverse(); b }
    pub fn from_le(b: &[u8]) -> U { let mut r = [0u64; 4]; for (i, x) in b.iter().enumerate() { if i < 32 { r[i / 8] |= (*x as u64) << (8 * (i % 8)) } } U(r) }
    pub fn from_be(b: &[u8]) -> U { let mut v = b.to_vec(); v.reverse(); U::from_le(&v) }
    pub fn add(&self, o: &U) -> (U, bool) { let mut r = [0; 4]; let mut c = 0u128; for i in 0..4 { c += self.0[i] as u128 + o.0[i] as u128; r[i] = c as u64; c >>= 64 } (U(r), c != 0) }
    pub fn sub(&self, o: &U) -> (U, bool) { let mut r = [0; 4]; let mut b = 0i128; for i in 0..4 { let t = self.0[i] as i128 - o.0[i] as i128 + b; r[i] = t as u64; b = t >> 64 } (U(r), b != 0) }
    pub fn mul(&self, o: &U) -> [u64; 8] {
        let mut r = [0u64; 8];
        for i in 0..4 { let mut c = 0u128; for j in 0..4 { c += r[i + j] as u128 + self.0[i] as u128 * o.0[j] as u128; r[i + j] = c as u64; c >>= 64 } r[i + 4] = c as u64 }
        r
    }
    pub fn bit(&self, i: usize) -> bool { i < 256 && self.0[i / 64] >> (i % 64) & 1 == 1 }
    pub fn bits(&self) -> usize { (0..256).rev().find(|&i| self.bit(i)).map_or(0, |i| i + 1) }
    pub fn shl(&self, n: usize) -> (U, bool) {
        let mut r = U::ZERO; let mut lost = false;
        for i in 0..256 { if self.bit(i) { if i + n < 256 { r.0[(i + n) / 64] |= 1 << ((i + n) % 64) } else { lost = true } } }
        (r, lost)
    }
    pub fn shr(&self, n: usize) -> U { let mut r = U::ZERO; for i in n..256 { if self.bit(i) { r.0[(i - n) / 64] |= 1 << ((i - n) % 64) } } r }
    pub fn is_zero(&self) -> bool { self.0 == [0; 4] }
    pub fn odd(&self) -> bool { self.0[0] & 1 == 1 }
    pub fn modulo(&self, m: &U) -> U { rem(&[self.0[0], self.0[1], self.0[2], self.0[3], 0, 0, 0, 0], m) }
    pub fn div(&self, m: &U) -> U {
        let (mut q, mut r) = (U::ZERO, U::ZERO);
        for i in (0..256).rev() { let (s, l) = shl1(&r); r = s; if self.bit(i) { r.0[0] |= 1 } if l || r >= *m { r = r.sub(m).0; q.0[i / 64] |= 1 << (i % 64) } }
        q
    }
}
fn shl1(a: &U) -> (U, bool) { let mut r = [0; 4]; let mut c = 0; for i in 0..4 { r[i] = a.0[i] << 1 | c; c = a.0[i] >> 63 } (U(r), c == 1) }

/// 512-bit value modulo a 256-bit modulus, one bit at a time.
pub fn rem(w: &[u64; 8], m: &U) -> U {
    let mut r = U::ZERO;
    for i in (0..512).rev() {
        let (s, lost) = shl1(&r);
        r = s;
        if w[i / 64] >> (i % 64) & 1 == 1 { r.0[0] |= 1 }
        if lost || r >= *m { r = r.sub(m).0 }
    }
    r
}

/// The field of integers modulo a prime.
#[derive(Clone, Copy, Debug)]
pub struct Fp { pub m: U, c: Option<U> }
pub const FP: Fp = Fp::new(P);
pub const FQ: Fp = Fp::new(Q);
impl Fp {
    pub const fn new(m: U) -> Fp { Fp { m, c: None } }
    /// Same field; products reduced by folding 2^256 = c (cross-checked against `rem` in the tests).
    pub fn fast(m: U) -> Fp { Fp { m, c: Some(U::ZERO.sub(&m).0) } }
    pub fn red(&self, a: &U) -> U { if a < &self.m { *a } else { a.modulo(&self.m) } }
    pub fn wide(&self, w: &[u64; 8]) -> U {
        match &self.c {
            Some(c) if c.bits() <= 130 => {
                let (mut lo, mut hi) = (U([w[0], w[1], w[2], w[3]]), U([w[4], w[5], w[6], w[7]]));
                while !hi.is_zero() {
                    let t = hi.mul(c);
                    let (s, k) = lo.add(&U([t[0], t[1], t[2], t[3]]));
                    lo = s; hi = U([t[4], t[5], t[6], t[7]]);
                    if k { hi = hi.add(&U::ONE).0 }
                }
                while lo >= self.m { lo = lo.sub(&self.m).0 }
                lo
            }
            _ => rem(w, &self.m),
        }
    }
    pub fn add(&self, a: &U, b: &U) -> U { let (s, c) = a.add(b); if c || s >= self.m { s.sub(&self.m).0 } else { s } }
    pub fn sub(&self, a: &U, b: &U) -> U { let (s, c) = a.sub(b); if c { s.add(&self.m).0 } else { s } }
    pub fn neg(&self, a: &U) -> U { if a.is_zero() { *a } else { self.m.sub(a).0 } }
    pub fn mul(&self, a: &U, b: &U) -> U { self.wide(&a.mul(b)) }
    pub fn sq(&self, a: &U) -> U { self.mul(a, a) }
    pub fn pow(&self, a: &U, e: &U) -> U { let mut r = U::ONE.modulo(&self.m); for i in (0..e.bits()).rev() { r = self.sq(&r); if e.bit(i) { r = self.mul(&r, a) } } r }
    pub fn inv(&self, a: &U) -> Option<U> { if a.is_zero() { None } else { Some(self.pow(a, &self.m.sub(&U::from(2)).0)) } }
    pub fn is_square(&self, a: &U) -> bool { a.is_zero() || self.pow(a, &self.m.sub(&U::ONE).0.shr(1)) == U::ONE }
    /// A square root by Tonelli-Shanks, or None.
    pub fn sqrt(&self, a: &U) -> Option<U> {
        if a.is_zero() { return Some(*a) }
        if !self.is_square(a) { return None }
        let m1 = self.m.sub(&U::ONE).0;
        let mut s = 0; while !m1.bit(s) { s += 1 }
        let q = m1.shr(s);
        let mut z = U::from(2); while self.is_square(&z) { z = self.add(&z, &U::ONE) }
        let (mut m, mut c, mut t) = (s, self.pow(&z, &q), self.pow(a, &q));
        let mut r = self.pow(a, &q.add(&U::ONE).0.shr(1));
        while t != U::ONE {
            let mut i = 0; let mut x = t; while x != U::ONE { x = self.sq(&x); i += 1 }
            let mut b = c; for _ in 0..m - i - 1 { b = self.sq(&b) }
            m = i; c = self.sq(&b); t = self.mul(&t, &c); r = self.mul(&r, &b);
        }
        Some(r)
    }
}

/// Values at which carries, borrows and reductions change behaviour: around 0,
/// around the modulus, limb patterns, and the same patterns seen through a
/// Montgomery factor 2^`r` (so that the *internal* limbs take those patterns).
pub fn corners(m: &U, r: usize, limb_digits: &[u64]) -> Vec<U> {
    let f = Fp::new(*m);
    let mut raw: Vec<U> = vec![];
    for k in 0..5u64 { raw.push(U::from(k)); raw.push(m.sub(&U::from(k + 1)).0) }
    let half = m.shr(1); raw.push(half); raw.push(half.add(&U::ONE).0);
    for b in [32, 63, 64, 127, 128, 191, 192, 224, 255] { let x = U::ONE.shl(b).0; raw.push(x); raw.push(x.sub(&U::ONE).0) }
    for k in 0..limb_digits.len().pow(4) {
        let mut k = k; let mut l = [0; 4];
        for x in l.iter_mut() { *x = limb_digits[k % limb_digits.len()]; k /= limb_digits.len() }
        raw.push(U(l));
    }
    let rinv = f.inv(&f.pow(&U::from(2), &U::from(r as u64))).unwrap();
    let mut out: Vec<U> = vec![];
    for x in raw { let x = f.red(&x); out.push(x); if r > 0 { out.push(f.mul(&x, &rinv)) } }
    out.sort(); out.dedup();
    out
}

#[cfg(test)]
mod t {
    use super::*;
    #[test] fn fold_is_rem() {
        for m in [P, Q] { let (a, b) = (Fp::new(m), Fp::fast(m));
            let cs = corners(&m, 256, &[0, 1, u64::MAX]);
            for x in cs.iter().step_by(3) { for y in cs.iter().step_by(3) { assert_eq!(a.mul(x, y), b.mul(x, y)) } }
            for x in cs.iter().take(40) { if let Some(r) = b.sqrt(x) { assert_eq!(b.sq(&r), *x) } if let Some(i) = b.inv(x) { assert_eq!(b.mul(&i, x), U::ONE) } } }
        for n in [13u64, 17, 101, 97] { let f = Fp::new(U::from(n)); for x in 0..n { for y in 0..n { assert_eq!(f.mul(&U::from(x), &U::from(y)).0[0], x * y % n) } if let Some(r) = f.sqrt(&U::from(x)) { assert_eq!(f.sq(&r), U::from(x)) } } }
        assert_eq!(U::from_dec(&P.dec()), P);
        assert_eq!(U::from_hex(&P.hex()), P);
    }
}
