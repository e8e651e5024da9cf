//! Prime fields: the real one (2^256 - 2^32 - 977) and small ones in which whole domains can be enumerated.
use mccore::*;
pub struct Fd { pub m: U, pub small: Option<u64>, f: Fp, pub bits: usize, half: U, mask: U }
impl Fd {
    pub fn real() -> Fd { Fd::new(P) }
    pub fn new(m: U) -> Fd {
        let small = if m.bits() < 32 { Some(m.0[0]) } else { None }; let bits = m.bits();
        let mask = U::MAX.shr(256 - bits);
        Fd { m, small, f: Fp::fast(m), bits, half: m.shr(1), mask }
    }
    pub fn red(&self, a: &U) -> U { if a < &self.m { *a } else { a.modulo(&self.m) } }
    pub fn add(&self, a: &U, b: &U) -> U { self.f.add(a, b) }
    pub fn sub(&self, a: &U, b: &U) -> U { self.f.sub(a, b) }
    pub fn neg(&self, a: &U) -> U { self.f.neg(a) }
    pub fn mul(&self, a: &U, b: &U) -> U {
        if let Some(m) = self.small { return U::from(a.0[0] * b.0[0] % m) }
        if *a == U::ONE { return *b } if *b == U::ONE { return *a } if a.is_zero() || b.is_zero() { return U::ZERO }
        self.f.mul(a, b)
    }
    pub fn pow(&self, a: &U, e: &U) -> U { let mut r = U::ONE; for i in (0..e.bits()).rev() { r = self.mul(&r, &r); if e.bit(i) { r = self.mul(&r, a) } } r }
    pub fn inv(&self, a: &U) -> Option<U> {
        if a.is_zero() { return None } if *a == U::ONE { return Some(*a) } if let Some(m) = self.small { let _ = m; return Some(self.pow(a, &self.m.sub(&U::from(2)).0)) }
        // binary Euclid: x1 * a = u, x2 * a = v modulo m
        let half = |x: &U| { let (y, c) = if x.odd() { x.add(&self.m) } else { (*x, false) }; let mut r = U::ZERO; for i in 0..4 { r.0[i] = y.0[i] >> 1 | if i < 3 { y.0[i + 1] << 63 } else { (c as u64) << 63 } } r };
        let h = |x: &U| { let mut r = U::ZERO; for i in 0..4 { r.0[i] = x.0[i] >> 1 | if i < 3 { x.0[i + 1] << 63 } else { 0 } } r };
        let (mut u, mut v, mut x1, mut x2) = (*a, self.m, U::ONE, U::ZERO);
        while u != U::ONE && v != U::ONE {
            while !u.odd() { u = h(&u); x1 = half(&x1) }
            while !v.odd() { v = h(&v); x2 = half(&x2) }
            if u >= v { u = u.sub(&v).0; x1 = self.sub(&x1, &x2) } else { v = v.sub(&u).0; x2 = self.sub(&x2, &x1) }
        }
        Some(if u == U::ONE { x1 } else { x2 })
    }
    /// All x with a x^2 + b x + c = 0; None when every x is one.
    pub fn roots(&self, a: &U, b: &U, c: &U) -> Option<Vec<U>> {
        if a.is_zero() { return if b.is_zero() { if c.is_zero() { None } else { Some(vec![]) } } else { Some(vec![self.neg(&self.mul(c, &self.inv(b).unwrap()))]) } }
        if self.m == U::from(2) { return Some([U::ZERO, U::ONE].into_iter().filter(|x| self.add(&self.add(&self.mul(a, x), &self.mul(b, x)), c).is_zero()).collect()) }
        let d = self.sub(&self.mul(b, b), &self.mul(&U::from(4), &self.mul(a, c)));
        let i = self.inv(&self.add(a, a)).unwrap();
        let s = match self.sqrt(&d) { None => return Some(vec![]), Some(s) => s };
        let mut v = vec![self.mul(&self.sub(&s, b), &i)]; if !s.is_zero() { v.push(self.mul(&self.sub(&self.neg(&s), b), &i)) } v.sort(); Some(v)
    }
    pub fn sqrt(&self, a: &U) -> Option<U> {
        if let Some(m) = self.small { return (0..m).map(U::from).find(|x| self.mul(x, x) == *a) }
        self.f.sqrt(a)
    }
    fn cmp(&self, a: &U, b: &U) -> std::cmp::Ordering { let (x, y) = (*a > self.half, *b > self.half); if x != y { if x { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater } } else { a.cmp(b) } }
    fn shl(&self, a: &U, k: usize) -> U { if k >= 256 { return U::ZERO } let mut r = a.shl(k).0; for i in 0..4 { r.0[i] &= self.mask.0[i] } self.red(&r) }
    fn shr(&self, a: &U, k: usize) -> U { if k >= 256 { U::ZERO } else if k == 0 { *a } else { let (w, b) = (k / 64, k % 64); let mut r = U::ZERO; for i in 0..4 - w { r.0[i] = a.0[i + w] >> b; if b > 0 && i + w + 1 < 4 { r.0[i] |= a.0[i + w + 1] << (64 - b) } } r } }
    /// An operator of the language on field elements. Division by zero gives zero, as in generated witness calculators.
    pub fn op(&self, op: &str, a: &U, b: &U) -> U {
        let t = |x: bool| if x { U::ONE } else { U::ZERO };
        let bitw = |g: fn(u64, u64) -> u64| { let mut r = U::ZERO; for i in 0..4 { r.0[i] = g(a.0[i], b.0[i]) } self.red(&r) };
        match op {
            "+" => self.add(a, b), "-" => self.sub(a, b), "*" => self.mul(a, b),
            "/" => self.inv(b).map_or(U::ZERO, |i| self.mul(a, &i)),
            "\\" => if b.is_zero() { U::ZERO } else { a.div(b) }, "%" => if b.is_zero() { U::ZERO } else { a.modulo(b) },
            "**" => self.pow(a, b),
            "&" => bitw(|x, y| x & y), "|" => bitw(|x, y| x | y), "^" => bitw(|x, y| x ^ y),
            "<<" | ">>" => { let (neg, k) = if *b > self.half { (true, self.neg(b)) } else { (false, *b) }; let k = if k.bits() > 16 { 1 << 16 } else { k.0[0] as usize }; if (op == "<<") != neg { self.shl(a, k) } else { self.shr(a, k) } }
            "==" => t(a == b), "!=" => t(a != b), "<" => t(self.cmp(a, b).is_lt()), ">" => t(self.cmp(a, b).is_gt()), "<=" => t(self.cmp(a, b).is_le()), ">=" => t(self.cmp(a, b).is_ge()),
            "&&" => t(!a.is_zero() && !b.is_zero()), "||" => t(!a.is_zero() || !b.is_zero()),
            _ => panic!("operator {op}"),
        }
    }
    pub fn un(&self, op: &str, a: &U) -> U {
        match op { "-" => self.neg(a), "!" => if a.is_zero() { U::ONE } else { U::ZERO }, "~" => { let mut r = *a; for i in 0..4 { r.0[i] = !r.0[i] & self.mask.0[i] } self.red(&r) } _ => panic!("operator {op}") }
    }
}
#[cfg(test)]
mod t { use super::*; #[test] fn inverses() { let f = Fd::real(); let mut a = U::from(3); for _ in 0..2000 { a = f.mul(&a, &f.add(&a, &U::from(7))); assert!(f.mul(&a, &f.inv(&a).unwrap()) == U::ONE); assert!(f.inv(&a).unwrap() == f.pow(&a, &P.sub(&U::from(2)).0)) } for a in [U::ONE, U::from(2), P.sub(&U::ONE).0, P.sub(&U::from(2)).0] { assert!(f.mul(&a, &f.inv(&a).unwrap()) == U::ONE) } } }
