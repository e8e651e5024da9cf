//! Circuit and witness files: written from the format's description, read by a strict reference reader.
use mccore::*;
pub type Lc = Vec<(u32, U)>;
pub type Con = [Lc; 3];
#[derive(Clone, Debug, PartialEq)]
pub struct Circuit { pub wires: u32, pub out: u32, pub inp: u32, pub prv: u32, pub labels: u64, pub cons: Vec<Con>, pub map: Vec<u64> }
impl Circuit {
    pub fn new(wires: u32, out: u32, inp: u32, cons: Vec<Con>) -> Circuit { Circuit { wires, out, inp, prv: wires.saturating_sub(1 + out + inp), labels: wires as u64, cons, map: (0..wires as u64).collect() } }
    pub fn header(&self) -> Vec<u8> {
        let mut v = 32u32.to_le_bytes().to_vec(); v.extend(P.le());
        for x in [self.wires, self.out, self.inp, self.prv] { v.extend(x.to_le_bytes()) }
        v.extend(self.labels.to_le_bytes()); v.extend((self.cons.len() as u32).to_le_bytes()); v
    }
    pub fn body(&self) -> Vec<u8> {
        let mut v = vec![];
        for c in &self.cons { for l in c { v.extend((l.len() as u32).to_le_bytes()); for (w, x) in l { v.extend(w.to_le_bytes()); v.extend(x.le()) } } }
        v
    }
    pub fn mapping(&self) -> Vec<u8> { self.map.iter().flat_map(|x| x.to_le_bytes()).collect() }
    pub fn section(&self, t: u32) -> (u32, Vec<u8>) { (t, match t { 1 => self.header(), 2 => self.body(), _ => self.mapping() }) }
    pub fn bytes(&self) -> Vec<u8> { file(&[self.section(1), self.section(2), self.section(3)]) }
    pub fn sat(&self, w: &[U]) -> bool {
        let f = Fp::fast(P);
        self.cons.iter().all(|c| { let v: Vec<U> = c.iter().map(|l| l.iter().fold(U::ZERO, |a, (i, x)| f.add(&a, &f.mul(x, &w[*i as usize])))).collect(); f.mul(&v[0], &v[1]) == v[2] })
    }
    pub fn show(&self) -> Value { json!(format!("{:?}", self)) }
}
pub fn file(sections: &[(u32, Vec<u8>)]) -> Vec<u8> {
    let mut v = b"r1cs".to_vec(); v.extend(1u32.to_le_bytes()); v.extend((sections.len() as u32).to_le_bytes());
    for (t, b) in sections { v.extend(t.to_le_bytes()); v.extend((b.len() as u64).to_le_bytes()); v.extend(b) }
    v
}
pub fn wtns(vals: &[U]) -> Vec<u8> {
    let mut v = b"wtns".to_vec(); for x in [2u32, 2, 1] { v.extend(x.to_le_bytes()) }
    v.extend(40u64.to_le_bytes()); v.extend(32u32.to_le_bytes()); v.extend(P.le()); v.extend((vals.len() as u32).to_le_bytes());
    v.extend(2u32.to_le_bytes()); v.extend((vals.len() as u64 * 32).to_le_bytes());
    for x in vals { v.extend(x.le()) }
    v
}
struct R<'a>(&'a [u8]);
impl<'a> R<'a> {
    fn take(&mut self, n: u64) -> Option<&'a [u8]> { if n > self.0.len() as u64 { return None } let (a, b) = self.0.split_at(n as usize); self.0 = b; Some(a) }
    fn u32(&mut self) -> Option<u32> { Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap())) }
    fn u64(&mut self) -> Option<u64> { Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap())) }
    fn val(&mut self) -> Option<U> { let x = U::from_le(self.take(32)?); (x < P).then_some(x) }
}
/// What the bytes mean: nothing, several things (a section occurs twice), or a circuit.
pub enum Meaning { Malformed, Ambiguous, Is(Circuit) }
pub fn meaning(b: &[u8]) -> Meaning {
    let mut dup = false;
    match (|| {
        let mut r = R(b); if r.take(4)? != b"r1cs" || r.u32()? != 1 { return None }
        let n = r.u32()?; let mut s: [Option<&[u8]>; 4] = [None; 4];
        for _ in 0..n { let t = r.u32()?; let l = r.u64()?; let body = r.take(l)?; if (1..=3).contains(&t) { dup |= s[t as usize].is_some(); s[t as usize] = Some(body) } }
        let (h, c, m) = (s[1]?, s[2]?, s[3]?);
        let mut h = R(h); if h.u32()? != 32 || h.take(32)? != P.le() { return None }
        let (wires, out, inp, prv, labels, nc) = (h.u32()?, h.u32()?, h.u32()?, h.u32()?, h.u64()?, h.u32()?); if !h.0.is_empty() { return None }
        let mut c = R(c); let mut cons = vec![];
        for _ in 0..nc { let mut k: Con = Default::default(); for l in &mut k { let n = c.u32()?; for _ in 0..n { let w = c.u32()?; if w >= wires { return None } l.push((w, c.val()?)) } } cons.push(k) }
        if !c.0.is_empty() || m.len() as u64 != wires as u64 * 8 { return None }
        let mut m = R(m); let mut map = vec![]; for _ in 0..wires { map.push(m.u64()?) }
        Some(Circuit { wires, out, inp, prv, labels, cons, map })
    })() { _ if dup => Meaning::Ambiguous, None => Meaning::Malformed, Some(c) => Meaning::Is(c) }
}
pub fn witness_meaning(b: &[u8]) -> Option<Vec<U>> {
    let mut r = R(b); if r.take(4)? != b"wtns" || r.u32()? > 2 || r.u32()? != 2 || r.u32()? != 1 || r.u64()? != 40 || r.u32()? != 32 || r.take(32)? != P.le() { return None }
    let n = r.u32()?; if r.u32()? != 2 || r.u64()? != n as u64 * 32 { return None }
    (0..n).map(|_| r.val()).collect()
}
/// Field elements whose encodings are out of the ordinary.
pub fn elements(full: bool) -> Vec<U> {
    let one = U::ONE; let m = |k: u64| P.sub(&U::from(k)).0; let two = |k: usize| one.shl(k).0;
    let mut v = vec![U::ZERO, one, U::from(2), m(1), m(2), two(255), two(224).sub(&one).0, two(128), P.shr(1), U::from_hex("0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20")];
    if full { for i in 0..32 { let mut b = [0u8; 32]; b[i] = 1; v.push(U::from_le(&b)); b[i] = 0xff; v.push(U::from_le(&b)); let mut b = [0xffu8; 32]; b[i] = 0; let x = U::from_le(&b); if x < P { v.push(x) } } for k in 3..40 { v.push(m(k)) } }
    v
}
