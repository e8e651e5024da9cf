//! The Poseidon hash against its definition, with constants generated afresh.
mod toy;
use mccore::*;
use poseidon::{poseidon_k256::{hash, FieldElement as E}, Poseidon, PoseidonConstants};
use secq256k1::field::BaseField;
use toy::T;

/// The Grain stream cipher of the specification, as generator of field elements.
struct Grain { s: Vec<u8> }
impl Grain {
    fn new(n: u64, t: u64, rf: u64, rp: u64) -> Grain {
        let mut s = vec![];
        for (v, w) in [(1, 2), (0, 4), (n, 12), (t, 12), (rf, 10), (rp, 10), ((1 << 30) - 1, 30)] { for i in (0..w).rev() { s.push((v >> i & 1) as u8) } }
        let mut g = Grain { s }; for _ in 0..160 { g.step(); } g
    }
    fn step(&mut self) -> u8 { let s = &self.s; let b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0]; self.s.remove(0); self.s.push(b); b }
    fn bit(&mut self) -> u8 { loop { let a = self.step(); let b = self.step(); if a == 1 { return b } } }
    fn number(&mut self) -> U { let mut b = [0u8; 32]; for i in 0..256 { b[i / 8] |= self.bit() << (7 - i % 8) } U::from_be(&b) }
}
pub struct Spec { f: Fp, rc: Vec<U>, mds: Vec<Vec<U>>, rf: usize, rp: usize }
impl Spec {
    pub fn new() -> Spec {
        let f = Fp::fast(P); let mut g = Grain::new(256, 3, 8, 56); let mut rc = vec![];
        while rc.len() < 64 * 3 { let x = g.number(); if x < P { rc.push(x) } }
        let xy: Vec<U> = (0..6).map(|_| f.red(&g.number())).collect();
        let mds = (0..3).map(|i| (0..3).map(|j| f.inv(&f.add(&xy[i], &xy[3 + j])).unwrap()).collect()).collect();
        Spec { f, rc, mds, rf: 8, rp: 56 }
    }
    pub fn hash(&self, a: &U, b: &U) -> U {
        let f = &self.f; let mut s = [U::from(3).modulo(&f.m), *a, *b];
        for r in 0..self.rf + self.rp {
            for i in 0..3 { s[i] = f.add(&s[i], &self.rc[3 * r + i]) }
            let full = r < self.rf / 2 || r >= self.rf / 2 + self.rp;
            for x in s.iter_mut().take(if full { 3 } else { 1 }) { let q = f.sq(&f.sq(x)); *x = f.mul(x, &q) }
            let m: Vec<U> = (0..3).map(|i| (0..3).fold(U::ZERO, |t, j| f.add(&t, &f.mul(&self.mds[i][j], &s[j])))).collect();
            s = [m[0], m[1], m[2]];
        }
        s[1]
    }
}
fn el(x: &U) -> E { E::from_bytes(&x.le()).unwrap() }
fn un(x: &E) -> U { U::from_le(&x.to_bytes()) }
fn own(s: &Spec) -> Poseidon<E> { Poseidon::new(PoseidonConstants::new(s.rc.iter().map(el).collect(), s.mds.iter().map(|r| r.iter().map(el).collect()).collect(), s.rf, s.rp)) }
fn cat(a: &[u8], b: &[u8]) -> Vec<u8> { [a, b].concat() }
/// Every pair of every field of `M` elements, on fresh instances and in every order of two on one instance.
fn toys<const M: u64>(c: &Check, rounds: &[(usize, usize)], depth: usize) {
    for &(rf, rp) in rounds {
        let mut x = 12345u64; let mut next = || { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (x >> 33) % M };
        let rc: Vec<u64> = (0..3 * (rf + rp)).map(|_| next()).collect(); let mds: Vec<Vec<u64>> = (0..3).map(|_| (0..3).map(|_| next()).collect()).collect();
        let spec = Spec { f: Fp::new(U::from(M)), rc: rc.iter().map(|v| U::from(*v)).collect(), mds: mds.iter().map(|r| r.iter().map(|v| U::from(*v)).collect()).collect(), rf, rp };
        let make = || Poseidon::<T<M>>::new(PoseidonConstants::new(rc.iter().map(|v| T(*v)).collect(), mds.iter().map(|r| r.iter().map(|v| T(*v)).collect()).collect(), rf, rp));
        let pairs: Vec<(u64, u64)> = (0..M * M).map(|k| (k / M, k % M)).collect();
        let want: Vec<u64> = pairs.iter().map(|(a, b)| spec.hash(&U::from(*a), &U::from(*b)).0[0]).collect();
        par(pairs.len(), |i| {
            c.states(1); c.steps(1); c.traces(1);
            let d = |js: &[usize], got: String| json!({"modulus": M, "full": rf, "partial": rp, "inputs": js.iter().map(|j| pairs[*j]).collect::<Vec<_>>(), "want": want[*js.last().unwrap()], "got": got});
            let go = |p: &mut Poseidon<T<M>>, j: usize| guarded(|| p.hash(&[T(pairs[j].0), T(pairs[j].1)]).0);
            let mut p = make(); let g = go(&mut p, i); c.ensure(g == Ok(want[i]), "toy-hash", || d(&[i], format!("{g:?}")));
            if depth > 1 { for j in 0..pairs.len() { c.states(1); c.steps(2); let mut p = make(); let _ = go(&mut p, i); let g = go(&mut p, j); c.ensure(g == Ok(want[j]), "toy-hash-after", || d(&[i, j], format!("{g:?}"))); } }
        });
    }
}
fn h01(c: &Check) {
    let th = c.thorough(); let s = Spec::new();
    // inputs of the real hash
    let vs = mccore::big::corners(&P, 256, if th { &[0, 1, u64::MAX][..] } else { &[0, u64::MAX][..] });
    c.bound(&format!("all pairs of {} corner values (limb patterns, canonical and through the Montgomery factor), by the fixed hash, by one reused instance and by the byte-level entry point; constants generated afresh from the specification", vs.len()));
    par(vs.len(), |i| { let mut p = own(&s); for b in &vs { let a = &vs[i];
        let want = s.hash(a, b); c.states(1); c.steps(3); c.traces(1);
        let d = |g: String| json!({"a": a.to_string(), "b": b.to_string(), "want": want.to_string(), "got": g});
        let g = guarded(|| un(&hash(&[el(a), el(b)]))); c.ensure(g == Ok(want), "hash", || d(format!("{g:?}")));
        let g = guarded(|| un(&p.hash(&[el(a), el(b)]))); c.ensure(g == Ok(want), "instance-hash", || d(format!("{g:?}")));
        let g = guarded(|| spartan_wasm::wasm::poseidon(&cat(&a.le(), &b.le())).ok()); c.ensure(g == Ok(Some(want.le().to_vec())), "byte-hash", || d(format!("{g:?}")));
    } });
    // every S-box and every constant is reached: each single bit of each input
    c.bound("every single-bit value as either input");
    par(256, |k| { let x = U::ONE.shl(k).0; for (a, b) in [(x, U::ZERO), (U::ZERO, x), (x, x)] { c.states(1); c.steps(1); c.traces(1); let want = s.hash(&a, &b); let g = guarded(|| un(&hash(&[el(&a), el(&b)]))); c.ensure(g == Ok(want), "hash-bit", || json!({"a": a.to_string(), "b": b.to_string(), "got": format!("{g:?}"), "want": want.to_string()})); } });
    // histories of one instance and of two interleaved
    let ins: Vec<(U, U)> = vec![(U::ZERO, U::ZERO), (U::ONE, U::from(2)), (P.sub(&U::ONE).0, U::from(7)), (U::from(5), P.sub(&U::ONE).0)];
    let want: Vec<U> = ins.iter().map(|(a, b)| s.hash(a, b)).collect(); let n = if th { 6 } else { 4 };
    c.bound(&format!("all sequences of up to {n} hashes over 4 inputs shared between two instances, the fixed hash and the byte-level hash"));
    let acts: Vec<(usize, usize)> = (0..3).flat_map(|w| (0..ins.len()).map(move |i| (w, i))).collect();
    let seqs: Vec<Vec<usize>> = (1..=if th { 4 } else { 3 }).flat_map(|l| tuples(acts.len(), l).collect::<Vec<_>>()).collect();
    par(seqs.len(), |k| { let mut p = [own(&s), own(&s)]; c.states(1); c.traces(1);
        for (at, &x) in seqs[k].iter().enumerate() { let (w, i) = acts[x]; let (a, b) = &ins[i]; c.steps(1);
            let g = guarded(|| if w < 2 { un(&p[w].hash(&[el(a), el(b)])) } else { un(&hash(&[el(a), el(b)])) });
            c.ensure(g == Ok(want[i]), "hash-in-history", || json!({"history": seqs[k].iter().map(|x| acts[*x]).collect::<Vec<_>>(), "at": at, "got": format!("{g:?}"), "want": want[i].to_string()})); } });
    let seqs: Vec<Vec<usize>> = (1..=n).flat_map(|l| tuples(ins.len(), l).collect::<Vec<_>>()).collect();
    par(seqs.len(), |k| { let mut p = own(&s); c.states(1); c.traces(1); for (at, &i) in seqs[k].iter().enumerate() { c.steps(1); let g = guarded(|| un(&p.hash(&[el(&ins[i].0), el(&ins[i].1)]))); c.ensure(g == Ok(want[i]), "hash-in-history", || json!({"history": seqs[k], "at": at, "got": format!("{g:?}")})); } });
    // refusals of the byte-level entry point
    let bad: Vec<U> = { let mut v = vec![P, P.add(&U::ONE).0, U([u64::MAX; 4])]; for k in 0..33 { v.push(P.add(&U::ONE.shl(k).0).0) } v.retain(|x| x >= &P); v };
    c.bound("byte-level input of every length up to 130 and with either half replaced by 36 encodings at or above the modulus");
    let byte = |b: &[u8]| guarded(|| spartan_wasm::wasm::poseidon(b).ok()).ok().flatten();
    for x in &bad { for (a, b) in [(x.le(), U::ONE.le()), (U::ONE.le(), x.le()), (x.le(), x.le())] { c.states(1); c.steps(1); c.traces(1); let g = byte(&cat(&a, &b)); c.ensure(g.is_none(), "non-canonical-hashed", || json!({"a": hexs(&a), "b": hexs(&b), "got": hexs(g.as_ref().unwrap())})); } }
    for n in (0..=130).filter(|n| *n != 64) { c.states(1); c.steps(1); c.traces(1); let b: Vec<u8> = (0..n).map(|i| (i % 7) as u8).collect(); let g = byte(&b); c.ensure(g.is_none(), "wrong-length-hashed", || json!({"length": n, "got": hexs(g.as_ref().unwrap())})); }
    // the generic hash over whole fields
    c.bound("the generic instance on every pair of elements of the fields of 5, 7, 17 and (thorough) 101 elements, several round numbers, alone and after every other hash (5, 7; thorough also 17)");
    let r = [(8, 56), (2, 0), (0, 3), (4, 5), (8, 1), (2, 1)];
    toys::<5>(c, &r, 2); toys::<7>(c, &r, 2); toys::<17>(c, &r, if th { 2 } else { 1 }); if th { toys::<101>(c, &r, 1) }
    c.sample(json!({"a": "1", "b": "2", "hash": s.hash(&U::ONE, &U::from(2)).to_string()}));
}
fn hexs(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn main() { main_with(&[("H01", h01)]) }
