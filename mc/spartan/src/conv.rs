//! Between the reference model (integers, points on integers) and the crate's types.
use libspartan::verif::{commitments::*, group::*, random::RandomTape, scalar::Scalar};
use mccore::{ec::*, *};
use merlin::Transcript;
pub fn fp() -> Fp { Fp::fast(P) }
pub fn fq() -> Fp { Fp::fast(Q) }
pub fn sc(u: &U) -> Scalar { Option::from(Scalar::from_bytes(&u.le())).expect("canonical") }
pub fn scs(u: &[U]) -> Vec<Scalar> { u.iter().map(sc).collect() }
pub fn un(s: &Scalar) -> U { U::from_le(&s.to_bytes()) }
pub fn uns(s: &[Scalar]) -> Vec<U> { s.iter().map(un).collect() }
pub fn pv(p: &GroupElement) -> Pt { if bool::from(p.0.is_identity()) { None } else { let b = |x: &[u8]| U::from_be(x); let e = p.compress(); let s = e.as_bytes(); let x = b(&s[1..33]); let f = fq(); let y = f.sqrt(&f.add(&f.mul(&f.sq(&x), &x), &U::from(7))).unwrap(); Some((x, if y.odd() == (s[0] == 3) { y } else { f.neg(&y) })) } }
pub fn mkp(p: &Pt) -> GroupElement { let v = tamper::enc_pt(p); let e: CompressedGroup = serde_json::from_value(v).unwrap(); e.unpack().ok().unwrap() }
thread_local! { static FORCED: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) } }
/// While `f` runs on this thread, challenges come from a fixed stream whatever was said before.
pub fn unbound<T>(f: impl FnOnce() -> T) -> T { FORCED.with(|x| x.set(Some(5))); let r = f(); FORCED.with(|x| x.set(None)); r }
pub fn tr(l: &'static [u8]) -> Transcript { let t = Transcript::new(l); match FORCED.with(|x| x.get()) { Some(s) => t.force(s), None => t } }
pub fn tape(seed: u64) -> RandomTape { getrandom::set_seed(seed); RandomTape::new(b"proof") }
pub fn pm1() -> U { P.sub(&U::ONE).0 }
pub fn big() -> U { U::from_hex("9f3c1d5e7a2b4c6d8e0f1a2b3c4d5e6f7a8b9cadbecfd0e1f2031425364758aa") }
pub fn show_u(v: &[U]) -> Value { json!(v.iter().map(|x| x.hex()).collect::<Vec<_>>()) }
/// Distinct generic-looking field elements.
pub fn generic(n: usize, salt: u64) -> Vec<U> { let f = fp(); let mut x = f.add(&big(), &U::from(salt.wrapping_mul(7919))); (0..n).map(|_| { x = f.add(&f.sq(&x), &U::from(salt + 13)); x }).collect() }
/// chi_i(r), most significant variable first.
pub fn chi(i: usize, r: &[U]) -> U { let f = fp(); r.iter().enumerate().fold(U::ONE, |a, (j, x)| f.mul(&a, &if i >> (r.len() - 1 - j) & 1 == 1 { *x } else { f.sub(&U::ONE, x) })) }
pub fn mle(z: &[U], r: &[U]) -> U { let f = fp(); assert_eq!(z.len(), 1 << r.len()); z.iter().enumerate().fold(U::ZERO, |a, (i, v)| f.add(&a, &f.mul(v, &chi(i, r)))) }
pub fn dot(a: &[U], b: &[U]) -> U { let f = fp(); a.iter().zip(b).fold(U::ZERO, |s, (x, y)| f.add(&s, &f.mul(x, y))) }
pub fn gens(n: usize, l: &'static [u8]) -> MultiCommitGens { MultiCommitGens::new(n, l) }
/// Reference commitment.
pub fn rcommit(g: &MultiCommitGens, v: &[U], b: &U) -> Pt { let f = fq(); v.iter().zip(&g.G).fold(rmul(&f, &pv(&g.h), b), |a, (x, p)| radd(&f, &a, &rmul(&f, &pv(p), x))) }
