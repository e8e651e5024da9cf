//! Spartan's scalar field, compiled from where it lies in /repo.
#![allow(dead_code)]
mod sut {
    #[path = "/repo/packages/Spartan-secq/src/scalar/scalar.rs"]
    pub mod scalar;
}
use mccore::{big::*, field::*, *};
use sut::scalar::Scalar;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use zeroize::Zeroize;

fn mk(v: &U) -> Scalar { Scalar::from_raw(v.0) }
fn val(s: &Scalar) -> U { U::from_le(&s.to_bytes()) }

fn field() -> Field<Scalar> {
    Field { name: "Scalar", m: P, make: mk, val, eq: |a, b| { let e = a == b; assert_eq!(e, bool::from(a.ct_eq(b))); assert_eq!(e, val(a) == val(b)); e },
        bin: vec![
            ("add", |a, b| { let mut t = *a; t += b; assert!(t == *a + *b && t == a + b && t == *a + b && t == a + *b && t == a.add(b)); let mut u = *a; u += *b; assert!(u == t); t }, f_add),
            ("sub", |a, b| { let mut t = *a; t -= b; assert!(t == *a - *b && t == a - b && t == *a - b && t == a - *b && t == a.sub(b)); let mut u = *a; u -= *b; assert!(u == t); t }, f_sub),
            ("mul", |a, b| { let mut t = *a; t *= b; assert!(t == *a * *b && t == a * b && t == *a * b && t == a * *b && t == a.mul(b)); let mut u = *a; u *= *b; assert!(u == t); t }, f_mul),
            ("sum", |a, b| [*a, *b, *a].iter().sum(), |f, a, b| f.add(&f.add(a, b), a)),
            ("product", |a, b| [*a, *b, *a].iter().product(), |f, a, b| f.mul(&f.mul(a, b), a)),
            ("select0", |a, b| Scalar::conditional_select(a, b, Choice::from(0)), |_, a, _| *a),
            ("select1", |a, b| Scalar::conditional_select(a, b, Choice::from(1)), |_, _, b| *b),
        ],
        un: vec![
            ("neg", |a| { assert!(-*a == -a); Some(-a) }, f_neg),
            ("double", |a| Some(a.double()), f_dbl),
            ("square", |a| Some(a.square()), f_sq),
            ("invert", |a| a.invert().into(), f_inv),
            ("pow0", |a| Some(a.pow(&[0; 4])), |_, _| Some(U::ONE)),
            ("reread", |a| Scalar::from_bytes(&a.to_bytes()).into(), f_id),
        ] }
}

fn f01(c: &Check) {
    let t = c.thorough();
    let few = [0, 1, 1 << 63, u64::MAX];
    let many = [0, 1, 2, 0xffffffff, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX];
    field().explore(c, 256, if t { &many[..] } else { &few[..] }, if t { &[0, 1, 2, 3, 0xffffffff, 1 << 32, (1 << 63) - 1, 1 << 63, 0xfffffffefffffc2e, 0xfffffffefffffc2f, u64::MAX - 1, u64::MAX] } else { &many[..] }, if t { 3 } else { 2 });
    // exponentiation: bases x exponent patterns, both implementations
    let f = Fp::fast(P);
    let bases = corners(&P, 256, &[0, u64::MAX]);
    let exps = corners(&U::MAX, 0, if t { &few[..] } else { &[0, 1, u64::MAX] });
    c.bound(&format!("pow and pow_vartime: {} bases x {} exponents", bases.len(), exps.len()));
    c.states((bases.len() * exps.len()) as u64);
    par(bases.len(), |i| for e in &exps {
        let b = mk(&bases[i]); let w = f.pow(&bases[i], e);
        c.steps(2); c.traces(1);
        c.ensure(val(&b.pow(&e.0)) == w, "Scalar:pow", || json!({"base": bases[i].to_string(), "exp": e.to_string()}));
        c.ensure(val(&b.pow_vartime(&e.0)) == w, "Scalar:pow_vartime", || json!({"base": bases[i].to_string(), "exp": e.to_string()}));
    });
}

/// Batch inversion: every vector over a small alphabet up to a length, and lengths beyond.
fn f06(c: &Check) {
    let f = Fp::fast(P);
    let t = c.thorough();
    let alpha: Vec<U> = [U::ONE, U::from(2), P.sub(&U::ONE).0, U::ONE.shl(255).0, f.inv(&U::from(2)).unwrap(), U::from(7)].to_vec();
    let maxlen = if t { 7 } else { 5 };
    c.bound(&format!("batch_invert: every vector over {} non-zero values of length 0..={}, and lengths up to {} with every position distinguished", alpha.len(), maxlen, 2049));
    let invs: Vec<U> = alpha.iter().map(|a| f.inv(a).unwrap()).collect();
    let one = |ix: &[U]| {
        let mut v: Vec<Scalar> = ix.iter().map(mk).collect();
        let r = guarded(|| { let r = Scalar::batch_invert(&mut v); (r, v) });
        c.states(1); c.steps(ix.len() as u64 + 1); c.traces(1);
        let Ok((r, v)) = r else { c.fail("batch_invert:panic", json!({"in": ix.iter().map(|x| x.to_string()).collect::<Vec<_>>()})); return };
        let mut prod = U::ONE;
        let mut ok = v.len() == ix.len();
        for (a, b) in ix.iter().zip(&v) {
            let w = alpha.iter().position(|x| x == a).map(|p| invs[p]).unwrap_or_else(|| f.inv(a).unwrap());
            ok &= val(b) == w && *b == mk(&w); prod = f.mul(&prod, &w);
        }
        c.ensure(ok, "batch_invert:elements", || json!({"in": ix.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "got": v.iter().map(|x| val(x).to_string()).collect::<Vec<_>>()}));
        c.ensure(val(&r) == prod, "batch_invert:product", || json!({"in": ix.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "got": val(&r).to_string()}));
    };
    for len in 0..=maxlen {
        let all: Vec<Vec<usize>> = tuples(alpha.len(), len).collect();
        par(all.len(), |i| one(&all[i].iter().map(|&d| alpha[d]).collect::<Vec<_>>()));
    }
    let ll = lengths(2049);
    par(ll.len(), |q| for n in [ll[ll.len() - 1 - q]] { for pos in if n > 300 && !t { vec![n - 1] } else { vec![0, 1, n / 2, n.saturating_sub(1)] } {
        let v: Vec<U> = (0..n).map(|i| if i == pos { U::from(1234567) } else { U::from(i as u64 + 3) }).collect();
        one(&v)
    } });
    // sums and products of long lists, of elements and of references
    c.bound("sums and products of lists of every length up to 70, powers of two and neighbours up to 4097");
    let ll = lengths(4097);
    par(ll.len(), |q| { let n = ll[q]; let v: Vec<U> = (0..n).map(|i| f.mul(&P.sub(&U::from(i as u64 + 1)).0, &U::from(i as u64 * 977 + 1))).collect(); let x: Vec<Scalar> = v.iter().map(mk).collect();
        let (s, p) = v.iter().fold((U::ZERO, U::ONE), |(s, p), e| (f.add(&s, e), f.mul(&p, e)));
        c.states(1); c.steps(4); c.traces(1);
        let g = guarded(|| [x.iter().sum::<Scalar>(), x.clone().into_iter().sum(), x.iter().product(), x.clone().into_iter().product()].map(|y| val(&y)));
        c.ensure(g == Ok([s, s, p, p]), "long-sum", || json!({"length": n, "got": format!("{g:?}")})); });
    // a zero among the inputs has no inverse: the call may refuse, but must not invent one
    for len in 1..=4usize { for z in tuples(2, len) {
        if z.iter().all(|x| *x == 1) { continue }
        let mut v: Vec<Scalar> = z.iter().enumerate().map(|(i, &b)| if b == 0 { Scalar::zero() } else { Scalar::from(i as u64 + 5) }).collect();
        let orig = v.clone();
        c.states(1); c.steps(1); c.traces(1);
        if guarded(|| { Scalar::batch_invert(&mut v); }).is_ok() {
            for (i, (a, b)) in orig.iter().zip(&v).enumerate() { c.ensure(z[i] == 0 || a * b == Scalar::one(), "batch_invert:zero", || json!({"zeros": z})); }
        }
    } }
}

struct Stream(Vec<u64>, usize);
impl rand_core::RngCore for Stream {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { let r = self.0[self.1 % self.0.len()]; self.1 += 1; r }
    fn fill_bytes(&mut self, d: &mut [u8]) { for ch in d.chunks_mut(8) { let x = self.next_u64().to_le_bytes(); ch.copy_from_slice(&x[..ch.len()]) } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl rand_core::CryptoRng for Stream {}

fn f02(c: &Check) {
    let t = c.thorough();
    let digits: &[u64] = if t { &[0, 1, 2, 0xffffffff, 1 << 32, 1 << 63, 0xfffffffefffffc2e, 0xfffffffefffffc2f, 0xfffffffefffffc30, u64::MAX - 1, u64::MAX] } else { &[0, 1, 1 << 63, 0xfffffffefffffc2e, 0xfffffffefffffc2f, 0xfffffffefffffc30, u64::MAX] };
    // every 256-bit pattern over the digits, canonical or not
    let mut raws: Vec<U> = tuples(digits.len(), 4).map(|d| U([digits[d[0]], digits[d[1]], digits[d[2]], digits[d[3]]])).collect();
    raws.extend(corners(&P, 256, &[0, 1, u64::MAX]));
    for k in 0..3 { raws.push(P.add(&U::from(k)).0); raws.push(U::MAX.sub(&U::from(k)).0) }
    for b in 0..256 { raws.push(U::ONE.shl(b).0) ; raws.push(U::ONE.shl(b).0.sub(&U::ONE).0); let x = P.sub(&U::ONE.shl(b).0); if !x.1 { raws.push(x.0) } let y = P.add(&U::ONE.shl(b).0); if !y.1 { raws.push(y.0) } }
    raws.sort(); raws.dedup();
    c.bound(&format!("encodings: {} 256-bit patterns (canonical and not) through from_bytes/to_bytes/from_raw/serde/Debug", raws.len()));
    c.states(raws.len() as u64);
    c.sample(json!({"bytes of": raws[raws.len() / 3].to_string()}));
    par(raws.len(), |i| {
        let x = raws[i];
        let canon = x < P;
        let red = if canon { x } else { x.sub(&P).0 };
        let k = || json!({"bytes_le_of": x.to_string()});
        let r = Scalar::from_bytes(&x.le());
        c.steps(6); c.traces(1);
        c.ensure(bool::from(r.is_some()) == canon, "from_bytes:canonical-iff-accepted", k);
        if canon && bool::from(r.is_some()) {
            let s = r.unwrap();
            c.ensure(s.to_bytes() == x.le(), "from_bytes:roundtrip", k);
            let b: [u8; 32] = (&s).into();
            c.ensure(b == x.le(), "into-bytes", k);
            c.ensure(format!("{s:?}") == x.to_string(), "debug-form", k);
            let j = guarded(|| bincode::serialize(&s).unwrap());
            match &j { Ok(j) => { c.ensure(guarded(|| bincode::deserialize::<Scalar>(j).unwrap() == s) == Ok(true), "serde:roundtrip", k); } Err(_) => c.fail("serde:serialize", k()) }
            c.ensure(guarded(|| serde_json::from_value::<Scalar>(serde_json::to_value(&s).unwrap()).unwrap() == s) == Ok(true), "serde:json-roundtrip", k);
        }
        c.ensure(val(&Scalar::from_raw(x.0)) == red, "from_raw:reduces", k);
        if x.0[1..] == [0, 0, 0] { c.ensure(val(&Scalar::from(x.0[0])) == red, "from_u64", k); }
        // a decoded scalar is a field element whatever bytes were decoded
        let mut enc = 32u64.to_le_bytes().to_vec(); enc.extend(x.le());
match guarded(|| bincode::deserialize::<Scalar>(&enc)) { Ok(Ok(s)) => { c.ensure(canon, "serde:non-canonical-accepted", k); c.ensure(val(&s) == red && s == mk(&red), "serde:decoded-is-reduced", k); } r => { c.ensure(!canon, "serde:rejects-canonical", k); c.ensure(r.is_ok(), "serde:panics", k); } }
        c.ensure(guarded(|| serde_json::from_value::<Scalar>(json!(x.le().to_vec())).is_ok()) == Ok(canon), "serde:json-canonical-iff-accepted", k);
        if i % 97 == 0 { // any other number of bytes
            let mut long = x.le().to_vec(); long.extend([0u8; 16]);
            for n in (0..48).filter(|n| *n != 32) { c.states(1); c.steps(3);
                let mut enc = (n as u64).to_le_bytes().to_vec(); enc.extend(&long[..n]);
                c.ensure(guarded(|| bincode::deserialize::<Scalar>(&enc).is_err()) == Ok(true), "serde:wrong-length-accepted", k);
                c.ensure(guarded(|| serde_json::from_value::<Scalar>(json!(long[..n].to_vec())).is_err()) == Ok(true), "serde:json-wrong-length-accepted", k);
                if n < 40 { let mut enc = 32u64.to_le_bytes().to_vec(); enc.extend(&long[..n.min(31)]); c.ensure(guarded(|| bincode::deserialize::<Scalar>(&enc).is_err()) == Ok(true), "serde:cut-accepted", k); }
                for pre in [31u64, 33, 64, 0, 1 << 32, u64::MAX] { let mut enc = pre.to_le_bytes().to_vec(); enc.extend(x.le()); c.ensure(guarded(|| bincode::deserialize::<Scalar>(&enc).is_err()) == Ok(true), "serde:wrong-prefix-accepted", k); }
            }
        }
    });
    // 512-bit reduction and sampling
    let wd: &[u64] = if t { &[0, 1, 1 << 63, u64::MAX] } else { &[0, 1, u64::MAX] };
    let n = wd.len().pow(8);
    c.bound(&format!("512-bit reduction (from_bytes_wide) and sampling from a scripted generator: every 8-limb vector over {wd:x?}"));
    c.states(n as u64); c.traces(n as u64);
    par(256, |blk| {
        for k in (blk..n).step_by(256) {
            let mut q = k; let mut l = [0u64; 8]; for x in l.iter_mut() { *x = wd[q % wd.len()]; q /= wd.len() }
            let mut b = [0u8; 64]; for (i, x) in l.iter().enumerate() { b[8 * i..8 * i + 8].copy_from_slice(&x.to_le_bytes()) }
            let w = rem(&l, &P);
            c.steps(2);
            let g = Scalar::from_bytes_wide(&b);
            c.ensure(val(&g) == w && g == mk(&w), "from_bytes_wide", || json!({"limbs": format!("{l:x?}"), "got": val(&g).to_string(), "want": w.to_string()}));
            let g = Scalar::random(&mut Stream(l.to_vec(), 0));
            c.ensure(val(&g) < P && g == mk(&val(&g)), "random:in-field", || json!({"limbs": format!("{l:x?}")}));
        }
    });
    // sampling must depend on every word the generator hands out
    let base: Vec<u64> = (1..=8u64).map(|x| x.wrapping_mul(0x9e3779b97f4a7c15)).collect();
    let r0 = Scalar::random(&mut Stream(base.clone(), 0));
    for i in 0..8 { for b in [0, 31, 63] {
        let mut v = base.clone(); v[i] ^= 1 << b; c.states(1); c.steps(1);
        c.ensure(Scalar::random(&mut Stream(v, 0)) != r0, "random:uses-all-entropy", || json!({"word": i, "bit": b}));
    } }
    let mut z = Scalar::from(5u64); z.zeroize(); c.ensure(z == Scalar::zero() && Scalar::default() == Scalar::zero(), "zeroize", || json!({}));
    c.ensure(val(&Scalar::one()) == U::ONE && val(&Scalar::zero()) == U::ZERO, "constants", || json!({}));
}

fn main() { main_with(&[("F01", |c| { f01(c); f06(c) }), ("F02", f02)]) }
