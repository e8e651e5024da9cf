//! The two base fields and the curve's own scalar type.
use ff::{PrimeField, PrimeFieldBits};
use mccore::{big::*, field::*, *};
use secq256k1::field::{field_secp, field_secq, BaseField, SqrtRatio};
use secq256k1::Scalar as CS;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

macro_rules! base_field { ($m:ident, $t:ty, $name:literal, $modu:expr, $n7:expr) => { pub mod $m {
    use super::*;
    pub type F = $t;
    pub const M: U = $modu;
    pub const NAME: &str = $name;
    pub fn mk(v: &U) -> F { F::from_raw(v.0) }
    pub fn val(s: &F) -> U { U::from_le(&BaseField::to_bytes(s)) }
    pub fn field() -> mccore::field::Field<F> {
        mccore::field::Field { name: NAME, m: M, make: mk, val, eq: |a, b| { let e = a == b; assert_eq!(e, bool::from(a.ct_eq(b))); assert_eq!(e, val(a) == val(b)); e },
            bin: vec![
                ("add", |a, b| { let mut t = *a; t += b; assert!(t == *a + *b && t == a + b && t == *a + b && t == a + *b); let mut u = *a; u += *b; assert!(u == t); t }, f_add),
                ("sub", |a, b| { let mut t = *a; t -= b; assert!(t == *a - *b && t == a - b && t == *a - b && t == a - *b); let mut u = *a; u -= *b; assert!(u == t); t }, f_sub),
                ("mul", |a, b| { let mut t = *a; t *= b; assert!(t == *a * *b && t == a * b && t == *a * b && t == a * *b); let mut u = *a; u *= *b; assert!(u == t); t }, f_mul),
                ("sum", |a, b| [*a, *b, *a].iter().sum(), |f, a, b| f.add(&f.add(a, b), a)),
                ("product", |a, b| [*a, *b, *a].iter().product(), |f, a, b| f.mul(&f.mul(a, b), a)),
                ("select0", |a, b| F::conditional_select(a, b, Choice::from(0)), |_, a, _| *a),
                ("select1", |a, b| F::conditional_select(a, b, Choice::from(1)), |_, _, b| *b),
            ],
            un: vec![
                ("neg", |a| { assert!(-*a == -a); Some(-a) }, f_neg),
                ("double", |a| { assert!(a.double() == ff::Field::double(a)); Some(a.double()) }, f_dbl),
                ("square", |a| { assert!(a.square() == ff::Field::square(a)); Some(a.square()) }, f_sq),
                ("cube", |a| Some(ff::Field::cube(a)), |f, a| Some(f.mul(&f.sq(a), a))),
                ("invert", |a| { let r: Option<F> = a.invert().into(); let s: Option<F> = ff::Field::invert(a).into(); assert!(r == s); r }, f_inv),
                ("is_zero", |a| { assert_eq!(bool::from(ff::Field::is_zero(a)), val(a).is_zero()); assert_eq!(bool::from(PrimeField::is_odd(a)), val(a).odd()); Some(*a) }, f_id),
            ] }
    }
    pub fn arith(c: &Check, t: bool) {
        let few = [0, 1, 1 << 63, u64::MAX];
        let many = [0, 1, 2, 0xffffffff, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX];
        field().explore(c, 256, if t { &many[..] } else { &few[..] }, if t { &[0, 1, 2, 0xffffffff, 1 << 32, 1 << 63, M.0[0], M.0[1], u64::MAX - 1, u64::MAX] } else { &many[..] }, if t { 3 } else { 2 });
        let f = Fp::fast(M);
        let bases = corners(&M, 256, if t { &few[..] } else { &[0, u64::MAX] });
        let mut exps = corners(&U::MAX, 0, &[0, 1, u64::MAX]);
        if !t { exps = exps.into_iter().step_by(3).collect() }
        c.bound(&format!("{}: pow / pow_by_self over {} bases x {} exponents", NAME, bases.len(), exps.len()));
        c.states((bases.len() * exps.len()) as u64);
        par(bases.len(), |i| for e in &exps {
            let b = mk(&bases[i]); let w = f.pow(&bases[i], e);
            c.steps(2); c.traces(1);
            c.ensure(val(&b.pow(&e.0)) == w, concat!($name, ":pow"), || json!({"base": bases[i].to_string(), "exp": e.to_string()}));
            let er = e.modulo(&M);
            c.ensure(val(&b.pow_by_self(&mk(&er))) == f.pow(&bases[i], &er), concat!($name, ":pow_by_self"), || json!({"base": bases[i].to_string(), "exp": er.to_string()}));
        });
        // batch inversion
        let alpha: Vec<U> = vec![U::ONE, U::from(2), M.sub(&U::ONE).0, U::ONE.shl(255).0, U::from(7)];
        for len in 0..=(if t { 6 } else { 4 }) { for d in tuples(alpha.len(), len) {
            let ix: Vec<U> = d.iter().map(|&k| alpha[k]).collect();
            let mut v: Vec<F> = ix.iter().map(mk).collect();
            c.states(1); c.steps(len as u64 + 1); c.traces(1);
            let Ok(r) = guarded(|| F::batch_invert(&mut v)) else { c.fail(concat!($name, ":batch_invert:panic"), json!({"in": ix.iter().map(|x| x.to_string()).collect::<Vec<_>>()})); continue };
            let mut prod = U::ONE; let mut ok = true;
            for (a, b) in ix.iter().zip(&v) { let w = f.inv(a).unwrap(); ok &= val(b) == w; prod = f.mul(&prod, &w) }
            c.ensure(ok && val(&r) == prod, concat!($name, ":batch_invert"), || json!({"in": ix.iter().map(|x| x.to_string()).collect::<Vec<_>>()}));
        } }
        // lists of any length
        c.bound(&format!("{}: batch inversion, sums and products of lists of every length up to 70, powers of two and neighbours up to 1025", NAME));
        let ll = lengths(1025);
        par(ll.len(), |q| { let n = ll[ll.len() - 1 - q];
            let v: Vec<U> = (0..n).map(|i| f.mul(&M.sub(&U::from(i as u64 + 1)).0, &U::from(i as u64 * 977 + 1))).collect(); let x: Vec<F> = v.iter().map(mk).collect();
            let (s, p) = v.iter().fold((U::ZERO, U::ONE), |(s, p), e| (f.add(&s, e), f.mul(&p, e)));
            c.states(1); c.steps(5); c.traces(1);
            let g = guarded(|| [x.iter().sum::<F>(), x.clone().into_iter().sum(), x.iter().product(), x.clone().into_iter().product()].map(|y| val(&y)));
            c.ensure(g == Ok([s, s, p, p]), concat!($name, ":long-sum"), || json!({"length": n, "got": format!("{g:?}")}));
            let g = guarded(|| { let mut y = x.clone(); let r = F::batch_invert(&mut y); (val(&r), y.len() == n && x.iter().zip(&y).all(|(a, b)| a * b == mk(&U::ONE))) });
            c.ensure(g == Ok((f.inv(&p).unwrap(), true)), concat!($name, ":long-batch_invert"), || json!({"length": n, "got": format!("{g:?}")}));
        });
    }
    pub fn encodings(c: &Check, t: bool) {
        let d: &[u64] = if t { &[0, 1, 2, 0xffffffff, 1 << 63, M.0[0] - 1, M.0[0], M.0[0] + 1, M.0[1], M.0[2], u64::MAX] } else { &[0, 1, 1 << 63, M.0[0] - 1, M.0[0], M.0[1], u64::MAX] };
        let mut raws: Vec<U> = tuples(d.len(), 4).map(|x| U([d[x[0]], d[x[1]], d[x[2]], d[x[3]]])).collect();
        for b in 0..256 { let p = U::ONE.shl(b).0; raws.push(p); raws.push(p.sub(&U::ONE).0); raws.push(M.sub(&p).0); raws.push(M.add(&p).0) }
        for k in 0..4 { raws.push(M.add(&U::from(k)).0); raws.push(M.sub(&U::from(k)).0); raws.push(U::MAX.sub(&U::from(k)).0) }
        raws.extend(corners(&M, 256, &[0, 1, u64::MAX]));
        raws.sort(); raws.dedup();
        c.bound(&format!("{}: {} 256-bit patterns through every byte encoding and serde", NAME, raws.len()));
        c.states(raws.len() as u64);
        par(raws.len(), |i| {
            let x = raws[i]; let canon = x < M; let red = if canon { x } else { x.sub(&M).0 };
            let k = || json!({"value": x.to_string()});
            c.steps(8); c.traces(1);
            let n = |s: &str| format!("{}:{}", NAME, s);
            let a: Option<F> = BaseField::from_bytes(&x.le()).into();
            c.ensure(a.is_some() == canon, &n("from_bytes"), k);
            let b: Option<F> = F::from_sec1(x.be().into()).into();
            c.ensure(b.is_some() == canon, &n("from_sec1"), k);
            let r: Option<F> = <F as PrimeField>::from_repr(x.be().into()).into();
            c.ensure(r.is_some() == canon, &n("from_repr"), k);
            c.ensure(val(&F::from_raw(x.0)) == red, &n("from_raw"), k);
            if x.0[1..] == [0, 0, 0] { c.ensure(val(&F::from(x.0[0])) == red, &n("from_u64"), k); }
            if let (true, Some(a), Some(b), Some(r)) = (canon, a, b, r) {
                c.ensure(a == b && b == r && a == mk(&x), &n("decoders-agree"), k);
                let tb: [u8; 32] = (&a).into();
                c.ensure(BaseField::to_bytes(&a) == x.le() && tb == x.le() && a.to_be_bytes() == x.be() && a.to_sec1().as_slice() == x.be() && a.to_repr().as_slice() == x.be(), &n("encoders"), k);
                c.ensure(format!("{a:?}") == x.to_string(), &n("debug"), k);
                c.ensure(guarded(|| bincode::deserialize::<F>(&bincode::serialize(&a).unwrap()).unwrap() == a) == Ok(true), &n("serde"), k);
                c.ensure(guarded(|| { let v = serde_json::to_value(&a).unwrap(); serde_json::from_value::<F>(v).map(|y| y == a).unwrap_or(false) }) == Ok(true), &n("serde-json"), k);
            }
        });
        let wd: &[u64] = if t { &[0, 1, 1 << 63, u64::MAX] } else { &[0, 1, u64::MAX] };
        let cnt = wd.len().pow(8);
        c.states(cnt as u64); c.traces(cnt as u64);
        c.bound(&format!("{}: 512-bit reduction over every 8-limb vector on {wd:x?}", NAME));
        par(256, |blk| for q0 in (blk..cnt).step_by(256) {
            let mut q = q0; let mut l = [0u64; 8]; for x in l.iter_mut() { *x = wd[q % wd.len()]; q /= wd.len() }
            let mut b = [0u8; 64]; for (i, x) in l.iter().enumerate() { b[8 * i..8 * i + 8].copy_from_slice(&x.to_le_bytes()) }
            c.steps(1);
            let g = F::from_bytes_wide(&b);
            c.ensure(val(&g) == rem(&l, &M) && g == mk(&rem(&l, &M)), concat!($name, ":from_bytes_wide"), || json!({"limbs": format!("{l:x?}")}));
        });
    }
    pub fn roots(c: &Check, t: bool) {
        let f = Fp::fast(M);
        let vs = corners(&M, 256, if t { &[0, 1, 1 << 32, 1 << 63, u64::MAX] } else { &[0, 1, u64::MAX] });
        // values, their squares, and a non-residue times their squares
        let nr = { let mut z = U::from(2); while f.is_square(&z) { z = f.add(&z, &U::ONE) } z };
        let mut xs: Vec<U> = vs.clone(); for v in &vs { let s = f.sq(v); xs.push(s); xs.push(f.mul(&s, &nr)) }
        xs.sort(); xs.dedup();
        c.states(xs.len() as u64); c.bound(&format!("{}: square roots of {} values, residues and non-residues", NAME, xs.len()));
        par(xs.len(), |i| {
            let x = xs[i]; c.steps(1); c.traces(1);
            let k = || json!({"x": x.to_string(), "is_square": f.is_square(&x)});
            match guarded(|| { let r: Option<F> = ff::Field::sqrt(&mk(&x)).into(); r }) {
                Err(_) => c.fail(concat!($name, ":sqrt:panic"), k()),
                Ok(None) => { c.ensure(!f.is_square(&x), concat!($name, ":sqrt:none-for-residue"), k); }
                Ok(Some(r)) => { c.ensure(f.is_square(&x), concat!($name, ":sqrt:some-for-nonresidue"), k); if f.is_square(&x) { c.ensure(f.sq(&val(&r)) == x, concat!($name, ":sqrt:wrong-root"), k); } }
            }
        });
        // sqrt_ratio
        let z = f.neg(&U::from($n7));
        let us: Vec<U> = xs.iter().step_by((xs.len() / if t { 120 } else { 40 }).max(1)).cloned().collect();
        c.states((us.len() * us.len()) as u64); c.bound(&format!("{}: square root of ratios over all ordered pairs of {} values", NAME, us.len()));
        par(us.len(), |i| for v in &us {
            if v.is_zero() { continue }
            let u = us[i]; c.steps(1); c.traces(1);
            let q = f.mul(&u, &f.inv(v).unwrap());
            let k = || json!({"u": u.to_string(), "v": v.to_string()});
            let Ok((b, r)) = guarded(|| F::sqrt_ratio(&mk(&u), &mk(v))) else { c.fail(concat!($name, ":sqrt_ratio:panic"), k()); continue };
            let (b, r) = (bool::from(b), val(&r));
            // for u = 0 the RFC leaves the flag to the algorithm; the value must be 0
            if !u.is_zero() { c.ensure(b == f.is_square(&q), concat!($name, ":sqrt_ratio:flag"), k); }
            c.ensure(f.sq(&r) == if b { q } else { f.mul(&z, &q) }, concat!($name, ":sqrt_ratio:value"), k);
        });
        consts::<F>(c, NAME, &f, |v| U::from_be(v.to_repr().as_slice()));
    }
} } }
base_field!(secp, field_secp::FieldElement, "secp-field", P, 11u64);
base_field!(secq, field_secq::FieldElement, "secq-field", Q, 14u64);

/// The constants a prime field advertises to generic code.
fn consts<F: PrimeField>(c: &Check, name: &str, f: &Fp, val: fn(&F) -> U) {
    let m1 = f.m.sub(&U::ONE).0;
    let mut s = 0; while !m1.bit(s) { s += 1 }
    c.steps(4);
    c.ensure(F::S as usize == s, &format!("{name}:const:S"), || json!({"got": F::S, "want": s}));
    c.ensure(F::NUM_BITS == 256 && F::CAPACITY == 255, &format!("{name}:const:bits"), || json!({}));
    let r = val(&F::root_of_unity());
    c.ensure(f.pow(&r, &U::ONE.shl(s).0) == U::ONE && f.pow(&r, &U::ONE.shl(s - 1).0) == m1, &format!("{name}:const:root_of_unity"), || json!({"root": r.to_string(), "two_adicity": s}));
    let g = val(&F::multiplicative_generator());
    c.ensure(!f.is_square(&g), &format!("{name}:const:generator"), || json!({"generator": g.to_string()}));
}

pub fn f03(c: &Check) { let t = c.thorough(); secp::arith(c, t); secq::arith(c, t); cs_arith(c, t); }
pub fn f04(c: &Check) { let t = c.thorough(); secp::encodings(c, t); secq::encodings(c, t); cs_encodings(c);
    sampling(c, "secp-field", &P, |r| secp::val(&<secp::F as ff::Field>::random(r))); sampling(c, "secp-field wide", &P, |mut r| secp::val(&secp::F::random(&mut r)));
    sampling(c, "secq-field", &Q, |r| secq::val(&<secq::F as ff::Field>::random(r))); sampling(c, "secq-field wide", &Q, |mut r| secq::val(&secq::F::random(&mut r)));
    sampling(c, "curve-scalar", &P, |r| csv(&<CS as ff::Field>::random(r)));
}
/// A generator that hands out the given words, then an arithmetic sequence; it counts the words.
pub struct Words<'a>(Vec<u64>, &'a std::cell::Cell<usize>);
impl rand_core::RngCore for Words<'_> {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { let k = self.1.get(); self.1.set(k + 1); self.0.get(k).copied().unwrap_or((k as u64 + 1).wrapping_mul(0x1e3779b97f4a7c15)) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for ch in d.chunks_mut(8) { let w = self.next_u64().to_le_bytes(); let n = ch.len(); ch.copy_from_slice(&w[..n]) } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl rand_core::CryptoRng for Words<'_> {}
/// Sampling ends, gives a reduced element, and every bit of the draw that was taken matters.
fn sampling(c: &Check, name: &str, m: &U, draw: fn(Words) -> U) {
    let d = [0, 1, u64::MAX];
    c.bound(&format!("{name}: sampling from every 8-word vector over 0, 1, 2^64 - 1; every bit of the words read in an accepted draw"));
    let go = |w: Vec<u64>| { let n = std::cell::Cell::new(0); let v = guarded(|| draw(Words(w, &n))); (v, n.get()) };
    for x in tuples(d.len(), 8) { let w: Vec<u64> = x.iter().map(|&k| d[k]).collect(); c.states(1); c.steps(1); c.traces(1); let (v, n) = go(w.clone()); c.ensure(matches!(&v, Ok(v) if v < m) && n <= 24, &format!("{name}:sampling"), || json!({"words": format!("{w:x?}"), "read": n, "got": format!("{v:?}")})); }
    let base: Vec<u64> = (1..=8u64).map(|x| x.wrapping_mul(0x0e3779b97f4a7c15) >> 1).collect();
    let (v0, n) = go(base.clone()); c.ensure(n >= 4 && n <= 8, &format!("{name}:sampling-entropy"), || json!({"words read": n}));
    for i in 0..n.min(8) { for b in 0..63 { let mut w = base.clone(); w[i] ^= 1 << b; c.states(1); c.steps(1); c.traces(1); let (v, _) = go(w); c.ensure(v != v0, &format!("{name}:sampling-ignores-entropy"), || json!({"word": i, "bit": b})); } }
}
pub fn f05(c: &Check) { let t = c.thorough(); secp::roots(c, t); secq::roots(c, t); consts::<CS>(c, "curve-scalar", &Fp::fast(P), |v| U::from_be(v.to_repr().as_slice())); }

// ---- the curve's scalar type
pub fn cs(v: &U) -> CS { CS::from_repr(v.be().into()).unwrap() }
pub fn csv(s: &CS) -> U { U::from_be(s.to_repr().as_slice()) }
fn cs_arith(c: &Check, t: bool) {
    let few = [0, 1, 1 << 63, u64::MAX];
    Field { name: "curve-scalar", m: P, make: cs, val: csv, eq: |a, b| { assert_eq!(a == b, bool::from(a.ct_eq(b))); a == b },
        bin: vec![
            ("add", |a, b| { let mut t = *a; t += b; assert!(t == *a + *b && t == *a + b); let mut u = *a; u += *b; assert!(u == t); t }, f_add),
            ("sub", |a, b| { let mut t = *a; t -= b; assert!(t == *a - *b && t == *a - b); let mut u = *a; u -= *b; assert!(u == t); t }, f_sub),
            ("mul", |a, b| { let mut t = *a; t *= b; assert!(t == *a * *b && t == *a * b); let mut u = *a; u *= *b; assert!(u == t); t }, f_mul),
            ("select0", |a, b| CS::conditional_select(a, b, Choice::from(0)), |_, a, _| *a),
            ("select1", |a, b| CS::conditional_select(a, b, Choice::from(1)), |_, _, b| *b),
        ],
        un: vec![("neg", |a| Some(-*a), f_neg), ("double", |a| Some(ff::Field::double(a)), f_dbl),
            ("flags", |a| { let v = csv(a); assert_eq!(bool::from(ff::Field::is_zero(a)), v.is_zero()); assert_eq!(bool::from(a.is_odd()), v.odd()); Some(*a) }, f_id)],
    }.explore(c, 256, if t { &[0, 1, 0xffffffff, 1 << 32, 1 << 63, u64::MAX] } else { &few }, &few, if t { 3 } else { 2 });
}
fn cs_encodings(c: &Check) {
    let m: Vec<bool> = CS::char_le_bits().into_iter().take(256).collect();
    c.steps(1); c.ensure(m.len() == 256 && (0..256).all(|i| m[i] == P.bit(i)), "curve-scalar:char_le_bits", || json!({}));
    // encodings, reductions and the bit view used by multi-exponentiation
    let d = [0, 1, 1 << 63, P.0[0] - 1, P.0[0], P.0[0] + 1, u64::MAX];
    let mut raws: Vec<U> = tuples(d.len(), 4).map(|x| U([d[x[0]], d[x[1]], d[x[2]], d[x[3]]])).collect();
    for b in 0..256 { raws.push(U::ONE.shl(b).0); raws.push(U::ONE.shl(b).0.sub(&U::ONE).0) }
    c.states(raws.len() as u64); c.bound(&format!("curve-scalar: {} 256-bit patterns through the encodings, the reduction and the little-endian bit view", raws.len()));
    par(raws.len(), |i| {
        let x = raws[i]; let canon = x < P; let red = if canon { x } else { x.sub(&P).0 };
        let k = || json!({"value": x.to_string()});
        c.steps(5); c.traces(1);
        let r: Option<CS> = CS::from_repr(x.be().into()).into();
        c.ensure(r.is_some() == canon, "curve-scalar:from_repr", k);
        let u = secq256k1::U256::from_words(x.0.map(|w| w as _));
        let w = <CS as secq256k1::elliptic_curve::ops::Reduce<secq256k1::U256>>::from_uint_reduced(u);
        c.ensure(csv(&w) == red, "curve-scalar:reduce", k);
        c.ensure(CS::try_from(u).is_ok() == canon, "curve-scalar:try_from", k);
        let bytes: [u8; 32] = w.to_bytes();
        c.ensure(bytes == red.le(), "curve-scalar:to_bytes", k);
        let bits: Vec<bool> = w.to_le_bits().into_iter().take(256).collect();
        c.ensure(bits.len() == 256 && (0..256).all(|i| bits[i] == red.bit(i)), "curve-scalar:bits", k);
        let back: secq256k1::U256 = w.into();
        c.ensure(back == secq256k1::U256::from_words(red.0.map(|w| w as _)), "curve-scalar:into-uint", k);
        if x.0[1..] == [0, 0, 0] { c.ensure(csv(&CS::from(x.0[0])) == red, "curve-scalar:from_u64", k); }
    });
}
