//! Poseidon, scalar multiplication, key recovery, trees, Keccak and membership.
use crate::{build::*, fd::Fd, lab::*, spec::*};
use mccore::{ec::*, *};
use std::sync::Arc;
fn real() -> Arc<Fd> { Arc::new(Fd::real()) }
fn bits(v: &U, n: usize) -> Vec<U> { (0..n).map(|i| U::from(v.bit(i) as u64)).collect() }
pub fn h02(c: &Check) {
    let th = c.thorough(); let spec = Spec::new();
    let Some(circ) = circuit(c, &real(), "poseidon/poseidon.circom", "Poseidon", &[]) else { return }; let l = Lab::new(c, &circ, "poseidon");
    // the one vector of the circuits' own tests binds interpreter and oracle together
    let p1 = P.sub(&U::ONE).0; let v = U::from_dec("46702443887670435486723478191273607819169644657419964658749776213559127696053");
    c.ensure(spec.hash(&U::ZERO, &p1) == v, "oracle-vector", || json!(spec.hash(&U::ZERO, &p1).to_string()));
    let vs = big::corners(&P, 256, if th { &[0, 1, u64::MAX][..] } else { &[0, u64::MAX][..] });
    c.bound(&format!("all pairs of {} corner values and every single-bit value as either input, against constants generated afresh from the specification; for each, the search for another output", vs.len()));
    let run = |a: &U, b: &U| { l.exactly(&[("inputs", vec![*a, *b])], &[("out", vec![spec.hash(a, b)])], true); };
    par(vs.len(), |i| for b in &vs { run(&vs[i], b) });
    par(256, |k| { let x = U::ONE.shl(k).0; run(&x, &U::ZERO); run(&U::ZERO, &x); run(&x, &x) });
    let zs = spec.zeros(); c.bound(&format!("{} inputs with which an S-box of the first or the second round is given zero", zs.len())); for (a, b) in &zs { run(a, b) }
    // permutation rounds in the circuit follow the state, not only the digest: inputs that differ in one bit
    let base: Vec<U> = vec![U::from(7), p1]; par(base.len() * 256, |k| { let (b, k) = (base[k / 256], k % 256); let mut x = b; x.0[k / 64] ^= 1 << (k % 64); if x < P { run(&x, &b) } });
}
/// Scalars at which the decomposition k = s + tQ mod q carries, borrows or wraps.
fn scalars(th: bool) -> Vec<U> {
    let f = Fp::fast(P); let m128 = U::ONE.shl(128).0.sub(&U::ONE).0; let c = U::ZERO.sub(&Q).0; let tq = Q.sub(&c).0; let lo = |x: &U| { let mut y = *x; y.0[2] = 0; y.0[3] = 0; y }; let hi = |x: &U| x.shr(128);
    let join = |h: &U, l: &U| h.shl(128).0.add(&lo(l)).0; let w: u64 = if th { 6 } else { 2 };
    let mut lows = vec![U::ZERO, m128, lo(&Q), lo(&c), lo(&tq), lo(&P), lo(&U::ZERO.sub(&tq).0), lo(&lo(&Q).sub(&lo(&tq)).0), lo(&lo(&tq).sub(&lo(&Q)).0), lo(&U::ZERO.sub(&lo(&Q)).0), lo(&U::ZERO.sub(&P).0)];
    lows = lows.iter().flat_map(|x| (0..=w).flat_map(move |d| [lo(&x.add(&U::from(d)).0), lo(&x.sub(&U::from(d)).0)])).collect(); lows.sort(); lows.dedup();
    let mut highs: Vec<U> = vec![U::ZERO, m128, hi(&tq), hi(&Q), hi(&c), lo(&hi(&Q).sub(&hi(&tq)).0)]; highs = highs.iter().flat_map(|x| (0..=2u64).flat_map(move |d| [lo(&x.add(&U::from(d)).0), lo(&x.sub(&U::from(d)).0)])).collect(); highs.push(U::ONE.shl(127).0); highs.sort(); highs.dedup();
    let mut v: Vec<U> = highs.iter().flat_map(|h| lows.iter().map(|l| join(h, l)).collect::<Vec<_>>()).filter(|x| *x < P).collect();
    for i in 0..256 { v.push(U::ONE.shl(i).0); v.push(f.neg(&U::ONE.shl(i).0)); v.push(Fp::fast(Q).neg(&U::ONE.shl(i).0)) }
    v.retain(|x| *x < P); v.sort(); v.dedup(); v
}
pub fn c02(c: &Check) {
    let th = c.thorough(); let file = format!("{EM}secp256k1/mul.circom"); let fd = real(); let f = Fp::fast(P); let fq = Fp::fast(Q);
    let (Some(k), Some(m)) = (circuit(c, &fd, &file, "K", &[]), circuit(c, &fd, &file, "Secp256k1Mul", &[])) else { return };
    let cc = U::ZERO.sub(&Q).0; let tq = Q.sub(&cc).0; let ss = scalars(th);
    let mut kl = Lab::new(c, &k, "scalar-bits"); kl.probes.extend([tq, cc, tq.shr(128), Q.shr(128)]); let ml = { let mut l = Lab::new(c, &m, "multiply"); l.probes = kl.probes.clone(); l };
    c.bound(&format!("decomposition: {} scalars around every carry, borrow and wrap-around of its two 128-bit halves, all powers of two and their negatives modulo p and q; each with the search for another decomposition (all bit patterns of all bit decompositions, probes of free signals)", ss.len()));
    par(ss.len(), |i| { let s = &ss[i]; let kk = fq.add(&fq.red(s), &tq); kl.exactly(&[("s", vec![*s])], &[("out", bits(&kk, 256))], true); });
    let pts: Vec<Pt> = [U::ONE, U::from(2), U::from(3), Q.sub(&U::ONE).0, Q.sub(&U::from(2)).0, fq.inv(&U::from(2)).unwrap(), fq.inv(&U::from(3)).unwrap(), U::ONE.shl(200).0].iter().take(if th { 8 } else { 3 }).map(|e| rmul(&f, &g(), e)).collect();
    let few: Vec<U> = if th { ss.clone() } else { let n = ss.len(); let mut v: Vec<U> = ss.iter().enumerate().filter(|(i, s)| s.bits() < 6 || P.sub(s).0.bits() < 6 || i % (n / 160) == 0).map(|x| *x.1).collect(); for s in [cc, tq, Q] { for d in 0..3u64 { v.push(s.add(&U::from(d)).0); v.push(s.sub(&U::from(d)).0) } } v.retain(|x| *x < P); v.sort(); v.dedup(); v };
    let top = if th { 6 } else { 4 }; let mut all = few; for x in 1..1u64 << top { all.push(fq.sub(&U::from(x).shl(256 - top as usize).0.modulo(&Q), &tq)); all.push(U::from(x)) } all.sort(); all.dedup();
    c.bound(&format!("multiplication: {} scalars (of those, and every pattern of the {top} highest and lowest decomposed bits) times {} points, with the search for another product", all.len(), pts.len()));
    par(all.len(), |i| for (j, p) in pts.iter().enumerate() { if j > 0 && i % 4 != 0 && !th { continue } let s = &all[i]; let (x, y) = xy(p); let (rx, ry) = xy(&rmul(&f, p, &fq.red(s))); ml.exactly(&[("scalar", vec![*s]), ("xP", vec![x]), ("yP", vec![y])], &[("outX", vec![rx]), ("outY", vec![ry])], true); });
}
/// Signature inputs whose recovered key is `key`.
fn sig(f: &Fp, s: &U, t: &Pt, key: &Pt) -> Vec<(&'static str, Vec<U>)> { let st = rmul(f, t, &Fp::fast(Q).red(s)); let (ux, uy) = xy(&radd(f, key, &rneg(f, &st))); let (tx, ty) = xy(t); vec![("s", vec![*s]), ("Tx", vec![tx]), ("Ty", vec![ty]), ("Ux", vec![ux]), ("Uy", vec![uy])] }
/// Keys with small coordinates, for which bit decompositions modulo p are not unique by size alone.
fn small_keys(f: &Fp, n: usize) -> Vec<Pt> {
    let cbrt = |a: &U| -> Option<U> { let e = P.add(&U::from(2)).0.div(&U::from(9)); let x = f.pow(a, &e); if f.mul(&x, &f.sq(&x)) == *a { Some(x) } else { None } }; let mut v = vec![];
    for i in (1u64..).filter_map(|i| f.sqrt(&f.add(&U::from(i * i * i), &U::from(7))).map(|y| Some((U::from(i), y)))).take(n) { v.push(i) }
    for i in (1u64..60000).filter_map(|y| cbrt(&f.sub(&U::from(y * y), &U::from(7))).map(|x| Some((x, U::from(y))))).take(n) { v.push(i) }
    for i in (0u64..).filter_map(|d| { let x = U::from(0x1000003d0 - d); f.sqrt(&f.add(&f.mul(&x, &f.sq(&x)), &U::from(7))).map(|y| Some((x, y))) }).take(1) { v.push(i) } // the largest value with two 256-bit forms, and the smallest with one
    for i in (0u64..).filter_map(|d| { let x = U::from(0x1000003d1 + d); f.sqrt(&f.add(&f.mul(&x, &f.sq(&x)), &U::from(7))).map(|y| Some((x, y))) }).take(1) { v.push(i) }
    for i in (1u64..).filter_map(|d| { let x = P.sub(&U::from(d)).0; f.sqrt(&f.add(&f.mul(&x, &f.sq(&x)), &U::from(7))).map(|y| Some((x, y))) }).take(n) { v.push(i) }
    v
}
pub fn c03(c: &Check) {
    let th = c.thorough(); let fd = real(); let f = Fp::fast(P); let fq = Fp::fast(Q);
    let Some(e) = circuit(c, &fd, &format!("{EM}eff_ecdsa.circom"), "EfficientECDSA", &[]) else { return }; let l = Lab::new(c, &e, "recover");
    let ss: Vec<U> = { let all = scalars(false); let n = all.len(); let k = if th { 120 } else { 24 }; let mut v: Vec<U> = all.into_iter().enumerate().filter(|(i, s)| i % (n / k) == 0 || s.bits() < 3).map(|x| x.1).collect(); for d in 0..3u64 { v.push(Q.sub(&U::from(d)).0); v.push(P.sub(&U::from(d + 1)).0); v.push(U::from(d)); v.push(U::ONE.shl(128).0.sub(&U::from(d)).0) } v.sort(); v.dedup(); v };
    let ts: Vec<Pt> = [U::ONE, Q.sub(&U::from(5)).0, U::ONE.shl(131).0].iter().take(if th { 3 } else { 2 }).map(|k| rmul(&f, &g(), k)).collect(); let mut cases = vec![];
    for s in &ss { for t in &ts { let st = rmul(&f, t, &fq.red(s)); let dbl = radd(&f, &st, &st);
        for u in [None, rneg(&f, &st), st, *t, rneg(&f, t), rneg(&f, &dbl), rmul(&f, &g(), &U::from(12345)), Some((f.mul(&U::ONE, &xy(&g()).0), xy(&g()).1))] { cases.push((*s, *t, u)) } } }
    c.bound(&format!("recovery: {} cases of s (decomposition boundaries), T and U with U the identity, sT, -sT, T, -T, -2sT and unrelated points; each with the search for another key", cases.len()));
    par(cases.len(), |i| { let (s, t, u) = &cases[i]; let (kx, ky) = xy(&radd(&f, &rmul(&f, t, &fq.red(s)), u)); let ((tx, ty), (ux, uy)) = (xy(t), xy(u)); l.exactly(&[("s", vec![*s]), ("Tx", vec![tx]), ("Ty", vec![ty]), ("Ux", vec![ux]), ("Uy", vec![uy])], &[("pubKeyX", vec![kx]), ("pubKeyY", vec![ky])], true); });
    let Some(a) = circuit(c, &fd, &format!("{EM}eff_ecdsa_to_addr.circom"), "EfficientECDSAToAddr", &[]) else { return }; let l = Lab::new(c, &a, "recover-address");
    let mut keys: Vec<Pt> = small_keys(&f, if th { 4 } else { 1 }); for k in [1u64, 2, 3].iter().take(if th { 3 } else { 1 }) { keys.push(rmul(&f, &g(), &U::from(*k))) } keys.push(Some((U::from_hex("f28773c2d975288bc7d1d205c3748651b075fbc6610e58cddeeddf8f19405aa8"), f.sqrt(&{ let x = U::from_hex("f28773c2d975288bc7d1d205c3748651b075fbc6610e58cddeeddf8f19405aa8"); f.add(&f.mul(&x, &f.sq(&x)), &U::from(7)) }).unwrap_or(U::ZERO))));
    keys.retain(|k| k.map_or(true, |(x, y)| f.sq(&y) == f.add(&f.mul(&x, &f.sq(&x)), &U::from(7)))); keys.sort(); keys.dedup();
    c.bound(&format!("address: {} keys, among them ones with coordinates below 2^256 - p (two bit decompositions exist) and next to p, against Keccak-256; each with the search for another address", keys.len()));
    let par_n = 4; par(par_n, |w| for (i, k) in keys.iter().enumerate() { if i % par_n == w { let s = ss[(7 * i + 3) % ss.len()]; let (x, y) = xy(k); l.exactly(&sig(&f, &s, &ts[i % ts.len()], k), &[("addr", vec![address(&x, &y)])], true); } });
}
fn chain(sp: &Spec, leaf: &U, idx: &[u64], sib: &[U]) -> U { idx.iter().zip(sib).fold(*leaf, |h, (i, s)| if *i == 0 { sp.hash(&h, s) } else { sp.hash(s, &h) }) }
pub fn c04(c: &Check) {
    let th = c.thorough(); let fd = real(); let f = Fp::fast(P); let sp = Spec::new(); let file = format!("{EM}tree.circom"); let max = if th { 8 } else { 5 };
    c.bound(&format!("depths 1..={max} with all index vectors, depths 10 and 20 with single-bit, alternating and extreme ones; leaves and siblings over an alphabet (zero, equal to the leaf, equal to each other, p - 1, mixed); each with the search for another root; every level with each non-bit index value of an alphabet refused"));
    let leaves = [U::ZERO, U::ONE, P.sub(&U::ONE).0, U::from_hex("123456789abcdef0fedcba987654321000112233445566778899aabbccddeeff")];
    for d in (1..=max).chain([10, 20]) {
        let Some(circ) = circuit(c, &fd, &file, "MerkleTreeInclusionProof", &[d as u64]) else { return }; let l = Lab::new(c, &circ, &format!("tree-{d}"));
        let idx: Vec<Vec<u64>> = if d <= max { (0..1u64 << d).map(|x| (0..d).map(|i| x >> i & 1).collect()).collect() } else { let mut v: Vec<Vec<u64>> = (0..d).map(|k| (0..d).map(|i| (i == k) as u64).collect()).collect(); v.push(vec![0; d]); v.push(vec![1; d]); v.push((0..d as u64).map(|i| i % 2).collect()); v };
        let sib = |k: usize, leaf: &U| -> Vec<U> { (0..d).map(|i| match k { 0 => U::ZERO, 1 => *leaf, 2 => U::from(5), 3 => P.sub(&U::from(1 + i as u64)).0, _ => f.mul(&U::from(i as u64 + 3), &leaves[3]) }).collect() };
        let deep = d > 6;
        par(idx.len(), |i| for (a, leaf) in leaves.iter().enumerate() { for k in 0..5 { if (deep && (a + k + i) % 5 != 0) || (!th && d >= 5 && (a + k + i) % 3 != 0) { continue } let sb = sib(k, leaf); let root = chain(&sp, leaf, &idx[i], &sb);
            l.exactly(&[("leaf", vec![*leaf]), ("pathIndices", idx[i].iter().map(|x| U::from(*x)).collect()), ("siblings", sb)], &[("root", vec![root])], true); } });
        let half = f.inv(&U::from(2)).unwrap(); let non: Vec<U> = vec![U::from(2), U::from(3), P.sub(&U::ONE).0, P.sub(&U::from(2)).0, half, U::ONE.shl(128).0, Q, U::ONE.shl(255).0];
        par(d, |k| for (j, v) in non.iter().enumerate() { if deep && j > 3 { continue } for rest in [0u64, 1] { let mut ix = vec![U::from(rest); d]; ix[k] = *v; l.never(&[("leaf", vec![leaves[3]]), ("pathIndices", ix), ("siblings", sib(4, &leaves[3]))], "accepts-index-that-is-no-bit", None); } });
    }
    // small fields are out of reach (the constants of the hash are elements of the real one)
}
fn lanes(a: &[u64; 25]) -> Vec<U> { (0..1600).map(|i| U::from(a[i / 64] >> (i % 64) & 1)).collect() }
fn message(m: &[u8]) -> Vec<U> { m.iter().flat_map(|b| (0..8).map(move |j| U::from((b >> j & 1) as u64))).collect() }
pub fn c05(c: &Check) {
    let th = c.thorough(); let fd = real(); let kf = format!("{EM}to_address/vocdoni-keccak/keccak.circom"); let ef = format!("{EM}to_address/zk-identity/eth.circom");
    c.ensure(U::from_be(&keccak256(b"")) == U::from_hex("c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"), "oracle-vector", || json!("keccak256 of the empty message"));
    // the steps, where the source has them as templates: linear ones on every single bit, all on dense states
    let mut states: Vec<[u64; 25]> = (0..1600).map(|i| { let mut a = [0; 25]; a[i / 64] = 1u64 << (i % 64); a }).collect(); states.push([0; 25]); states.push([u64::MAX; 25]); let mut x = 0x9e3779b97f4a7c15u64; for _ in 0..if th { 64 } else { 8 } { let mut a = [0; 25]; for v in a.iter_mut() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; *v = x } states.push(a) }
    for i in 0..25 { for (p, q) in [(u64::MAX, 0), (0, u64::MAX), (0xaaaaaaaaaaaaaaaa, 0x5555555555555555)] { let mut a = [q; 25]; a[i] = p; states.push(a) } }
    let prog = match load(&kf) { Ok(p) => p, Err(e) => { c.fail("keccak-does-not-instantiate", json!(e)); return } }; let have = |t: &str| prog.templates.contains_key(t);
    let steps: Vec<(&str, Box<dyn Fn(&[u64; 25]) -> [u64; 25] + Sync>, bool)> = vec![("Theta", Box::new(theta), false), ("RhoPi", Box::new(rhopi), false), ("Chi", Box::new(chi), false)];
    for (name, want, _) in &steps { if !have(name) { c.part("step templates that the source does not have", 1); continue } let Some(circ) = circuit(c, &fd, &kf, name, &[]) else { continue }; if circ.ins.len() != 1 || circ.outs.len() != 1 { continue } let l = Lab::new(c, &circ, name); c.bound(&format!("{name}: all 1600 single-bit states and {} others", states.len() - 1600)); let (i, o) = (circ.ins[0].0.clone(), circ.outs[0].0.clone());
        par(states.len(), |k| { l.exactly(&[(&i, lanes(&states[k]))], &[(&o, lanes(&want(&states[k])))], th || k >= 1600 || k % 16 == 0); }); }
    if have("KeccakfRound") { c.bound("every round with its constant on all dense states"); par(24, |r| { let Some(circ) = circuit(c, &fd, &kf, "KeccakfRound", &[r as u64]) else { return }; if circ.ins.len() != 1 || circ.outs.len() != 1 { return } let l = Lab::new(c, &circ, "round"); let (i, o) = (circ.ins[0].0.clone(), circ.outs[0].0.clone()); for a in states[1600..].iter().take(if th { 200 } else { 12 }) { l.exactly(&[(&i, lanes(a))], &[(&o, lanes(&round(a, r)))], true); } }) }
    // whole digests: lengths up to the one block that the circuit supports
    let lens: Vec<usize> = if th { vec![1, 8, 31, 32, 33, 64, 127, 128, 134, 135] } else { vec![32, 135] };
    c.bound(&format!("digests of messages of {lens:?} bytes (one block is what the circuit supports): zero, all ones, first and last bit, counting and dense bytes; the search for another digest"));
    let msgs = |n: usize| -> Vec<Vec<u8>> { let mut v = vec![vec![0; n], vec![0xff; n], (0..n).map(|i| i as u8).collect(), (0..n).map(|i| (i * 151 + 77) as u8).collect()]; for (i, b) in [(0, 1u8), (0, 0x80), (n - 1, 1), (n - 1, 0x80)] { let mut m = vec![0; n]; m[i] = b; v.push(m) } v };
    let slots = 4; par(slots.min(lens.len()), |w| for (j, n) in lens.iter().enumerate() { if j % slots != w { continue } let Some(circ) = circuit(c, &fd, &kf, "Keccak", &[8 * *n as u64, 256]) else { return }; let l = Lab::new(c, &circ, &format!("keccak-{n}")); for (k, m) in msgs(*n).iter().enumerate() { l.exactly(&[("in", message(m))], &[("out", message(&keccak256(m)))], k == 3); } });
    // addresses
    let f = Fp::fast(P); let mut keys: Vec<(U, U)> = (1..=4u64).map(|k| xy(&rmul(&f, &g(), &U::from(k)))).collect(); keys.extend([(U::ZERO, U::ZERO), (U::MAX, U::MAX), (U::ONE, U::ZERO), (U::ZERO, U::ONE), (U::ONE.shl(255).0, U::ZERO), (U::ZERO, U::ONE.shl(255).0)]); for i in 0..if th { 64 } else { 8 } { keys.push((U::ONE.shl(4 * i).0, U::ONE.shl(255 - 4 * i).0)) }
    if let Some(circ) = circuit(c, &fd, &ef, "PubkeyToAddress", &[]) { let l = Lab::new(c, &circ, "address"); c.bound(&format!("addresses of {} keys, valid ones and single-bit patterns", keys.len()));
        // the known address of the key 1
        c.ensure(address(&keys[0].0, &keys[0].1) == U::from_hex("0000000000000000000000007e5f4552091a69125d5dfcb7b8c2659029395bdf"), "oracle-vector", || json!("address of the key 1"));
        par(keys.len(), |i| { let (x, y) = keys[i]; l.exactly(&[("pubkeyBits", [bits(&y, 256), bits(&x, 256)].concat())], &[("address", vec![address(&x, &y)])], i < 2); }) }
    c.bound("flattening of public keys for chunk sizes 32x8, 43x6, 64x4, 86x3, 128x2, with the search for other bits");
    for (n, k) in [(32usize, 8usize), (43, 6), (64, 4), (86, 3), (128, 2)] { if !load(&ef).map_or(false, |p| p.templates.contains_key("FlattenPubkey")) { c.part("step templates that the source does not have", 1); continue } let Some(circ) = circuit(c, &fd, &ef, "FlattenPubkey", &[n as u64, k as u64]) else { return }; let l = Lab::new(c, &circ, &format!("flatten-{n}x{k}"));
        par(keys.len(), |i| { let (x, y) = keys[i]; let chunks = |v: &U| -> Vec<U> { (0..k).map(|j| { let mut w = v.shr(n * j); for b in n..256 { w.0[b / 64] &= !(1u64 << (b % 64)) } w }).collect() }; l.exactly(&[("chunkedPubkey", [chunks(&x), chunks(&y)].concat())], &[("pubkeyBits", [bits(&y, 256), bits(&x, 256)].concat())], true); }) }
}
struct Member { base: Vec<(&'static str, Vec<U>)> }
fn member(f: &Fp, sp: &Spec, addr: bool, levels: usize, s: &U, t: &Pt, key: &Pt, idx: u64) -> Member {
    let (x, y) = xy(key); let leaf = if addr { address(&x, &y) } else { sp.hash(&x, &y) }; let ix: Vec<u64> = (0..levels).map(|i| idx >> i & 1).collect(); let sib: Vec<U> = (0..levels).map(|i| f.mul(&U::from(i as u64 * 7919 + 3), &f.inv(&U::from(i as u64 + 11)).unwrap())).collect();
    let mut base = sig(f, s, t, key); base.push(("root", vec![chain(sp, &leaf, &ix, &sib)])); base.push(("pathIndices", ix.iter().map(|i| U::from(*i)).collect())); base.push(("siblings", sib)); Member { base }
}
impl Member {
    /// Each input changed alone, and pairs of them exchanged: none of these is a member.
    fn wrong(&self, f: &Fp, t: &Pt, th: bool) -> Vec<(String, Vec<(&'static str, Vec<U>)>)> {
        let mut out = vec![]; let put = |n: &str, i: usize, v: U| { let mut b = self.base.clone(); let e = b.iter_mut().find(|x| x.0 == n).unwrap(); if e.1[i] == v { return None } e.1[i] = v; Some(b) }; let get = |n: &str, i: usize| self.base.iter().find(|x| x.0 == n).unwrap().1[i]; let levels = self.base.iter().find(|x| x.0 == "siblings").unwrap().1.len();
        let mut add = |k: &str, b: Option<Vec<(&'static str, Vec<U>)>>| if let Some(b) = b { out.push((k.to_string(), b)) };
        let r = get("root", 0); for v in [f.add(&r, &U::ONE), U::ZERO, f.neg(&r), f.add(&r, &r), f.mul(&r, &f.inv(&U::from(2)).unwrap()), f.inv(&r).unwrap_or(U::ONE), f.sq(&r), f.sub(&r, &U::ONE), U::ONE] { add("another-root", put("root", 0, v)) }
        let s = get("s", 0); for v in [f.add(&s, &U::ONE), Fp::fast(Q).neg(&Fp::fast(Q).red(&s)), U::ZERO] { if Fp::fast(Q).red(&v) != Fp::fast(Q).red(&s) { add("another-s", put("s", 0, v)) } }
        for q in [rneg(f, t), radd(f, t, t)] { let (x, y) = xy(&q); let mut b = self.base.clone(); for (n, v) in [("Tx", x), ("Ty", y)] { b.iter_mut().find(|e| e.0 == n).unwrap().1[0] = v } if !Fp::fast(Q).red(&s).is_zero() { add("another-T", Some(b)) } }
        let u = (get("Ux", 0), get("Uy", 0)); let up = if u.0.is_zero() { None } else { Some(u) }; for q in [rneg(f, &up), radd(f, &up, t), None] { let (x, y) = xy(&q); if (x, y) == u { continue } let mut b = self.base.clone(); for (n, v) in [("Ux", x), ("Uy", y)] { b.iter_mut().find(|e| e.0 == n).unwrap().1[0] = v } add("another-U", Some(b)) }
        { let (tx, ty, ux, uy) = (get("Tx", 0), get("Ty", 0), get("Ux", 0), get("Uy", 0)); let _ = (tx, ux); let mut b = self.base.clone(); for (n, v) in [("Ty", f.neg(&ty)), ("Uy", f.neg(&uy))] { b.iter_mut().find(|e| e.0 == n).unwrap().1[0] = v } add("opposite-key", Some(b)) }
        // the signers whose key shares the y coordinate with the member's
        let beta = U::from_hex("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee"); let st = rmul(f, t, &s); let mut x = radd(f, &st, &up);
        for _ in 0..2 { let Some(k) = x else { break }; x = Some((f.mul(&beta, &k.0), k.1)); let v = x.unwrap(); assert!(f.sq(&v.1) == f.add(&f.mul(&v.0, &f.sq(&v.0)), &U::from(7))); let (ux, uy) = xy(&radd(f, &x, &rneg(f, &st))); let mut b = self.base.clone(); for (n, v) in [("Ux", ux), ("Uy", uy)] { b.iter_mut().find(|e| e.0 == n).unwrap().1[0] = v } add("key-with-the-same-y", Some(b)) }
        for i in 0..levels { if !th && levels > 6 && ![0, 1, levels / 2, levels - 1].contains(&i) { continue } let ix = get("pathIndices", i); add("another-index", put("pathIndices", i, f.sub(&U::ONE, &ix))); add("index-no-bit", put("pathIndices", i, U::from(2))); add("index-no-bit", put("pathIndices", i, f.neg(&U::ONE))); add("another-sibling", put("siblings", i, f.add(&get("siblings", i), &U::ONE))); add("another-sibling", put("siblings", i, U::ZERO)) }
        out
    }
}
pub fn c06(c: &Check) {
    let th = c.thorough(); let fd = real(); let f = Fp::fast(P); let sp = Spec::new(); let q = Fp::fast(Q);
    let keys: Vec<Pt> = (1..=3u64).map(|k| rmul(&f, &g(), &U::from(k * 1000003))).collect(); let ts: Vec<Pt> = (1..=2u64).map(|k| rmul(&f, &g(), &U::from(k * 77 + 1))).collect(); let ss = [U::from(5), q.neg(&U::ONE), U::from_hex("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a1"), U::ONE.shl(128).0];
    // the template at small depths: all paths
    let max = if th { 4 } else { 2 };
    for d in 1..=max { let Some(circ) = circuit(c, &fd, &format!("{EM}pubkey_membership.circom"), "PubKeyMembership", &[d as u64]) else { return }; let l = Lab::new(c, &circ, &format!("pubkey-{d}"));
        let mut cases = vec![]; for idx in 0..1u64 << d { for (i, k) in keys.iter().enumerate() { cases.push((idx, ts[i % 2], *k, ss[(i + idx as usize) % 4])) } }
        par(cases.len(), |i| { let (idx, t, k, s) = &cases[i]; let m = member(&f, &sp, false, d, s, t, k, *idx); if l.accepts(&m.base) { let w = l.witness(&m.base); for (key, b) in m.wrong(&f, t, th) { l.never(&b, &key, w.as_deref()); } } }); }
    c.bound(&format!("public-key membership at depths 1..={max}: all paths, signers over an alphabet; each input changed alone (root, s, T, U, each index, each sibling; the opposite key and the two keys of the same y) must leave no satisfying assignment"));
    // the instances that are compiled and used
    for (addr, file) in [(false, "instances/pubkey_membership.circom"), (true, "instances/addr_membership.circom")] {
        let kind = if addr { "address" } else { "pubkey" };
        let circ = match guarded(|| load(file).and_then(|p| Builder::main(&fd, &p))) { Ok(Ok((x, _))) => x, r => { let e = match r { Ok(Err(e)) | Err(e) => e, _ => unreachable!() }; c.fail(&format!("{kind}-instance-does-not-instantiate"), json!(e)); continue } };
        let ins: Vec<(String, Vec<usize>)> = { let mut v: Vec<_> = circ.ins.iter().map(|x| (x.0.clone(), x.2.clone())).collect(); v.sort(); v };
        let mut exp: Vec<(String, Vec<usize>)> = ["s", "root", "Tx", "Ty", "Ux", "Uy"].iter().map(|n| (n.to_string(), vec![])).collect(); exp.push(("pathIndices".into(), vec![20])); exp.push(("siblings".into(), vec![20])); exp.sort();
        if !c.ensure(ins == exp, &format!("{kind}-instance-inputs"), || json!({"got": format!("{ins:?}"), "expected": format!("{exp:?}")})) { continue }
        let public: Vec<String> = circ.public.iter().map(|s| circ.ins.iter().chain(circ.outs.iter()).find(|i| i.1 == *s).map_or("?".into(), |i| i.0.clone())).collect();
        c.ensure(public == ["root", "Tx", "Ty", "Ux", "Uy"], &format!("{kind}-public-order"), || json!({"public wires": public})); c.traces(1);
        let l = Lab::new(c, &circ, &format!("{kind}-instance"));
        let mut cases = vec![]; for (i, idx) in [0u64, (1 << 20) - 1, 0x55555, 0x00801, 0x80000].iter().enumerate() { if (addr && i > 1 && !th) || (i > 2 && !th) { continue } cases.push((*idx, ts[i % 2], keys[i % 3], ss[i % 4])) }
        c.bound(&format!("{kind} instance (20 levels): input names and sizes, order of the public wires, {} members accepted, each input changed alone refused for every choice of hidden signals", cases.len()));
        for (n, (idx, t, k, s)) in cases.iter().enumerate() { let m = member(&f, &sp, addr, 20, s, t, k, *idx); if !l.accepts(&m.base) { continue } if addr && n > 0 && !th { continue } let w = m.wrong(&f, t, th); let w: Vec<_> = if addr && !th { let mut seen = std::collections::BTreeSet::new(); w.into_iter().filter(|x| seen.insert(x.0.clone())).collect() } else { w };
            let like = l.witness(&m.base); let slots = if addr { 4 } else { 8 }; par(slots, |j| for (i, (key, b)) in w.iter().enumerate() { if i % slots == j { l.never(b, key, like.as_deref()); } }) }
        // the identity is no key, and keys whose coordinates have two 256-bit forms have one address
        if addr && th { let keys = small_keys(&f, 2); par(4, |j| for (i, k) in keys.iter().enumerate() { if i % 4 == j { let m = member(&f, &sp, true, 20, &ss[i % 4], &ts[0], k, i as u64); l.accepts(&m.base); } }) }
    }
}
