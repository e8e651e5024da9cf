//! G04: Pedersen commitments and multi-scalar multiplication.
use crate::conv::*;
use libspartan::verif::{commitments::*, dense_mlpoly::PolyCommitmentGens, group::*, nizk::DotProductProofGens, scalar::Scalar};
use mccore::{ec::*, *};
use std::collections::BTreeMap;
/// Multiples of a point, computed once per scalar.
struct Table { p: Pt, m: BTreeMap<U, Pt> }
impl Table { fn new(p: Pt, ks: &[U]) -> Table { let f = fq(); Table { p, m: ks.iter().map(|k| (*k, rmul(&f, &p, k))).collect() } } }
fn sum(f: &Fp, v: impl Iterator<Item = Pt>) -> Pt { v.fold(None, |a, x| radd(f, &a, &x)) }
pub fn g04(c: &Check) {
    let t = c.thorough(); let f = fq();
    let ks = vec![U::ZERO, U::ONE, U::from(2), pm1(), big()];
    // --- multi-scalar multiplication
    let base: Vec<Table> = [None, gen(), rneg(&f, &gen()), rmul(&f, &gen(), &U::from(2)), rmul(&f, &gen(), &big())].into_iter().map(|p| Table::new(p, &ks)).collect();
    let aps: Vec<GroupElement> = base.iter().map(|t| mkp(&t.p)).collect();
    let maxl = if t { 4 } else { 3 };
    c.bound(&format!("multi-scalar multiplication: all vectors of up to {maxl} pairs over 5 scalars (0, 1, 2, p-1, a large one) x 5 points (identity, G, -G, 2G, a large multiple)"));
    for len in 0..=maxl {
        let n = 25usize.pow(len as u32);
        par(n, |k| {
            let d: Vec<usize> = (0..len).map(|i| k / 25usize.pow(i as u32) % 25).collect();
            let s: Vec<Scalar> = d.iter().map(|x| sc(&ks[x % 5])).collect(); let p: Vec<GroupElement> = d.iter().map(|x| aps[x / 5]).collect();
            let w = sum(&f, d.iter().map(|x| base[x / 5].m[&ks[x % 5]]));
            c.states(1); c.steps(1); c.traces(1);
            let g = guarded(|| pv(&GroupElement::vartime_multiscalar_mul(s, p)));
            c.ensure(g == Ok(w), &format!("msm-short-{len}"), || json!({"pairs": format!("{d:?}"), "want": show(&w), "got": format!("{g:?}")}));
        });
    }
    let lens: Vec<usize> = if t { (0..=130).chain([255, 256, 257, 400, 511, 512, 513, 1000, 1024, 2048, 4096, 5000]).collect() } else { (0..=66).chain([100, 127, 128, 129, 256, 300, 512, 1024]).collect() };
    c.bound(&format!("multi-scalar multiplication by lengths {:?}..{}: points k_i G with known k_i, 4 scalar patterns, against (sum s_i k_i) G", &lens[..4], lens.last().unwrap()));
    let mx = *lens.last().unwrap();
    let mut pts = vec![]; { let mut a = gen(); for _ in 0..mx { pts.push(mkp(&a)); a = radd(&f, &a, &gen()) } }
    let fs = fp();
    par(lens.len() * 4, |k| {
        let (n, pat) = (lens[lens.len() - 1 - k / 4], k % 4);
        let s: Vec<U> = match pat { 0 => generic(n, 1), 1 => (0..n).map(|i| if i % 3 == 0 { U::ZERO } else { pm1() }).collect(), 2 => (0..n).map(|i| if i + 1 == n { big() } else { U::ZERO }).collect(), _ => (0..n).map(|i| U::from(i as u64)).collect() };
        let e = s.iter().enumerate().fold(U::ZERO, |a, (i, x)| fs.add(&a, &fs.mul(x, &U::from(i as u64 + 1))));
        let w = rmul(&f, &gen(), &e);
        c.states(1); c.steps(n as u64 + 1); c.traces(1);
        let g = guarded(|| pv(&GroupElement::vartime_multiscalar_mul(scs(&s), pts[..n].to_vec())));
        c.ensure(g == Ok(w), "msm-length", || json!({"length": n, "pattern": pat, "want": show(&w), "got": format!("{g:?}")}));
    });
    // unequal lengths have no meaning and must not be given one
    for a in 0..5usize { for b in 0..5usize { if a != b {
        c.states(1); c.steps(1);
        let g = guarded(|| pv(&GroupElement::vartime_multiscalar_mul(scs(&generic(a, 1)), pts[..b].to_vec())));
        c.ensure(g.is_err(), "msm-unequal-lengths", || json!({"scalars": a, "points": b, "got": format!("{g:?}")}));
    } } }
    // --- products of a scalar and a point in all operator forms
    for tb in &base { for k in &ks {
        let (p, s, w) = (mkp(&tb.p), sc(k), tb.m[k]);
        c.states(1); c.steps(9);
        let mut m1 = p; m1 *= s; let mut m2 = p; m2 *= &s;
        for (i, g) in [p * s, &p * s, p * &s, &p * &s, s * p, &s * p, s * &p, m1, m2, &s * &p].iter().enumerate() { c.ensure(pv(g) == w, "scalar-times-point", || json!({"form": i, "scalar": k.hex(), "point": show(&tb.p)})); }
    } }
    // --- generators
    let labels: &[&'static [u8]] = &[b"", b"a", b"b", b"ab", b"gens_r1cs_sat", b"gens_r1cs_eval", b"gens_sparse_poly"];
    let nmax = if t { 130 } else { 40 };
    c.bound(&format!("generators: {} labels, every size to {nmax}: prefix-stable, pairwise distinct over all labels, no identity, on the curve, no linear relation a P = b Q with small a, b, nor P +- Q = R", labels.len()));
    let mut all: Vec<(usize, usize, Pt)> = vec![];
    for (li, l) in labels.iter().enumerate() {
        let full = MultiCommitGens::new(nmax, l);
        let seq: Vec<Pt> = full.G.iter().map(pv).chain([pv(&full.h)]).collect();
        for (i, p) in seq.iter().enumerate() { all.push((li, i, *p)) }
        par(nmax + 1, |n| {
            let g = MultiCommitGens::new(n, l); let again = MultiCommitGens::new(n, l);
            c.states(1); c.steps(n as u64 + 1); c.traces(1);
            let k = || json!({"label": String::from_utf8_lossy(l), "n": n});
            c.ensure(g.n == n && g.G.len() == n, "generator-count", k);
            c.ensure(g.G.iter().enumerate().all(|(i, p)| pv(p) == seq[i]) && pv(&g.h) == seq[n], "generators-not-prefix-stable", k);
            c.ensure(g.G == again.G && g.h == again.h && g.clone().G == g.G && g.clone().h == g.h && g.clone().n == n, "generators-not-reproducible", k);
        });
    }
    // long keys, as big circuits need them
    let big_n: &[usize] = if t { &[255, 256, 257, 300, 512, 1023, 1024, 1025, 2048, 4097, 8192] } else { &[255, 256, 257, 300, 1025, 2050] };
    c.bound(&format!("generators: long keys of sizes {big_n:?} under 2 labels: prefix-stable, pairwise distinct and never opposite, also against all short keys"));
    for (li, l) in [(3usize, labels[3]), (4, labels[4])] {
        let n = *big_n.last().unwrap(); let full = MultiCommitGens::new(n, l);
        for (i, p) in full.G.iter().chain([&full.h]).enumerate() { if i > nmax { all.push((li, i, pv(p))) } }
        par(big_n.len(), |k| {
            let m = big_n[k]; let g = MultiCommitGens::new(m, l);
            c.states(1); c.steps(m as u64 + 1); c.traces(1);
            c.ensure(g.n == m && g.G.len() == m && g.G[..] == full.G[..m] && (if m == n { g.h == full.h } else { g.h == full.G[m] }), "long-key-not-prefix-stable", || json!({"label": String::from_utf8_lossy(l), "n": m}));
        });
    }
    // small linear relations among all generators and the base point
    all.push((99, 0, gen()));
    let mut seen: BTreeMap<Pt, (usize, usize, u64)> = BTreeMap::new();
    let lim = if t { 8 } else { 4 };
    for (l, i, p) in &all {
        c.states(1); c.steps(1);
        c.ensure(p.map_or(false, |(x, y)| f.sq(&y) == f.add(&f.mul(&f.sq(&x), &x), &U::from(7))), "generator-identity-or-off-curve", || json!({"label": l, "index": i}));
        let mut a = *p;
        for m in 1..=lim {
            for q in [a, rneg(&f, &a)] { if let Some((l2, i2, m2)) = seen.insert(q, (*l, *i, m)) { if (l2, i2) != (*l, *i) { c.fail("generators-related", json!({"first": [l2, i2], "second": [l, i], "multiples": [m2, m]})) } } }
            a = radd(&f, &a, p);
        }
    }
    let one: Vec<&(usize, usize, Pt)> = all.iter().filter(|x| (x.0 == 4 && x.1 <= nmax) || x.0 == 99).collect();
    let plain: BTreeMap<Pt, (usize, usize)> = all.iter().map(|x| (x.2, (x.0, x.1))).collect();
    par(one.len(), |i| for j in 0..one.len() { if i != j { let s = radd(&f, &one[i].2, &rneg(&f, &one[j].2)); c.steps(1); for q in [s, rneg(&f, &s)] { if let Some(x) = plain.get(&q) { c.fail("generators-related", json!({"difference": [one[i].1, one[j].1], "equals": [x.0, x.1]})) } } } });
    // --- commitments
    let (gm, lm) = if t { (5, 5) } else { (4, 4) };
    let g = MultiCommitGens::new(gm, b"commit");
    let tabs: Vec<Table> = g.G.iter().map(|p| Table::new(pv(p), &ks)).collect(); let th = Table::new(pv(&g.h), &ks);
    c.bound(&format!("commitments: all vectors of up to {lm} scalars x blinds over 5 values; every wrong number of generators refused"));
    for len in 0..=lm {
        let gl = g.split_at(len).0;
        par(5usize.pow(len as u32 + 1), |k| {
            let d: Vec<usize> = (0..=len).map(|i| k / 5usize.pow(i as u32) % 5).collect();
            let v: Vec<Scalar> = d[1..].iter().map(|x| sc(&ks[*x])).collect(); let b = sc(&ks[d[0]]);
            let w = radd(&f, &th.m[&ks[d[0]]], &sum(&f, d[1..].iter().enumerate().map(|(i, x)| tabs[i].m[&ks[*x]])));
            c.states(1); c.steps(2); c.traces(1);
            let r = guarded(|| (pv(&v.commit(&b, &gl)), pv(&v[..].commit(&b, &gl)), if len == 1 { pv(&v[0].commit(&b, &gl)) } else { w }));
            c.ensure(r == Ok((w, w, w)), "commitment", || json!({"values": format!("{d:?}"), "got": format!("{r:?}")}));
        });
        for n in 0..=gm { if n != len {
            let gn = g.split_at(n).0; let v = scs(&generic(len, 3));
            c.states(1); c.steps(2);
            let r = guarded(|| v.commit(&Scalar::one(), &gn)).is_ok() || guarded(|| v[..].commit(&Scalar::one(), &gn)).is_ok() || (n != 1 && guarded(|| Scalar::one().commit(&Scalar::one(), &gn)).is_ok());
            c.ensure(!r, "commitment-with-wrong-number-of-generators", || json!({"values": len, "generators": n}));
        } }
    }
    // --- scaling and splitting
    for n in 0..=gm { let gn = g.split_at(n).0;
        for k in &ks { let s = gn.scale(&sc(k)); c.states(1); c.steps(n as u64 + 1); c.ensure(s.n == n && s.G.len() == n && (0..n).all(|i| pv(&s.G[i]) == tabs[i].m[k]) && pv(&s.h) == th.p, "scale", || json!({"n": n, "by": k.hex()})); }
        for mid in 0..=n { let (a, b) = gn.split_at(mid); c.states(1); c.steps(1); c.ensure(a.n == mid && b.n == n - mid && a.G == gn.G[..mid] && b.G == gn.G[mid..] && a.h == gn.h && b.h == gn.h, "split", || json!({"n": n, "at": mid})); }
    }
    // --- the same for long keys, whose generators are multiples of the base point known here
    let ll = lengths(if t { 4097 } else { 1025 });
    c.bound(&format!("long keys: commitments to vectors of {} lengths up to {}, scaling and splitting of a key of 1100 generators", ll.len(), ll.last().unwrap()));
    while pts.len() < 1100.max(*ll.last().unwrap() + 8) { let a = radd(&f, &pv(&pts[pts.len() - 1]), &gen()); pts.push(mkp(&a)) }
    let pts = &pts; let key = |n: usize| MultiCommitGens { n, G: pts[..n].to_vec(), h: pts[6] };
    par(ll.len(), |q| { let n = ll[ll.len() - 1 - q]; let (v, b) = (generic(n, 5), big());
        let e = v.iter().enumerate().fold(fs.mul(&b, &U::from(7)), |a, (i, x)| fs.add(&a, &fs.mul(x, &U::from(i as u64 + 1)))); let w = rmul(&f, &gen(), &e);
        c.states(1); c.steps(2); c.traces(1);
        let r = guarded(|| { let v = scs(&v); (pv(&v.commit(&sc(&b), &key(n))), pv(&v[..].commit(&sc(&b), &key(n)))) });
        c.ensure(r == Ok((w, w)), "long-commitment", || json!({"length": n, "got": format!("{r:?}")}));
        let (x, y) = key(n).split_at(n / 3); c.ensure(x.n == n / 3 && y.n == n - n / 3 && x.G == pts[..n / 3] && y.G == pts[n / 3..n] && x.h == pts[6] && y.h == pts[6], "long-split", || json!({"length": n}));
        let k = key(n).clone(); c.ensure(k.n == n && k.G == pts[..n] && k.h == pts[6], "long-clone", || json!({"length": n}));
    });
    { let s = key(1100).scale(&sc(&big())); c.ensure(s.n == 1100 && s.G.len() == 1100 && pv(&s.h) == pv(&pts[6]), "long-scale", || json!({}));
        par(1100, |i| { c.steps(1); let w = rmul(&f, &gen(), &fs.mul(&big(), &U::from(i as u64 + 1))); c.ensure(pv(&s.G[i]) == w, "long-scale", || json!({"generator": i})); }) }
    // --- nothing is remembered from a call on neighbouring data
    { let mut ls: Vec<Vec<u8>> = vec![b"gens_r1cs_sat".to_vec()];
        for i in 0..13 { for x in [1u8, 0x20, 0x80] { let mut l = ls[0].clone(); l[i] ^= x; ls.push(l) } ls.push(ls[0][..i].to_vec()); }
        for x in [0u8, 1, b't', 255] { let mut l = ls[0].clone(); l.push(x); ls.push(l); let mut l = ls[0].clone(); l.insert(0, x); ls.push(l) }
        for n in [64, 136, 200, 300] { ls.push(vec![b'x'; n]); ls.push({ let mut l = vec![b'x'; n]; l[n - 1] = b'y'; l }); ls.push({ let mut l = vec![b'x'; n]; l[0] = b'y'; l }) }
        ls.sort(); ls.dedup(); let i0 = ls.iter().position(|l| l == b"gens_r1cs_sat").unwrap(); ls.swap(0, i0);
        c.bound(&format!("{} labels that differ in one byte, in length or in the end of a long one, one after the other and repeated: the generators of all of them are different and come again", ls.len()));
        let mk = |l: &Vec<u8>, n: usize| { let g = MultiCommitGens::new(n, l); g.G.iter().chain([&g.h]).map(pv).collect::<Vec<Pt>>() };
        let first: Vec<Vec<Pt>> = ls.iter().map(|l| mk(l, 2)).collect(); let mut owner: BTreeMap<Pt, usize> = BTreeMap::new();
        for (i, g) in first.iter().enumerate() { for p in g { c.states(1); c.steps(1); if let Some(j) = owner.insert(*p, i) { c.fail("labels-share-generators", json!({"labels": [String::from_utf8_lossy(&ls[j]), String::from_utf8_lossy(&ls[i])]})) } } }
        let idx: Vec<usize> = (0..ls.len()).collect();
        neighbours(c, "generators-after-another-label", &idx, |i| mk(&ls[*i], 2), |i| first[*i].clone());
        neighbours(c, "generators-after-another-size", &idx[..12].iter().map(|i| (i % 3, i / 3 + 1)).collect::<Vec<_>>(), |(l, n)| mk(&ls[*l], *n)[..2].to_vec(), |(l, _)| first[*l][..2].to_vec());
        // keys, vectors and blinds with one part changed; the key's generators are multiples of the base point
        let n = 6; let m0: Vec<u64> = (1..=7).collect(); let v0 = generic(n, 5); let b0 = big(); let mut it = vec![(m0.clone(), v0.clone(), b0)];
        for i in 0..=n { let mut m = m0.clone(); m[i] += 20; it.push((m, v0.clone(), b0)); if i + 1 < n { let mut m = m0.clone(); m.swap(i, i + 1); it.push((m, v0.clone(), b0)) } }
        for i in 0..n { for x in [U::ONE, U::ONE.shl(64).0, U::ONE.shl(192).0, big()] { let mut v = v0.clone(); v[i] = fs.add(&v[i], &x); it.push((m0.clone(), v, b0)) } if i + 1 < n { let mut v = v0.clone(); v.swap(i, i + 1); it.push((m0.clone(), v, b0)) } }
        for x in [U::ONE, U::ONE.shl(64).0, U::ONE.shl(192).0, big()] { it.push((m0.clone(), v0.clone(), fs.add(&b0, &x))) }
        let point = |k: &u64| pts[*k as usize - 1]; let key = |m: &[u64]| MultiCommitGens { n, G: m[..n].iter().map(point).collect(), h: point(&m[n]) };
        let mult = |e: U| rmul(&f, &gen(), &e);
        c.bound(&format!("{} commitments, sums of multiples and scaled keys that differ in one generator, scalar or blind, one after the other", it.len()));
        neighbours(c, "commitment-after-another", &it, |(m, v, b)| { let v = scs(v); (pv(&v.commit(&sc(b), &key(m))), pv(&v[..].commit(&sc(b), &key(m)))) },
            |(m, v, b)| { let w = mult(v.iter().zip(m).fold(fs.mul(b, &U::from(m[n])), |a, (x, k)| fs.add(&a, &fs.mul(x, &U::from(*k))))); (w, w) });
        neighbours(c, "sum-after-another", &it, |(m, v, _)| pv(&GroupElement::vartime_multiscalar_mul(scs(v), m[..n].iter().map(point).collect())),
            |(m, v, _)| mult(v.iter().zip(m).fold(U::ZERO, |a, (x, k)| fs.add(&a, &fs.mul(x, &U::from(*k))))));
        neighbours(c, "one-value-after-another", &it, |(m, v, b)| pv(&sc(&v[0]).commit(&sc(b), &MultiCommitGens { n: 1, G: vec![point(&m[0])], h: point(&m[n]) })),
            |(m, v, b)| mult(fs.add(&fs.mul(&v[0], &U::from(m[0])), &fs.mul(b, &U::from(m[n])))));
        neighbours(c, "scale-after-another", &it, |(m, _, b)| { let s = key(m).scale(&sc(b)); s.G.iter().chain([&s.h]).map(pv).collect::<Vec<Pt>>() },
            |(m, _, b)| (0..=n).map(|i| mult(if i < n { fs.mul(b, &U::from(m[i])) } else { U::from(m[i]) })).collect());
        neighbours(c, "split-after-another", &it, |(m, _, _)| { let (a, b) = key(m).split_at(2); a.G.iter().chain([&a.h]).chain(&b.G).chain([&b.h]).map(pv).collect::<Vec<Pt>>() },
            |(m, _, _)| [0usize, 1, 6, 2, 3, 4, 5, 6].iter().map(|i| pv(&point(&m[*i]))).collect()); }
    // --- parameters built on them: value bases and the blinding base stay independent
    for n in (0..=if t { 9 } else { 6 }).map(|x| 1usize << x) {
        let d = DotProductProofGens::new(n, b"x");
        let mut v: Vec<Pt> = d.gens_n.G.iter().chain(&d.gens_1.G).map(pv).collect(); v.push(pv(&d.gens_n.h));
        c.states(1); c.steps(1);
        let ok = d.gens_n.n == n && d.gens_n.G.len() == n && d.gens_1.n == 1 && d.gens_1.G.len() == 1 && d.gens_n.h == d.gens_1.h && v.iter().all(|p| p.is_some());
        v.sort(); v.dedup();
        c.ensure(ok && v.len() == n + 2, "dot-product-generators", || json!({"n": n}));
    }
    for nv in 0..=if t { 14 } else { 9 } {
        let g = PolyCommitmentGens::new(nv, b"x");
        c.states(1); c.steps(1);
        c.ensure(g.gens.gens_n.n == 1 << (nv - nv / 2), "polynomial-generators", || json!({"variables": nv, "got": g.gens.gens_n.n}));
    }
    c.sample(json!({"label": "gens_r1cs_sat", "first_generator": show(&all[4 * (nmax + 1)].2)}));
}
