//! The secq256k1 group: affine wrapper, point encodings, map to curve.
use crate::fields::{cs, secq};
use group::Group;
use mccore::{big::*, *};
use secq256k1::{affine::AffinePointCore, elliptic_curve::sec1::ToEncodedPoint, AffinePoint, EncodedPoint};

pub use mccore::ec::*;
pub fn pv(p: &AffinePoint) -> Pt { if bool::from(p.0.is_identity()) { None } else { Some((secq::val(&p.0.x), secq::val(&p.0.y))) } }
/// Built through the uncompressed encoding, so independent of the group law.
pub fn mkp(p: &Pt) -> AffinePoint {
    match p { None => AffinePoint::identity(), Some((x, y)) => AffinePoint::decompress(EncodedPoint::from_affine_coordinates(&x.be().into(), &y.be().into(), false)).unwrap() }
}

pub fn g01(c: &Check) {
    let t = c.thorough();
    let f = Fp::fast(Q);
    c.steps(2);
    c.ensure(pv(&AffinePoint::generator()) == gen() && pv(&<AffinePoint as Group>::generator()) == gen(), "generator", || show(&pv(&AffinePoint::generator())));
    c.ensure(pv(&AffinePoint::identity()).is_none(), "identity", || json!({}));
    let n = if t { 40 } else { 14 };
    let mut ks: Vec<U> = (0..n as u64).map(U::from).collect();
    for k in 1..(n / 2) as u64 { ks.push(P.sub(&U::from(k)).0) }
    ks.push(P.shr(1)); ks.push(P.shr(1).add(&U::ONE).0);
    for b in [64, 128, 255] { ks.push(U::ONE.shl(b).0.modulo(&P)) }
    let pts: Vec<Pt> = ks.iter().map(|k| rmul(&f, &gen(), k)).collect();
    let aps: Vec<AffinePoint> = pts.iter().map(mkp).collect();
    c.bound(&format!("group law: every ordered pair of {} points kG (k small, near the order, half the order, powers of two), so identity, doubling and inverse cases all occur", pts.len()));
    c.states((pts.len() * pts.len()) as u64); c.traces((pts.len() * pts.len()) as u64);
    par(pts.len(), |i| for j in 0..pts.len() {
        let (a, b) = (aps[i], aps[j]);
        let s = radd(&f, &pts[i], &pts[j]); let d = radd(&f, &pts[i], &rneg(&f, &pts[j]));
        let k = || json!({"a": show(&pts[i]), "b": show(&pts[j])});
        c.steps(10);
        c.ensure(pv(&(a + b)) == s, "add", k);
        c.ensure(pv(&(a + &b)) == s, "add-ref", k);
        let mut m = a; m += b; c.ensure(pv(&m) == s, "add-assign", k);
        let mut m = a; m += &b; c.ensure(pv(&m) == s, "add-assign-ref", k);
        c.ensure(pv(&(a - b)) == d, "sub", k);
        c.ensure(pv(&(a - &b)) == d, "sub-ref", k);
        let mut m = a; m -= b; c.ensure(pv(&m) == d, "sub-assign", k);
        let mut m = a; m -= &b; c.ensure(pv(&m) == d, "sub-assign-ref", k);
        c.ensure(pv(&[a, b, a].iter().sum::<AffinePoint>()) == radd(&f, &s, &pts[i]) && pv(&[a, b, a].into_iter().sum::<AffinePoint>()) == radd(&f, &s, &pts[i]), "sum", k);
        c.ensure((a == b) == (pts[i] == pts[j]), "equality", k);
    });
    // sums of long lists
    { let ll = lengths(300); c.bound("sums of lists of 0 to 300 points"); let big: Vec<usize> = (0..300).map(|i| (i * 7 + i / 5) % pts.len()).collect(); let mut acc = vec![None]; for i in &big { acc.push(radd(&f, acc.last().unwrap(), &pts[*i])) }
      par(ll.len(), |q| { let m = ll[q]; let v: Vec<AffinePoint> = big[..m].iter().map(|i| aps[*i]).collect(); c.states(1); c.steps(2); c.traces(1);
        let g = guarded(|| (pv(&v.iter().sum::<AffinePoint>()), pv(&v.clone().into_iter().sum::<AffinePoint>()))); c.ensure(g == Ok((acc[m], acc[m])), "long-sum", || json!({"length": m, "got": format!("{g:?}")})); }) }
    // scalar multiples, through every operator, and unary operations
    let mut es = ks.clone(); for b in 0..256 { if b % if t { 1 } else { 4 } == 0 { es.push(U::ONE.shl(b).0.modulo(&P)); es.push(U::ONE.shl(b).0.sub(&U::ONE).0.modulo(&P)) } }
    es.extend(corners(&P, 0, if t { &[0, 1, 1 << 63, u64::MAX] } else { &[0, u64::MAX] }));
    es.sort(); es.dedup();
    let bases: Vec<usize> = [0usize, 1, 2, 3, 7, n, n + 1, pts.len() - 1].to_vec();
    c.bound(&format!("scalar multiplication: {} base points x {} scalars", bases.len(), es.len()));
    c.states((bases.len() * es.len()) as u64); c.traces((bases.len() * es.len()) as u64);
    par(es.len(), |i| for &b in &bases {
        let e = es[i]; let w = rmul(&f, &pts[b], &e); let a = aps[b];
        let k = || json!({"point": show(&pts[b]), "scalar": e.to_string()});
        c.steps(4);
        c.ensure(pv(&(a * cs(&e))) == w, "mul", k);
        if i % 3 == 0 {
            c.ensure(pv(&(&a * cs(&e))) == w && pv(&(a * &cs(&e))) == w, "mul-ref", k);
            let mut m = a; m *= cs(&e); let mut m2 = a; m2 *= &cs(&e);
            c.ensure(pv(&m) == w && pv(&m2) == w, "mul-assign", k);
        }
    });
    for (i, a) in aps.iter().enumerate() {
        c.steps(3); c.states(1); c.traces(1);
        let k = || json!({"a": show(&pts[i])});
        c.ensure(pv(&-*a) == rneg(&f, &pts[i]), "neg", k);
        c.ensure(pv(&Group::double(a)) == radd(&f, &pts[i], &pts[i]), "double", k);
        c.ensure(bool::from(Group::is_identity(a)) == pts[i].is_none(), "is_identity", k);
    }
    // histories: walks of group operations without re-encoding in between
    let depth = if t { 7 } else { 5 };
    let mut front: Vec<(AffinePoint, Pt)> = vec![(AffinePoint::identity(), None), (AffinePoint::generator(), gen())];
    let h = mkp(&pts[7]);
    let mut seen = std::collections::HashSet::new();
    for _ in 0..depth {
        let mut next = vec![];
        for (a, v) in &front {
            for op in 0..7 {
                let (x, w) = match op { 0 => (*a + h, radd(&f, v, &pts[7])), 1 => (*a - h, radd(&f, v, &rneg(&f, &pts[7]))), 2 => (-*a, rneg(&f, v)), 3 => (Group::double(a), radd(&f, v, v)), 4 => (*a * cs(&U::from(3)), rmul(&f, v, &U::from(3))), 5 => (*a + *a, radd(&f, v, v)), _ => (*a * cs(&P.sub(&U::ONE).0), rneg(&f, v)) };
                c.steps(1); c.traces(1);
                if c.ensure(pv(&x) == w, "history", || json!({"from": show(v), "op": op})) && seen.insert(w) { next.push((x, w)) }
            }
        }
        front = next;
    }
    c.states(seen.len() as u64); c.bound(&format!("histories: all walks of length {depth} over 7 group operations from the identity and the generator, merged by point"));
}

pub fn g02(c: &Check) {
    let t = c.thorough();
    let f = Fp::fast(Q);
    // valid points round-trip
    let n = if t { 600 } else { 120 };
    let mut v: Vec<Pt> = vec![None]; let mut p = gen();
    for _ in 0..n { v.push(p); v.push(rneg(&f, &p)); p = radd(&f, &p, &gen()) }
    c.states(v.len() as u64); c.bound(&format!("{} points (multiples of the generator, their negatives, the identity): compress / decompress / uncompressed round trip", v.len()));
    par(v.len(), |i| {
        let a = mkp(&v[i]); let k = || show(&v[i]);
        c.steps(3); c.traces(1);
        let e = a.compress();
        let want: Vec<u8> = match &v[i] { None => vec![0], Some((x, y)) => { let mut b = vec![2 + y.odd() as u8]; b.extend(x.be()); b } };
        c.ensure(e.as_bytes() == want, "compress", k);
        let d: Option<AffinePoint> = AffinePoint::decompress(e).into();
        c.ensure(d.map(|d| pv(&d)) == Some(v[i]), "decompress", k);
        let u = AffinePointCore::to_encoded_point(&a.0, false);
        let d: Option<AffinePoint> = AffinePoint::decompress(u).into();
        c.ensure(d.map(|d| pv(&d)) == Some(v[i]), "uncompressed-roundtrip", k);
    });
    // every x of an alphabet, both parities: accepted iff on the curve, canonical
    let mut xs: Vec<U> = corners(&U::MAX, 0, if t { &[0, 1, 2, 1 << 63, Q.0[0], Q.0[1], u64::MAX] } else { &[0, 1, Q.0[0], u64::MAX] });
    for k in 0..if t { 400 } else { 60 } { xs.push(U::from(k)); xs.push(Q.sub(&U::from(k + 1)).0); xs.push(Q.add(&U::from(k)).0) }
    xs.sort(); xs.dedup();
    c.states(2 * xs.len() as u64); c.bound(&format!("{} x-coordinates (canonical and not) x both sign bytes: decoding succeeds exactly for canonical x on the curve", xs.len()));
    par(xs.len(), |i| for tag in [2u8, 3] {
        let x = xs[i]; c.steps(1); c.traces(1);
        let want: Pt = if x < Q { f.sqrt(&f.add(&f.mul(&f.sq(&x), &x), &U::from(7))).map(|y| (x, if y.odd() == (tag == 3) { y } else { f.neg(&y) })) } else { None };
        let mut b = vec![tag]; b.extend(x.be());
        let e = EncodedPoint::from_bytes(&b).unwrap();
        let got = guarded(|| { let d: Option<AffinePoint> = AffinePoint::decompress(e).into(); d });
        let k = || json!({"bytes": b.iter().map(|x| format!("{x:02x}")).collect::<String>()});
        match got {
            Err(_) => c.fail("decompress:panic", k()),
            Ok(g) => { c.ensure(g.map(|g| pv(&g)) == want.map(Some), "decompress:x", k); }
        }
    });
    // uncompressed: off-curve pairs are refused
    for i in 0..v.len().min(60) { let Some((x, y)) = v[i] else { continue };
        for (dx, dy) in [(0u64, 1u64), (1, 0), (1, 1), (0, 2)] {
            let (x2, y2) = (f.add(&x, &U::from(dx)), f.add(&y, &U::from(dy)));
            let on = f.sq(&y2) == f.add(&f.mul(&f.sq(&x2), &x2), &U::from(7));
            c.states(1); c.steps(1); c.traces(1);
            let d: Option<AffinePoint> = AffinePoint::decompress(EncodedPoint::from_affine_coordinates(&x2.be().into(), &y2.be().into(), false)).into();
            c.ensure(d.is_some() == on, "uncompressed:off-curve", || json!({"x": x2.to_string(), "y": y2.to_string()}));
        }
    }
}

// Simplified SWU + 3-isogeny, from RFC 9380 section 6.6.2/6.6.3, on plain integers.
// The curve-specific numbers are the outputs of sage/hashtocurve_params.sage.
fn iso() -> (U, U, U, Vec<U>) {
    let a = U::from_dec("3642995984045157452672683439396299070953881827175886364060394186787010798372");
    let b = U::from(1771);
    let z = Q.sub(&U::from(14)).0;
    let k = [[7679007869575068054u64, 9522933797269734319, 16397105843297379213, 10248191152060862008], [9826996953646961554, 15182850926035153421, 14578491762904662818, 12647934416601614380], [12837744973953074055, 3022921441994356503, 9226076221592167090, 5322610924144458968], [7679007869575068113, 9522933797269734319, 16397105843297379213, 10248191152060862008], [5509687591411919004, 593833991126057235, 2079217350175104065, 3150945307157219731], [10055942181862970998, 5902098865151897053, 9296385024764340435, 14583286435933530837], [1018159320366879645, 7658288605871115257, 17763531330238827481, 9564978408590137874], [14136870513678256585, 7591425463017576710, 7289245881452331409, 6323967208300807190], [14802773332216597422, 16078857340678580677, 3084372689655359971, 1069495981486797935], [2553960894281893207, 13252224180066972444, 13664254869414482677, 11614616639002310276], [17487903423972654314, 10114123023543861660, 12342198062117431905, 4726417960735829596], [2523398215118668000, 9249176628478019873, 9442411000583469692, 6856371160381489280], [13822214165235121741, 13451932020343611451, 18446744073709551614, 18446744073709551615]];
    (a, b, z, k.iter().map(|x| U(*x)).collect())
}
fn ref_map(f: &Fp, u: &U) -> Pt {
    let (a, b, z, k) = iso();
    let zu2 = f.mul(&z, &f.sq(u));
    let den = f.add(&f.sq(&zu2), &zu2);
    let x1 = if den.is_zero() { f.mul(&b, &f.inv(&f.mul(&z, &a)).unwrap()) }
        else { f.mul(&f.mul(&f.neg(&b), &f.inv(&a).unwrap()), &f.add(&U::ONE, &f.inv(&den).unwrap())) };
    let g = |x: &U| f.add(&f.add(&f.mul(&f.sq(x), x), &f.mul(&a, x)), &b);
    let (x, mut y) = match f.sqrt(&g(&x1)) { Some(y) => (x1, y), None => { let x2 = f.mul(&zu2, &x1); (x2, f.sqrt(&g(&x2)).unwrap()) } };
    if y.odd() != u.odd() { y = f.neg(&y) }
    let (x2, x3) = (f.sq(&x), f.mul(&f.sq(&x), &x));
    let lin = |c3: &U, c2: &U, c1: &U, c0: &U| f.add(&f.add(&f.mul(c3, &x3), &f.mul(c2, &x2)), &f.add(&f.mul(c1, &x), c0));
    let xn = lin(&k[0], &k[1], &k[2], &k[3]); let xd = lin(&U::ZERO, &U::ONE, &k[4], &k[5]);
    let yn = lin(&k[6], &k[7], &k[8], &k[9]); let yd = lin(&U::ONE, &k[10], &k[11], &k[12]);
    if xd.is_zero() || yd.is_zero() { return None }
    Some((f.mul(&xn, &f.inv(&xd).unwrap()), f.mul(&y, &f.mul(&yn, &f.inv(&yd).unwrap()))))
}
fn wide(x: &U, hi: u64) -> [u8; 64] { let mut b = [0; 64]; b[..32].copy_from_slice(&x.le()); b[32..40].copy_from_slice(&hi.to_le_bytes()); b }
fn red512(b: &[u8]) -> U { let mut l = [0u64; 8]; for i in 0..8 { l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()) } rem(&l, &Q) }

pub fn g03(c: &Check) {
    let t = c.thorough();
    let f = Fp::fast(Q);
    let mut us: Vec<[u8; 64]> = vec![];
    for x in corners(&U::MAX, 0, if t { &[0, 1, 2, 1 << 63, Q.0[0], u64::MAX] } else { &[0, 1, u64::MAX] }) { us.push(wide(&x, 0)); us.push(wide(&x, u64::MAX)) }
    for k in 0..if t { 300u64 } else { 40 } { us.push(wide(&U::from(k), 0)); us.push(wide(&Q.sub(&U::from(k)).0, k)) }
    for k in 0..=255u8 { us.push([k; 64]) }
    // the exceptional u with Z^2 u^4 + Z u^2 = 0, i.e. u = 0 or u^2 = -1/Z
    let (_, _, z, _) = iso();
    if let Some(u) = f.sqrt(&f.inv(&f.neg(&z)).unwrap()) { us.push(wide(&u, 0)); us.push(wide(&f.neg(&u), 0)) }
    us.sort(); us.dedup();
    let others = [wide(&U::ZERO, 0), wide(&U::from(5), 7), [255u8; 64]];
    c.bound(&format!("{} first halves (canonical, above the modulus, 512-bit, exceptional) x {} second halves, in both orders, against the RFC construction on integers", us.len(), others.len()));
    c.states((us.len() * others.len() * 2) as u64);
    let maps: Vec<Pt> = others.iter().map(|o| ref_map(&f, &red512(o))).collect();
    par(us.len(), |i| {
        let m = ref_map(&f, &red512(&us[i]));
        for (j, o) in others.iter().enumerate() { for swap in [false, true] {
            let mut b = [0u8; 128];
            let (x, y) = if swap { (o, &us[i]) } else { (&us[i], o) };
            b[..64].copy_from_slice(x); b[64..].copy_from_slice(y);
            let w = radd(&f, &m, &maps[j]);
            c.steps(1); c.traces(1);
            let k = || json!({"u1": U::from_le(&x[..32]).to_string(), "u2": U::from_le(&y[..32]).to_string(), "want": show(&w)});
            match guarded(|| pv(&AffinePoint::from_uniform_bytes(&b))) {
                Err(p) => c.fail("panic", json!({"u1": U::from_le(&x[..32]).to_string(), "u2": U::from_le(&y[..32]).to_string(), "panic": p})),
                Ok(g) => {
                    c.ensure(g == w, "map", k);
                    if let Some((x, y)) = g { c.ensure(f.sq(&y) == f.add(&f.mul(&f.sq(&x), &x), &U::from(7)), "on-curve", k); }
                }
            }
        } }
    });
    let mut it = vec![{ let mut b = [0u8; 128]; for (i, x) in b.iter_mut().enumerate() { *x = (i * 37 + 11) as u8 } b }];
    for i in 0..128 { for x in [1u8, 0x80] { let mut b = it[0]; b[i] ^= x; it.push(b) } }
    for i in 0..64 { let mut b = it[0]; b.swap(i, i + 64); it.push(b) }
    { let mut b = it[0]; b.rotate_left(64); it.push(b); let mut b = it[0]; b.reverse(); it.push(b) }
    c.bound(&format!("{} inputs that differ from one another in a single bit or exchange, one after the other", it.len()));
    neighbours(c, "map-after-another", &it, |b| pv(&AffinePoint::from_uniform_bytes(b)), |b| radd(&f, &ref_map(&f, &red512(&b[..64])), &ref_map(&f, &red512(&b[64..]))));
}
