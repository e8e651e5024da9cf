//! Point addition and doubling.
use crate::{fd::Fd, lab::*};
use mccore::{ec::*, *};
use std::sync::Arc;
fn order(n: usize) -> bool { n % 2 == 1 }
pub fn c01(c: &Check) {
    let th = c.thorough(); let file = format!("{EM}secp256k1/add.circom"); let dfile = format!("{EM}secp256k1/double.circom");
    let max = if th { 61 } else { 31 };
    let primes: Vec<u64> = (5..=max).filter(|p| (2..*p).all(|d| p % d != 0)).collect(); let mut curves = vec![];
    for p in primes { for b in 1..p { let f = Fp::new(U::from(p)); let pts: Vec<Pt> = (0..p).flat_map(|x| (0..p).map(move |y| (x, y))).filter(|(x, y)| (y * y) % p == (x * x % p * x + b) % p).map(|(x, y)| Some((U::from(x), U::from(y)))).collect();
        if pts.iter().any(|q| q.unwrap().0.is_zero()) || !order(pts.len() + 1) || pts.is_empty() { continue } curves.push((p, b, f, pts)) } }
    c.bound(&format!("all {} curves y^2 = x^3 + b over fields of 5 to {max} elements that, like secp256k1, have odd order and no point with x = 0: every pair of points including the identity, equal and opposite ones, with every assignment of the hidden signals", curves.len()));
    par(curves.len(), |i| {
        let (p, b, f, pts) = &curves[i]; let fd = Arc::new(Fd::new(U::from(*p)));
        let (Some(add), Some(inc), Some(dbl)) = (circuit(c, &fd, &file, "Secp256k1AddComplete", &[]), circuit(c, &fd, &file, "Secp256k1AddIncomplete", &[]), circuit(c, &fd, &dfile, "Secp256k1Double", &[])) else { return };
        if add.big || inc.big || dbl.big { c.part("small fields left out: constants of the real field", 1); return }
        let mk = |circ, n: &str| { let mut l = Lab::new(c, circ, n); l.probes = vec![]; l.budget = 2_000_000; l }; let (add, inc, dbl) = (mk(&add, "add-complete"), mk(&inc, "add-incomplete"), mk(&dbl, "double"));
        let all: Vec<Pt> = std::iter::once(None).chain(pts.iter().cloned()).collect(); c.part("curves", 1); let _ = b;
        for x in &all { for y in &all {
            let (px, py) = xy(x); let (qx, qy) = xy(y); let (rx, ry) = xy(&radd(f, x, y));
            let inp = [("xP", vec![px]), ("yP", vec![py]), ("xQ", vec![qx]), ("yQ", vec![qy])]; let out = [("outX", vec![rx]), ("outY", vec![ry])];
            add.exactly(&inp, &out, true);
            if x.is_some() && y.is_some() && px != qx { inc.exactly(&inp, &out, true); }
        } if x.is_some() { let (px, py) = xy(x); let (rx, ry) = xy(&radd(f, x, x)); dbl.exactly(&[("xP", vec![px]), ("yP", vec![py])], &[("outX", vec![rx]), ("outY", vec![ry])], true); } }
    });
    // the real field
    let f = Fp::fast(P); let fd = Arc::new(Fd::real());
    let (Some(add), Some(inc), Some(dbl)) = (circuit(c, &fd, &file, "Secp256k1AddComplete", &[]), circuit(c, &fd, &file, "Secp256k1AddIncomplete", &[]), circuit(c, &fd, &dfile, "Secp256k1Double", &[])) else { return };
    let (add, inc, dbl) = (Lab::new(c, &add, "add-complete"), Lab::new(c, &inc, "add-incomplete"), Lab::new(c, &dbl, "double"));
    let mut pts: Vec<Pt> = vec![None]; let n = if th { 24u64 } else { 8 };
    for k in 1..=n { let q = rmul(&f, &g(), &U::from(k)); pts.push(q); pts.push(rneg(&f, &q)) }
    for k in [128usize, 200, 255] { pts.push(rmul(&f, &g(), &U::ONE.shl(k).0)) }
    // points with special coordinates: smallest x, smallest and largest y, and their relatives under the curve's endomorphism
    let beta = { let e = P.sub(&U::ONE).0.div(&U::from(3)); (2u64..).map(|a| f.pow(&U::from(a), &e)).find(|b| *b != U::ONE).unwrap() };
    let cbrt = |a: &U| -> Option<U> { if a.is_zero() { return None } let e = P.add(&U::from(2)).0.div(&U::from(9)); let x = f.pow(a, &e); if f.mul(&x, &f.sq(&x)) == *a { Some(x) } else { None } };
    let by_x = |x: &U| f.sqrt(&f.add(&f.mul(x, &f.sq(x)), &U::from(7))).map(|y| (*x, y));
    let by_y = |y: &U| cbrt(&f.sub(&f.sq(y), &U::from(7))).map(|x| (x, *y));
    let mut take = |q: Option<(U, U)>| if let Some((x, y)) = q { for x in [x, f.mul(&beta, &x)] { pts.push(Some((x, y))); pts.push(Some((x, f.neg(&y)))) } };
    let mut k = 0; let mut i = 1u64; while k < if th { 6 } else { 3 } { let a = by_x(&U::from(i)); if a.is_some() { k += 1 } take(a); i += 1 }
    let mut k = 0; let mut i = 1u64; while k < if th { 6 } else { 3 } { let a = by_y(&U::from(i)); if a.is_some() { k += 1 } take(a); take(by_x(&f.neg(&U::from(i)))); i += 1 }
    pts.sort(); pts.dedup();
    // pairs whose coordinates are related though the points are not: y and t - y, x and t - x, for small t
    let mut pairs: Vec<(Pt, Pt)> = pts.iter().flat_map(|a| pts.iter().map(move |b| (*a, *b))).collect(); let grid = pairs.len();
    for t in [1u64, 2, 3, 4].iter().map(|t| U::from(*t)).flat_map(|t| [t, f.neg(&t)]) { for (swap, by) in [(false, &by_y as &dyn Fn(&U) -> Option<(U, U)>), (true, &by_x)] {
        let mut k = 0; let mut i = 1u64; while k < if th { 4 } else { 2 } && i < 4000 { let v = rmul(&f, &g(), &U::from(i + 77)).unwrap(); let v = if swap { v.0 } else { v.1 };
            if let (Some(a), Some(b)) = (by(&v), by(&f.sub(&t, &v))) { for (a, b) in [(a, b), (b, a)] { pairs.push((Some(a), Some(b))); pairs.push((Some((f.mul(&beta, &a.0), a.1)), Some(b))); } k += 1 } i += 1 } } }
    for (i, t) in [1u64, 2, 3].iter().enumerate() { let v = rmul(&f, &g(), &U::from(900 + i as u64)).unwrap(); for d in [U::from(*t), f.neg(&U::from(*t))] { if let Some(b) = by_y(&f.add(&v.1, &d)) { pairs.push((Some(v), Some(b))) } if let Some(b) = by_x(&f.add(&v.0, &d)) { pairs.push((Some(v), Some(b))) } } }
    c.bound(&format!("real field: all {grid} pairs of {} points (small multiples and their negatives, extreme coordinates, common y by the endomorphism, identity) and {} pairs with coordinates whose sum or difference is small, with the search for another output", pts.len(), pairs.len() - grid));
    par(pairs.len(), |i| { let (x, y) = &pairs[i]; let (px, py) = xy(x); let (qx, qy) = xy(y); let (rx, ry) = xy(&radd(&f, x, y));
        let inp = [("xP", vec![px]), ("yP", vec![py]), ("xQ", vec![qx]), ("yQ", vec![qy])]; let out = [("outX", vec![rx]), ("outY", vec![ry])];
        add.exactly(&inp, &out, true); if x.is_some() && y.is_some() && px != qx { inc.exactly(&inp, &out, true); }
    });
    par(pts.len(), |i| if let Some((px, py)) = pts[i] { let (rx, ry) = xy(&radd(&f, &pts[i], &pts[i])); dbl.exactly(&[("xP", vec![px]), ("yP", vec![py])], &[("outX", vec![rx]), ("outY", vec![ry])], true); });
}
