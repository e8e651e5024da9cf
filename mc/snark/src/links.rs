//! S06: a prover who keeps every part of a proof true to itself and breaks one link between parts.
//! Challenges are fixed here, so that changed elements can be balanced against each other: what is
//! left to reject the proof is then the one link. (A prover facing real challenges reaches the same
//! point by computing the later parts anew.)
use crate::{spec::*, sys::*};
use mccore::{tamper::{from_u, get, get_mut, to_u, Path, Step}, *};
use merlin::{hook, Ev};
fn path(s: &str) -> Path { s.split('.').map(|x| match x.parse() { Ok(i) => Step::I(i), Err(_) => Step::K(x.into()) }).collect() }
pub struct Doc { pub v: Value }
impl Doc {
    fn at(&self, p: &str) -> Option<U> { get(&self.v, &path(p)).filter(|x| tamper::is_scalar(x)).map(to_u) }
    fn len(&self, p: &str) -> Option<usize> { get(&self.v, &path(p)).and_then(|x| x.as_array().map(|a| a.len())) }
    fn with(&self, to: &[(String, U)]) -> Value { let mut w = self.v.clone(); for (p, x) in to { *get_mut(&mut w, &path(p)) = from_u(x) } w }
}
const NET: &str = "r1cs_eval_proof.proof.poly_eval_network_proof.proof_prod_layer";
/// All broken-link proofs: the link, and what is changed.
pub fn forgeries(d: &Doc, draws: &[Vec<U>]) -> Option<Vec<(String, Vec<(String, U)>)>> {
    let f = fp(); let mut out: Vec<(String, Vec<(String, U)>)> = vec![];
    let n = d.len(&format!("{NET}.eval_row.1"))?; let layers = |x: &str| d.len(&format!("{NET}.{x}.proof")); let (lo, lm) = (layers("proof_ops")?, layers("proof_mem")?); if lo == 0 || lm == 0 { return None }
    // coefficient vectors: one per layer, first those of the operations
    let (no, nm) = (4 * n, 4); let ops: Vec<&Vec<U>> = draws.iter().filter(|r| r.len() == no || r.len() == no + 2 * n).collect(); let mem: Vec<&Vec<U>> = draws.iter().skip_while(|r| r.len() != no + 2 * n).filter(|r| r.len() == nm).collect();
    let (o0, ol, m0) = (*ops.first()?, *ops.iter().find(|r| r.len() == no + 2 * n)?, *mem.first()?);
    let ds = [U::ONE, P.sub(&U::ONE).0, U::from(0x1234567)];
    // two elements a, b with weights ka, kb: the weighted sum stays
    let mut balance = |link: String, a: String, ka: U, b: String, kb: U| { let (Some(x), Some(y), Some(i)) = (d.at(&a), d.at(&b), f.inv(&kb)) else { return }; for e in &ds { out.push((link.clone(), vec![(a.clone(), f.add(&x, e)), (b.clone(), f.sub(&y, &f.mul(e, &f.mul(&ka, &i))))])) } };
    let side = ["eval_row", "eval_col"];
    // the memory's four products, and the operations' 4n: every pair
    let root_mem: Vec<String> = side.iter().flat_map(|s| [format!("{NET}.{s}.0"), format!("{NET}.{s}.3")]).collect();
    let root_ops: Vec<String> = side.iter().flat_map(|s| [1, 2].into_iter().flat_map(move |k| (0..n).map(move |i| format!("{NET}.{s}.{k}.{i}")))).collect();
    for (roots, k) in [(&root_mem, m0), (&root_ops, o0)] { for a in 0..roots.len() { for b in a + 1..roots.len() { balance("sets".into(), roots[a].clone(), k[a], roots[b].clone(), k[b]) } } }
    // evaluations as sums of dot products
    let dotp: Vec<String> = (0..n).flat_map(|i| [format!("{NET}.eval_val.0.{i}"), format!("{NET}.eval_val.1.{i}")]).collect();
    for a in 0..dotp.len() { for b in a + 1..dotp.len() { balance("evaluation".into(), dotp[a].clone(), ol[no + a], dotp[b].clone(), ol[no + b]) } }
    // the ends of the product circuits: left * right stays
    let mut pairs: Vec<(String, String, String, U, String, String, U)> = vec![];
    for (x, l, cnt, k) in [("proof_ops", lo, no, ol), ("proof_mem", lm, nm, *mem.last()?)] { let at = |s: &str, i: usize| format!("{NET}.{x}.proof.{}.claims_prod_{s}.{i}", l - 1);
        for i in 0..cnt { let (Some(a), Some(b)) = (d.at(&at("left", i)), d.at(&at("right", i))) else { continue }; for t in [U::from(2), P.sub(&U::ONE).0, U::from(0x77777)] { out.push((format!("hash-{x}"), vec![(at("left", i), f.mul(&a, &t)), (at("right", i), f.mul(&b, &f.inv(&t).unwrap()))])) } out.push((format!("hash-{x}"), vec![(at("left", i), b), (at("right", i), a)]));
            for j in i + 1..cnt { let (Some(c), Some(e)) = (d.at(&at("right", j)), d.at(&at("left", j))) else { continue }; pairs.push((format!("hash-{x}"), at("left", i), at("left", j), f.mul(&k[i], &b), String::new(), String::new(), f.mul(&k[j], &c))); pairs.push((format!("hash-{x}"), at("right", i), at("right", j), f.mul(&k[i], &a), String::new(), String::new(), f.mul(&k[j], &e))) } } }
    // the ends of the dot products: left * right * weight stays, or their weighted sum
    let w = |s: usize, i: usize| format!("{NET}.proof_ops.claims_dotp.{s}.{i}");
    for i in 0..2 * n { let v: Option<Vec<U>> = (0..3).map(|s| d.at(&w(s, i))).collect(); let Some(v) = v else { continue };
        for (s, t) in [(0, 1), (0, 2), (1, 2)] { for z in [U::from(2), P.sub(&U::ONE).0] { out.push(("dot-product".into(), vec![(w(s, i), f.mul(&v[s], &z)), (w(t, i), f.mul(&v[t], &f.inv(&z).unwrap()))])) } }
        for j in i + 1..2 * n { for s in 0..3 { let co = |i: usize| (0..3).filter(|t| *t != s).try_fold(ol[no + i], |a, t| d.at(&w(t, i)).map(|x| f.mul(&a, &x))); if let (Some(ka), Some(kb)) = (co(i), co(j)) { pairs.push(("dot-product".into(), w(s, i), w(s, j), ka, String::new(), String::new(), kb)) } } } }
    let mut balance = |link: String, a: String, ka: U, b: String, kb: U| { let (Some(x), Some(y), Some(i)) = (d.at(&a), d.at(&b), f.inv(&kb)) else { return }; for e in &ds { out.push((link.clone(), vec![(a.clone(), f.add(&x, e)), (b.clone(), f.sub(&y, &f.mul(e, &f.mul(&ka, &i))))])) } };
    for (l, a, b, ka, _, _, kb) in pairs { balance(l, a, ka, b, kb) }
    Some(out)
}
/// The matrices' joint value at a point: bits most significant first.
fn joint(s: &Spec, w: &[U], r: &[Vec<U>; 2]) -> U {
    let f = fp(); let m = s.meaning().3; let eq = |r: &[U], i: usize| r.iter().enumerate().fold(U::ONE, |a, (k, x)| f.mul(&a, &if i >> (r.len() - 1 - k) & 1 == 1 { *x } else { f.sub(&U::ONE, x) }));
    (0..3).fold(U::ZERO, |a, k| m[k].iter().fold(a, |a, ((i, j), v)| f.add(&a, &f.mul(&f.mul(&w[k], v), &f.mul(&eq(&r[0], *i), &eq(&r[1], *j))))))
}
/// S04: a proof that names another point at which the matrices, taken together, have the same value.
pub fn points(c: &Check, shapes: &[(usize, usize, usize, usize)]) {
    c.bound("under fixed challenges, proofs naming other points at which the weighted matrices have the value of the true ones: every pair of coordinates, three changes each");
    for (nc, nv, ni, pat) in shapes {
        let (s, v, i) = satisfied(*nc, *nv, *ni, *pat, 1); let mk = || tr(b"ctx").force(79); let f = fp();
        let env = match Env::new(Kind::Nizk, &s) { Ok(e) => e, Err(e) => { c.fail("setup", json!({"spec": s.show(), "got": e})); return } };
        getrandom::set_seed(4); let p = match env.prove(&v, &i, &mut mk()) { Ok(p) => p, Err(e) => { c.fail("prover-fails", json!({"spec": s.show(), "got": e})); return } };
        hook::start(); let r = env.verify(&p, &i, &mut mk().watch()); let (log, _) = hook::stop();
        if !c.ensure(r.is_ok(), "honest-rejected", || json!({"spec": s.show(), "got": format!("{r:?}")})) { return }
        // three single challenges in a row, of different names
        let ch = |e: &Ev| match e { Ev::Challenge(l, b) if b.len() == 64 => { let mut w = [0u64; 8]; for (i, x) in b.iter().enumerate() { w[i / 8] |= (*x as u64) << (8 * (i % 8)) } Some((l.clone(), f.wide(&w))) } _ => None };
        let w: Vec<Vec<U>> = log.windows(3).filter_map(|w| { let x: Vec<_> = w.iter().filter_map(&ch).collect(); (x.len() == 3 && x[0].0 != x[1].0 && x[1].0 != x[2].0).then(|| x.into_iter().map(|y| y.1).collect::<Vec<U>>()) }).collect();
        let d = Doc { v: p.json() }; let lens: Option<Vec<usize>> = [0, 1].iter().map(|k| d.len(&format!("r.{k}"))).collect();
        let Some(lens) = lens.filter(|_| !w.is_empty()) else { c.part("proofs of another structure", 1); continue };
        let at: Vec<(usize, usize)> = (0..2).flat_map(|k| (0..lens[k]).map(move |j| (k, j))).collect();
        let r0: [Vec<U>; 2] = [0, 1].map(|k| (0..lens[k]).map(|j| d.at(&format!("r.{k}.{j}")).unwrap()).collect()); 
        let mut all = vec![]; for a in 0..at.len() { for b in 0..at.len() { if a != b { for e in [U::ONE, P.sub(&U::ONE).0, U::from(0x1234567)] { for w in &w { all.push((at[a], at[b], e, w.clone(), joint(&s, w, &r0))) } } } } }
        par(all.len(), |k| { let (a, b, e, w, g) = &all[k]; c.states(1); let mut r = r0.clone(); r[a.0][a.1] = f.add(&r[a.0][a.1], e);
            let mut val = |x: U| { r[b.0][b.1] = x; joint(&s, w, &r) }; let (v0, v1) = (val(U::ZERO), val(U::ONE)); let Some(inv) = f.inv(&f.sub(&v1, &v0)) else { c.part("no other point", 1); return };
            let x = f.mul(&f.sub(g, &v0), &inv); r[b.0][b.1] = x; if joint(&s, w, &r) != *g { c.fail("self-check", json!({})); return }
            let to: Vec<(String, U)> = [a, b].iter().map(|t| (format!("r.{}.{}", t.0, t.1), r[t.0][t.1])).collect(); let v = d.with(&to); if v == d.v { return }
            let Ok(p) = Proof::from_json(Kind::Nizk, &v) else { return }; c.steps(1); c.traces(1); c.part("broken links: point", 1);
            let r = env.verify(&p, &i, &mut mk()); c.ensure(r.is_err(), "broken-link-point", || json!({"spec": s.show(), "changed": to.iter().map(|x| json!([x.0, x.1.to_string()])).collect::<Vec<_>>()})); });
    }
}
pub fn explore(c: &Check, shapes: &[(usize, usize, usize, usize)]) {
    c.bound("under fixed challenges, proofs in which pairs of claims are changed so that every sum-check and every combined claim still holds and one link does not (read and write sets, evaluations, memory and dot-product claims against the openings): every pair of claims, three changes each");
    for (nc, nv, ni, pat) in shapes {
        let (s, v, i) = satisfied(*nc, *nv, *ni, *pat, 1); let mk = || tr(b"ctx").force(78);
        let env = match Env::new(Kind::Snark, &s) { Ok(e) => e, Err(e) => { c.fail("setup", json!({"spec": s.show(), "got": e})); return } };
        getrandom::set_seed(4); let p = match env.prove(&v, &i, &mut mk()) { Ok(p) => p, Err(e) => { c.fail("prover-fails", json!({"spec": s.show(), "got": e})); return } };
        hook::start(); let r = env.verify(&p, &i, &mut mk().watch()); let (log, _) = hook::stop();
        if !c.ensure(r.is_ok(), "honest-rejected", || json!({"spec": s.show(), "got": format!("{r:?}")})) { return }
        let f = fp(); let mut draws: Vec<(Vec<u8>, Vec<U>)> = vec![]; let mut open = false;
        for e in &log { match e { Ev::Challenge(l, b) if b.len() == 64 => { let mut w = [0u64; 8]; for (i, x) in b.iter().enumerate() { w[i / 8] |= (*x as u64) << (8 * (i % 8)) } let x = f.wide(&w); match draws.last_mut() { Some(d) if open && d.0 == *l => d.1.push(x), _ => draws.push((l.clone(), vec![x])) } open = true } _ => open = false } }
        let draws: Vec<Vec<U>> = draws.into_iter().map(|x| x.1).collect(); let d = Doc { v: p.json() };
        let Some(all) = forgeries(&d, &draws) else { c.part("proofs of another structure", 1); continue };
        par(all.len(), |k| { let (link, to) = &all[k]; c.states(1); let w = d.with(to); if w == d.v { c.part("same-proof", 1); return } let Ok(p) = Proof::from_json(Kind::Snark, &w) else { c.part("unreadable", 1); return }; c.steps(1); c.traces(1); c.part(&format!("broken links: {link}"), 1);
            let r = env.verify(&p, &i, &mut mk()); c.ensure(r.is_err(), &format!("broken-link-{link}"), || json!({"spec": s.show(), "changed": to.iter().map(|x| json!([x.0, x.1.to_string()])).collect::<Vec<_>>()})); });
    }
}
