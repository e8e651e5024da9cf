//! S07: the opening, equality, product and dot-product sub-proofs.
use crate::conv::*;
use libspartan::verif::{commitments::MultiCommitGens, dense_mlpoly::*, group::CompressedGroup, nizk::*, scalar::Scalar};
use mccore::{ec::*, tamper::*, *};
use merlin::{hook, Ev, Transcript};
use serde::de::DeserializeOwned;
pub type Verify = Box<dyn Fn(&Value, &mut Transcript) -> Result<(), String> + Sync + Send>;
/// A proof with its statement, as one tree, and its verifier.
pub struct Subject { pub name: String, pub honest: Value, pub donors: Vec<Value>, pub verify: Verify, pub solve: Vec<(&'static str, Box<dyn Fn(&Value, &[U]) -> Option<Value> + Sync + Send>)> }
pub fn from<T: DeserializeOwned>(v: &Value) -> Result<T, String> { serde_json::from_value(v.clone()).map_err(|e| format!("unreadable: {e}")) }
fn e<T: std::fmt::Debug>(x: T) -> String { format!("{x:?}") }
pub fn cg(v: &Value) -> Result<CompressedGroup, String> { from(v) }
fn to<T: serde::Serialize>(x: &T) -> Value { serde_json::to_value(x).unwrap() }
fn svec(v: &Value) -> Result<Vec<Scalar>, String> { from(v) }
pub fn run(s: &Subject, v: &Value, label: &'static [u8]) -> Result<(), String> { match guarded(|| (s.verify)(v, &mut tr(label))) { Ok(r) => r, Err(e) => Err(e) } }
/// Verifies while recording the challenges.
pub fn challenges(s: &Subject, v: &Value) -> (Vec<U>, Result<(), String>) {
    hook::start();
    let r = match guarded(|| (s.verify)(v, &mut tr(b"ctx").watch())) { Ok(r) => r, Err(e) => Err(e) };
    let (log, _) = hook::stop();
    let cs = log.iter().filter_map(|x| if let Ev::Challenge(_, b) = x { Some(un(&Scalar::from_bytes_wide(&b[..].try_into().unwrap()))) } else { None }).collect();
    (cs, r)
}
// ---- the protocols
pub fn knowledge(x: &U, r: &U, seed: u64) -> Value { let g = gens(1, b"k"); let (p, c) = KnowledgeProof::prove(&g, &mut tr(b"ctx"), &mut tape(seed), &sc(x), &sc(r)); json!({"proof": to(&p), "C": to(&c)}) }
fn v_knowledge(l: &'static [u8]) -> Verify { let g = gens(1, l); Box::new(move |v, t| { let p: KnowledgeProof = from(&v["proof"])?; p.verify(&g, t, &cg(&v["C"])?).map_err(e) }) }
pub fn equality(v: &[U; 4], seed: u64) -> Value { let g = gens(1, b"k"); let (p, a, b) = EqualityProof::prove(&g, &mut tr(b"ctx"), &mut tape(seed), &sc(&v[0]), &sc(&v[1]), &sc(&v[2]), &sc(&v[3])); json!({"proof": to(&p), "C1": to(&a), "C2": to(&b)}) }
fn v_equality(l: &'static [u8]) -> Verify { let g = gens(1, l); Box::new(move |v, t| { let p: EqualityProof = from(&v["proof"])?; p.verify(&g, t, &cg(&v["C1"])?, &cg(&v["C2"])?).map_err(e) }) }
pub fn product(v: &[U; 6], seed: u64) -> Value { let g = gens(1, b"k"); let s: Vec<Scalar> = scs(v); let (p, a, b, c) = ProductProof::prove(&g, &mut tr(b"ctx"), &mut tape(seed), &s[0], &s[1], &s[2], &s[3], &s[4], &s[5]); json!({"proof": to(&p), "X": to(&a), "Y": to(&b), "Z": to(&c)}) }
fn v_product(l: &'static [u8]) -> Verify { let g = gens(1, l); Box::new(move |v, t| { let p: ProductProof = from(&v["proof"])?; p.verify(&g, t, &cg(&v["X"])?, &cg(&v["Y"])?, &cg(&v["Z"])?).map_err(e) }) }
/// x, a, y, blind of x, blind of y
pub type Dot<'a> = (&'a [U], &'a [U], &'a U, &'a U, &'a U);
pub fn dotp(d: Dot, seed: u64) -> Value { let (g1, gn) = (gens(1, b"one"), gens(d.0.len(), b"many")); let (p, cx, cy) = DotProductProof::prove(&g1, &gn, &mut tr(b"ctx"), &mut tape(seed), &scs(d.0), &sc(d.3), &scs(d.1), &sc(d.2), &sc(d.4)); json!({"proof": to(&p), "Cx": to(&cx), "Cy": to(&cy), "a": to(&scs(d.1))}) }
fn v_dotp(n: usize, l1: &'static [u8], ln: &'static [u8]) -> Verify { let (g1, gn) = (gens(1, l1), gens(n, ln)); Box::new(move |v, t| { let p: DotProductProof = from(&v["proof"])?; p.verify(&g1, &gn, t, &svec(&v["a"])?, &cg(&v["Cx"])?, &cg(&v["Cy"])?).map_err(e) }) }
pub fn dotlog(d: Dot, seed: u64) -> Value { let g = DotProductProofGens::new(d.0.len(), b"log"); let (p, cx, cy) = DotProductProofLog::prove(&g, &mut tr(b"ctx"), &mut tape(seed), &scs(d.0), &sc(d.3), &scs(d.1), &sc(d.2), &sc(d.4)); json!({"proof": to(&p), "Cx": to(&cx), "Cy": to(&cy), "a": to(&scs(d.1))}) }
fn v_dotlog(n: usize, ng: usize, l: &'static [u8]) -> Verify { let g = DotProductProofGens::new(ng, l); Box::new(move |v, t| { let p: DotProductProofLog = from(&v["proof"])?; p.verify(n, &g, t, &svec(&v["a"])?, &cg(&v["Cx"])?, &cg(&v["Cy"])?).map_err(e) }) }
/// Opening of the polynomial with table `z` at `r` claimed to be `y`; `hide`: with blinds.
pub fn polyeval(z: &[U], r: &[U], y: &U, hide: Option<&U>, seed: u64) -> Value {
    let p = DensePolynomial::new(scs(z)); let g = PolyCommitmentGens::new(r.len(), b"poly"); let mut tp = tape(seed);
    let (c, b) = p.commit(&g, hide.map(|_| &mut tp)); let by = hide.map(sc);
    let (pr, cy) = PolyEvalProof::prove(&p, hide.map(|_| &b), &scs(r), &sc(y), by.as_ref(), &g, &mut tr(b"ctx"), &mut tp);
    json!({"proof": to(&pr), "r": to(&scs(r)), "Cy": to(&cy), "comm": to(&c)})
}
fn v_polyeval(n: usize, l: &'static [u8]) -> Verify { let g = PolyCommitmentGens::new(n, l); Box::new(move |v, t| { let p: PolyEvalProof = from(&v["proof"])?; p.verify(&g, t, &svec(&v["r"])?, &cg(&v["Cy"])?, &from(&v["comm"])?).map_err(e) }) }
fn v_polyplain(n: usize, l: &'static [u8]) -> Verify { let g = PolyCommitmentGens::new(n, l); Box::new(move |v, t| { let p: PolyEvalProof = from(&v["proof"])?; let y: Scalar = from(&v["y"])?; p.verify_plain(&g, t, &svec(&v["r"])?, &y, &from(&v["comm"])?).map_err(e) }) }
// ---- adaptive forgeries: solve the verification equation for one element once the challenges are known
fn pt(v: &Value) -> Pt { dec_pt(v, &fq()) }
fn s(v: &Value) -> U { to_u(v) }
fn inv(x: &U) -> Option<U> { fp().inv(x) }
fn lin(t: &[(U, Pt)]) -> Pt { let f = fq(); t.iter().fold(None, |a, (k, p)| radd(&f, &a, &rmul(&f, p, k))) }
fn set(v: &Value, path: &[&str], p: &Pt) -> Value { let mut w = v.clone(); { let mut x = &mut w; for k in path { x = if let Ok(i) = k.parse::<usize>() { &mut x[i] } else { &mut x[*k] } } *x = enc_pt(p) } w }
fn solves_knowledge(m: &mut Subject) { let g = gens(1, b"k");
    let (gg, h) = (pv(&g.G[0]), pv(&g.h));
    m.solve.push(("alpha", Box::new(move |v, c| { let m1 = fp().neg(&c[0]); Some(set(v, &["proof", "alpha"], &lin(&[(s(&v["proof"]["z1"]), gg), (s(&v["proof"]["z2"]), h), (m1, pt(&v["C"]))]))) })));
    m.solve.push(("C", Box::new(move |v, c| { let i = inv(&c[0])?; let r = lin(&[(s(&v["proof"]["z1"]), gg), (s(&v["proof"]["z2"]), h), (pm1(), pt(&v["proof"]["alpha"]))]); Some(set(v, &["C"], &lin(&[(i, r)]))) })));
}
fn solves_equality(m: &mut Subject) { let h = pv(&gens(1, b"k").h);
    m.solve.push(("alpha", Box::new(move |v, c| Some(set(v, &["proof", "alpha"], &lin(&[(s(&v["proof"]["z"]), h), (fp().neg(&c[0]), pt(&v["C1"])), (c[0], pt(&v["C2"]))])))) ));
    for (k, o, sg) in [("C1", "C2", U::ONE), ("C2", "C1", pm1())] { m.solve.push((k, Box::new(move |v, c| { let i = fp().mul(&inv(&c[0])?, &sg); Some(set(v, &[k], &lin(&[(U::ONE, pt(&v[o])), (fp().mul(&i, &s(&v["proof"]["z"])), h), (fp().neg(&i), pt(&v["proof"]["alpha"]))]))) }))) }
}
fn solves_product(m: &mut Subject) { let g = gens(1, b"k"); let (gg, h) = (pv(&g.G[0]), pv(&g.h));
    m.solve.push(("announcements", Box::new(move |v, c| { let n = fp().neg(&c[0]); let z: Vec<U> = v["proof"]["z"].as_array()?.iter().map(s).collect();
        let w = set(v, &["proof", "alpha"], &lin(&[(z[0], gg), (z[1], h), (n, pt(&v["X"]))]));
        let w = set(&w, &["proof", "beta"], &lin(&[(z[2], gg), (z[3], h), (n, pt(&v["Y"]))]));
        Some(set(&w, &["proof", "delta"], &lin(&[(z[2], pt(&v["X"])), (z[4], h), (n, pt(&v["Z"]))]))) })));
    m.solve.push(("statement", Box::new(move |v, c| { let i = inv(&c[0])?; let z: Vec<U> = v["proof"]["z"].as_array()?.iter().map(s).collect(); let p = &v["proof"];
        let x = lin(&[(i, lin(&[(z[0], gg), (z[1], h), (pm1(), pt(&p["alpha"]))]))]);
        let w = set(v, &["X"], &x);
        let w = set(&w, &["Y"], &lin(&[(i, lin(&[(z[2], gg), (z[3], h), (pm1(), pt(&p["beta"]))]))]));
        Some(set(&w, &["Z"], &lin(&[(i, lin(&[(z[2], x), (z[4], h), (pm1(), pt(&p["delta"]))]))]))) })));
}
fn solves_dotp(m: &mut Subject, n: usize) { let (g1, gn) = (gens(1, b"one"), gens(n, b"many"));
    let (q, h1, hn): (Pt, Pt, Pt) = (pv(&g1.G[0]), pv(&g1.h), pv(&gn.h)); let gs: Vec<Pt> = gn.G.iter().map(pv).collect();
    let rhs = move |v: &Value| -> (Pt, Pt) { let p = &v["proof"]; let z: Vec<U> = p["z"].as_array().unwrap().iter().map(s).collect(); let a: Vec<U> = v["a"].as_array().unwrap().iter().map(s).collect();
        let mut t: Vec<(U, Pt)> = z.iter().copied().zip(gs.iter().copied()).collect(); t.push((s(&p["z_delta"]), hn)); (lin(&t), lin(&[(dot(&z, &a), q), (s(&p["z_beta"]), h1)])) };
    let r2 = rhs.clone();
    m.solve.push(("announcements", Box::new(move |v, c| { let (x, y) = rhs(v); let k = fp().neg(&c[0]); let w = set(v, &["proof", "delta"], &lin(&[(U::ONE, x), (k, pt(&v["Cx"]))])); Some(set(&w, &["proof", "beta"], &lin(&[(U::ONE, y), (k, pt(&v["Cy"]))]))) })));
    m.solve.push(("statement", Box::new(move |v, c| { let (x, y) = r2(v); let i = inv(&c[0])?; let p = &v["proof"]; let w = set(v, &["Cx"], &lin(&[(i, lin(&[(U::ONE, x), (pm1(), pt(&p["delta"]))]))])); Some(set(&w, &["Cy"], &lin(&[(i, lin(&[(U::ONE, y), (pm1(), pt(&p["beta"]))]))]))) })));
    if n >= 2 { m.solve.push(("a", Box::new(move |v, _| { let z: Vec<U> = v["proof"]["z"].as_array()?.iter().map(s).collect(); kernel(v, &z) }))) }
}
/// Another public vector with the same product with `z`.
fn kernel(v: &Value, z: &[U]) -> Option<Value> { let f = fp(); let mut w = v.clone(); let (a0, a1) = (s(&v["a"][0]), s(&v["a"][1])); w["a"][0] = from_u(&f.add(&a0, &z[1])); w["a"][1] = from_u(&f.sub(&a1, &z[0])); Some(w) }
/// The folding factors of the generators for the round challenges `u`.
fn fold(u: &[U]) -> Vec<U> { let f = fp(); let n = 1usize << u.len(); (0..n).map(|i| u.iter().enumerate().fold(U::ONE, |a, (j, x)| f.mul(&a, &if i >> (u.len() - 1 - j) & 1 == 1 { *x } else { inv(x).unwrap() }))).collect() }
fn solves_dotlog(m: &mut Subject, n: usize) {
    let g = DotProductProofGens::new(n, b"log"); let (gs, h, q): (Vec<Pt>, Pt, Pt) = (g.gens_n.G.iter().map(pv).collect(), pv(&g.gens_1.h), pv(&g.gens_1.G[0]));
    let lg = n.trailing_zeros() as usize;
    // what the weighted sum of the folded commitments must be, with its weights
    #[derive(Clone)] struct X { gs: Vec<Pt>, h: Pt, q: Pt, lg: usize }
    impl X {
        fn go(&self, v: &Value, c: &[U]) -> Option<(U, Pt, U, U, U, Vec<U>)> { // (a_hat, right side, c, r, …, u)
            if c.len() != self.lg + 2 { return None }
            let f = fp(); let p = &v["proof"]; let (r, u, cc) = (c[0], c[1..=self.lg].to_vec(), c[self.lg + 1]); let sv = fold(&u);
            let a: Vec<U> = v["a"].as_array()?.iter().map(s).collect(); let ah = dot(&a, &sv); let z1 = s(&p["z1"]);
            let mut t: Vec<(U, Pt)> = sv.iter().zip(&self.gs).map(|(k, g)| (f.mul(k, &z1), *g)).collect(); t.push((f.mul(&f.mul(&r, &ah), &z1), self.q)); t.push((s(&p["z2"]), self.h));
            Some((ah, lin(&t), cc, r, z1, u))
        }
        /// the folded commitment
        fn gamma(&self, v: &Value, r: &U, u: &[U]) -> Pt { let f = fp(); let b = &v["proof"]["bullet_reduction_proof"]; let mut t = vec![(U::ONE, pt(&v["Cx"])), (*r, pt(&v["Cy"]))]; for (k, x) in u.iter().enumerate() { let i = inv(x).unwrap(); t.push((f.sq(x), pt(&b["L_vec"][k]))); t.push((f.sq(&i), pt(&b["R_vec"][k]))) } lin(&t) }
        /// what the folded commitment should be
        fn need(&self, v: &Value, c: &[U]) -> Option<(Pt, Pt, U, Vec<U>)> { let f = fp(); let (ah, rhs, cc, r, _, u) = self.go(v, c)?; let p = &v["proof"]; let x = lin(&[(inv(&ah)?, lin(&[(U::ONE, rhs), (pm1(), pt(&p["delta"]))])), (pm1(), pt(&p["beta"]))]); let want = lin(&[(inv(&cc)?, x)]); let _ = f; Some((want, self.gamma(v, &r, &u), r, u)) }
    }
    let x = X { gs, h, q, lg };
    let y = x.clone(); m.solve.push(("delta", Box::new(move |v, c| { let (ah, rhs, cc, r, _, u) = y.go(v, c)?; let gm = y.gamma(v, &r, &u); let l = lin(&[(ah, lin(&[(cc, gm), (U::ONE, pt(&v["proof"]["beta"]))])), ]); Some(set(v, &["proof", "delta"], &lin(&[(U::ONE, rhs), (pm1(), l)]))) })));
    let y = x.clone(); m.solve.push(("beta", Box::new(move |v, c| { let (ah, rhs, cc, r, _, u) = y.go(v, c)?; let gm = y.gamma(v, &r, &u); let l = lin(&[(inv(&ah)?, lin(&[(U::ONE, rhs), (pm1(), pt(&v["proof"]["delta"]))])), (fp().neg(&cc), gm)]); Some(set(v, &["proof", "beta"], &l)) })));
    let y = x.clone(); m.solve.push(("Cx", Box::new(move |v, c| { let (w, g, _, _) = y.need(v, c)?; Some(set(v, &["Cx"], &lin(&[(U::ONE, pt(&v["Cx"])), (U::ONE, w), (pm1(), g)]))) })));
    let y = x.clone(); m.solve.push(("Cy", Box::new(move |v, c| { let (w, g, r, _) = y.need(v, c)?; Some(set(v, &["Cy"], &lin(&[(U::ONE, pt(&v["Cy"])), (inv(&r)?, lin(&[(U::ONE, w), (pm1(), g)]))]))) })));
    for k in 0..lg { for (side, l) in [("L_vec", true), ("R_vec", false)] { let y = x.clone(); m.solve.push((if l { "L" } else { "R" }, Box::new(move |v, c| { let (w, g, _, u) = y.need(v, c)?; let f = fp(); let mut i = f.sq(&inv(&u[k])?); if !l { i = f.sq(&u[k]) } let ks = k.to_string(); Some(set(v, &["proof", "bullet_reduction_proof", side, &ks], &lin(&[(U::ONE, pt(&v["proof"]["bullet_reduction_proof"][side][k])), (i, lin(&[(U::ONE, w), (pm1(), g)]))]))) }))) } }
    // a surplus element standing in for the folded statement, or added to it
    for side in ["L_vec", "R_vec"] { for whole in [true, false] { let y = x.clone(); m.solve.push((if whole { "surplus instead" } else { "surplus on top" }, Box::new(move |v, c| {
        let mut base = v.clone(); let b = base["proof"]["bullet_reduction_proof"][side].as_array()?.clone(); base["proof"]["bullet_reduction_proof"][side] = json!(b[..y.lg.min(b.len())]);
        let (w, g, r, _) = y.need(&base, c)?;
        let extra = if whole { lin(&[(U::ONE, w), (pm1(), g), (U::ONE, pt(&v["Cx"])), (r, pt(&v["Cy"]))]) } else { lin(&[(U::ONE, w), (pm1(), g)]) };
        base["proof"]["bullet_reduction_proof"][side].as_array_mut()?.push(enc_pt(&extra)); Some(base) }))) } }
    if n >= 2 { m.solve.push(("a", Box::new(move |v, c| { if c.len() != lg + 2 { return None } kernel(v, &fold(&c[1..=lg])) }))) }
}
/// The subjects whose every alteration is tried.
pub fn subjects(t: bool) -> Vec<Subject> {
    let mk = |name: String, honest: Value, donors: Vec<Value>, verify: Verify| Subject { name, honest, donors, verify, solve: vec![] };
    let g = generic(40, 1); let f = fp();
    let mut out = vec![];
    let mut m = mk("knowledge".into(), knowledge(&g[0], &g[1], 1), vec![knowledge(&g[0], &g[1], 2), knowledge(&g[2], &g[3], 3)], v_knowledge(b"k")); solves_knowledge(&mut m); out.push(m);
    let mut m = mk("equality".into(), equality(&[g[0], g[1], g[0], g[2]], 1), vec![equality(&[g[0], g[1], g[0], g[2]], 2), equality(&[g[5], g[6], g[5], g[7]], 3)], v_equality(b"k")); solves_equality(&mut m); out.push(m);
    let pr = |i: usize, sd| product(&[g[i], g[i + 1], g[i + 2], g[i + 3], f.mul(&g[i], &g[i + 2]), g[i + 4]], sd);
    let mut m = mk("product".into(), pr(0, 1), vec![pr(0, 2), pr(6, 3)], v_product(b"k")); solves_product(&mut m); out.push(m);
    for n in if t { vec![1, 2, 3, 4, 5, 8] } else { vec![1, 2, 3, 4] } { let (x, a) = (generic(n, 5), generic(n, 6)); let (x2, a2) = (generic(n, 7), generic(n, 8)); let (y, y2) = (dot(&x, &a), dot(&x2, &a2));
        let mut m = mk(format!("dot-{n}"), dotp((&x, &a, &y, &g[0], &g[1]), 1), vec![dotp((&x, &a, &y, &g[0], &g[1]), 2), dotp((&x2, &a2, &y2, &g[2], &g[3]), 3)], v_dotp(n, b"one", b"many")); solves_dotp(&mut m, n); out.push(m);
        if n.is_power_of_two() { let mut m = mk(format!("dotlog-{n}"), dotlog((&x, &a, &y, &g[0], &g[1]), 1), vec![dotlog((&x, &a, &y, &g[0], &g[1]), 2), dotlog((&x2, &a2, &y2, &g[2], &g[3]), 3)], v_dotlog(n, n, b"log")); solves_dotlog(&mut m, n); out.push(m); } }
    for n in if t { vec![1, 2, 3, 4, 5] } else { vec![1, 2, 3] } { let (z, r, z2, r2) = (generic(1 << n, 9), generic(n, 10), generic(1 << n, 11), generic(n, 12));
        let hide = n % 2 == 0; let b = hide.then_some(&g[0]);
        let (p, d1, d2) = (polyeval(&z, &r, &mle(&z, &r), b, 1), polyeval(&z, &r, &mle(&z, &r), b, 2), polyeval(&z2, &r2, &mle(&z2, &r2), b, 3));
        out.push(mk(format!("open-{n}"), p.clone(), vec![d1, d2], v_polyeval(n, b"poly")));
        if !hide { let mut q = p; q["y"] = to(&sc(&mle(&z, &r))); q.as_object_mut().unwrap().remove("Cy"); out.push(mk(format!("open-plain-{n}"), q, vec![], v_polyplain(n, b"poly"))) } }
    out
}
fn tampering(c: &Check) {
    let t = c.thorough();
    let subs = subjects(t);
    c.bound(&format!("{} subjects: every single alteration of proof and statement (each scalar and point by seven neighbours, lists reshaped, parts of other valid proofs, all exchanges of two elements)", subs.len()));
    c.bound("forgeries that solve the verification equation for each announcement, statement element, round element or surplus element after seeing the challenges, from a true and from a false statement, iterated");
    for m in &subs {
        let ok = run(m, &m.honest, b"ctx");
        c.states(1); c.steps(1); c.traces(1);
        if !c.ensure(ok.is_ok(), "honest-rejected", || json!({"protocol": m.name, "got": format!("{ok:?}")})) { continue }
        for l in [&b"ctx2"[..], b"", b"ct"] { c.states(1); c.steps(1); c.ensure(run(m, &m.honest, Box::leak(l.to_vec().into_boxed_slice())).is_err(), "other-context-accepted", || json!({"protocol": m.name})); }
        let r = guarded(|| { let mut x = tr(b"ctx"); x.append_message(b"", b""); (m.verify)(&m.honest, &mut x) }); c.steps(1); c.ensure(!matches!(r, Ok(Ok(()))), "other-context-accepted", || json!({"protocol": m.name, "context": "earlier message"}));
        let all = mutations(&m.honest, &m.donors, true);
        par(all.len(), |i| {
            let x = &all[i];
            if m.donors.contains(&x.to) { return } // another valid proof as a whole
            c.states(1); c.steps(1); c.traces(1);
            let r = run(m, &x.to, b"ctx");
            c.part(match &r { Ok(_) => "accepted", Err(e) if e.starts_with("unreadable") => "unreadable", Err(e) if e.starts_with("InternalError") || e.starts_with("DecompressionError") => "rejected-by-error", Err(_) => "rejected-by-abort" }, 1);
            c.ensure(r.is_err(), &format!("accepted-{}-{}-{}", m.name.split('-').next().unwrap(), x.what, class(&x.path)), || json!({"protocol": m.name, "path": show_path(&x.path), "altered": x.to}));
        });
        // a false statement to start from, and the true one with the announcements spoiled
        let mut bases = vec![];
        for x in &all { if x.what == "plus-generator" || x.what == "plus-one" && x.path.len() <= 2 { bases.push(x) } }
        let jobs: Vec<(usize, usize)> = (0..bases.len()).flat_map(|b| (0..m.solve.len()).map(move |k| (b, k))).collect();
        par(jobs.len(), |j| { let (b, k) = jobs[j];
            let (name, f) = &m.solve[k];
            let mut v = bases[b].to.clone();
            for round in 0..2 {
                let (cs, _) = challenges(m, &v);
                let Some(w) = guarded(|| f(&v, &cs)).ok().flatten() else { c.part("no-forgery-to-solve", 1); return };
                // solving for an honest element gives the honest proof back
                if w == m.honest || w == v { return }
                c.states(1); c.steps(1); c.traces(1); c.part("forgeries", 1);
                let r = run(m, &w, b"ctx");
                if !c.ensure(r.is_err(), &format!("forged-{}-{}", m.name.split('-').next().unwrap(), name), || json!({"protocol": m.name, "round": round, "forged": w, "from": bases[b].what, "at": show_path(&bases[b].path)})) { return }
                v = w;
            }
        });
    }
    validate(c, || subjects(t));
}
/// The forgeries are real ones: where challenges do not depend on what was said, each is accepted.
pub fn validate(c: &Check, make: impl FnOnce() -> Vec<Subject>) {
    unbound(|| { let subs = make(); for m in &subs {
        if run(m, &m.honest, b"ctx").is_err() { continue }
        let (cs, _) = challenges(m, &m.honest);
        for (name, f) in &m.solve { if name.starts_with("surplus") { continue }
            let shifted = m.name.starts_with("committed") || *name == "a";
            let base = if shifted { m.honest.clone() } else { let mut v = m.honest.clone(); if let Some(k) = ["C1", "C2", "C", "X", "Cy"].iter().find(|k| !v[**k].is_null() && **k != *name) { v[*k] = enc_pt(&gen()) } v };
            match f(&base, &cs) { Some(w) if w == m.honest && base != w => c.part("solvers-recovering-the-honest-element", 1), Some(w) if w != m.honest && run(m, &w, b"ctx").is_ok() => c.part("forgeries-validated", 1), _ => c.part(&format!("forgery-without-effect-{}-{name}", m.name), 1) } }
    } })
}
fn complete(c: &Check) {
    let t = c.thorough(); let f = fp();
    let al: Vec<U> = vec![U::ZERO, U::ONE, pm1(), big()];
    let bl: Vec<U> = vec![U::ZERO, U::ONE, big()];
    let (gk, h) = (gens(1, b"k"), 0); let _ = h;
    c.bound("knowledge, equality, product proofs: all values over {0, 1, -1, generic} and blinds over {0, 1, generic}, true and false claims, commitments against the reference; other generators");
    let com = |v: &U, b: &U, g: &MultiCommitGens| enc_pt(&rcommit(g, &[*v], b));
    let judge = |name: &str, v: Result<Value, String>, ver: &Verify, truth: bool, stmt: &[(&str, Value)], d: Value| {
        c.states(1); c.steps(1); c.traces(1);
        let v = match v { Ok(v) => v, Err(e) => { if truth { c.fail(&format!("prover-fails-{name}"), json!({"case": d, "got": e})) } return } };
        for (k, w) in stmt { c.ensure(v[*k] == *w, &format!("commitment-{name}-{k}"), || json!({"case": d, "got": v[*k], "want": w})); }
        let r = match guarded(|| ver(&v, &mut tr(b"ctx"))) { Ok(r) => r, Err(e) => Err(e) };
        c.part(if truth { "true-claims" } else { "false-claims" }, 1);
        c.ensure(r.is_ok() == truth, &format!("{}-{name}", if truth { "true-claim-rejected" } else { "false-claim-accepted" }), || json!({"case": d, "got": format!("{r:?}")}));
    };
    let mut jobs: Vec<(u8, Vec<U>)> = vec![];
    for x in &al { for r in &al { jobs.push((0, vec![*x, *r])) } }
    for a in &al { for b in &al { for s1 in &bl { for s2 in &bl { jobs.push((1, vec![*a, *s1, *b, *s2])) } } } }
    for x in &al { for y in &al { for z in &al { for r in tuples(3, 3) { if !t && r[0] != r[1] && r[1] != r[2] && r[0] != r[2] { continue } jobs.push((2, vec![*x, bl[r[0]], *y, bl[r[1]], *z, bl[r[2]]])) } } 
        let z = f.mul(x, y); for r in tuples(3, 3) { jobs.push((2, vec![*x, bl[r[0]], *y, bl[r[1]], z, bl[r[2]]])) } } }
    par(jobs.len(), |i| { let (k, v) = &jobs[i]; let d = show_u(v); let seed = 1 + i as u64 % 7;
        match k {
            0 => judge("knowledge", guarded(|| knowledge(&v[0], &v[1], seed)), &v_knowledge(b"k"), true, &[("C", com(&v[0], &v[1], &gk))], d),
            1 => judge("equality", guarded(|| equality(&[v[0], v[1], v[2], v[3]], seed)), &v_equality(b"k"), v[0] == v[2], &[("C1", com(&v[0], &v[1], &gk)), ("C2", com(&v[2], &v[3], &gk))], d),
            _ => judge("product", guarded(|| product(&[v[0], v[1], v[2], v[3], v[4], v[5]], seed)), &v_product(b"k"), v[4] == f.mul(&v[0], &v[2]), &[("X", com(&v[0], &v[1], &gk)), ("Y", com(&v[2], &v[3], &gk)), ("Z", com(&v[4], &v[5], &gk))], d),
        } });
    // other generators
    let g = generic(8, 3);
    judge("knowledge-other-generators", Ok(knowledge(&g[0], &g[1], 1)), &v_knowledge(b"j"), false, &[], json!({}));
    judge("equality-other-generators", Ok(equality(&[g[0], g[1], g[0], g[2]], 1)), &v_equality(b"j"), false, &[], json!({}));
    judge("product-other-generators", Ok(product(&[g[0], g[1], g[2], g[3], f.mul(&g[0], &g[2]), g[4]], 1)), &v_product(b"j"), false, &[], json!({}));
    let top = if t { 17 } else { 9 };
    c.bound(&format!("dot-product proofs: lengths 1 to {top} (logarithmic: powers of two to {}), all vectors over 3 values up to length 2, patterns beyond, values over 4 and the true one, blinds over 3; other lengths and generators", if t { 64 } else { 16 }));
    let mut cases: Vec<(Vec<U>, Vec<U>)> = vec![];
    let a3 = [U::ZERO, pm1(), big()];
    for n in 1..=2 { for x in tuples(3, n) { for a in tuples(3, n) { cases.push((x.iter().map(|i| a3[*i]).collect(), a.iter().map(|i| a3[*i]).collect())) } } }
    for n in (3..=top).chain(if t { vec![32, 64] } else { vec![16] }) { if n == 17 && !t { continue } for p in 0..4 { for q in 0..3 { if n > 9 && p != q { continue }
        let x = match p { 0 => generic(n, 1), 1 => vec![U::ZERO; n], 2 => (0..n).map(|i| if i == n - 1 { U::ONE } else { U::ZERO }).collect(), _ => vec![pm1(); n] };
        let a = match q { 0 => generic(n, 2), 1 => (0..n).map(|i| U::from((i % 2) as u64)).collect(), _ => vec![U::ZERO; n] }; cases.push((x, a)) } } }
    par(cases.len(), |i| { let (x, a) = &cases[i]; let n = x.len(); let (g1, gn, gl) = (gens(1, b"one"), gens(n, b"many"), n.is_power_of_two().then(|| DotProductProofGens::new(n, b"log")));
        let y = dot(x, a);
        let mut ys = vec![y]; for v in [U::ZERO, U::ONE, f.add(&y, &U::ONE), f.neg(&y)] { if !ys.contains(&v) { ys.push(v) } }
        let bs: Vec<(U, U)> = if n <= 4 { tuples(3, 2).map(|p| (bl[p[0]], bl[p[1]])).collect() } else { vec![(big(), U::ONE), (U::ZERO, U::ZERO)] };
        for (bx, by) in &bs { for yy in &ys { if *yy != y && (*bx != big() || n > 16) { continue } 
            let d = || json!({"x": show_u(x), "a": show_u(a), "y": yy.hex(), "blinds": [bx.hex(), by.hex()]});
            judge("dot", guarded(|| dotp((x, a, yy, bx, by), 1 + i as u64)), &v_dotp(n, b"one", b"many"), *yy == y, &[("Cx", enc_pt(&rcommit(&gn, x, bx))), ("Cy", com(yy, by, &g1))], d());
            if let Some(g) = &gl { judge(if *yy != y && a.iter().all(|v| v.is_zero()) { "dotlog-zero-vector" } else { "dotlog" }, guarded(|| dotlog((x, a, yy, bx, by), 1 + i as u64)), &v_dotlog(n, n, b"log"), *yy == y, &[("Cx", enc_pt(&rcommit(&g.gens_n, x, bx))), ("Cy", com(yy, by, &g.gens_1))], d()) }
        } }
        if x.iter().all(|v| !v.is_zero()) && a.iter().all(|v| !v.is_zero()) { let (b0, b1) = (big(), f.add(&big(), &U::ONE));
            let p = guarded(|| dotp((x, a, &y, &b0, &b1), 1)).unwrap_or(Value::Null);
            for (w, v) in [("generators", v_dotp(n, b"two", b"many")), ("generators", v_dotp(n, b"one", b"any")), ("length", v_dotp(n + 1, b"one", b"many"))] { judge(&format!("dot-other-{w}"), Ok(p.clone()), &v, false, &[], json!(n)) }
            if gl.is_some() { let p = guarded(|| dotlog((x, a, &y, &b0, &b1), 1)).unwrap_or(Value::Null); for (w, v) in [("generators", v_dotlog(n, n, b"lag")), ("length", v_dotlog(2 * n, 2 * n, b"log")), ("length", v_dotlog(n, 2 * n, b"log")), ("length", v_dotlog(2 * n, n, b"log")), ("length", v_dotlog(n + 1, n, b"log"))] { judge(&format!("dotlog-other-{w}"), Ok(p.clone()), &v, false, &[], json!(n)) } } } });
    let topv = if t { 9 } else { 6 };
    c.bound(&format!("openings of polynomials with up to {topv} variables: four tables, generic, vertex and mixed points, with and without blinds; the value, four wrong values, other points, other polynomials, other generators, other sizes"));
    let mut cases = vec![]; for n in 0..=topv { for z in 0..4 { for r in 0..4 { for hide in 0..3 { if n > 4 && (z + r + hide) % 3 != 0 { continue } cases.push((n, z, r, hide)) } } } }
    par(cases.len(), |i| { let (n, zk, rk, hide) = cases[i]; let m = 1usize << n;
        let z: Vec<U> = match zk { 0 => generic(m, 1), 1 => vec![U::ZERO; m], 2 => (0..m).map(|i| if i == m - 1 { big() } else { U::ZERO }).collect(), _ => (0..m as u64).map(U::from).collect() };
        let r: Vec<U> = match rk { 0 => generic(n, 2), 1 => vec![U::ZERO; n], 2 => vec![U::ONE; n], _ => (0..n).map(|i| if i % 2 == 0 { U::ONE } else { big() }).collect() };
        let hb = [None, Some(U::ZERO), Some(big())][hide];
        let y = mle(&z, &r); let d = || json!({"variables": n, "table": zk, "point": rk, "blinds": hide});
        let g = PolyCommitmentGens::new(n, b"poly"); let cy = com(&y, &hb.unwrap_or(U::ZERO), &g.gens.gens_1);
        let p = guarded(|| polyeval(&z, &r, &y, hb.as_ref(), 1 + i as u64));
        judge("open", p.clone(), &v_polyeval(n, b"poly"), true, &[("Cy", cy)], d());
        let Ok(p) = p else { return };
        if hb.is_none() { // commitments without blinds are the rows' commitments
            let (l, rr) = (n / 2, n - n / 2); let want: Vec<Value> = (0..1 << l).map(|k| enc_pt(&rcommit(&g.gens.gens_n, &z[k << rr..(k + 1) << rr], &U::ZERO))).collect();
            c.steps(1); c.ensure(p["comm"]["C"] == json!(want), "polynomial-commitment", || d()); }
        if hb.unwrap_or(U::ZERO).is_zero() { for v in [y, f.add(&y, &U::ONE), f.neg(&y), U::ZERO, U::ONE] { let mut q = p.clone(); q["y"] = to(&sc(&v)); judge("open-plain", Ok(q), &v_polyplain(n, b"poly"), v == y, &[], d()) } }
        for v in [f.add(&y, &U::ONE), f.neg(&y), U::ZERO] { if v != y { judge("open", guarded(|| polyeval(&z, &r, &v, hb.as_ref(), 5)), &v_polyeval(n, b"poly"), false, &[], d()) } }
        for (w, v) in [("generators", v_polyeval(n, b"polx")), ("size", v_polyeval(n + 2, b"poly"))] { if zk != 1 { judge(&format!("open-other-{w}"), Ok(p.clone()), &v, false, &[], d()) } }
        // the same value of another polynomial or at another point
        if n > 0 && zk != 1 { let mut q = p.clone(); for k in 0..n { let r2: Vec<U> = r.iter().enumerate().map(|(i, x)| if i == k { f.add(x, &big()) } else { *x }).collect(); if mle(&z, &r2) == y { continue } q["r"] = to(&scs(&r2)); judge("open-other-point", Ok(q.clone()), &v_polyeval(n, b"poly"), false, &[], d()) }
            // (row order only matters where rows carry weight)
            if rk == 0 { let mut q = p.clone(); let mut rows = p["comm"]["C"].as_array().unwrap().clone(); if rows.len() > 1 && rows[0] != rows[1] { rows.swap(0, 1); q["comm"]["C"] = json!(rows); judge("open-other-polynomial", Ok(q), &v_polyeval(n, b"poly"), false, &[], d()) } } }
    });
}
/// The sizes of whole circuits: what holds for short vectors holds for long ones.
fn scale(c: &Check) {
    let t = c.thorough(); let f = fp(); let ll = lengths(if t { 16385 } else { 4097 });
    c.bound(&format!("inner products of {} lengths up to {}", ll.len(), ll.last().unwrap()));
    par(ll.len(), |q| { let n = ll[q]; let (x, a) = (generic(n, 1), generic(n, 2)); let w = dot(&x, &a); c.states(1); c.steps(2);
        let g = guarded(|| (un(&DotProductProof::compute_dotproduct(&scs(&x), &scs(&a))), un(&DotProductProofLog::compute_dotproduct(&scs(&x), &scs(&a))))); c.ensure(g == Ok((w, w)), "inner-product-at-scale", || json!({"length": n, "got": format!("{g:?}")})); });
    let (dn, dl, on): (&[usize], &[usize], &[usize]) = if t { (&[33, 100, 300, 1030], &[32, 64, 128, 256, 512, 1024, 2048], &[8, 9, 10, 11, 12, 14, 16]) } else { (&[40, 130, 300], &[32, 64, 256, 512], &[8, 10, 12, 14]) };
    c.bound(&format!("at scale: dot-product proofs of lengths {dn:?} and {dl:?} (logarithmic), openings with {on:?} variables: true claim, wrong values, every public coordinate near the ends and around powers of two, every round element and row commitment altered"));
    let mut jobs: Vec<(u8, usize)> = on.iter().rev().map(|n| (2u8, *n)).chain(dl.iter().rev().map(|n| (1, *n))).chain(dn.iter().rev().map(|n| (0, *n))).collect(); jobs.sort_by_key(|(k, n)| std::cmp::Reverse(if *k == 2 { 1 << n >> 3 } else { *n }));
    for (k, n) in jobs { let name = ["dot", "dotlog", "open"][k as usize]; let m = if k == 2 { 1usize << n } else { n };
        let (x, a) = if k == 2 { (generic(m, 5), generic(n, 6)) } else { (generic(n, 5), generic(n, 6)) }; let b = big();
        let y = if k == 2 { let mut z = x.clone(); for r in &a { let h = z.len() / 2; z = (0..h).map(|i| f.add(&z[i], &f.mul(r, &f.sub(&z[i + h], &z[i])))).collect() } z[0] } else { dot(&x, &a) };
        let make = |y: &U| guarded(|| match k { 0 => dotp((&x, &a, y, &b, &U::ONE), 1), 1 => dotlog((&x, &a, y, &b, &U::ONE), 1), _ => polyeval(&x, &a, y, Some(&b), 1) });
        let ver = match k { 0 => v_dotp(n, b"one", b"many"), 1 => v_dotlog(n, n, b"log"), _ => v_polyeval(n, b"poly") };
        let run = |v: &Value| match guarded(|| ver(v, &mut tr(b"ctx"))) { Ok(r) => r, Err(e) => Err(e) };
        let d = |w: &str, i: usize| json!({"protocol": name, "size": n, "altered": w, "at": i});
        c.states(1); c.steps(2); c.traces(1);
        let p = match make(&y) { Ok(p) => p, Err(e) => { c.fail(&format!("prover-fails-{name}"), json!({"size": n, "got": e})); continue } };
        c.ensure(run(&p).is_ok(), &format!("true-claim-rejected-{name}-at-scale"), || d("nothing", 0));
        for v in [f.add(&y, &U::ONE), U::ZERO] { c.states(1); c.steps(1); if let Ok(q) = make(&v) { c.ensure(run(&q).is_err(), &format!("false-claim-accepted-{name}-at-scale"), || d("value", 0)); } }
        // single alterations, on lists everywhere that a shortcut could start or end
        let mut alt: Vec<(Path, String)> = vec![]; let ends = |len: usize| -> Vec<usize> { (0..len).filter(|i| len <= 40 || *i < 2 || *i + 2 >= len || i.is_power_of_two() || (i + 1).is_power_of_two() || [40, 70, 100, 150, 200, 1000].contains(i)).collect() };
        for nd in walk(&p) { if !matches!(nd.kind, Kind::Scalar | Kind::Point) { continue } let idx = nd.path.last().and_then(|s| if let Step::I(i) = s { Some(*i) } else { None });
            if let Some(i) = idx { let parent = &nd.path[..nd.path.len() - 1]; let len = get(&p, &parent.to_vec()).and_then(|v| v.as_array().map(|a| a.len())).unwrap_or(0); if !ends(len).contains(&i) { continue } }
            alt.push((nd.path.clone(), show_path(&nd.path))) }
        par(alt.len(), |i| { let (path, what) = &alt[i]; let mut q = p.clone(); let cur = get(&p, path).unwrap(); let fq = fq();
            *get_mut(&mut q, path) = if is_scalar(cur) { from_u(&f.add(&to_u(cur), &U::ONE)) } else { enc_pt(&radd(&fq, &dec_pt(cur, &fq), &gen())) };
            c.states(1); c.steps(1); c.traces(1); let r = run(&q); c.ensure(r.is_err(), &format!("accepted-{name}-at-scale"), || d(what, i)); });
    }
}
pub fn s07(c: &Check) { scale(c); complete(c); tampering(c); c.sample(json!({"knowledge proof": knowledge(&big(), &U::ONE, 1)})) }
