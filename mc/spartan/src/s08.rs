//! S08: the sum-check protocol, plain, batched and committed.
use crate::{conv::*, s07::{self, cg, challenges, from, run, Subject}};
use libspartan::verif::{dense_mlpoly::*, scalar::Scalar, sumcheck::*};
use mccore::{tamper::*, *};
fn d(z: &[U]) -> DensePolynomial { DensePolynomial::new(scs(z)) }
fn to<T: serde::Serialize>(x: &T) -> Value { serde_json::to_value(x).unwrap() }
type Comb = fn(&Scalar, &Scalar, &Scalar) -> Scalar;
fn combs() -> [(&'static str, Comb); 4] { [("abc", |a, b, c| *a * b * c), ("ab-c", |a, b, c| *a * b - c), ("a(b-c)", |a, b, c| *a * (*b - c)), ("a+b+c", |a, b, c| *a + b + c)] }
/// Sum over the hypercube.
fn total(t: &[Vec<U>], k: Comb) -> U { let f = fp(); (0..t[0].len()).fold(U::ZERO, |s, i| f.add(&s, &un(&k(&sc(&t[0][i]), &sc(&t[1][i]), &sc(&t[2][i]))))) }
fn at(t: &[Vec<U>], k: Comb, r: &[U]) -> U { let v: Vec<Scalar> = t.iter().map(|z| sc(&mle(z, r))).collect(); un(&k(&v[0], &v[1], &v[2])) }
struct Plain { proof: Value, r: Vec<U>, finals: Vec<U> }
fn prove(t: &[Vec<U>], k: Comb, claim: &U) -> Plain {
    let n = t[0].len().trailing_zeros() as usize;
    let (mut a, mut b, mut c) = (d(&t[0]), d(&t[1]), d(&t[2]));
    let (p, r, fin) = SumcheckInstanceProof::prove_cubic(&sc(claim), n, &mut a, &mut b, &mut c, k, &mut tr(b"ctx"));
    Plain { proof: to(&p), r: uns(&r), finals: uns(&fin) }
}
fn verify(p: &Value, claim: &U, n: usize, deg: usize) -> Result<(U, Vec<U>), String> {
    let p: SumcheckInstanceProof = from(p)?;
    guarded(|| p.verify(sc(claim), n, deg, &mut tr(b"ctx")).map(|(e, r)| (un(&e), uns(&r))).map_err(|e| format!("{e:?}"))).and_then(|x| x)
}
/// The lengths of all lists.
fn shape(v: &Value) -> Vec<(Path, usize)> { walk(v).iter().filter(|n| n.kind == Kind::List).map(|n| (n.path.clone(), get(v, &n.path).unwrap().as_array().unwrap().len())).collect() }
fn wrong(claim: &U) -> Vec<U> { let f = fp(); let mut v = vec![]; for x in [f.add(claim, &U::ONE), f.sub(claim, &U::ONE), f.neg(claim), U::ZERO, U::ONE] { if x != *claim && !v.contains(&x) { v.push(x) } } v }
fn one(c: &Check, t: &[Vec<U>], name: &str, k: Comb, deep: bool) {
    let n = t[0].len().trailing_zeros() as usize; let f = fp();
    let claim = total(t, k);
    let case = || json!({"tables": t.iter().map(|z| show_u(z)).collect::<Vec<_>>(), "combination": name});
    c.states(1); c.steps(2); c.traces(1);
    let p = match guarded(|| prove(t, k, &claim)) { Ok(p) => p, Err(e) => { c.fail("prover-fails", json!({"case": case(), "got": e})); return } };
    match verify(&p.proof, &claim, n, 3) {
        Err(e) => { c.fail("true-sum-rejected", json!({"case": case(), "got": e})); return }
        Ok((e, r)) => {
            c.ensure(r == p.r, "challenges-differ", case);
            c.ensure(r.len() == n && e == at(t, k, &r), "wrong-final-claim", || json!({"case": case(), "got": e.hex()}));
            c.ensure((0..3).all(|i| p.finals[i] == mle(&t[i], &r)), "wrong-final-values", case);
        }
    }
    for w in if deep { wrong(&claim) } else { vec![f.add(&claim, &U::ONE)] } {
        if n == 0 { continue }
        c.states(1); c.steps(1); c.traces(1);
        // the true proof for the wrong sum, and the prover run on the wrong sum
        for q in [Some(p.proof.clone()), guarded(|| prove(t, k, &w)).ok().map(|p| p.proof)].into_iter().flatten() { if let Ok((e, r)) = verify(&q, &w, n, 3) { c.ensure(e != at(t, k, &r), "false-sum-proved", || json!({"case": case(), "claimed": w.hex()})); } }
    }
    if !deep { return }
    // wrong number of rounds or degree
    for (rounds, deg) in [(n + 1, 3), (n.wrapping_sub(1), 3), (n, 2), (n, 4), (n, 0)] { if rounds > 64 || n == 0 { continue } c.states(1); c.steps(1); let g = verify(&p.proof, &claim, rounds, deg); c.ensure(g.is_err(), "wrong-shape-accepted", || json!({"case": case(), "rounds": rounds, "degree": deg})); }
    // every altered message
    let donor = prove(&t.iter().map(|z| z.iter().map(|x| f.add(x, &big())).collect()).collect::<Vec<_>>(), k, &claim).proof;
    let muts = mutations(&p.proof, &[donor], true);
    let sh = shape(&p.proof);
    par(muts.len(), |i| { let m = &muts[i];
        c.states(1); c.steps(1); c.traces(1);
        let g = verify(&m.to, &claim, n, 3);
        c.part(if g.is_ok() { "altered-to-other-claim" } else { "altered-rejected" }, 1);
        if let Ok((e, r)) = g { c.ensure(shape(&m.to) == sh, &format!("reshaped-accepted-{}", m.what), || json!({"case": case(), "altered": m.to})); c.ensure(e != at(t, k, &r), &format!("altered-proves-{}-{}", m.what, class(&m.path)), || json!({"case": case(), "altered": m.to, "path": show_path(&m.path)})); }
    });
    // false sums whose messages are repaired once the challenges are known
    for w in wrong(&claim) { for round in 0..n { for coeff in 0..3 {
        let mut q = prove(t, k, &w).proof;
        for pass in 0..2 {
            let Ok((e, r)) = verify(&q, &w, n, 3) else { break };
            let gap = f.sub(&at(t, k, &r), &e);
            let x = r[round]; let tail = r[round + 1..].iter().fold(U::ONE, |a, y| f.mul(&a, y));
            let lever = match coeff { 0 => f.sub(&U::ONE, &f.add(&x, &x)), 1 => f.sub(&f.sq(&x), &x), _ => f.sub(&f.mul(&f.sq(&x), &x), &x) };
            let Some(i) = f.inv(&f.mul(&lever, &tail)) else { break };
            let path = [Step::K("compressed_polys".into()), Step::I(round), Step::K("coeffs_except_linear_term".into()), Step::I(coeff)];
            let Some(cur) = get(&q, &path).cloned() else { c.part("no-such-coefficient", 1); break };
            *get_mut(&mut q, &path) = from_u(&f.add(&to_u(&cur), &f.mul(&gap, &i)));
            c.states(1); c.steps(1); c.traces(1); c.part("forgeries", 1);
            if let Ok((e, r)) = verify(&q, &w, n, 3) { c.ensure(e != at(t, k, &r), "forged-sum", || json!({"case": case(), "claimed": w.hex(), "round": round, "coefficient": coeff, "pass": pass})); }
        }
    } } }
}
fn plain(c: &Check) {
    let th = c.thorough();
    let al = [U::ZERO, U::ONE, pm1(), big()];
    c.bound("plain sum-check: constants and all one-variable tables over 4 values, two-variable tables over 2 values, patterns up to 11 variables (13 thorough), four combining functions; sums, final claims and final values against the definition; wrong sums");
    for (name, k) in combs() {
        one(c, &[vec![al[3]], vec![al[1]], vec![al[2]]], name, k, false);
        par(4usize.pow(6), |x| { let v: Vec<U> = (0..6).map(|i| al[x / 4usize.pow(i) % 4]).collect(); one(c, &[v[..2].to_vec(), v[2..4].to_vec(), v[4..].to_vec()], name, k, false) });
        par(1 << 12, |x| { let v: Vec<U> = (0..12).map(|i| if x >> i & 1 == 1 { al[3 - i % 3] } else { U::ZERO }).collect(); one(c, &[v[..4].to_vec(), v[4..8].to_vec(), v[8..].to_vec()], name, k, false) });
        let top = if th { 13 } else { 11 };
        par(top * 4, |x| { let (n, p) = (x / 4 + 1, x % 4); let m = 1usize << n; let mk = |s: u64| match p { 0 => generic(m, s), 1 => (0..m).map(|i| if i == m - 1 { U::from(s) } else { U::ZERO }).collect(), 2 => vec![pm1(); m], _ => (0..m as u64).map(|i| U::from(i * s)).collect() }; one(c, &[mk(1), mk(2), mk(3)], name, k, false) });
    }
    let deep = if th { 5 } else { 3 };
    c.bound(&format!("plain sum-check up to {deep} variables: every altered message, all exchanges, wrong rounds and degrees, messages repaired after seeing the challenges (every round and coefficient)"));
    for n in 1..=deep { for (name, k) in combs() { one(c, &[generic(1 << n, 1), generic(1 << n, 2), generic(1 << n, 3)], name, k, true) } }
}
fn batched(c: &Check) {
    let th = c.thorough(); let f = fp();
    c.bound("batched sum-check: 0 to 3 products sharing one factor with 0 to 3 independent products, 1 to 4 variables, and up to 300 products or 10 variables, two combining functions, coefficient patterns including zero; wrong sums; each coefficient and table matters");
    let jobs: Vec<_> = (1..=if th { 6 } else { 4usize }).flat_map(|n| (0..=3usize).flat_map(move |p| (0..=3usize).flat_map(move |s| (0..2usize).flat_map(move |k| (0..3usize).map(move |q| (n, p, s, k, q)))))).filter(|j| j.1 + j.2 > 0).chain([(8, 2, 1), (10, 1, 1), (2, 40, 0), (2, 0, 40), (1, 17, 33), (3, 70, 5), (1, 300, 0), (1, 0, 300)].into_iter().flat_map(|(n, p, s)| (0..2usize).flat_map(move |k| (0..3usize).map(move |q| (n, p, s, k, q))))).collect();
    par(jobs.len(), |j| { let (n, np, ns, kk, q) = jobs[j]; let m = 1usize << n; let (name, k) = combs()[kk];
        let ap: Vec<Vec<U>> = (0..np).map(|i| generic(m, i as u64)).collect(); let bp: Vec<Vec<U>> = (0..np).map(|i| generic(m, 1010 + i as u64)).collect(); let cp = generic(m, 2019);
        let sq: Vec<[Vec<U>; 3]> = (0..ns).map(|i| [generic(m, 3020 + i as u64), generic(m, 4030 + i as u64), generic(m, 5040 + i as u64)]).collect();
        let co: Vec<U> = match q { 0 => generic(np + ns, 6050), 1 => (0..np + ns).map(|i| if i == 0 { U::ONE } else { U::ZERO }).collect(), _ => (0..np + ns).map(|i| if i == np + ns - 1 { pm1() } else { U::ONE }).collect() };
        let all: Vec<[Vec<U>; 3]> = (0..np).map(|i| [ap[i].clone(), bp[i].clone(), cp.clone()]).chain(sq.iter().cloned()).collect();
        let claim = all.iter().zip(&co).fold(U::ZERO, |a, (t, x)| f.add(&a, &f.mul(x, &total(t, k))));
        let g = |r: &[U]| all.iter().zip(&co).fold(U::ZERO, |a, (t, x)| f.add(&a, &f.mul(x, &at(t, k, r))));
        let go = |claim: &U| guarded(|| {
            let mk = |v: &[Vec<U>]| -> Vec<DensePolynomial> { v.iter().map(|z| d(z)).collect() };
            let (mut pa, mut pb, mut pc) = (mk(&ap), mk(&bp), d(&cp));
            let col = |i: usize| -> Vec<DensePolynomial> { sq.iter().map(|t| d(&t[i])).collect() };
            let (mut sa, mut sb, mut scc) = (col(0), col(1), col(2));
            let (p, r, (fa, fb, fc), (ga, gb, gc)) = SumcheckInstanceProof::prove_cubic_batched(&sc(claim), n, (&mut pa.iter_mut().collect(), &mut pb.iter_mut().collect(), &mut pc), (&mut sa.iter_mut().collect(), &mut sb.iter_mut().collect(), &mut scc.iter_mut().collect()), &scs(&co), k, &mut tr(b"ctx"));
            (to(&p), uns(&r), [uns(&fa), uns(&fb), vec![un(&fc)], uns(&ga), uns(&gb), uns(&gc)])
        });
        let case = || json!({"variables": n, "sharing": np, "separate": ns, "combination": name, "coefficients": show_u(&co)});
        c.states(1); c.steps(2); c.traces(1);
        match go(&claim) { Err(e) => c.fail("batched-prover-fails", json!({"case": case(), "got": e})), Ok((p, r, fin)) => {
            let v = verify(&p, &claim, n, 3);
            c.ensure(v == Ok((g(&r), r.clone())), "batched-true-sum", || json!({"case": case(), "got": format!("{v:?}")}));
            let w: [Vec<U>; 6] = [ap.iter().map(|z| mle(z, &r)).collect(), bp.iter().map(|z| mle(z, &r)).collect(), vec![mle(&cp, &r)], sq.iter().map(|t| mle(&t[0], &r)).collect(), sq.iter().map(|t| mle(&t[1], &r)).collect(), sq.iter().map(|t| mle(&t[2], &r)).collect()];
            c.ensure(fin == w, "batched-final-values", case);
        } }
        for w in wrong(&claim) { c.states(1); c.steps(1); if let Ok((p, _, _)) = go(&w) { if let Ok((e, r)) = verify(&p, &w, n, 3) { c.ensure(e != g(&r), "batched-false-sum-proved", || json!({"case": case(), "claimed": w.hex()})); } } }
    });
}
/// A committed sum-check as {"proof", "claim"}; `final_blind`, challenges and final values alongside.
pub struct Zk { pub v: Value, pub r: Vec<U>, pub finals: Vec<U>, pub blind: U }
fn quad() -> fn(&Scalar, &Scalar) -> Scalar { |a, b| *a * b }
fn cubic() -> fn(&Scalar, &Scalar, &Scalar, &Scalar) -> Scalar { |a, b, c, d| *a * (*b * c - d) }
pub fn zk(t: &[Vec<U>], claim: &U, blind: &U, seed: u64) -> Zk {
    let n = t[0].len().trailing_zeros() as usize; let g1 = gens(1, b"one");
    let cc = to(&libspartan::verif::commitments::Commitments::commit(&sc(claim), &sc(blind), &g1).compress());
    let mut ps: Vec<DensePolynomial> = t.iter().map(|z| d(z)).collect(); let mut it = ps.iter_mut();
    let (p, r, fin, b) = if t.len() == 2 {
        ZKSumcheckInstanceProof::prove_quad(&sc(claim), &sc(blind), n, it.next().unwrap(), it.next().unwrap(), quad(), &g1, &gens(3, b"three"), &mut tr(b"ctx"), &mut tape(seed))
    } else {
        ZKSumcheckInstanceProof::prove_cubic_with_additive_term(&sc(claim), &sc(blind), n, it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), cubic(), &g1, &gens(4, b"four"), &mut tr(b"ctx"), &mut tape(seed))
    };
    Zk { v: json!({"proof": to(&p), "claim": cc}), r: uns(&r), finals: uns(&fin), blind: un(&b) }
}
pub fn zval(v: &[U]) -> U { let s = scs(v); un(&if v.len() == 2 { quad()(&s[0], &s[1]) } else { cubic()(&s[0], &s[1], &s[2], &s[3]) }) }
pub fn ztotal(t: &[Vec<U>]) -> U { let f = fp(); (0..t[0].len()).fold(U::ZERO, |s, i| f.add(&s, &zval(&t.iter().map(|z| z[i]).collect::<Vec<_>>()))) }
fn zverify(v: &Value, n: usize, k: usize, t: &mut merlin::Transcript) -> Result<(Value, Vec<U>), String> {
    let p: ZKSumcheckInstanceProof = from(&v["proof"])?; let c = cg(&v["claim"])?;
    let gn = if k == 3 { gens(3, b"three") } else { gens(4, b"four") };
    p.verify(&c, n, k - 1, &gens(1, b"one"), &gn, t).map(|(e, r)| (to(&e), uns(&r))).map_err(|e| format!("{e:?}"))
}
/// Subjects for tampering: quadratic (2 tables) and cubic (4 tables).
pub fn zk_subject(n: usize, k: usize) -> Subject {
    let t: Vec<Vec<U>> = (0..if k == 3 { 2 } else { 4 }).map(|i| generic(1 << n, 60 + i)).collect(); let t2: Vec<Vec<U>> = t.iter().map(|z| z.iter().rev().copied().collect()).collect();
    let b = big(); let (p, d1, d2) = (zk(&t, &ztotal(&t), &b, 1).v, zk(&t, &ztotal(&t), &b, 2).v, zk(&t2, &ztotal(&t2), &U::ONE, 3).v);
    let mut s = Subject { name: format!("committed-{}-{n}", if k == 3 { "quadratic" } else { "cubic" }), honest: p, donors: vec![d1, d2], verify: Box::new(move |v, t| zverify(v, n, k, t).map(|_| ())), solve: vec![] };
    // shift one commitment and repair the announcements it enters
    let shift = |v: &Value, path: &[&str], by: &[(U, Pt)]| { let f = fq(); let mut w = v.clone(); { let mut x = &mut w; for p in path { x = if let Ok(i) = p.parse::<usize>() { &mut x[i] } else { &mut x[*p] } } let mut a = dec_pt(x, &f); for (m, p) in by { a = ec::radd(&f, &a, &ec::rmul(&f, p, m)) } *x = enc_pt(&a) } w };
    let q: Pt = pv(&gens(1, b"one").G[0]); let f = fp();
    for j in 0..n { let js = j.to_string();
        // challenges per round: next point, two weights, the dot product's
        s.solve.push(("claimed value", Box::new(move |v, c| { if c.len() != 4 * n { return None } let (w1, ch) = (c[4 * j + 2], c[4 * j + 3]); let mut x = shift(v, &["proof", "comm_evals", &js], &[(U::ONE, q)]); x = shift(&x, &["proof", "proofs", &js, "beta"], &[(f.neg(&f.mul(&ch, &w1)), q)]);
            if j + 1 < n { let (w0, ch) = (c[4 * j + 5], c[4 * j + 7]); x = shift(&x, &["proof", "proofs", &(j + 1).to_string(), "beta"], &[(f.neg(&f.mul(&ch, &w0)), q)]) } Some(x) })));
        let js = j.to_string();
        s.solve.push(("round polynomial", Box::new(move |v, c| { if c.len() != 4 * n { return None } let x = shift(v, &["proof", "comm_polys", &js], &[(U::ONE, q)]); Some(shift(&x, &["proof", "proofs", &js, "delta"], &[(f.neg(&c[4 * j + 3]), q)])) })));
    }
    s.solve.push(("claim", Box::new(move |v, c| { if c.len() != 4 * n { return None } let x = shift(v, &["claim"], &[(U::ONE, q)]); Some(shift(&x, &["proof", "proofs", "0", "beta"], &[(f.neg(&f.mul(&c[1], &c[3])), q)])) })));
    s
}
use ec::Pt;
fn committed(c: &Check) {
    let th = c.thorough(); let f = fp();
    c.bound("committed sum-check (quadratic and cubic with additive term): one-variable tables over 2 values exhaustively, patterns up to 9 variables (11 thorough), blinds zero and not; final commitments against the reference; wrong sums");
    let mut cases: Vec<(Vec<Vec<U>>, U, u64)> = vec![];
    for x in 0..16usize { let v: Vec<U> = (0..4).map(|i| if x >> i & 1 == 1 { big() } else { pm1() }).collect(); cases.push((vec![v[..2].to_vec(), v[2..].to_vec()], big(), x as u64)) }
    for x in 0..256usize { if !th && x % 3 != 0 { continue } let v: Vec<U> = (0..8).map(|i| if x >> i & 1 == 1 { big() } else { U::ZERO }).collect(); cases.push((v.chunks(2).map(|z| z.to_vec()).collect(), U::ZERO, x as u64)) }
    for n in 1..=if th { 11 } else { 9usize } { for k in [2usize, 4] { for p in 0..3 { for b in [U::ZERO, big()] { let m = 1usize << n; let mk = |s: u64| match p { 0 => generic(m, s), 1 => vec![U::ZERO; m], _ => (0..m).map(|i| U::from((i as u64 + s) % 3)).collect() }; cases.push(((0..k as u64).map(mk).collect(), b, n as u64)) } } } }
    let (g1, f2) = (gens(1, b"one"), fq()); let _ = f2;
    par(cases.len(), |i| { let (t, b, seed) = &cases[i]; let n = t[0].len().trailing_zeros() as usize; let k = if t.len() == 2 { 3 } else { 4 };
        let claim = ztotal(t); let case = || json!({"tables": t.iter().map(|z| show_u(z)).collect::<Vec<_>>(), "blind": b.hex()});
        c.states(1); c.steps(2); c.traces(1);
        let z = match guarded(|| zk(t, &claim, b, *seed)) { Ok(z) => z, Err(e) => { c.fail("committed-prover-fails", json!({"case": case(), "got": e})); return } };
        let g = guarded(|| zverify(&z.v, n, k, &mut tr(b"ctx"))).and_then(|x| x);
        let fin: Vec<U> = t.iter().map(|x| mle(x, &z.r)).collect();
        let want = enc_pt(&rcommit(&g1, &[zval(&fin)], &z.blind));
        c.ensure(g == Ok((want.clone(), z.r.clone())), "committed-true-sum", || json!({"case": case(), "got": format!("{g:?}"), "want": want}));
        c.ensure(z.finals == fin, "committed-final-values", case);
        // each commitment hides behind its own blind: no commitment equals the unblinded one
        let last = rcommit(&g1, &[zval(&fin)], &U::ZERO); c.ensure(enc_pt(&last) != want, "unblinded-final-claim", case);
        for w in wrong(&claim).into_iter().take(2) { c.states(1); c.steps(1); c.traces(1);
            if let Ok(z) = guarded(|| zk(t, &w, b, *seed)) { if let Ok((e, r)) = guarded(|| zverify(&z.v, n, k, &mut tr(b"ctx"))).and_then(|x| x) { let fin: Vec<U> = t.iter().map(|x| mle(x, &r)).collect(); c.ensure(e != enc_pt(&rcommit(&g1, &[zval(&fin)], &z.blind)), "committed-false-sum", || json!({"case": case(), "claimed": w.hex()})); } }
            // the true proof for a commitment to a wrong sum
            let mut v = z.v.clone(); v["claim"] = enc_pt(&rcommit(&g1, &[w], b)); c.steps(1); let g = guarded(|| zverify(&v, n, k, &mut tr(b"ctx"))).and_then(|x| x); c.ensure(g.is_err(), "committed-other-sum-accepted", || json!({"case": case(), "claimed": w.hex()}));
        }
        let _ = f;
    });
    let top = if th { 4 } else { 2 };
    c.bound(&format!("committed sum-check up to {top} rounds: every altered element, exchange and reshaped list, wrong rounds, degrees, contexts; every commitment shifted with its announcements repaired after seeing the challenges"));
    for n in 1..=top { for k in [3, 4] {
        let s = zk_subject(n, k);
        let ok = run(&s, &s.honest, b"ctx"); c.states(1); c.steps(1); c.traces(1);
        if !c.ensure(ok.is_ok(), "honest-rejected", || json!({"subject": s.name, "got": format!("{ok:?}")})) { continue }
        c.ensure(run(&s, &s.honest, b"cty").is_err(), "other-context-accepted", || json!(s.name));
        for (n2, k2) in [(n + 1, k), (n - 1, k), (n, 7 - k)] { c.states(1); c.steps(1); let g = guarded(|| zverify(&s.honest, n2, k2, &mut tr(b"ctx"))).and_then(|x| x); c.ensure(g.is_err(), "wrong-shape-accepted", || json!({"subject": s.name, "rounds": n2, "degree": k2 - 1})); }
        { let p: ZKSumcheckInstanceProof = from(&s.honest["proof"]).unwrap(); let cl = cg(&s.honest["claim"]).unwrap(); for (deg, l1, ln) in [(k, &b"one"[..], gens(k, if k == 3 { b"three" } else { b"four" })), (k - 1, b"two", gens(k, if k == 3 { b"three" } else { b"four" })), (k - 1, b"one", gens(k, b"five"))] { c.states(1); c.steps(1); let l1: &'static [u8] = Box::leak(l1.to_vec().into()); let g = guarded(|| p.verify(&cl, n, deg, &gens(1, l1), &ln, &mut tr(b"ctx"))); c.ensure(!matches!(g, Ok(Ok(_))), "wrong-parameters-accepted", || json!({"subject": s.name, "degree": deg})); } }
        let muts = mutations(&s.honest, &s.donors, true);
        par(muts.len(), |i| { let m = &muts[i]; if s.donors.contains(&m.to) { return }
            c.states(1); c.steps(1); c.traces(1);
            let g = run(&s, &m.to, b"ctx");
            c.ensure(g.is_err(), &format!("committed-accepted-{}-{}", m.what, class(&m.path)), || json!({"subject": s.name, "path": show_path(&m.path), "altered": m.to})); });
        let (cs, _) = challenges(&s, &s.honest);
        c.ensure(cs.len() == 4 * n, "challenge-count", || json!({"subject": s.name, "challenges": cs.len()}));
        for (name, f) in &s.solve { let mut v = s.honest.clone(); for _ in 0..2 { let (cs, _) = challenges(&s, &v); let Some(w) = f(&v, &cs) else { break }; c.states(1); c.steps(1); c.traces(1); c.part("forgeries", 1); c.ensure(run(&s, &w, b"ctx").is_err(), &format!("forged-committed-{name}"), || json!({"subject": s.name, "forged": w})); v = w } }
    } }
}
pub fn s08(c: &Check) { s07::validate(c, || vec![zk_subject(1, 3), zk_subject(2, 4)]); plain(c); batched(c); committed(c); c.sample(json!({"one-variable product": prove(&[generic(2, 1), generic(2, 2), generic(2, 3)], combs()[0].1, &total(&[generic(2, 1), generic(2, 2), generic(2, 3)], combs()[0].1)).proof})) }
