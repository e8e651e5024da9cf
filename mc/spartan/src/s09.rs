//! S09: what the verifier's challenges depend on.
use crate::{conv::*, s07::{self, cg, from, Subject}, s08, spec, sys};
use libspartan::verif::{dense_mlpoly::*, r1csinstance::*, scalar::Scalar, transcript::*, unipoly::*};
use mccore::{ec::gen, tamper::*, *};
use merlin::{hook, Ev, Transcript};
use std::collections::BTreeMap;
// ---- every short history of transcript operations
#[derive(Clone)]
enum Op { Name(&'static [u8]), Scalar(&'static [u8], U), Point(&'static [u8], Value), Vector(&'static [u8], Vec<U>), Commitment(&'static [u8], usize), Poly(&'static [u8], usize), Draw(&'static [u8], usize) }
fn ops(th: bool) -> Vec<Op> {
    use Op::*;
    let (g, id) = (enc_pt(&gen()), enc_pt(&None));
    let mut v = vec![Name(b"p"), Name(b"q"), Scalar(b"a", U::ZERO), Scalar(b"a", U::ONE), Scalar(b"a", U::ONE.shl(255).0), Scalar(b"b", U::ZERO), Point(b"a", g.clone()), Point(b"a", id.clone()), Point(b"a", enc_pt(&ec::rneg(&fq(), &gen()))), Vector(b"a", vec![]), Vector(b"a", vec![U::ZERO]), Vector(b"a", vec![U::ONE]), Vector(b"a", vec![U::ZERO, U::ZERO]), Vector(b"a", vec![U::ZERO, U::ONE]), Vector(b"a", vec![U::ONE, U::ZERO]), Commitment(b"a", 0), Commitment(b"a", 1), Commitment(b"a", 2), Poly(b"a", 0), Poly(b"a", 1), Poly(b"a", 2), Draw(b"a", 1), Draw(b"b", 1), Draw(b"a", 2)];
    if th { v.extend([Point(b"b", g), Vector(b"b", vec![]), Vector(b"b", vec![U::ZERO]), Commitment(b"b", 1), Poly(b"b", 0), Scalar(b"", U::ZERO), Name(b"")]) }
    v
}
fn comm(k: usize) -> Vec<Value> { [vec![enc_pt(&None)], vec![enc_pt(&gen())], vec![enc_pt(&gen()), enc_pt(&None)]][k].clone() }
fn poly(k: usize) -> UniPoly { UniPoly::from_evals(&scs(&[vec![U::ONE, U::from(2), U::from(3)], vec![U::ONE, U::from(2), U::from(4)], vec![U::ONE, U::from(2), U::from(3), U::from(4)]][k])) }
fn apply(o: &Op, t: &mut Transcript) {
    match o {
        Op::Name(n) => t.append_protocol_name(n),
        Op::Scalar(l, x) => sc(x).append_to_transcript(l, t),
        Op::Point(l, p) => cg(p).unwrap().append_to_transcript(l, t),
        Op::Vector(l, v) => scs(v)[..].append_to_transcript(l, t),
        Op::Commitment(l, k) => from::<PolyCommitment>(&json!({"C": comm(*k)})).unwrap().append_to_transcript(l, t),
        Op::Poly(l, k) => poly(*k).append_to_transcript(l, t),
        Op::Draw(l, n) => { let v = t.challenge_vector(l, *n); assert!(v.len() == *n) }
    }
}
/// Two histories say the same exactly if this is equal: a vector of draws is so many draws.
fn meaning(h: &[&Op]) -> String {
    let mut s = String::new();
    for o in h { s += &match o { Op::Name(n) => format!("N{n:?};"), Op::Scalar(l, x) => format!("S{l:?}{};", x.hex()), Op::Point(l, p) => format!("P{l:?}{p};"), Op::Vector(l, v) => format!("V{l:?}{};", show_u(v)), Op::Commitment(l, k) => format!("C{l:?}{k};"), Op::Poly(l, k) => format!("U{l:?}{k};"), Op::Draw(l, n) => format!("D{l:?};").repeat(*n) } }
    s
}
fn histories(c: &Check) {
    let th = c.thorough(); let o = ops(th); let depth = 3;
    c.bound(&format!("all histories of up to {depth} transcript operations out of {} (names, scalars, points, vectors, commitments, polynomials, draws; equal and different labels and values), under two contexts", o.len()));
    let hs: Vec<Vec<usize>> = (0..=depth).flat_map(|n| tuples(o.len(), n).collect::<Vec<_>>()).collect();
    let out: std::sync::Mutex<Vec<(Vec<u8>, String)>> = Default::default();
    let chunk = hs.len().div_ceil(64);
    par(64, |k| { let mut mine = vec![]; for h in hs.iter().skip(k * chunk).take(chunk) { for l in [&b"x"[..], b"y"] {
        let ops: Vec<&Op> = h.iter().map(|i| &o[*i]).collect();
        let r = guarded(|| { let mut t = Transcript::new(if l == b"x" { b"x" } else { b"y" }); for x in &ops { apply(x, &mut t) } un(&t.challenge_scalar(b"end")).le().to_vec() });
        c.states(1); c.steps(h.len() as u64 + 1); c.traces(1);
        match r { Ok(v) => mine.push((v, format!("{l:?}|{}", meaning(&ops)))), Err(e) => c.fail("transcript-fails", json!({"history": meaning(&ops), "got": e})) }
    } } out.lock().unwrap().extend(mine) });
    let (mut by_v, mut by_m): (BTreeMap<Vec<u8>, String>, BTreeMap<String, Vec<u8>>) = Default::default();
    for (v, m) in out.into_inner().unwrap() {
        if let Some(x) = by_v.get(&v) { if *x != m { c.fail("same-challenge", json!({"one": x, "other": m})) } } else { by_v.insert(v.clone(), m.clone()); }
        if let Some(x) = by_m.get(&m) { c.ensure(*x == v, "different-challenge-for-the-same-history", || json!(m)); } else { by_m.insert(m, v); }
    }
    // what is drawn is a function of the history, not constant, and differs from draw to draw
    let mut t = Transcript::new(b"x"); let v = uns(&t.challenge_vector(b"v", 8)); c.steps(8);
    c.ensure((0..8).all(|i| (0..i).all(|j| v[i] != v[j])), "repeated-draws", || json!(show_u(&v)));
}
/// Long messages: every part of a vector or commitment counts, and a long draw is so many draws.
fn long(c: &Check) {
    let ll = lengths(if c.thorough() { 4097 } else { 1025 });
    c.bound(&format!("vectors, commitments and draws of {} lengths up to {}: element after element altered (all of them up to 70 elements, beyond that the first, the middle and the last), one element more", ll.len(), ll.last().unwrap()));
    let out: std::sync::Mutex<Vec<(Vec<u8>, String)>> = Default::default();
    let (g, id) = (enc_pt(&gen()), enc_pt(&None));
    par(ll.len(), |q| { let n = ll[ll.len() - 1 - q]; let v = generic(n, 3); let mut mine = vec![];
        let spots: Vec<usize> = if n <= 70 { (0..n).collect() } else { vec![0, n / 2, n - 1] };
        let mut end = |what: String, f: &dyn Fn(&mut Transcript)| { c.states(1); c.steps(1); c.traces(1);
            match guarded(|| { let mut t = Transcript::new(b"x"); f(&mut t); un(&t.challenge_scalar(b"end")).le().to_vec() }) { Ok(x) => mine.push((x, what)), Err(e) => c.fail("transcript-fails", json!({"history": what, "got": e})) } };
        end(format!("vector of {n}"), &|t| scs(&v)[..].append_to_transcript(b"a", t));
        let com = |k: Option<usize>, t: &mut Transcript| { let pts: Vec<&Value> = (0..n).map(|i| if Some(i) == k { &id } else { &g }).collect(); from::<PolyCommitment>(&json!({"C": pts})).unwrap().append_to_transcript(b"a", t) };
        end(format!("commitment of {n}"), &|t| com(None, t));
        for i in spots { let mut w = v.clone(); w[i] = U::from(5); end(format!("vector of {n}, other {i}"), &|t| scs(&w)[..].append_to_transcript(b"a", t)); end(format!("commitment of {n}, other {i}"), &|t| com(Some(i), t)) }
        if n > 0 {
            let r = guarded(|| { let (mut t, mut u) = (Transcript::new(b"x"), Transcript::new(b"x")); let a = uns(&t.challenge_vector(b"v", n)); let b: Vec<U> = (0..n).map(|_| un(&u.challenge_scalar(b"v"))).collect(); (a.clone(), a == b && un(&t.challenge_scalar(b"e")) == un(&u.challenge_scalar(b"e"))) });
            c.states(1); c.steps(n as u64);
            match r { Err(e) => c.fail("transcript-fails", json!({"draws": n, "got": e})), Ok((a, same)) => { let mut s: Vec<_> = a.iter().map(|x| x.le()).collect(); s.sort(); s.dedup(); c.ensure(same && s.len() == n && a.len() == n, "long-draw", || json!({"draws": n, "different": s.len()})); } }
        }
        out.lock().unwrap().extend(mine) });
    let mut by: BTreeMap<Vec<u8>, String> = Default::default();
    for (v, m) in out.into_inner().unwrap() { if let Some(o) = by.insert(v, m.clone()) { c.fail("same-challenge", json!({"one": o, "other": m})) } }
}
// ---- whole protocols
fn run_logged(f: impl FnOnce(&mut Transcript) -> Result<(), String>) -> (Vec<(Vec<u8>, Vec<u8>)>, Result<(), String>) {
    hook::start();
    let mut t = tr(b"ctx").watch();
    let r = guarded(|| f(&mut t)).and_then(|x| x);
    let (log, _) = hook::stop();
    (log.into_iter().filter_map(|e| if let Ev::Challenge(l, b) = e { Some((l, b)) } else { None }).collect(), r)
}
/// The first challenge that differs; `None`: all that both runs reached agree.
fn first_change(a: &[(Vec<u8>, Vec<u8>)], b: &[(Vec<u8>, Vec<u8>)]) -> Option<usize> { (0..a.len().min(b.len())).find(|i| a[*i].1 != b[*i].1) }
fn full(k: sys::Kind, s: (usize, usize, usize, usize)) -> Option<(sys::Env, Vec<U>, Vec<U>)> { let (sp, v, i) = spec::satisfied(s.0, s.1, s.2, s.3, 1); Some((sys::Env::new(k, &sp).ok()?, v, i)) }
fn env_subject(k: sys::Kind, s: (usize, usize, usize, usize)) -> Option<Subject> {
    let (env, v, i) = full(k, s)?; subject(format!("{k:?}-{}x{}x{}", s.0, s.1, s.2), k, env, v, i)
}
fn subject(name: String, k: sys::Kind, env: sys::Env, v: Vec<U>, i: Vec<U>) -> Option<Subject> {
    getrandom::set_seed(1);
    let p = env.prove(&v, &i, &mut tr(b"ctx")).ok()?;
    let inputs: Vec<Value> = i.iter().map(from_u).collect();
    Some(Subject { name, honest: json!({"inputs": inputs, "proof": p.json()}), donors: vec![], solve: vec![],
        verify: Box::new(move |v, t| { let p = sys::Proof::from_json(k, &v["proof"])?; let i: Vec<U> = v["inputs"].as_array().unwrap().iter().map(to_u).collect(); env.verify(&p, &i, t) }) })
}
/// A small preprocessing system all of whose coefficients are generic.
fn generic_spec() -> (spec::Spec, Vec<U>, Vec<U>) {
    let f = fp(); let g = generic(12, 21); let v = generic(1, 22); let mut s = spec::Spec { nc: 2, nv: 1, ni: 0, m: Default::default() };
    for r in 0..2 { let x = &g[6 * r..]; for k in 0..2 { for col in 0..2 { s.m[k].push((r, col, x[2 * k + col])) } } let at = |k: usize| f.add(&f.mul(&x[2 * k], &v[0]), &x[2 * k + 1]); let want = f.mul(&at(0), &at(1)); s.m[2].push((r, 0, x[4])); s.m[2].push((r, 1, f.sub(&want, &f.mul(&x[4], &v[0])))) }
    assert!(s.sat(&v, &[])); (s, v, vec![])
}
fn golden() -> BTreeMap<String, BTreeMap<String, i64>> { serde_json::from_str(include_str!("../golden/s09.json")).unwrap() }
fn leaf_paths(v: &Value) -> Vec<(Path, Kind)> { walk(v).into_iter().filter(|n| matches!(n.kind, Kind::Scalar | Kind::Point)).map(|n| (n.path, n.kind)).collect() }
/// Per element of proof and statement: the first challenge that changes with it.
fn dependencies(s: &Subject) -> Result<(usize, BTreeMap<String, (Option<usize>, usize)>), String> {
    let (base, r) = run_logged(|t| (s.verify)(&s.honest, t));
    r?;
    let ls = leaf_paths(&s.honest); let out: std::sync::Mutex<BTreeMap<String, (Option<usize>, usize)>> = Default::default();
    par(ls.len(), |i| { let (p, k) = &ls[i]; let cur = get(&s.honest, p).unwrap(); let f = fp();
        let mut v = s.honest.clone();
        *get_mut(&mut v, p) = if *k == Kind::Scalar { from_u(&f.add(&to_u(cur), &big())) } else { let q = fq(); enc_pt(&ec::radd(&q, &dec_pt(cur, &q), &gen())) };
        let (log, _) = run_logged(|t| (s.verify)(&v, t));
        out.lock().unwrap().insert(show_path(p), (first_change(&base, &log), log.len()));
    });
    Ok((base.len(), out.into_inner().unwrap()))
}
/// Elements whose alteration the verifier notices before its next challenge: how many challenges were drawn when
/// the element itself was put on the transcript (generic values only, so that equal bytes mean the element).
fn absorbed(s: &Subject) -> BTreeMap<String, i64> {
    hook::start(); let mut t = tr(b"ctx").watch(); let _ = guarded(|| (s.verify)(&s.honest, &mut t)); let (log, _) = hook::stop();
    let mut seen: BTreeMap<Vec<u8>, i64> = BTreeMap::new(); let mut n = 0;
    for e in &log { match e { Ev::Challenge(..) => n += 1, Ev::Absorb(_, m) => { seen.entry(m.clone()).or_insert(n); } _ => {} } }
    let hex = |s: &str| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>();
    let mut out = BTreeMap::new();
    for (p, k) in leaf_paths(&s.honest) { let v = get(&s.honest, &p).unwrap(); let b = if k == Kind::Scalar { if to_u(v).bits() < 128 { continue } to_u(v).le().to_vec() } else { hex(v.as_str().unwrap()) }; if let Some(n) = seen.get(&b) { out.insert(show_path(&p), *n); } }
    out
}
fn subjects(th: bool) -> Vec<Subject> {
    let mut v = s07::subjects(th);
    for n in 1..=if th { 3 } else { 2 } { for k in [3, 4] { v.push(s08::zk_subject(n, k)) } }
    for s in [(2, 1, 0, 1), (4, 4, 1, 2), (3, 9, 2, 2)] { v.extend(env_subject(sys::Kind::Nizk, s)) }
    if th { for s in [(9, 3, 1, 1), (17, 17, 5, 3)] { v.extend(env_subject(sys::Kind::Nizk, s)) } }
    v.extend(env_subject(sys::Kind::Snark, (2, 1, 0, 1)));
    { let (s, w, i) = generic_spec(); v.extend(sys::Env::new(sys::Kind::Snark, &s).ok().and_then(|e| subject("Snark-generic".into(), sys::Kind::Snark, e, w, i))) }
    if th { for s in [(2, 2, 1, 1), (4, 4, 1, 2)] { v.extend(env_subject(sys::Kind::Snark, s)) } }
    v
}
fn binding(c: &Check) {
    let th = c.thorough(); let g = golden();
    let record = std::env::var("S09_RECORD").is_ok(); let mut rec: BTreeMap<String, BTreeMap<String, i64>> = BTreeMap::new();
    c.bound("every element of every sub-proof, of preprocessing-free and preprocessing proofs of several shapes and of their statements: the first challenge that depends on it comes no later than in the reviewed reference table (elements only checked algebraically afterwards are exempt there)");
    let subs = subjects(th || record);
    let want = 16 + if th { 10 } else { 0 };
    c.ensure(subs.len() >= want, "setup", || json!({"subjects": subs.len()}));
    for s in &subs {
        let (n, deps) = match dependencies(s) { Ok(x) => x, Err(e) => { c.fail("honest-rejected", json!({"subject": s.name, "got": e})); continue } };
        c.states(1); c.traces(1);
        let abs = absorbed(s);
        if record { rec.insert(format!("absorbed:{}", s.name), deps.keys().filter_map(|k| Some((k.clone(), *abs.get(k)?))).collect()); rec.insert(s.name.clone(), deps.iter().map(|(k, v)| (k.clone(), v.0.map_or(-1, |x| x as i64))).collect()); continue }
        let Some(gs) = g.get(&s.name) else { c.part("no-reference", 1); continue };
        for (path, (got, reached)) in &deps {
            c.states(1); c.steps(1); c.traces(1);
            let Some(w) = gs.get(path) else { c.part("element-without-reference", 1); continue };
            // what the reviewed verifier puts on the transcript itself is there, and no later
            let direct = g.get(&format!("absorbed:{}", s.name)).and_then(|x| x.get(path));
            if let Some(w) = direct {
                let plain = get(&s.honest, &path.split('.').map(|x| x.parse().map(Step::I).unwrap_or(Step::K(x.into()))).collect::<Vec<_>>()).map_or(true, |v| is_scalar(v) && to_u(v).bits() < 128);
                c.part("elements-put-on-the-transcript", 1);
                c.ensure(plain || abs.get(path).is_some_and(|x| x <= w), &format!("element-not-on-transcript-{}", s.name.split('-').next().unwrap()), || json!({"subject": s.name, "element": path, "must precede challenge": w, "found": abs.get(path)}));
            }
            if *w < 0 { if direct.is_none() { c.part("final-responses", 1) } continue }
            let w = *w as usize;
            let late = match got { Some(x) => *x > w, None => *reached > w };
            c.part("bound-elements", 1);
            let cl = { let mut p: Vec<&str> = path.split('.').collect(); for x in p.iter_mut() { if x.parse::<usize>().is_ok() { *x = "_" } } p.join(".") };
            c.ensure(!late, &format!("challenge-not-bound-{}-{cl}", s.name.split('-').next().unwrap()), || json!({"subject": s.name, "element": path, "must change challenge": w, "of": n, "first changed": got}));
        }
    }
    if record { std::fs::write("mc/spartan/golden/s09.json", serde_json::to_string_pretty(&rec).unwrap()).unwrap(); println!("recorded"); }
}
/// Statements of whole proofs: everything the verifier knows enters the very first challenge.
fn statements(c: &Check) {
    let th = c.thorough(); let f = fp();
    c.bound("whole proofs: every coefficient and position of the instance, sizes, inputs (values, order, number) and context change the first challenge; prover and verifier draw the same challenges");
    let shapes: Vec<(usize, usize, usize, usize)> = if th { vec![(2, 1, 0, 1), (2, 2, 1, 1), (3, 3, 2, 2), (4, 4, 1, 2), (5, 2, 0, 3), (1, 1, 1, 4), (17, 9, 3, 2)] } else { vec![(2, 2, 1, 1), (3, 3, 2, 2), (1, 1, 1, 4)] };
    for k in [sys::Kind::Nizk, sys::Kind::Snark] { for sh in &shapes {
        if k == sys::Kind::Snark && sh.0 > 5 { continue }
        let (sp, v, i) = spec::satisfied(sh.0, sh.1, sh.2, sh.3, 1);
        let Ok(env) = sys::Env::new(k, &sp) else { c.fail("setup", sp.show()); continue };
        getrandom::set_seed(1);
        let mut proof = None;
        let (pl, _) = run_logged(|t| { proof = Some(env.prove(&v, &i, t)?); Ok(()) });
        let Some(p) = proof else { c.fail("prover-fails", sp.show()); continue };
        let (vl, r) = run_logged(|t| env.verify(&p, &i, t));
        c.states(1); c.steps(pl.len() as u64); c.traces(2);
        c.ensure(r.is_ok() && pl == vl, "prover-and-verifier-challenges", || json!({"kind": format!("{k:?}"), "spec": sp.show(), "prover": pl.len(), "verifier": vl.len()}));
        c.ensure(vl.iter().enumerate().all(|(a, x)| vl[..a].iter().all(|y| y.1 != x.1)), "repeated-challenge", || json!({"kind": format!("{k:?}"), "spec": sp.show()}));
        let first = |e: &sys::Env, i: &[U], p: &sys::Proof| run_logged(|t| e.verify(p, i, t)).0.first().map(|x| x.1.clone());
        let base = first(&env, &i, &p);
        let differs = |what: &str, x: Option<Vec<u8>>, d: Value| { c.states(1); c.steps(1); c.traces(1); c.ensure(x.is_none() || x != base, &format!("first-challenge-{what}-{k:?}"), || json!({"spec": sp.show(), "change": d})); };
        for j in 0..i.len() { for x in [f.add(&i[j], &U::ONE), U::ZERO, f.neg(&i[j])] { if x == i[j] { continue } let mut w = i.clone(); w[j] = x; differs("inputs", first(&env, &w, &p), json!(j)) } }
        if i.len() == 2 && i[0] != i[1] { differs("inputs", first(&env, &[i[1], i[0]], &p), json!("order")) }
        let mut inst: Vec<(String, spec::Spec)> = vec![];
        for m in 0..3 { for e in 0..sp.m[m].len() { let (r, col, v) = sp.m[m][e]; for (w, n) in [("coefficient", (r, col, f.add(&v, &U::ONE))), ("row", ((r + 1) % sp.nc, col, v)), ("column", (r, (col + 1) % (sp.nv + 1 + sp.ni), v))] { let mut t = sp.clone(); t.m[m][e] = n; inst.push((format!("matrix {m} entry {e} {w}"), t)) } } }
        for (a, b) in [(0, 1), (1, 2), (0, 2)] { let mut t = sp.clone(); t.m.swap(a, b); inst.push((format!("matrices {a}, {b}"), t)) }
        { let mut t = sp.clone(); t.nc = sp.nc.max(2).next_power_of_two() + 1; inst.push(("constraints".into(), t)) }
        { let mut t = sp.clone(); let nv = sp.nvp() * 2; for m in t.m.iter_mut() { for e in m.iter_mut() { if e.1 >= sp.nv { e.1 += nv - sp.nv } } } t.nv = nv; inst.push(("variables".into(), t)) }
        par(inst.len(), |q| { let (w, t) = &inst[q]; if t.meaning() == sp.meaning() { return } let Ok(e) = sys::Env::new(k, t) else { return }; differs("instance", first(&e, &i, &p), json!(w)) });
        { let mut t = sp.clone(); t.ni += 1; if let Ok(e) = sys::Env::new(k, &t) { let mut w = i.clone(); w.push(U::ZERO); differs("instance", first(&e, &w, &p), json!("inputs")) } }
        let other = run_logged_ctx(b"cty", |t| env.verify(&p, &i, t)); differs("context", other, json!("label"));
    } }
}
fn run_logged_ctx(l: &'static [u8], f: impl FnOnce(&mut Transcript) -> Result<(), String>) -> Option<Vec<u8>> { hook::start(); let mut t = Transcript::new(l).watch(); let _ = guarded(|| f(&mut t)); hook::stop().0.into_iter().find_map(|e| if let Ev::Challenge(_, b) = e { Some(b) } else { None }) }
/// The commitment to a preprocessed instance stands for all of it: sizes and every committed polynomial.
fn commitments(c: &Check) {
    let th = c.thorough(); let shapes: Vec<(usize, usize, usize, usize)> = if th { vec![(2, 2, 0, 1), (2, 4, 1, 3), (4, 2, 1, 5), (8, 8, 3, 9), (16, 4, 2, 20)] } else { vec![(2, 2, 0, 1), (4, 4, 1, 3)] };
    c.bound(&format!("commitments to {} preprocessed instances: every number (one more, twice, half, another size), every point and every list of them changed alone, and exchanged with each other, must change the next challenge", shapes.len()));
    par(shapes.len(), |n| { let (nc, nv, ni, nz) = shapes[n]; let what = |e: Value| json!({"shape": [nc, nv, ni, nz], "change": e});
        let r = guarded(|| { let g = generic(3 * nz, 31); let m = |k: usize| (0..nz).map(|i| ((i * 3 + k) % nc, (i * 5 + 2 * k) % (nv + 1 + ni), sc(&g[k * nz + i]))).collect::<Vec<_>>(); let inst = R1CSInstance::new(nc, nv, ni, &m(0), &m(1), &m(2)); serde_json::to_value(&inst.commit(&R1CSCommitmentGens::new(b"comm", nc, nv, ni, nz)).0).unwrap() });
        let v = match r { Ok(v) => v, Err(e) => { c.fail("commitment-fails", what(json!(e))); return } };
        let next = |v: &Value| -> Option<U> { guarded(|| from::<R1CSCommitment>(v).ok().map(|x| { let mut t = Transcript::new(b"x"); x.append_to_transcript(b"comm", &mut t); un(&t.challenge_scalar(b"end")) })).ok().flatten() };
        let Some(base) = next(&v) else { c.fail("commitment-fails", what(json!("unreadable"))); return };
        let mut alts: Vec<(String, Value)> = vec![]; let q = fq(); let mut nums = vec![];
        for x in walk(&v) { let cur = get(&v, &x.path).unwrap().clone(); let name = show_path(&x.path); let mut put = |y: Value| { if y != cur { let mut w = v.clone(); *get_mut(&mut w, &x.path) = y; alts.push((name.clone(), w)) } };
            match x.kind { Kind::Point => { let p = dec_pt(&cur, &q); for y in [None, ec::rneg(&q, &p), ec::radd(&q, &p, &gen())] { put(enc_pt(&y)) } }
                Kind::List => { let l = cur.as_array().unwrap().clone(); if l.len() > 1 { put(json!(l[1..])); put(json!(l[..l.len() - 1])); let mut r = l.clone(); r.reverse(); put(json!(r)) } let mut d = l.clone(); d.push(enc_pt(&gen())); put(json!(d)) }
                Kind::Other => if let Some(k) = cur.as_u64() { nums.push((x.path.clone(), k)); for y in [k + 1, 2 * k, k / 2, 0, 1, 7, k + 256, k + (1 << 32)] { put(json!(y)) } }
                _ => {} } }
        for (i, a) in nums.iter().enumerate() { for b in &nums[..i] { if a.1 != b.1 { let mut w = v.clone(); *get_mut(&mut w, &a.0) = json!(b.1); *get_mut(&mut w, &b.0) = json!(a.1); alts.push((format!("{} and {} exchanged", show_path(&a.0), show_path(&b.0)), w)) } } }
        c.ensure(nums.len() >= 6, "commitment-form", || what(v.clone()));
        let mut seen: BTreeMap<Vec<u8>, (String, Value)> = BTreeMap::new(); seen.insert(base.le().to_vec(), ("as it is".into(), v.clone()));
        for (name, w) in alts { c.states(1); c.steps(1); c.traces(1); let Some(x) = next(&w) else { continue }; if let Some((o, ov)) = seen.insert(x.le().to_vec(), (name.clone(), w.clone())) { if ov != w { c.fail(&format!("commitment-{}", name.split('.').filter(|x| x.parse::<u64>().is_err()).collect::<Vec<_>>().join(".").replace(' ', "-")), what(json!([o, name]))) } } } });
}
pub fn s09(c: &Check) {
    histories(c); long(c); commitments(c); statements(c); binding(c);
    let _ = Scalar::one();
    c.sample(json!({"history": meaning(&ops(false).iter().take(3).collect::<Vec<_>>())}));
}
