//! S10: where the prover's randomness comes from and what it covers.
use crate::{conv::*, s07, spec::satisfied, sys::{Env, Kind as Sys, Proof}};
use libspartan::verif::random::RandomTape;
use mccore::{ec::*, tamper::*, *};
use std::collections::{BTreeMap, BTreeSet};
#[derive(Clone, Copy, Debug)]
enum Draw { One(&'static [u8]), Many(&'static [u8], usize) }
fn play(t: &mut RandomTape, h: &[Draw]) -> Vec<U> { h.iter().flat_map(|d| match d { Draw::One(l) => vec![un(&t.random_scalar(l))], Draw::Many(l, n) => { let v = t.random_vector(l, *n); assert_eq!(v.len(), *n, "length of a random vector"); uns(&v) } }).collect() }
fn tapes(c: &Check) {
    let depth = if c.thorough() { 5 } else { 4 };
    let ops = [Draw::One(b"a"), Draw::One(b"b"), Draw::Many(b"a", 0), Draw::Many(b"a", 1), Draw::Many(b"a", 3), Draw::Many(b"b", 2)];
    c.bound(&format!("randomness tape: all sequences of up to {depth} draws out of {} kinds, on four entropy streams and under two names; every bit of the entropy read", ops.len()));
    let hs: Vec<Vec<Draw>> = (0..=depth).flat_map(|n| tuples(ops.len(), n).map(|t| t.iter().map(|i| ops[*i]).collect()).collect::<Vec<_>>()).collect();
    par(hs.len(), |i| { let h = &hs[i]; let what = |g: &str| json!({"draws": format!("{h:?}"), "got": g});
        let run = |seed: u64, mode: u8, name: &'static [u8]| guarded(|| { getrandom::set_seed(seed); getrandom::set_mode(mode); let mut t = RandomTape::new(name); play(&mut t, h) });
        let all: Vec<_> = [(1, 0, &b"proof"[..]), (2, 0, b"proof"), (1, 1, b"proof"), (1, 2, b"proof"), (1, 0, b"other")].into_iter().map(|(s, m, n)| run(s, m, if n == b"proof" { b"proof" } else { b"other" })).collect();
        c.states(5); c.steps(5 * h.len() as u64); c.traces(1);
        if let Some(Err(e)) = all.iter().find(|x| x.is_err()) { c.fail("tape-fails", what(e)); return }
        let all: Vec<Vec<U>> = all.into_iter().map(|x| x.unwrap()).collect();
        c.ensure(Ok(&all[0]) == run(1, 0, b"proof").as_ref(), "tape-not-reproducible", || what("two runs"));
        let mut seen = BTreeSet::new();
        c.ensure(all.iter().flatten().all(|x| seen.insert(x.hex())), "draws-coincide", || what("equal draws within or across tapes"));
        c.ensure(all.iter().flatten().all(|x| x.bits() > 128), "small-draw", || what("a draw below 2^128"));
    });
    // long vectors of draws
    let ll = lengths(if c.thorough() { 16385 } else { 4097 }); c.bound(&format!("long vectors of draws, {} lengths up to {}", ll.len(), ll.last().unwrap()));
    par(ll.len(), |q| { let n = ll[ll.len() - 1 - q]; let g = guarded(|| { getrandom::set_seed(4); play(&mut RandomTape::new(b"proof"), &[Draw::Many(b"a", n), Draw::One(b"a"), Draw::Many(b"b", 3)]) }); c.states(1); c.steps(n as u64); c.traces(1);
        match g { Err(e) => c.fail("tape-fails", json!({"draws": n, "got": e})), Ok(v) => { let mut s: Vec<_> = v.iter().map(|x| x.le()).collect(); s.sort(); s.dedup(); c.ensure(s.len() == n + 4 && v.iter().all(|x| x.bits() > 128), "long-draws-coincide", || json!({"draws": n, "different": s.len()})); } } });
    // two tapes opened one after the other
    getrandom::set_seed(3); let v: Vec<_> = (0..8).map(|_| play(&mut RandomTape::new(b"proof"), &ops[..2])).collect(); let mut seen = BTreeSet::new();
    c.ensure(v.iter().flatten().all(|x| seen.insert(x.hex())), "successive-tapes-coincide", || json!(8));
    // every bit of the entropy that is read matters, and enough of it is read
    let read = { getrandom::set_seed(9); let _ = RandomTape::new(b"proof"); getrandom::bytes_drawn() as usize };
    c.ensure(read >= 32, "too-little-entropy", || json!({"bytes": read}));
    let base = { getrandom::set_seed(9); getrandom::set_prefix(vec![0x5a; read]); play(&mut RandomTape::new(b"proof"), &ops[..1])[0] };
    for bit in 0..read * 8 { let mut e = vec![0x5a; read]; e[bit / 8] ^= 1 << (bit % 8); getrandom::set_seed(9); getrandom::set_prefix(e);
        c.states(1); c.steps(1);
        let x = play(&mut RandomTape::new(b"proof"), &ops[..1])[0];
        c.ensure(x != base, "entropy-bit-ignored", || json!({"bit": bit})); }
}
/// Dimension of the affine span of the vectors.
fn rank(mut m: Vec<Vec<U>>) -> usize {
    let f = fp(); let base = m.pop().unwrap();
    for r in &mut m { for (x, b) in r.iter_mut().zip(&base) { *x = f.sub(x, b) } }
    let mut k = 0;
    for col in 0..base.len() {
        let Some(p) = (k..m.len()).find(|i| !m[*i][col].is_zero()) else { continue };
        m.swap(k, p); let inv = f.inv(&m[k][col]).unwrap(); let row: Vec<U> = m[k].iter().map(|x| f.mul(x, &inv)).collect();
        for r in m.iter_mut().skip(k + 1) { let a = r[col]; if !a.is_zero() { for (x, y) in r.iter_mut().zip(&row) { *x = f.sub(x, &f.mul(&a, y)) } } }
        k += 1;
    }
    k
}
/// Elements that no blinding enters: the public evaluation point, the public claims about the matrices, the
/// preprocessing proof's commitments to public polynomials and its plain sum-checks and hash evaluations.
fn public(path: &str) -> bool { !path.starts_with("r1cs_sat_proof") && !["bullet_reduction_proof", "delta", "beta", "z1", "z2"].iter().any(|x| path.contains(x)) }
fn proofs(c: &Check) {
    let th = c.thorough();
    c.bound("all proof elements of both proof systems over several instances and witnesses (all-zero, generic, near the modulus): under fixed challenges and under real ones, for several entropy streams and for proofs made one after another");
    let shapes: Vec<(usize, usize, usize, usize)> = if th { vec![(1, 1, 0, 1), (2, 1, 0, 2), (3, 2, 1, 1), (4, 4, 1, 2), (5, 9, 2, 4), (17, 5, 3, 3), (8, 20, 7, 2), (33, 33, 4, 1)] } else { vec![(2, 1, 0, 1), (4, 4, 1, 2), (5, 9, 2, 2)] };
    let jobs: Vec<_> = shapes.iter().flat_map(|s| (0..4).flat_map(move |a| [(Sys::Nizk, *s, a), (Sys::Snark, *s, a)])).filter(|j| th || j.0 == Sys::Nizk || (j.1.0 < 5 && j.2 < 2)).collect();
    par(jobs.len(), |n| {
        let (k, (nc, nv, ni, pat), asg) = jobs[n];
        let (s, vars, i) = satisfied(nc, nv, ni, pat, asg);
        let what = |got: Value| json!({"system": format!("{k:?}"), "spec": s.show(), "vars": format!("{vars:?}"), "got": got});
        let env = match Env::new(k, &s) { Ok(e) => e, Err(e) => { c.fail("setup-fails", what(json!(e))); return } };
        let go = |seed: Option<(u64, u8)>, forced: bool| -> Option<Value> { if let Some((s, m)) = seed { getrandom::set_seed(s); getrandom::set_mode(m) }
            c.states(1); c.steps(1);
            let f = || { let p = env.prove(&vars, &i, &mut tr(b"ctx"))?; env.verify(&p, &i, &mut tr(b"ctx"))?; Ok::<_, String>(Proof::json(&p)) };
            match if forced { unbound(f) } else { f() } { Ok(p) => { c.traces(1); Some(p) } Err(e) => { c.fail("honest-proof-fails", what(json!(e))); None } } };
        for forced in [true, false] {
            let seeds = [(11, 0), (12, 0), (13, 1), (14, 2)];
            let ps: Option<Vec<Value>> = seeds.iter().map(|s| go(Some(*s), forced)).collect(); let Some(mut ps) = ps else { return };
            c.ensure(go(Some(seeds[0]), forced).as_ref() == Some(&ps[0]), "same-entropy-different-proof", || what(json!({"forced": forced})));
            getrandom::set_seed(20); for _ in 0..2 { let Some(p) = go(None, forced) else { return }; ps.push(p) }
            let f = fq(); let pts: Vec<_> = leaves(&ps[0], Kind::Point).into_iter().filter(|p| !public(&show_path(p))).collect();
            let scs: Vec<_> = leaves(&ps[0], Kind::Scalar).into_iter().filter(|p| !public(&show_path(p))).collect();
            c.ensure(pts.len() > 15 && scs.len() > 10, "too-few-elements", || what(json!([pts.len(), scs.len()])));
            // every element differs from proof to proof, and no two elements of one proof are equal
            let (mut vals, mut diffs): (BTreeMap<String, String>, BTreeMap<String, String>) = Default::default();
            for p in pts.iter().chain(&scs) { let name = show_path(p);
                for (n, q) in ps.iter().enumerate() { c.states(1); let Some(v) = get(q, p) else { c.fail("proofs-of-different-form", what(json!(name))); return };
                    let id = format!("{name} of proof {n}");
                    if *v == json!("00") || (is_scalar(v) && to_u(v).is_zero()) { c.fail(&format!("trivial-element-{}", class(p)), what(json!(id))) }
                    if let Some(o) = vals.insert(v.to_string(), id.clone()) { c.fail(&format!("elements-coincide-{}", class(p)), what(json!([o, id, forced]))) } }
                // with equal challenges the difference is made of blindings alone: differently blinded elements have different ones
                if forced && is_point(get(&ps[0], p).unwrap()) { for n in 1..ps.len() {
                    let d = radd(&f, &dec_pt(get(&ps[n], p).unwrap(), &f), &rneg(&f, &dec_pt(get(&ps[0], p).unwrap(), &f)));
                    let key = d.map_or("identity".into(), |x| x.0.hex()); // up to sign
                    if let Some(o) = diffs.insert(key, format!("{name} of proof {n}")) { c.fail(&format!("shared-blinding-{}", class(p)), what(json!([o, name]))) } } }
            }
            // the responses are jointly masked: as many degrees of freedom as there are responses
            if forced && (th || nc < 5) {
                let need = scs.len() + 3; let mut rows = vec![];
                getrandom::set_seed(77);
                for _ in 0..need { getrandom::set_seed(1000 + rows.len() as u64); let p = match unbound(|| env.prove(&vars, &i, &mut tr(b"ctx"))) { Ok(p) => p.json(), Err(e) => { c.fail("honest-proof-fails", what(json!(e))); return } }; c.states(1); c.steps(1); rows.push(scs.iter().map(|x| to_u(get(&p, x).unwrap())).collect::<Vec<_>>()) }
                let r = rank(rows);
                c.ensure(r == scs.len(), "responses-not-jointly-masked", || what(json!({"responses": scs.len(), "degrees of freedom": r})));
                c.part("masked-responses", scs.len() as u64);
            }
        }
    });
}
/// The sub-proofs by themselves, with one witness and one set of commitment blinds: their responses are masked jointly,
/// by the entropy alone, and so is every announcement.
fn parts(c: &Check) {
    let th = c.thorough(); let g = generic(40, 1);
    type Make = Box<dyn Fn(u64) -> Value + Sync + Send>;
    let mut subs: Vec<(String, Make)> = vec![];
    for w in 0..3u64 { let at = move |i: usize| -> U { match w { 0 => U::ZERO, 1 => generic(40, 1)[i], _ => P.sub(&U::ONE).0 } };
        subs.push((format!("knowledge-{w}"), Box::new(move |s| s07::knowledge(&at(0), &at(1), s))));
        subs.push((format!("equality-{w}"), Box::new(move |s| s07::equality(&[at(0), at(1), at(0), at(2)], s))));
        subs.push((format!("product-{w}"), Box::new(move |s| s07::product(&[at(0), at(1), at(2), at(3), fp().mul(&at(0), &at(2)), at(4)], s)))); }
    for n in if th { vec![1, 2, 3, 4, 5, 8, 16, 33] } else { vec![1, 2, 3, 4, 8] } { for zero in [false, true] { let (x, a, g) = (if zero { vec![U::ZERO; n] } else { generic(n, 5) }, generic(n, 6), g.clone()); let y = dot(&x, &a);
        { let (x, a, g) = (x.clone(), a.clone(), g.clone()); subs.push((format!("dot-{n}-{zero}"), Box::new(move |s| s07::dotp((&x, &a, &y, &g[0], &g[1]), s)))) }
        if n.is_power_of_two() { subs.push((format!("dotlog-{n}-{zero}"), Box::new(move |s| s07::dotlog((&x, &a, &y, &g[0], &g[1]), s)))) } } }
    c.bound(&format!("{} sub-proofs (opening, equality, product, dot product of several lengths; zero, generic and largest witnesses) made again and again with one witness, one set of blinds, one set of challenges and new entropy: what the prover sends beyond the statement differs every time, and the responses span as many dimensions as there are", subs.len()));
    par(subs.len(), |n| { let (name, make) = &subs[n]; let what = |e: Value| json!({"sub-proof": name, "got": e}); let kind = name.split('-').next().unwrap();
        let run = |s: u64| -> Option<Value> { c.states(1); c.steps(1); c.traces(1); match unbound(|| guarded(|| make(s))) { Ok(v) => Some(v["proof"].clone()), Err(e) => { c.fail(&format!("{kind}-fails"), what(json!(e))); None } } };
        let Some(base) = run(100) else { return }; let scs = leaves(&base, Kind::Scalar); let pts = leaves(&base, Kind::Point);
        let need = scs.len() + 3; let mut rows = vec![]; let mut seen: BTreeMap<String, String> = BTreeMap::new();
        for k in 0..need { let Some(v) = run(200 + k as u64) else { return };
            for p in pts.iter().chain(&scs) { let Some(x) = get(&v, p) else { c.fail("proofs-of-different-form", what(json!(show_path(p)))); return }; let id = format!("{} of run {k}", show_path(p)); if let Some(o) = seen.insert(x.to_string(), id.clone()) { c.fail(&format!("{kind}-elements-coincide"), what(json!([o, id]))); return } }
            rows.push(scs.iter().map(|p| to_u(get(&v, p).unwrap())).collect::<Vec<_>>()) }
        let r = rank(rows); c.ensure(r == scs.len(), &format!("{kind}-responses-not-jointly-masked"), || what(json!({"responses": scs.len(), "degrees of freedom": r }))); c.part("masked-responses", scs.len() as u64);
    });
}
/// Every draw is used, and there are as many as the protocol needs: a draw counts if changing it alone changes the proof.
fn draws(c: &Check) {
    let th = c.thorough(); let record = std::env::var("S10_RECORD").is_ok();
    c.bound("every single draw of the randomness tape of proofs of several shapes, changed alone while everything else stays: which elements it reaches; the number of draws that reach the proof against the reviewed count");
    let golden: BTreeMap<String, (usize, usize)> = if record { Default::default() } else { serde_json::from_str(include_str!("../golden/s10.json")).unwrap() };
    let out: std::sync::Mutex<BTreeMap<String, (usize, usize)>> = Default::default();
    let shapes: Vec<(usize, usize, usize)> = if th || record { vec![(1, 1, 0), (2, 1, 0), (3, 2, 1), (4, 4, 1), (5, 9, 2), (17, 5, 3), (8, 20, 7)] } else { vec![(2, 1, 0), (4, 4, 1), (5, 9, 2)] };
    let jobs: Vec<_> = shapes.iter().flat_map(|s| [(Sys::Nizk, *s), (Sys::Snark, *s)]).filter(|j| th || record || j.0 == Sys::Nizk || j.1.0 < 5).collect();
    for (k, (nc, nv, ni)) in jobs {
        let (s, vars, i) = satisfied(nc, nv, ni, 1, 1); let name = format!("{k:?}:{nc},{nv},{ni}");
        let what = |got: Value| json!({"proof": name, "got": got});
        let env = match Env::new(k, &s) { Ok(e) => e, Err(e) => { c.fail("setup-fails", what(json!(e))); continue } };
        let go = |n: Option<u64>| unbound(|| { getrandom::set_seed(5); merlin::hook::nudge(n); let p = env.prove(&vars, &i, &mut tr(b"ctx").watch()); let d = merlin::hook::drawn(); merlin::hook::nudge(None); p.map(|p| (p.json(), d)) });
        // the draws that come from the entropy: their values under another entropy are others
        let values = |seed: u64| unbound(|| { getrandom::set_seed(seed); merlin::hook::start(); let _ = env.prove(&vars, &i, &mut tr(b"ctx").watch()); merlin::hook::stop().1.into_iter().filter_map(|e| if let merlin::Ev::Challenge(_, b) = e { Some(b) } else { None }).collect::<Vec<_>>() });
        let (va, vb) = (values(5), values(6)); c.states(2);
        let fresh = |d: usize| va.get(d).is_some_and(|x| vb.get(d).is_some_and(|y| x != y));
        let (base, n) = match go(None) { Ok(x) => x, Err(e) => { c.fail("honest-proof-fails", what(json!(e))); continue } };
        let mut ls: Vec<Path> = leaves(&base, Kind::Point); ls.extend(leaves(&base, Kind::Scalar)); ls.retain(|p| !public(&show_path(p)));
        let reach: std::sync::Mutex<Vec<Vec<usize>>> = Default::default();
        par(n as usize, |d| { if !fresh(d) { return } c.states(1); c.steps(1); c.traces(1);
            match go(Some(d as u64)) { Err(e) => c.fail("honest-proof-fails", what(json!(e))),
                Ok((p, _)) => reach.lock().unwrap().push(ls.iter().enumerate().filter(|(_, l)| get(&p, l) != get(&base, l)).map(|x| x.0).collect()) } });
        let reach = reach.into_inner().unwrap();
        let used = reach.iter().filter(|r| !r.is_empty()).count();
        let kinds = reach.iter().filter(|r| !r.is_empty()).collect::<BTreeSet<_>>().len();
        let (mut per, mut none) = (vec![0; ls.len()], vec![]);
        for r in &reach { for x in r { per[*x] += 1 } }
        for (x, l) in per.iter().zip(&ls) { if *x == 0 { none.push(show_path(l)) } }
        c.ensure(none.is_empty(), "element-without-randomness", || what(json!(none)));
        if record { println!("{name}: {} draws, {used} used, {kinds} different reaches, {} elements", n, ls.len()); out.lock().unwrap().insert(name.clone(), (used, kinds)); continue }
        let Some((w, wk)) = golden.get(&name) else { c.part("no-reference", 1); continue };
        c.part("draws-that-reach-the-proof", used as u64);
        c.ensure(used >= *w, "fewer-blindings-than-needed", || what(json!({"draws that matter": used, "needed": w, "draws": n})));
        c.ensure(kinds >= *wk, "blindings-merged", || what(json!({"different": kinds, "needed": wk})));
    }
    if record { std::fs::write(format!("{}/mc/spartan/golden/s10.json", std::env::var("VERIF_ROOT").unwrap()), serde_json::to_string_pretty(&*out.lock().unwrap()).unwrap()).unwrap() }
}
pub fn s10(c: &Check) { tapes(c); parts(c); proofs(c); draws(c); }
