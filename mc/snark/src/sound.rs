//! S04, S06: nothing but the honest proof of a true statement is accepted.
use crate::{spec::*, sys::*};
use mccore::{tamper::{class, mutations, show_path, Mut}, *};
fn subject(c: &Check, k: Kind, s: &Spec, vars: &[U], ins: &[U], swaps: bool, donors: bool, forced: bool) {
    // with forced challenges only the verifier's own equations speak, not that a changed message changes all later challenges
    let mk = || if forced { tr(b"ctx").force(77) } else { tr(b"ctx") }; let tag = if forced { "forced-" } else { "" };
    let env = match Env::new(k, s) { Ok(e) => e, Err(e) => { c.fail("setup", json!({"spec": s.show(), "got": e})); return } };
    let mut ps = vec![];
    for seed in 1..=(if donors { 2 } else { 1 }) { getrandom::set_seed(seed); match env.prove(vars, ins, &mut mk()) { Ok(p) => ps.push(p.json()), Err(e) => { c.fail("prover-fails", json!({"spec": s.show(), "got": e})); return } } }
    let honest = &ps[0];
    let ok = Proof::from_json(k, honest).and_then(|p| env.verify(&p, ins, &mut mk()));
    c.states(1); c.steps(1); c.traces(1);
    if !c.ensure(ok.is_ok(), "honest-rejected", || json!({"spec": s.show(), "got": format!("{ok:?}")})) { return }
    let all = mutations(honest, &ps[1..], swaps);
    let muts: Vec<&Mut> = all.iter().collect();
    par(muts.len(), |i| {
        let m = &muts[i];
        c.states(1);
        let Ok(p) = Proof::from_json(k, &m.to) else { c.part("unreadable", 1); return };
        if p.json() == *honest { c.part("same-proof", 1); return }
        let r = env.verify(&p, ins, &mut mk());
        c.steps(1); c.traces(1);
        c.part(match &r { Ok(_) => "accepted", Err(e) if e.starts_with("InternalError") || e.starts_with("DecompressionError") => "rejected-by-error", Err(_) => "rejected-by-abort" }, 1);
        c.ensure(r.is_err(), &format!("{tag}accepted-{}-{}", m.what, class(&m.path)), || json!({"spec": s.show(), "path": show_path(&m.path), "altered_proof": m.to}));
    });
    // raw bytes: cutting off or appending
    let bin = Proof::from_json(k, honest).unwrap().bin();
    for l in [0, 1, 8, 9, 40, bin.len() / 2, bin.len() - 1, bin.len() - 32] {
        c.states(1); c.steps(1);
        if let Ok(p) = Proof::from_bin(k, &bin[..l]) { let r = env.verify(&p, ins, &mut mk()); c.ensure(r.is_err(), "truncated-accepted", || json!({"spec": s.show(), "length": l})); }
    }
}
/// A valid proof against every other statement of a neighbourhood.
fn statements(c: &Check, k: Kind, s: &Spec, vars: &[U], ins: &[U]) {
    let f = fp();
    let Ok(env) = Env::new(k, s) else { c.fail("setup", s.show()); return };
    getrandom::set_seed(3);
    let Ok(p) = env.prove(vars, ins, &mut tr(b"ctx")) else { c.fail("prover-fails", s.show()); return };
    let reject = |what: &str, r: Result<(), String>, d: Value| { c.states(1); c.steps(1); c.traces(1); c.ensure(r.is_err(), what, || json!({"spec": s.show(), "change": d})); };
    // inputs
    let mut others: Vec<Vec<U>> = vec![];
    for j in 0..ins.len() { for v in [f.add(&ins[j], &U::ONE), f.neg(&ins[j]), U::ZERO, U::ONE, f.add(&ins[j], &U::ONE.shl(128).0), vars.first().copied().unwrap_or(U::ONE)] { let mut i = ins.to_vec(); i[j] = v; others.push(i) } }
    for a in 0..ins.len() { for b in 0..a { let mut i = ins.to_vec(); i.swap(a, b); others.push(i) } }
    for x in [vec![], vec![U::ZERO], vec![U::ONE]] { let mut i = ins.to_vec(); i.extend(x.clone()); others.push(i); let mut i = x; i.extend(ins); others.push(i) }
    if !ins.is_empty() { others.push(ins[1..].to_vec()); others.push(ins[..ins.len() - 1].to_vec()); others.push(vec![U::ZERO; ins.len()]) }
    for o in others { if o != ins { reject("other-inputs-accepted", env.verify(&p, &o, &mut tr(b"ctx")), json!(format!("{o:?}"))) } }
    // context
    for (w, mut t) in [("label", tr(b"ctx2")), ("label", tr(b"")), ("label", tr(b"ct"))] { reject("other-context-accepted", env.verify(&p, ins, &mut t), json!(w)) }
    let mut t = tr(b"ctx"); t.append_message(b"x", b""); reject("other-context-accepted", env.verify(&p, ins, &mut t), json!("earlier message"));
    let mut t = tr(b"ctx"); t.append_u64(b"x", 0); reject("other-context-accepted", env.verify(&p, ins, &mut t), json!("earlier number"));
    let mut t = tr(b"ctx"); let _ = env.verify(&p, ins, &mut t); reject("other-context-accepted", env.verify(&p, ins, &mut t), json!("second proof on one transcript"));
    // instance and parameters
    let mut inst: Vec<(String, Spec)> = vec![];
    for m in 0..3 {
        for e in 0..s.m[m].len() {
            let (r, col, v) = s.m[m][e];
            let mut put = |w: &str, n: Option<Entry>| { let mut t = s.clone(); match n { Some(x) => t.m[m][e] = x, None => { t.m[m].remove(e); } } inst.push((format!("matrix {m} entry {e} {w}"), t)) };
            put("coefficient", Some((r, col, f.add(&v, &U::ONE)))); put("negated", Some((r, col, f.neg(&v)))); put("zero", Some((r, col, U::ZERO)));
            put("row", Some(((r + 1) % s.nc, col, v))); put("column", Some((r, (col + 1) % (s.nv + 1 + s.ni), v))); put("removed", None);
        }
        let mut t = s.clone(); t.m[m].push((0, s.nv, U::ONE)); inst.push((format!("matrix {m} extra entry"), t));
    }
    for (a, b) in [(0, 1), (1, 2), (0, 2)] { let mut t = s.clone(); t.m.swap(a, b); inst.push((format!("matrices {a} {b} exchanged"), t)) }
    { let mut t = s.clone(); t.nc = s.nc.max(2).next_power_of_two() + 1; inst.push(("more constraints".into(), t)) }
    { let mut t = s.clone(); let nv = s.nvp() * 2; for m in t.m.iter_mut() { for e in m.iter_mut() { if e.1 >= s.nv { e.1 += nv - s.nv } } } t.nv = nv; inst.push(("more variables".into(), t)) }
    { let mut t = s.clone(); t.ni += 1; inst.push(("one more input".into(), t)) }
    if s.ni > 0 && s.m.iter().flatten().all(|e| e.1 < s.nv + s.ni) { let mut t = s.clone(); t.ni -= 1; inst.push(("one input fewer".into(), t)) }
    par(inst.len(), |i| {
        let (w, t) = &inst[i];
        if t.meaning() == s.meaning() { return }
        let Ok(e2) = Env::new(k, t) else { return };
        let i2 = { let mut x = ins.to_vec(); x.resize(t.ni, U::ZERO); x };
        reject("other-instance-accepted", e2.verify(&p, &i2, &mut tr(b"ctx")), json!(w));
    });
    // (twice as many variables can need the very same generators: the commitment is a square matrix)
    for g in [(s.nc, s.nvp() * 4, s.ni, s.nz()), (s.nc, s.nv, s.nvp() * 4 - 1, s.nz())] {
        let Ok(e2) = Env::sized(Kind::Nizk, s, g) else { continue };
        if k == Kind::Nizk { reject("other-parameters-accepted", e2.verify(&p, ins, &mut tr(b"ctx")), json!(g)) }
    }
}
/// The honest prover run on false statements.
fn false_statements(c: &Check, k: Kind, th: bool) {
    let f = fp();
    let mut shapes: Vec<_> = (1..=4).flat_map(|a| (0..=4).flat_map(move |b| (0..=2).map(move |i| (a, b, i)))).collect();
    if k == Kind::Nizk { shapes.extend([(7, 7, 3), (9, 3, 1), (2, 9, 4), (17, 5, 1)]) }
    if th { shapes.extend([(8, 8, 5), (33, 9, 2), (5, 33, 3)]) }
    par(shapes.len(), |n| {
        let (nc, nv, ni) = shapes[n];
        for pat in 1..PATTERNS { if !th && (pat + n) % 2 == 1 { continue } for asg in [1, 2] { if !th && asg == 2 && k == Kind::Snark { continue }
            let (s, vars, ins) = satisfied(nc, nv, ni, pat, asg);
            let Ok(env) = Env::new(k, &s) else { c.fail("setup", s.show()); continue };
            let mut bad: Vec<(Vec<U>, Vec<U>)> = vec![];
            for j in 0..nv { let mut v = vars.clone(); v[j] = f.add(&v[j], &U::ONE); bad.push((v, ins.clone())) }
            for j in 0..ni { let mut i = ins.clone(); i[j] = f.add(&i[j], &U::ONE); bad.push((vars.clone(), i)) }
            bad.push((vec![U::ZERO; nv], ins.clone()));
            let mut seen = 0;
            for (v, i) in bad {
                if s.sat(&v, &i) { continue }
                seen += 1; if !th && seen > 2 { break }
                getrandom::set_seed(11);
                c.states(1); c.steps(1); c.traces(1);
                if let Ok(p) = env.prove(&v, &i, &mut tr(b"ctx")) {
                    c.ensure(env.verify(&p, &i, &mut tr(b"ctx")).is_err(), "false-statement-accepted", || json!({"spec": s.show(), "vars": format!("{v:?}"), "inputs": format!("{i:?}")}));
                    // the proof of a false statement does not prove its true neighbour either
                    if i != ins { c.ensure(env.verify(&p, &ins, &mut tr(b"ctx")).is_err(), "false-proof-for-true-statement", || json!({"spec": s.show()})); }
                }
            }
            // one wrong row only: first, last
            for row in [0, nc - 1] {
                let mut t = s.clone(); t.m[2].push((row, nv, U::ONE));
                if t.sat(&vars, &ins) { continue }
                let Ok(env) = Env::new(k, &t) else { continue };
                c.states(1); c.steps(1); c.traces(1);
                if let Ok(p) = env.prove(&vars, &ins, &mut tr(b"ctx")) { c.ensure(env.verify(&p, &ins, &mut tr(b"ctx")).is_err(), "false-statement-accepted", || json!({"spec": t.show(), "row": row})); }
            }
        } }
    });
}
/// Sizes of real circuits: one proof against every changed input, and assignments wrong at one place, rows wrong alone.
fn scale(c: &Check, k: Kind, th: bool) {
    let f = fp();
    let big: &[(usize, usize, usize, bool)] = match (k, th) {
        (Kind::Nizk, false) => &[(150, 120, 20, false), (600, 300, 280, false), (4, 3, 300, true)],
        (Kind::Nizk, true) => &[(150, 120, 20, false), (600, 300, 280, false), (4, 3, 300, true), (4, 300, 3, true), (3000, 1500, 1400, false), (3, 5, 2000, true)],
        (Kind::Snark, false) => &[(150, 120, 20, false), (4, 3, 300, true)],
        (Kind::Snark, true) => &[(150, 120, 20, false), (600, 300, 280, false), (4, 3, 300, true), (4, 300, 3, true)],
    };
    c.bound(&format!("sizes of real circuits {big:?} (constraints, variables, inputs, all columns in each row): a valid proof against each input changed; the honest prover on each value changed and each row wrong (places: all of up to 70, beyond these the ends and powers of two; every third for the prover on a quick run)"));
    for (nc, nv, ni, dense) in big {
        let (s, vars, ins) = large(*nc, *nv, *ni, *dense);
        let env = match Env::new(k, &s) { Ok(e) => e, Err(e) => { c.fail("setup", json!({"shape": s.shape(), "got": e})); return } };
        getrandom::set_seed(1); let p = match env.prove(&vars, &ins, &mut tr(b"ctx")) { Ok(p) => p, Err(e) => { c.fail("prover-fails", json!({"shape": s.shape(), "got": e})); return } };
        let ok = env.verify(&p, &ins, &mut tr(b"ctx")); c.states(1); c.steps(1); c.traces(1);
        if !c.ensure(ok.is_ok(), "honest-rejected", || json!({"shape": s.shape(), "got": format!("{ok:?}")})) { return }
        let pi = places(*ni); par(pi.len() * 3, |n| { let (j, w) = (pi[n / 3], n % 3); let mut o = ins.clone(); match w { 0 => o[j] = f.add(&o[j], &U::ONE), 1 => o[j] = U::ZERO, _ => o.swap(j, (j + 1) % ni) } if o == ins { return }
            c.states(1); c.steps(1); c.ensure(env.verify(&p, &o, &mut tr(b"ctx")).is_err(), "other-inputs-accepted", || json!({"shape": s.shape(), "input": j, "change": w})); });
        let mut wrong: Vec<(&str, usize)> = places(*nv).into_iter().map(|j| ("variable", j)).chain(pi.iter().map(|j| ("input", *j))).chain(places(*nc).into_iter().map(|j| ("row", j))).collect();
        if !th { let n = wrong.len() / 24; wrong = wrong.into_iter().enumerate().filter(|x| x.0 % (n.max(1)) == 0).map(|x| x.1).collect() }
        par(wrong.len(), |n| { let (what, j) = wrong[n]; let (mut v, mut i) = (vars.clone(), ins.clone());
            let own; let (sp, e) = match what { "variable" => { v[j] = f.add(&v[j], &U::ONE); (&s, &env) } "input" => { i[j] = f.add(&i[j], &U::ONE); (&s, &env) } _ => { let mut t = s.clone(); t.m[2].push((j, *nv, U::ONE)); let Ok(x) = Env::new(k, &t) else { c.fail("setup", json!({"shape": s.shape(), "row": j})); return }; own = (t, x); (&own.0, &own.1) } };
            if sp.sat(&v, &i) { return } getrandom::set_seed(11); c.states(1); c.steps(1); c.traces(1);
            if let Ok(p) = e.prove(&v, &i, &mut tr(b"ctx")) { c.ensure(e.verify(&p, &i, &mut tr(b"ctx")).is_err(), "false-statement-accepted", || json!({"shape": s.shape(), "wrong": what, "at": j})); } });
    }
}
/// A verdict is not remembered from a neighbouring call: the accepted proof before and after each that must be refused.
fn memory(c: &Check, k: Kind, th: bool) {
    let f = fp(); let (s, vars, ins) = satisfied(2, 2, 1, 2, 1); let Ok(env) = Env::new(k, &s) else { c.fail("setup", s.show()); return };
    getrandom::set_seed(3); let Ok(p) = env.prove(&vars, &ins, &mut tr(b"ctx")) else { c.fail("prover-fails", s.show()); return };
    getrandom::set_seed(4); let second = env.prove(&vars, &ins, &mut tr(b"ctx")).ok().map(|p| p.json());
    let honest = p.json(); let mut it: Vec<(String, Spec, Value, Vec<U>, &'static [u8], bool)> = vec![("honest".into(), s.clone(), honest.clone(), ins.clone(), b"ctx", true)]; let b = it[0].clone();
    if let Some(v) = second { it.push(("other entropy".into(), s.clone(), v, ins.clone(), b"ctx", true)) }
    let all = mutations(&honest, &[], false); let step = (all.len() / if th { 1500 } else { 150 }).max(1);
    for m in all.iter().rev().step_by(step) { if let Ok(q) = Proof::from_json(k, &m.to) { if q.json() != honest { it.push((show_path(&m.path), s.clone(), m.to.clone(), ins.clone(), b"ctx", false)) } } }
    for x in [U::ONE, U::ONE.shl(64).0, U::ONE.shl(192).0] { it.push(("input".into(), s.clone(), b.2.clone(), vec![f.add(&ins[0], &x)], b"ctx", false)) }
    for l in [&b"ctx2"[..], b"", b"c"] { it.push(("context".into(), s.clone(), b.2.clone(), ins.clone(), l, false)) }
    for m in 0..3 { for e in 0..s.m[m].len() { for x in [U::ONE, U::ONE.shl(192).0] { let mut t = s.clone(); t.m[m][e].2 = f.add(&t.m[m][e].2, &x); it.push((format!("coefficient {m}.{e}"), t, b.2.clone(), ins.clone(), b"ctx", false)) } } }
    c.bound(&format!("{} calls of the verifier that differ in one part of the instance, proof, inputs or context, the accepted one in between each two; the honest prover likewise on satisfying and other assignments", it.len()));
    neighbours(c, "verdict-after-another", &it, |(_, s, p, i, l, _)| Env::new(k, s).and_then(|e| e.verify(&Proof::from_json(k, p)?, i, &mut tr(l))).is_ok(), |x| x.5);
    let mut it: Vec<(Spec, Vec<U>, Vec<U>)> = vec![(s.clone(), vars.clone(), ins.clone())];
    for x in [U::ONE, U::ONE.shl(64).0, U::ONE.shl(192).0] { for j in 0..2 { let mut v = vars.clone(); v[j] = f.add(&v[j], &x); it.push((s.clone(), v, ins.clone())) } it.push((s.clone(), vars.clone(), vec![f.add(&ins[0], &x)])); for m in 0..3 { for e in 0..s.m[m].len() { let mut t = s.clone(); t.m[m][e].2 = f.add(&t.m[m][e].2, &x); it.push((t, vars.clone(), ins.clone())) } } }
    neighbours(c, "prover-after-another", &it, |(s, v, i)| Env::new(k, s).and_then(|e| { let p = e.prove(v, i, &mut tr(b"ctx"))?; e.verify(&p, i, &mut tr(b"ctx")) }).is_ok(), |(s, v, i)| s.sat(v, i));
}
fn explore(c: &Check, k: Kind) {
    let th = c.thorough(); memory(c, k, th);
    let subjects: &[(usize, usize, usize, usize, bool, bool)] = match (k, th) {
        (Kind::Nizk, false) => &[(2, 1, 0, 1, true, true), (2, 2, 1, 1, false, true), (4, 4, 1, 2, false, true), (3, 9, 2, 2, false, false)],
        (Kind::Nizk, true) => &[(2, 1, 0, 1, true, true), (2, 2, 1, 1, true, true), (4, 4, 1, 2, true, true), (3, 9, 2, 2, true, true), (9, 3, 1, 1, true, true), (1, 1, 1, 4, true, true), (17, 17, 5, 3, true, true), (70, 260, 40, 1, false, true)],
        (Kind::Snark, false) => &[(2, 1, 0, 1, false, false)],
        (Kind::Snark, true) => &[(2, 1, 0, 1, false, true), (2, 2, 1, 1, false, true), (4, 4, 1, 2, false, true), (1, 0, 2, 4, false, true), (5, 3, 1, 1, false, true), (20, 70, 10, 1, false, false)],
    };
    c.bound("for the listed shapes every single alteration of the proof: each scalar and point replaced by seven neighbours, each list shortened, extended, reordered, exchanged with or shifted into its sibling, every part taken from another valid proof, every pair of elements exchanged (where marked); bytes cut off");
    for (nc, nv, ni, pat, sw, don) in subjects { let (s, v, i) = satisfied(*nc, *nv, *ni, *pat, 1); c.bound(&format!("subject {} pattern {pat}, pairs {sw}, donors {don}", s.shape())); subject(c, k, &s, &v, &i, *sw, *don, false); subject(c, k, &s, &v, &i, false, false, true) }
    c.bound("a valid proof against all changed inputs, contexts, matrices (every entry), shapes and parameters; the honest prover on every single-element change of a satisfying assignment and on single wrong rows, all shapes to 4x4x2");
    let st: &[(usize, usize, usize, usize)] = if th { &[(2, 2, 1, 1), (3, 3, 2, 2), (1, 1, 1, 4), (4, 5, 3, 1), (5, 2, 0, 3)] } else if k == Kind::Nizk { &[(2, 2, 1, 1), (3, 3, 2, 2), (1, 1, 1, 4)] } else { &[(2, 2, 1, 1)] };
    for (nc, nv, ni, pat) in st { let (s, v, i) = satisfied(*nc, *nv, *ni, *pat, 1); statements(c, k, &s, &v, &i) }
    false_statements(c, k, th);
    scale(c, k, th);
    c.sample(json!({"see": "explored"}));
}
pub fn s04(c: &Check) { explore(c, Kind::Nizk); crate::links::points(c, if c.thorough() { &[(2, 2, 1, 1), (4, 4, 1, 2), (5, 3, 1, 1), (9, 5, 2, 3), (16, 8, 3, 2)] } else { &[(4, 4, 1, 2), (5, 3, 1, 1)] }) }
pub fn s06(c: &Check) { explore(c, Kind::Snark); crate::links::explore(c, if c.thorough() { &[(2, 2, 1, 1), (4, 4, 1, 2), (5, 3, 1, 1), (9, 5, 2, 3)] } else { &[(4, 4, 1, 2)] }) }
