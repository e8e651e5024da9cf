use crate::spec::*;
use libspartan::*;
use mccore::*;
use std::collections::HashMap;
use std::sync::Mutex;

fn digest(i: &Instance) -> Vec<u8> { serde_json::to_value(i).unwrap()["digest"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() }
fn is_sat(i: &Instance, v: &[U], n: &[U]) -> Result<Result<bool, String>, String> { let (a, b) = (assign(v), assign(n)); guarded(|| i.is_sat(&a, &b).map_err(|e| format!("{e:?}"))) }

pub fn run(c: &Check) {
    let th = c.thorough();
    // 1. every position of every matrix means that entry, for every shape
    let n = if th { 9 } else { 6 };
    let shapes: Vec<_> = (0..=n).flat_map(|a| (0..=n).flat_map(move |b| (0..=n).map(move |i| (a, b, i)))).collect();
    c.bound(&format!("all shapes with up to {n} constraints, variables and inputs: one entry at every position of every matrix, against every unit change of the assignment"));
    par(shapes.len(), |k| {
        let (nc, nv, ni) = shapes[k];
        let f = fp();
        let (vars, ins) = (values(nv, 1, 0), values(ni, 1, 20));
        let w = nv + 1 + ni;
        let base = Spec { nc, nv, ni, m: Default::default() };
        let z = base.z(&vars, &ins);
        c.states(1);
        if nc == 0 {
            let r = base.build();
            if c.ensure(r.is_ok(), "empty-refused", || json!({"spec": base.show(), "got": format!("{:?}", r.as_ref().err())})) { check(c, &base, &r.unwrap(), &vars, &ins) }
            return;
        }
        for row in 0..nc { for col in 0..w { for m in 0..3 {
            let mut s = base.clone();
            s.m[m].push((row, col, U::from(3)));
            let v = f.mul(&U::from(3), &z[col]);
            match m { 0 => { s.m[1].push((row, nv, U::ONE)); s.m[2].push((row, nv, v)) } 1 => { s.m[0].push((row, nv, U::ONE)); s.m[2].push((row, nv, v)) } _ => { s.m[0].push((row, nv, U::ONE)); s.m[1].push((row, nv, v)) } }
            let r = s.build();
            c.states(1);
            let Ok(inst) = r else { c.fail("valid-refused", json!({"spec": s.show(), "got": r.err()})); continue };
            check(c, &s, &inst, &vars, &ins);
            if row == 0 || row + 1 == nc { for j in 0..w { if j == nv { continue }
                let (mut v2, mut i2) = (vars.clone(), ins.clone());
                if j < nv { v2[j] = f.add(&v2[j], &U::ONE) } else { i2[j - nv - 1] = f.add(&i2[j - nv - 1], &U::ONE) }
                check(c, &s, &inst, &v2, &i2);
            } }
            c.traces(1);
        } } }
    });
    // 2. all small matrices, all small assignments
    let small: &[(usize, usize, usize)] = if th { &[(1, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1), (2, 1, 0), (2, 0, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (3, 1, 1), (2, 2, 1)] } else { &[(1, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1), (2, 1, 0), (2, 0, 1), (1, 2, 1), (2, 1, 1)] };
    c.bound("small shapes: every triple of matrices with up to one entry each (thorough: also two entries in one matrix) over coefficients 1, 2, p-1, 0, every assignment over 0, 1, 2, p-1");
    let coefs = [U::ONE, P.sub(&U::ONE).0, U::from(2), U::ZERO];
    let vals = [U::ZERO, U::ONE, U::from(2), P.sub(&U::ONE).0];
    let dig: Mutex<HashMap<Vec<u8>, String>> = Default::default();
    let rev: Mutex<HashMap<String, Vec<u8>>> = Default::default();
    for &(nc, nv, ni) in small {
        let w = nv + 1 + ni;
        let mut opts: Vec<Vec<Entry>> = vec![vec![]];
        for r in 0..nc { for col in 0..w { for v in &coefs[..if nc * w > 6 { 2 } else { 3 }] { opts.push(vec![(r, col, *v)]) } } }
        let one = opts.len();
        if nc * w <= 4 { for a in 1..one { for b in 1..one { let mut x = opts[a].clone(); x.extend(opts[b].clone()); opts.push(x) } } }
        let all: Vec<_> = (0..opts.len()).flat_map(|a| (0..one).flat_map(move |b| (0..one).map(move |d| (a, b, d)))).collect();
        let asg: Vec<(Vec<U>, Vec<U>)> = tuples(vals.len(), nv + ni).map(|t| (t[..nv].iter().map(|i| vals[*i]).collect(), t[nv..].iter().map(|i| vals[*i]).collect())).collect();
        let chunks = all.len().div_ceil(64);
        par(chunks, |k| for &(a, b, d) in &all[k * 64..all.len().min(k * 64 + 64)] {
            let perm: &[[usize; 3]] = if a < one { &[[0, 1, 2]] } else { &[[0, 1, 2], [1, 2, 0], [2, 0, 1]] };
            for p in perm {
                let mut m: [Vec<Entry>; 3] = Default::default();
                m[p[0]] = opts[a].clone(); m[p[1]] = opts[b].clone(); m[p[2]] = opts[d].clone();
                let s = Spec { nc, nv, ni, m };
                c.states(1);
                let r = s.build();
                let Ok(inst) = r else { c.fail("valid-refused", json!({"spec": s.show(), "got": r.err()})); continue };
                for (v, i) in &asg { check(c, &s, &inst, v, i) }
                c.traces(1);
                if a < one {
                    let key = format!("{:?}", s.meaning()); let dg = digest(&inst);
                    let full = format!("{:?}", s);
                    if let Some(o) = dig.lock().unwrap().insert(dg.clone(), key.clone()) { c.ensure(o == key, "digest-collision", || json!({"spec": s.show(), "other": o})); }
                    if let Some(o) = rev.lock().unwrap().insert(full, dg.clone()) { c.ensure(o == dg, "digest-unstable", || s.show()); }
                }
            }
        });
    }
    c.part("digests", dig.lock().unwrap().len() as u64);
    // digests of all shapes with the same (empty, or one common) matrices
    for s in shapes.iter().filter(|s| s.0 > 0).flat_map(|&(nc, nv, ni)| [Spec { nc, nv, ni, m: Default::default() }, Spec { nc, nv, ni, m: [vec![(0, nv, U::ONE)], vec![(0, nv, U::ONE)], vec![(0, nv, U::ONE)]] }]) {
        let Ok(inst) = s.build() else { continue };
        let key = format!("{:?}", s.meaning());
        c.states(1); c.steps(1);
        if let Some(o) = dig.lock().unwrap().insert(digest(&inst), key.clone()) { c.ensure(o == key, "digest-collision", || json!({"spec": s.show(), "other": o})); };
    }
    // 3. refusals
    c.bound("every matrix with one entry at every row, column and value of alphabets crossing the bounds; every number of variables and inputs around the right one");
    let rshapes = [(1, 1, 0), (1, 0, 0), (2, 2, 1), (3, 3, 0), (3, 5, 2), (4, 4, 3), (5, 2, 6)];
    let big = [U::ZERO, U::ONE, P.sub(&U::ONE).0, P, P.add(&U::ONE).0, U::MAX, U::ONE.shl(255).0, Q, U::from(1 << 33)];
    par(rshapes.len(), |k| {
        let (nc, nv, ni) = rshapes[k];
        let rows: Vec<usize> = (0..nc + 3).chain([8, 16, 1 << 32, usize::MAX]).collect();
        let cols: Vec<usize> = (0..nv + ni + 4).chain([16, 32, 1 << 32, 1 << 63, usize::MAX, usize::MAX - nv]).collect();
        for m in 0..3 { for &r in &rows { for &col in &cols { for v in &big { for extra in 0..2 {
            let mut s = Spec { nc, nv, ni, m: Default::default() };
            for k in 0..3 { if extra == 1 { s.m[k].push((0, nv, U::ONE)) } }
            s.m[m].push((r, col, *v));
            let ok = r < nc && col < nv + 1 + ni && *v < P;
            let got = s.build();
            c.states(1); c.steps(1);
            c.ensure(got.is_ok() == ok, if ok { "valid-refused" } else { "invalid-accepted" }, || json!({"spec": s.show(), "matrix": m, "got": got.as_ref().err()}));
        } } } } }
        for v in &big { for at in 0..3 { let mut a = vec![U::ONE.le(); 3]; a[at] = v.le();
            c.states(1); c.steps(1);
            c.ensure(VarsAssignment::new(&a).is_ok() == (*v < P), "assignment-canonical", || json!(v.to_string())); } }
        let (s, vars, is) = satisfied(nc, nv, ni, 2, 1);
        let Ok(inst) = s.build() else { return };
        for lv in 0..=s.nvp() + 2 { for li in 0..=ni + 3 {
            let mut v = vars.clone(); v.resize(lv, U::from(5)); let mut i = is.clone(); i.resize(li, U::from(6));
            c.states(1); c.steps(1);
            let r = is_sat(&inst, &v, &i);
            if li != ni || lv > s.nvp() { c.ensure(!matches!(r, Ok(Ok(_))), "wrong-sizes-accepted", || json!({"spec": s.show(), "vars": lv, "inputs": li, "got": format!("{r:?}")})); }
            else if lv <= nv { let want = s.sat(&v, &i); c.ensure(matches!(r, Ok(Ok(x)) if x == want), "short-variables", || json!({"spec": s.show(), "vars": lv, "want": want, "got": format!("{r:?}")})); }
            else if let Ok(Ok(x)) = r { let want = s.sat(&v[..nv], &i); c.ensure(x == want, "long-variables", || json!({"spec": s.show(), "vars": lv, "want": want})); }
        } }
        c.traces(1);
    });
    // 4. serialization
    c.bound("serialization to JSON and bincode and back: all shapes, all sparsity patterns");
    par(shapes.len(), |k| {
        let (nc, nv, ni) = shapes[k];
        for pat in 0..PATTERNS { for asg in [1, 2] {
            let (s, v, i) = satisfied(nc, nv, ni, pat, asg);
            let Ok(inst) = s.build() else { c.fail("valid-refused", s.show()); continue };
            c.states(1);
            check(c, &s, &inst, &v, &i);
            let j: Result<Instance, _> = serde_json::from_str(&serde_json::to_string(&inst).unwrap());
            let b: Result<Instance, _> = bincode::deserialize(&bincode::serialize(&inst).unwrap());
            for (w, x) in [("json", j.ok()), ("bincode", b.ok())] {
                let Some(x) = x else { c.fail("not-read-back", json!({"spec": s.show(), "format": w})); continue };
                c.ensure(digest(&x) == digest(&inst) && serde_json::to_value(&x).unwrap() == serde_json::to_value(&inst).unwrap(), "read-back-differs", || json!({"spec": s.show(), "format": w}));
                check(c, &s, &x, &v, &i);
                if let Some(y) = v.first() { let mut v2 = v.clone(); v2[0] = fp().add(y, &U::ONE); check(c, &s, &x, &v2, &i) }
            }
            c.traces(2);
        } }
    });
    // 5. synthetic instances
    c.bound("synthetic instances for all power-of-two shapes to 16 and all input counts, several entropy streams");
    let sy: Vec<_> = (0..5).flat_map(|a| (0..5).flat_map(move |b| (0..1usize << b).map(move |i| (1usize << a, 1usize << b, i)))).collect();
    par(sy.len(), |k| for seed in 0..3 {
        let (nc, nv, ni) = sy[k];
        getrandom::set_seed(seed); if seed == 2 { getrandom::set_mode(1) }
        let r = guarded(|| { let (i, v, n) = Instance::produce_synthetic_r1cs(nc, nv, ni); i.is_sat(&v, &n).ok() });
        c.states(1); c.steps(1); c.traces(1);
        c.ensure(r == Ok(Some(true)), "synthetic-unsatisfied", || json!({"shape": [nc, nv, ni], "got": format!("{r:?}")}));
    });
    scale(c);
    c.sample(json!({"shape": [3, 5, 2], "note": "see explored"}));
}
/// Systems far larger than those explored entry by entry: every constraint, variable, input and entry counts.
fn scale(c: &Check) {
    let f = fp(); let th = c.thorough();
    let ls = lengths(if th { 8193 } else { 1025 });
    c.bound(&format!("systems of {} sizes up to {} constraints, variables and inputs (together and each alone), and rows of as many terms: the satisfied system, and each one value, one coefficient changed; one bad entry or value at each place; places: all of up to 70, beyond these the ends and powers of two", ls.len(), ls.last().unwrap()));
    // (constraints, variables, inputs): row r says that column r has its value; all columns are said
    let mut shapes: Vec<(usize, usize, usize, bool)> = vec![];
    for &n in &ls { if n < 7 { continue } shapes.push((n, n, n, false)); shapes.push((n + 4, n, 3, false)); shapes.push((n + 4, 3, n, false)); shapes.push((3, n, 3, true)); shapes.push((2, 3, n, true)) }
    shapes.sort_by_key(|s| std::cmp::Reverse((s.0 + s.1 + s.2, s.0)));
    par(shapes.len(), |k| {
        let (nc, nv, ni, dense) = shapes[k];
        let w = nv + 1 + ni; let (s, vars, ins) = large(nc, nv, ni, dense);
        c.states(1); c.traces(1);
        let inst = match s.build() { Ok(i) => i, Err(e) => { c.fail("large-valid-refused", json!({"shape": [nc, nv, ni], "terms-in-one-row": dense, "got": e})); return } };
        let show = |what: &str, at: usize| json!({"shape": [nc, nv, ni], "terms-in-one-row": dense, "changed": what, "at": at});
        let good = is_sat(&inst, &vars, &ins); c.steps(1);
        c.ensure(good == Ok(Ok(true)), "large-satisfied", || show("nothing", 0));
        // a changed value breaks exactly the rows that name its column
        let named = |col: usize| dense || col < nc;
        for j in places(nv) { let mut v = vars.clone(); v[j] = f.add(&v[j], &U::ONE); c.steps(1); let g = is_sat(&inst, &v, &ins); c.ensure(g == Ok(Ok(!named(j))), "large-variable", || show("variable", j)); }
        for j in places(ni) { let mut v = ins.clone(); v[j] = f.add(&v[j], &U::ONE); c.steps(1); let g = is_sat(&inst, &vars, &v); c.ensure(g == Ok(Ok(!named(nv + 1 + j))), "large-input", || show("input", j)); }
        // other systems: one entry of one matrix changed, taken away, or out of bounds
        let dg = digest(&inst); let few = |n: usize| -> Vec<usize> { if n <= 20 || th && n < 300 { places(n) } else { let p = places(n); let t = p.len(); p.into_iter().enumerate().filter(|(i, _)| (i + k) % (t / 6).max(1) == 0 || *i + 1 == t).map(|x| x.1).collect() } };
        for m in 0..3 { for at in few(s.m[m].len()) {
            for (what, bad) in [("coefficient", false), ("left out", false), ("row", true), ("column", true), ("value", true)] {
                let mut t = s.clone(); match what { "coefficient" => t.m[m][at].2 = f.add(&t.m[m][at].2, &U::ONE), "left out" => { t.m[m].remove(at); } "row" => t.m[m][at].0 = nc, "column" => t.m[m][at].1 = w, _ => t.m[m][at].2 = P }
                c.states(1); c.steps(1);
                match t.build() { Ok(i) => { if bad { c.fail("large-invalid-accepted", json!({"shape": [nc, nv, ni], "matrix": m, "entry": at, "bad": what})) } else {
                        let want = t.sat(&vars, &ins); let g = is_sat(&i, &vars, &ins); c.ensure(g == Ok(Ok(want)), "large-entry", || json!({"shape": [nc, nv, ni], "terms-in-one-row": dense, "matrix": m, "entry": at, "changed": what, "want": want}));
                        c.ensure(digest(&i) != dg, "large-digest-collision", || json!({"shape": [nc, nv, ni], "matrix": m, "entry": at, "changed": what})); } }
                    Err(e) => if !bad { c.fail("large-valid-refused", json!({"shape": [nc, nv, ni], "matrix": m, "entry": at, "changed": what, "got": e})) } }
            }
        } }
    });
    // a value that is none of the field at each place of a long assignment
    par(ls.len(), |k| { let n = ls[k]; for at in places(n) { for v in [P, U::MAX] { let mut a = vec![U::ONE.le(); n]; a[at] = v.le(); c.states(1); c.steps(1);
        c.ensure(VarsAssignment::new(&a).is_err(), "large-assignment-canonical", || json!({"length": n, "at": at, "value": v.to_string()})); } }
        let a = vec![P.sub(&U::ONE).0.le(); n]; c.ensure(VarsAssignment::new(&a).is_ok(), "large-assignment-refused", || json!({"length": n})); });
    // more variables or inputs than the system has
    for &n in &ls { let (s, v, i) = satisfied(3, n.max(1), 2, 1, 1); let Ok(inst) = s.build() else { c.fail("large-valid-refused", json!({"shape": [3, n, 2]})); continue }; for (lv, li) in [(s.nvp() + 1, 2), (n.max(1), 3), (n.max(1), 1)] { let mut v = v.clone(); v.resize(lv, U::ZERO); let mut i = i.clone(); i.resize(li, U::ZERO); c.states(1); c.steps(1); let r = is_sat(&inst, &v, &i); c.ensure(!matches!(r, Ok(Ok(_))), "large-wrong-sizes", || json!({"variables": n, "given": [lv, li]})); } }
}
fn check(c: &Check, s: &Spec, inst: &Instance, v: &[U], i: &[U]) {
    let want = s.sat(v, i);
    let got = is_sat(inst, v, i);
    c.steps(1);
    c.ensure(got == Ok(Ok(want)), "satisfaction", || json!({"spec": s.show(), "vars": format!("{v:?}"), "inputs": format!("{i:?}"), "want": want, "got": format!("{got:?}")}));
}
