//! S03, S05: true statements are proved and accepted, on every shape.
use crate::{spec::*, sys::*};
use mccore::*;
fn one(c: &Check, k: Kind, s: &Spec, vars: &[U], i: &[U], env: &Env, seed: u64, mode: u8, full: bool) {
    getrandom::set_seed(seed); getrandom::set_mode(mode);
    let what = |stage: &str, got: &str| if s.nc + s.nv + s.ni > 300 { json!({"shape": s.shape(), "seed": seed, "entropy": mode, "stage": stage, "got": got}) } else { json!({"spec": s.show(), "vars": format!("{vars:?}"), "inputs": format!("{i:?}"), "seed": seed, "entropy": mode, "stage": stage, "got": got}) };
    c.states(1); c.steps(1);
    let p = match env.prove(vars, i, &mut tr(b"ctx")) { Ok(p) => p, Err(e) => { c.fail(&format!("prover-fails-{}", bucket(s)), what("prove", &e)); return } };
    let r = env.verify(&p, i, &mut tr(b"ctx"));
    c.steps(1); c.traces(1);
    if let Err(e) = r { c.fail(&format!("true-rejected-{}", bucket(s)), what("verify", &e)); return }
    if full {
        for (w, q) in [("bincode", Proof::from_bin(k, &p.bin())), ("json", Proof::from_json(k, &serde_json::from_str(&p.json().to_string()).unwrap()))] {
            c.steps(1);
            let r = q.and_then(|q| if q.bin() != p.bin() { Err("different after reading back".into()) } else { env.verify(&q, i, &mut tr(b"ctx")) });
            if let Err(e) = r { c.fail(&format!("read-back-rejected-{w}"), what(w, &e)) }
        }
    }
}
fn bucket(s: &Spec) -> String { format!("c{}v{}i{}nz{}", s.nc.min(3), s.nv.min(2), s.ni.min(2), s.nz().min(2)) }
fn explore(c: &Check, k: Kind) {
    let th = c.thorough();
    let (mc, mv, mi) = match (k, th) { (Kind::Nizk, false) => (7, 7, 4), (Kind::Nizk, true) => (12, 12, 6), (Kind::Snark, false) => (5, 5, 3), (Kind::Snark, true) => (9, 9, 5) };
    let mut shapes: Vec<_> = (0..=mc).flat_map(|a| (0..=mv).flat_map(move |b| (0..=mi).map(move |i| (a, b, i)))).collect();
    for x in if th { vec![(33, 5, 1), (5, 33, 1), (16, 16, 15), (17, 17, 9), (16, 17, 8), (17, 15, 7), (64, 64, 3), (1, 70, 0), (70, 1, 0), (3, 3, 40), (128, 128, 10), (257, 31, 2)] } else { vec![(8, 8, 7), (9, 17, 1), (17, 9, 1), (33, 5, 1), (1, 33, 0), (3, 3, 20)] } { shapes.push(x) }
    shapes.sort_by_key(|s| std::cmp::Reverse(s.0 * 4 + s.1 + s.2));
    c.bound(&format!("all shapes with up to {mc} constraints, {mv} variables, {mi} inputs and some larger ones; {PATTERNS} sparsity patterns and {ASSIGNS} assignment kinds; trailing zero variables left out; proof read back from both formats; entropy all zero, all ones, and streams"));
    par(shapes.len(), |n| {
        let (nc, nv, ni) = shapes[n];
        for pat in 0..PATTERNS {
            if nc == 0 && pat > 0 { continue }
            let (asgs, seeds): (Vec<usize>, Vec<(u64, u8)>) = if th { ((0..ASSIGNS).collect(), if nc + nv < 10 { vec![(1, 0), (2, 1), (3, 2)] } else { vec![(1, 0)] }) } else { (vec![(pat + nc + nv) % ASSIGNS], vec![(1, 0)]) };
            for (ai, asg) in asgs.iter().enumerate() {
                let (s, vars, i) = satisfied(nc, nv, ni, pat, *asg);
                let env = match Env::new(k, &s) { Ok(e) => e, Err(e) => { c.fail(&format!("setup-fails-{}", bucket(&s)), json!({"spec": s.show(), "got": e})); continue } };
                for (si, (seed, mode)) in seeds.iter().enumerate() { one(c, k, &s, &vars, &i, &env, *seed, *mode, ai == 0 && si == 0) }
                // the same assignment with its trailing zeros left out
                let cut = vars.iter().rposition(|x| !x.is_zero()).map_or(0, |x| x + 1);
                if cut < vars.len() && (th || nc < 4) { one(c, k, &s, &vars[..cut], &i, &env, 7, 0, false) }
                if !th && pat == 1 && nc < 3 && nv < 3 { for m in 1..3 { one(c, k, &s, &vars, &i, &env, 5, m, false) } }
                // parameters made for the padded sizes serve as well
                if pat == 2 && ai == 0 { let g = (nc.max(2).next_power_of_two(), s.nvp(), ni, s.nz().next_power_of_two());
                    match Env::sized(k, &s, g) { Ok(e) => one(c, k, &s, &vars, &i, &e, 8, 0, false), Err(e) => c.fail("padded-parameters", json!({"spec": s.show(), "got": e})) } }
            }
        }
    });
    // every satisfying assignment of every small system
    let small: &[(usize, usize, usize)] = if th { &[(1, 1, 0), (1, 0, 1), (1, 1, 1), (2, 1, 0)] } else { &[(1, 1, 0), (1, 0, 1)] };
    c.bound("small shapes: every triple of matrices with up to one entry each over coefficients 1 and p-1, every satisfying assignment over 0, 1, 2, p-1");
    let coefs = [U::ONE, P.sub(&U::ONE).0]; let vals = [U::ZERO, U::ONE, U::from(2), P.sub(&U::ONE).0];
    for &(nc, nv, ni) in small {
        let w = nv + 1 + ni; let mut opts: Vec<Vec<Entry>> = vec![vec![]];
        for r in 0..nc { for col in 0..w { for v in &coefs { opts.push(vec![(r, col, *v)]) } } }
        let o = opts.len();
        par(o * o * o, |k3| {
            let s = Spec { nc, nv, ni, m: [opts[k3 % o].clone(), opts[k3 / o % o].clone(), opts[k3 / o / o].clone()] };
            if k == Kind::Snark && !th && k3 % o % 2 == 0 && k3 / o % o % 2 == 0 && k3 != 0 { return }
            let mut env = None;
            for t in tuples(vals.len(), nv + ni) {
                let v: Vec<U> = t[..nv].iter().map(|x| vals[*x]).collect(); let i: Vec<U> = t[nv..].iter().map(|x| vals[*x]).collect();
                if !s.sat(&v, &i) { continue }
                let env = env.get_or_insert_with(|| Env::new(k, &s));
                match env { Ok(e) => one(c, k, &s, &v, &i, e, 1, 0, false), Err(e) => c.fail(&format!("setup-fails-{}", bucket(&s)), json!({"spec": s.show(), "got": e.clone()})) }
            }
        });
    }
    // sizes of real circuits
    let big: &[(usize, usize, usize, bool)] = match (k, th) {
        (Kind::Nizk, false) => &[(300, 300, 70, false), (1100, 20, 5, false), (5, 1100, 300, true), (5, 3, 1100, true), (2100, 2000, 9, false), (3, 9000, 2, true)],
        (Kind::Nizk, true) => &[(300, 300, 70, false), (1100, 20, 5, false), (5, 1100, 300, true), (5, 3, 1100, true), (2100, 2000, 9, false), (3, 9000, 2, true), (9000, 5000, 20, false), (70000, 9, 2, false), (2, 40000, 3, true), (3, 3, 20000, true)],
        (Kind::Snark, false) => &[(300, 300, 70, false), (1100, 20, 5, false), (5, 300, 100, true)],
        (Kind::Snark, true) => &[(300, 300, 70, false), (1100, 20, 5, false), (5, 1100, 300, true), (5, 3, 1100, true), (2100, 2000, 9, false), (3, 9000, 2, true)],
    };
    c.bound(&format!("systems of the size of real circuits: {big:?} (constraints, variables, inputs, all columns in each row)"));
    par(big.len(), |n| { let (nc, nv, ni, dense) = big[n]; let (s, vars, i) = large(nc, nv, ni, dense);
        match Env::new(k, &s) { Ok(e) => one(c, k, &s, &vars, &i, &e, 1, 0, true), Err(e) => c.fail("setup-fails-large", json!({"shape": [nc, nv, ni], "got": e})) } });
    c.sample(json!({"shape": "see explored"}));
}
/// Nothing is remembered from a proof of a neighbouring statement, in the same process.
fn memory(c: &Check, k: Kind) {
    let mut it: Vec<((usize, usize, usize), usize, usize, &'static [u8], u64)> = vec![((4, 4, 2), 1, 1, b"ctx", 1)]; let b = it[0];
    for x in [1, 2, 3, 5, 8, 9] { it.push(((x, 4, 2), b.1, b.2, b.3, 1)); it.push(((4, x, 2), b.1, b.2, b.3, 1)); it.push(((4, 4, x), b.1, b.2, b.3, 1)); if x < PATTERNS { it.push((b.0, x, b.2, b.3, 1)) } if x < ASSIGNS { it.push((b.0, b.1, x, b.3, 1)); it.push((b.0, 2, x, b.3, 1)) } it.push((b.0, b.1, b.2, b.3, 1 + x as u64)) }
    for l in [&b""[..], b"c", b"ctx2"] { it.push((b.0, b.1, b.2, l, 1)) }
    it.dedup(); c.bound(&format!("{} statements that differ in one size, the pattern, the assignment, the context or the entropy, the first one in between each two: parameters, proof and verification of each", it.len()));
    neighbours(c, "proof-after-another", &it, |((nc, nv, ni), pat, asg, l, seed)| { let (s, v, i) = satisfied(*nc, *nv, *ni, *pat, *asg); getrandom::set_seed(*seed); let e = Env::new(k, &s)?; let p = e.prove(&v, &i, &mut tr(l))?; e.verify(&p, &i, &mut tr(l)) }, |_| Ok(()));
}
pub fn s03(c: &Check) { memory(c, Kind::Nizk); explore(c, Kind::Nizk) }
pub fn s05(c: &Check) { memory(c, Kind::Snark); explore(c, Kind::Snark) }
