//! D03, D04: from a circuit file to accepted proofs.
use crate::file::*;
use libspartan::{Assignment, Instance};
use mccore::*;
use spartan_wasm::wasm;
pub fn scratch() -> std::path::PathBuf { static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0); let d = std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or(".".into())).join("target/scratch").join(format!("{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed))); std::fs::create_dir_all(&d).unwrap(); d }
fn assign(v: &[U]) -> Assignment { Assignment::new(&v.iter().map(|x| x.le()).collect::<Vec<_>>()).ok().unwrap() }
fn convert(k: &Circuit, pubs: usize) -> Result<Instance, String> {
    let d = scratch(); let p = d.join("c.r1cs"); std::fs::write(&p, k.bytes()).unwrap();
    let r = guarded(|| circuit_reader::load_as_spartan_inst(p, pubs));
    std::fs::remove_dir_all(&d).ok(); r
}
fn big() -> U { U::from_hex("9f3c1d5e7a2b4c6d8e0f1a2b3c4d5e6f7a8b9cadbecfd0e1f2031425364758aa") }
fn m1() -> U { P.sub(&U::ONE).0 }
/// Small circuits with every number of public wires, over all forms of constraints of an alphabet.
fn circuits(mw: u32, th: bool) -> Vec<(Circuit, usize)> {
    let mut out = vec![];
    for w in 1..=mw { for pubs in 0..w {
        let last = w - 1; let first = 1.min(last); let mid = (pubs as u32 + 1).min(last);
        let ls: Vec<Lc> = vec![vec![], vec![(0, U::ONE)], vec![(first, U::ONE)], vec![(last, m1())], vec![(mid, U::from(2)), (0, m1())], vec![(last, U::ONE), (last, U::ONE), (first, U::ZERO)]];
        let n = ls.len();
        for t in tuples(n, 3) { let mut cs = vec![[ls[t[0]].clone(), ls[t[1]].clone(), ls[t[2]].clone()]];
            if !th && t[0] > t[1] { continue }
            for nc in 1..=if th { 3 } else { 2 } { if nc > 1 { cs.push([ls[(t[1] + nc) % n].clone(), ls[t[2]].clone(), ls[(t[0] + 2 * nc) % n].clone()]) }
                out.push((Circuit::new(w, pubs as u32 / 2, pubs as u32 - pubs as u32 / 2, cs.clone()), pubs as usize)) } }
        out.push((Circuit::new(w, 0, pubs as u32, vec![]), pubs as usize));
    } }
    out
}
pub fn d03(c: &Check) {
    let th = c.thorough(); let mw = if th { 5 } else { 4 };
    let cs = circuits(mw, th);
    c.bound(&format!("{} circuits with up to {mw} wires, every number of public wires, up to {} constraints over 6 forms of linear combination each; all witnesses over 0, 1, 2, p-1 (five wires: 0, 1, p-1), and all public inputs over 0, 1, 2, p-1 plus the witness's own", cs.len(), if th { 3 } else { 2 }));
    par(cs.len(), |n| { let (k, pubs) = &cs[n]; let w = k.wires as usize;
        let what = |g: Value| json!({"circuit": k.show(), "public": pubs, "got": g});
        let inst = match convert(k, *pubs) { Ok(i) => i, Err(e) => { c.fail("conversion-fails", what(json!(e))); return } };
        let back: Instance = bincode::deserialize(&bincode::serialize(&inst).unwrap()).unwrap();
        let f = Fp::fast(P); let vals = if w > 4 || (w == 4 && !th) { vec![U::ZERO, U::ONE, m1()] } else { vec![U::ZERO, U::ONE, U::from(2), m1()] };
        for t in tuples(vals.len(), w) { let wit: Vec<U> = t.iter().map(|x| vals[*x]).collect(); let own = wit[1..=*pubs].to_vec(); let good = k.sat(&wit) && wit[0] == U::ONE;
            let mut ins = vec![own.clone()];
            for i in 0..*pubs { for d in [U::ONE, U::from(3), m1()] { let mut x = own.clone(); x[i] = f.add(&x[i], &d); ins.push(x) } }
            if *pubs > 1 { let mut x = own.clone(); x.reverse(); ins.push(x); ins.push(vec![U::ZERO; *pubs]); ins.push(wit[..*pubs].to_vec()) }
            let a = assign(&wit);
            for i in &ins { let want = good && *i == own; c.states(1); c.steps(1); c.traces(1);
                let got = guarded(|| inst.is_sat(&a, &assign(i)).map_err(|e| format!("{e:?}"))).and_then(|x| x);
                if got.as_ref() != Ok(&want) { c.fail(if want { "witness-refused" } else if *i != own { "unbound-public-input" } else if wit[0] != U::ONE { "unbound-constant" } else { "non-witness-accepted" }, what(json!({"witness": format!("{wit:?}"), "inputs": format!("{i:?}"), "is_sat": format!("{got:?}")}))) } }
            // the witness cut short is padded with zeros, and one too long is refused
            if wit[0] == U::ONE && *pubs == 0 { let got = guarded(|| back.is_sat(&a, &assign(&[])).map_err(|e| format!("{e:?}"))).and_then(|x| x); c.steps(1); c.ensure(got == Ok(good), "read-back-differs", || what(json!(format!("{got:?}")))); }
        }
        for n in 0..=w + 2 { if n != *pubs { let i = vec![U::ONE; n]; let got = guarded(|| inst.is_sat(&assign(&vec![U::ONE; w]), &assign(&i)).is_err()); c.states(1); c.ensure(got != Ok(false), "wrong-number-of-inputs-accepted", || what(json!(n))); } }
    });
    // values at every coefficient, and circuits that cross padding boundaries
    let els = elements(true); let f = Fp::fast(P);
    c.bound("every element of the alphabet of extreme encodings as a coefficient; chains of 1 to 70 wires and of every power of two and its neighbours to 1025 (thorough: 4097) with 0 to 9, half or all of them public, with the whole witness, and with each wire and each public input changed (beyond 70: at the ends and powers of two)");
    par(els.len(), |n| { let e = els[n]; let k = Circuit::new(4, 1, 1, vec![[vec![(3, e)], vec![(0, U::ONE)], vec![(1, U::ONE)]]]);
        let inst = match convert(&k, 2) { Ok(i) => i, Err(e) => { c.fail("conversion-fails", json!({"coefficient": els[n].hex(), "got": e})); return } };
        for x in [U::ONE, U::from(3)] { for d in [0u64, 1] { let out = f.add(&f.mul(&e, &x), &U::from(d)); let wit = [U::ONE, out, U::from(5), x];
            let got = guarded(|| inst.is_sat(&assign(&wit), &assign(&wit[1..3])).map_err(|e| format!("{e:?}"))).and_then(|x| x); c.states(1); c.traces(1); c.steps(1);
            c.ensure(got == Ok(d == 0), "coefficient-misread", || json!({"coefficient": e.hex(), "value": x.hex(), "offset": d, "got": format!("{got:?}")})); } } });
    let sizes: Vec<u32> = (3..if th { 140 } else { 70 }).chain(lengths(if th { 4097 } else { 1025 }).into_iter().filter(|n| *n > 140).map(|n| n as u32)).rev().collect();
    par(sizes.len(), |n| { let w = sizes[n]; for pubs in [0usize, 1, 2, 5, 9, w as usize / 2, w as usize - 2] { if pubs + 2 > w as usize { continue }
        // wire j+1 = wire j squared plus j, read off the coefficients
        let cons: Vec<Con> = (1..w - 1).map(|j| [vec![(j, U::ONE)], vec![(j, U::ONE)], vec![(j + 1, U::ONE), (0, f.neg(&U::from(j as u64)))]]).collect();
        let k = Circuit::new(w, 0, pubs as u32, cons); let inst = match convert(&k, pubs) { Ok(i) => i, Err(e) => { c.fail("conversion-fails", json!({"wires": w, "public": pubs, "got": e})); continue } };
        let mut wit = vec![U::ONE, U::from(3)]; for j in 1..w - 1 { let x = wit[j as usize]; wit.push(f.add(&f.sq(&x), &U::from(j as u64))) }
        for change in places(w as usize).into_iter().chain([w as usize]) { let mut x = wit.clone(); if change < w as usize { x[change] = f.add(&x[change], &U::ONE) }
            let got = guarded(|| inst.is_sat(&assign(&x), &assign(&wit[1..=pubs])).map_err(|e| format!("{e:?}"))).and_then(|x| x); c.states(1); c.traces(1); c.steps(1);
            c.ensure(got == Ok(change == w as usize), "large-circuit-differs", || json!({"wires": w, "public": pubs, "changed wire": change, "got": format!("{got:?}")})); }
        for change in places(pubs) { let mut i = wit[1..=pubs].to_vec(); i[change] = f.add(&i[change], &U::ONE); let got = guarded(|| inst.is_sat(&assign(&wit), &assign(&i)).map_err(|e| format!("{e:?}"))).and_then(|x| x); c.states(1); c.traces(1); c.steps(1);
            c.ensure(got == Ok(false), "large-unbound-public-input", || json!({"wires": w, "public": pubs, "changed input": change, "got": format!("{got:?}")})); } } });
    c.bound("one constraint with as many terms in each of its three combinations, each term's wire and each public input changed; the terms in both orders");
    par(sizes.len(), |n| { let w = sizes[n] as usize; for pubs in [0, w / 2, w - 1] { for side in 0..3 { for back in [false, true] {
        let mut wit: Vec<U> = (0..w).map(|j| U::from(j as u64 * 7 % 23 + 1)).collect(); wit[0] = U::ONE;
        let mut long: Lc = (0..w).map(|j| (j as u32, U::from(j as u64 % 11 + 2))).collect(); if back { long.reverse() } let sum = long.iter().fold(U::ZERO, |a, (j, x)| f.add(&a, &f.mul(x, &wit[*j as usize])));
        let con: Con = match side { 0 => [long, vec![(0, U::from(3))], vec![(0, f.mul(&sum, &U::from(3)))]], 1 => [vec![(0, U::from(3))], long, vec![(0, f.mul(&sum, &U::from(3)))]], _ => [vec![(0, sum)], vec![(0, U::ONE)], long] };
        let k = Circuit::new(w as u32, pubs as u32 / 3, (pubs - pubs / 3) as u32, vec![con]); let what = |g: Value| json!({"terms": w, "public": pubs, "side": side, "reversed": back, "got": g});
        let inst = match convert(&k, pubs) { Ok(i) => i, Err(e) => { c.fail("conversion-fails", what(json!(e))); continue } };
        let mut cases = vec![(None, wit.clone(), wit[1..=pubs].to_vec())]; for j in places(w) { let mut x = wit.clone(); x[j] = f.add(&x[j], &U::ONE); let own = x[1..=pubs].to_vec(); cases.push((Some(j), x, own)) } for j in places(pubs) { let mut i = wit[1..=pubs].to_vec(); i[j] = f.add(&i[j], &U::ONE); cases.push((Some(w + j), wit.clone(), i)) }
        for (j, x, i) in cases { c.states(1); c.traces(1); c.steps(1); let got = guarded(|| inst.is_sat(&assign(&x), &assign(&i)).map_err(|e| format!("{e:?}"))).and_then(|x| x); c.ensure(got == Ok(j.is_none()), "long-row-differs", || what(json!({"changed": j, "got": format!("{got:?}")}))); }
    } } } });
}
fn be(v: &[U]) -> Vec<u8> { v.iter().flat_map(|x| x.be()).collect() }
fn prove(k: &[u8], w: &[u8], i: &[u8]) -> Result<Vec<u8>, String> { guarded(|| wasm::prove(k, w, i).map_err(|_| "error".to_string())).and_then(|x| x) }
fn accepted(k: &[u8], p: &[u8], i: &[u8]) -> bool { guarded(|| matches!(wasm::verify(k, p, i), Ok(true))).unwrap_or(false) }
pub fn d04(c: &Check) {
    let th = c.thorough(); let f = Fp::fast(P);
    // out = a * b + hidden^2; wires: 1, out, a, b, hidden, square
    let shape = |pubs: u32, extra: usize| { let one = U::ONE; let mut cons: Vec<Con> = vec![[vec![(4, one)], vec![(4, one)], vec![(5, one)]], [vec![(2, one)], vec![(3, one)], vec![(1, one), (5, m1())]]]; for i in 0..extra { cons.push([vec![(4, U::from(i as u64 + 2))], vec![(0, one)], vec![(4, U::from(i as u64 + 2))]]) } Circuit::new(6, 1, pubs - 1, cons) };
    let wit = |a: U, b: U, h: U| { let s = f.sq(&h); vec![U::ONE, f.add(&f.mul(&a, &b), &s), a, b, h, s] };
    let els: Vec<U> = if th { elements(false) } else { elements(false).into_iter().take(7).collect() };
    let mut jobs = vec![];
    for pubs in 1..=3u32 { for extra in if th { vec![0, 1, 4] } else { vec![0, 3] } { for a in &els { for b in [U::ZERO, U::from(7), m1()] { jobs.push((pubs, extra, wit(*a, b, U::from(3)))) } } } }
    jobs.push((3, 0, wit(U::ZERO, U::ZERO, U::ZERO)));
    c.bound("a product circuit with one to three public wires and several sizes, all public values over the alphabet of extreme encodings: accepted with their own bytes; refused with every public word changed by one, negated, reversed, zeroed, exchanged with its neighbour, made non-canonical; with every bit flipped; with bytes cut off or added");
    par(jobs.len(), |n| { let (pubs, extra, w) = &jobs[n]; let p = *pubs as usize; let what = |g: &str| json!({"public": p, "extra": extra, "witness": format!("{w:?}"), "got": g});
        let circ = match convert(&shape(*pubs, *extra), p) { Ok(i) => bincode::serialize(&i).unwrap(), Err(e) => { c.fail("conversion-fails", what(&e)); return } };
        getrandom::set_seed(n as u64); let own = be(&w[1..=p]);
        let proof = match prove(&circ, &wtns(w), &own) { Ok(p) => p, Err(e) => { c.fail("prove-fails", what(&e)); return } };
        c.states(1); c.steps(2); c.traces(1);
        c.ensure(accepted(&circ, &proof, &own), "true-statement-refused", || what("refused"));
        let mut alts: Vec<(String, Vec<u8>)> = vec![];
        for i in 0..p { let x = w[1 + i]; let mut put = |name: &str, b: [u8; 32]| { let mut v = own.clone(); v[i * 32..i * 32 + 32].copy_from_slice(&b); if v != own { alts.push((format!("{name} {i}"), v)) } };
            put("plus one", f.add(&x, &U::ONE).be()); put("minus one", f.sub(&x, &U::ONE).be()); put("negated", f.neg(&x).be()); put("zero", [0; 32]); put("little-endian", x.le()); put("square", f.sq(&x).be());
            let (y, over) = x.add(&P); if !over { put("plus modulus", y.be()) }
            if i + 1 < p { let mut v = own.clone(); v.rotate_left(32); if v != own { alts.push(("rotated".into(), v)) } let mut v = own.clone(); v[i * 32..i * 32 + 64].rotate_left(32); if v != own { alts.push(("exchanged".into(), v)) } } }
        if n % if th { 5 } else { 40 } == 0 { for bit in 0..own.len() * 8 { let mut v = own.clone(); v[bit / 8] ^= 1 << (bit % 8); alts.push((format!("bit {bit}"), v)) } }
        for cut in [1, 31, 32, 33] { if cut <= own.len() { alts.push((format!("cut {cut}"), own[..own.len() - cut].to_vec())) } } alts.push(("empty".into(), vec![]));
        for add in [1, 32, 64] { let mut v = own.clone(); v.extend(vec![0; add]); alts.push((format!("longer {add}"), v)); let mut v = vec![0; add]; v.extend(&own); alts.push((format!("shifted {add}"), v)) }
        for (name, v) in &alts { c.states(1); c.steps(1); c.traces(1); if accepted(&circ, &proof, v) { c.fail(&format!("other-input-accepted-{}", name.split(' ').next().unwrap()), what(name)) } }
    });
    // a prover that uses a wrong witness, or other inputs than the witness's
    c.bound("provers with every wire of the witness changed by one, doubled or zeroed, and with other public inputs than the witness holds: never accepted, neither for the claimed inputs nor for the witness's");
    let circ = bincode::serialize(&convert(&shape(3, 1), 3).unwrap()).unwrap();
    let ws: Vec<Vec<U>> = [(2u64, 5u64, 3u64), (0, 1, 1), (1, 1, 0)].iter().map(|x| wit(U::from(x.0), U::from(x.1), U::from(x.2))).collect();
    let mut cases: Vec<(Vec<U>, Vec<U>)> = vec![];
    for w in &ws { for i in 0..6 { for d in [f.add(&w[i], &U::ONE), f.add(&w[i], &w[i]), U::ZERO, f.neg(&w[i])] { if d == w[i] { continue } let mut x = w.clone(); x[i] = d; cases.push((x.clone(), w[1..4].to_vec())); cases.push((x.clone(), x[1..4].to_vec())); let mut j = w[1..4].to_vec(); if i < 3 { j[i] = f.add(&j[i], &U::ONE); cases.push((w.clone(), j)) } } } }
    let k3 = shape(3, 1);
    par(cases.len(), |n| { let (w, i) = &cases[n]; getrandom::set_seed(n as u64); c.states(1); c.steps(1); c.traces(1);
        let good = k3.sat(w) && w[0] == U::ONE && *i == w[1..4];
        let p = prove(&circ, &wtns(w), &be(i));
        for claim in [i.clone(), w[1..4].to_vec()] { let got = p.as_ref().is_ok_and(|p| accepted(&circ, p, &be(&claim))); c.steps(1);
            c.ensure(got == (good && claim == *i), if good { "true-statement-refused" } else { "false-statement-accepted" }, || json!({"witness": format!("{w:?}"), "inputs": format!("{i:?}"), "claimed": format!("{claim:?}")})); } });
    // sizes of real circuits
    let sizes: Vec<(u32, usize)> = if th { vec![(40, 20), (70, 68), (300, 5), (300, 150), (600, 598), (1100, 2), (2500, 1000), (9000, 9)] } else { vec![(40, 20), (70, 68), (300, 150), (600, 598), (1100, 2)] };
    c.bound(&format!("chains of squares of the sizes {sizes:?} (wires, public wires), through the whole of proving and verifying: accepted with their own public inputs, refused with each of them changed, swapped with the next or zeroed, and not provable with a wire changed (places: all of up to 70, beyond these the ends and powers of two; every fifth for the prover)"));
    par(sizes.len(), |n| { let (w, pubs) = sizes[n]; let cons: Vec<Con> = (1..w - 1).map(|j| [vec![(j, U::ONE)], vec![(j, U::ONE)], vec![(j + 1, U::ONE), (0, f.neg(&U::from(j as u64)))]]).collect();
        let what = |g: Value| json!({"wires": w, "public": pubs, "got": g}); let k = Circuit::new(w, 0, pubs as u32, cons);
        let circ = match convert(&k, pubs) { Ok(i) => bincode::serialize(&i).unwrap(), Err(e) => { c.fail("conversion-fails", what(json!(e))); return } };
        let mut wit = vec![U::ONE, U::from(3)]; for j in 1..w - 1 { let x = wit[j as usize]; wit.push(f.add(&f.sq(&x), &U::from(j as u64))) } let own = be(&wit[1..=pubs]);
        getrandom::set_seed(n as u64); let proof = match prove(&circ, &wtns(&wit), &own) { Ok(p) => p, Err(e) => { c.fail("prove-fails", what(json!(e))); return } };
        c.states(1); c.steps(2); c.traces(1); c.ensure(accepted(&circ, &proof, &own), "true-statement-refused", || what(json!("refused")));
        let pl = places(pubs); par(pl.len() * 3, |m| { let (j, t) = (pl[m / 3], m % 3); let mut i = wit[1..=pubs].to_vec(); match t { 0 => i[j] = f.add(&i[j], &U::ONE), 1 => i[j] = U::ZERO, _ => i.swap(j, (j + 1) % pubs) } if i[..] == wit[1..=pubs] { return } c.states(1); c.steps(1); c.traces(1); if accepted(&circ, &proof, &be(&i)) { c.fail("other-input-accepted-large", what(json!({"input": j, "change": t}))) } });
        let pl: Vec<usize> = places(w as usize).into_iter().step_by(5).collect(); par(pl.len(), |m| { let mut x = wit.clone(); x[pl[m]] = f.add(&x[pl[m]], &U::ONE); c.states(1); c.steps(1); c.traces(1); getrandom::set_seed(3); for i in [own.clone(), be(&x[1..=pubs])] { if prove(&circ, &wtns(&x), &i).is_ok_and(|p| accepted(&circ, &p, &i) || accepted(&circ, &p, &own)) { c.fail("false-statement-accepted-large", what(json!({"wire": pl[m]}))) } } });
    });
    // another circuit, an altered proof
    c.bound("every single change of the circuit (coefficient, wire, constraint left out, repeated, added, order, number of public wires); every byte of the proof changed (thorough: in three ways), truncations (thorough: every one); malformed witness files");
    let w = &ws[0]; let own = be(&w[1..4]); getrandom::set_seed(4); let proof = prove(&circ, &wtns(w), &own).unwrap_or_default();
    c.ensure(accepted(&circ, &proof, &own), "true-statement-refused", || json!("base"));
    let mut others: Vec<(String, Circuit, usize)> = vec![];
    for (ci, con) in k3.cons.iter().enumerate() { for (li, lc) in con.iter().enumerate() { for (ti, (wire, x)) in lc.iter().enumerate() {
        let mut put = |name: &str, t: (u32, U)| { let mut k = k3.clone(); k.cons[ci][li][ti] = t; if k != k3 { others.push((format!("{name} {ci}.{li}.{ti}"), k, 3)) } };
        put("coefficient", (*wire, f.add(x, &U::ONE))); put("coefficient", (*wire, f.neg(x))); put("wire", ((wire + 1) % 6, *x)); put("wire", (0, *x)); put("coefficient", (*wire, U::ZERO)) }
        let mut k = k3.clone(); k.cons[ci][li].push((5, U::ONE)); others.push((format!("term {ci}.{li}"), k, 3)) }
        let mut k = k3.clone(); k.cons.remove(ci); others.push((format!("left out {ci}"), k, 3)); let mut k = k3.clone(); k.cons.push(con.clone()); others.push((format!("repeated {ci}"), k, 3)); let mut k = k3.clone(); k.cons.swap(ci, (ci + 1) % 3); others.push((format!("order {ci}"), k, 3)) }
    for n in [0, 1, 2, 4, 5] { others.push((format!("public {n}"), k3.clone(), n)) }
    par(others.len(), |n| { let (name, k, pubs) = &others[n]; c.states(1); c.steps(1); c.traces(1); let Ok(i) = convert(k, *pubs) else { return }; let b = bincode::serialize(&i).unwrap();
        for claim in [own.clone(), be(&w[1..=*pubs.min(&5)])] { if accepted(&b, &proof, &claim) { c.fail("other-circuit-accepted", json!(name)) } } });
    par(proof.len(), |p| { let xs: &[u8] = if th { &[1, 0x80, 0xff] } else { &[1] }; c.states(xs.len() as u64); c.steps(xs.len() as u64); c.traces(xs.len() as u64);
        for x in xs { let mut v = proof.clone(); v[p] ^= x; if accepted(&circ, &v, &own) { c.fail("altered-proof-accepted", json!({"byte": p, "xor": x})) } }
        if (th || p % 16 == 0) && accepted(&circ, &proof[..p], &own) { c.fail("cut-proof-accepted", json!(p)) } });
    // nothing is remembered from a call on neighbouring data
    { let ser = |k: &Circuit, n: usize| convert(k, n).ok().map(|i| bincode::serialize(&i).unwrap());
        let mut it: Vec<(Vec<u8>, Vec<u8>, Vec<u8>, bool)> = vec![(circ.clone(), proof.clone(), own.clone(), true)];
        for (_, k, n) in &others { if let Some(b) = ser(k, *n) { if *n == 3 { it.push((b, proof.clone(), own.clone(), false)) } } }
        for p in places(proof.len()).into_iter().chain((0..proof.len()).step_by(if th { 3 } else { 23 })) { let mut v = proof.clone(); v[p] ^= 1; it.push((circ.clone(), v, own.clone(), false)) }
        for p in 0..own.len() { let mut v = own.clone(); v[p] ^= 1; it.push((circ.clone(), proof.clone(), v, false)) }
        for s in 0..3u64 { getrandom::set_seed(40 + s); it.push((circ.clone(), prove(&circ, &wtns(w), &own).unwrap_or_default(), own.clone(), true)) }
        c.bound(&format!("{} calls of verify that differ in one wire, coefficient or constraint of the circuit, one byte of the proof or of the inputs, the accepted one in between each two", it.len()));
        neighbours(c, "verdict-after-another", &it, |(k, p, i, _)| accepted(k, p, i), |x| x.3);
        // circuits of one size, out = m * a * b + hidden^2, and their witnesses
        let fam = |m: u64| { let mut k = shape(3, 1); k.cons[1][0][0].1 = U::from(m); k }; let fw = |m: u64, h: U| { let mut x = wit(U::from(2), U::from(5), h); x[1] = f.add(&f.mul(&U::from(10), &U::from(m)), &f.sq(&h)); x };
        // the first one as long as some of the others
        let long: Vec<usize> = (0..200).map(|m| ser(&fam(m), 3).map_or(0, |b| b.len())).collect(); let alike = |m: u64| (2..200u64).filter(|k| *k != m && long[*k as usize] == long[m as usize]).collect::<Vec<_>>(); let m0 = (2..200).find(|m| alike(*m).len() > 2).unwrap_or(2); let mut ms = vec![1u64, 1 << 40]; ms.extend(alike(m0).into_iter().take(3)); c.part("circuits as long as the first", ms.len() as u64 - 2);
        let mut it: Vec<(u64, Vec<U>, Vec<U>, bool)> = vec![]; let b = fw(m0, U::from(3)); it.push((m0, b.clone(), b[1..4].to_vec(), true));
        for &m in &ms { let x = fw(m, U::from(3)); it.push((m, x.clone(), x[1..4].to_vec(), true)); it.push((m, b.clone(), b[1..4].to_vec(), false)); it.push((m0, x.clone(), x[1..4].to_vec(), false)) }
        for h in [f.neg(&U::from(3)), U::from(4), U::ZERO] { let x = fw(m0, h); it.push((m0, x.clone(), x[1..4].to_vec(), true)); it.push((m0, x, b[1..4].to_vec(), h == f.neg(&U::from(3)))) }
        for j in 0..6 { for d in [U::ONE, U::ONE.shl(64).0, U::ONE.shl(192).0, big()] { let mut x = b.clone(); x[j] = f.add(&x[j], &d); it.push((m0, x.clone(), b[1..4].to_vec(), false)); if (1..4).contains(&j) { it.push((m0, b.clone(), x[1..4].to_vec(), false)); it.push((m0, x.clone(), x[1..4].to_vec(), false)) } } }
        let ks: std::collections::BTreeMap<u64, Vec<u8>> = ms.iter().chain([&m0]).map(|m| (*m, ser(&fam(*m), 3).unwrap_or_default())).collect();
        c.bound(&format!("{} calls of prove and verify that differ in one coefficient of the circuit, one wire of the witness or one public input, a good one in between each two", it.len()));
        neighbours(c, "proof-after-another", &it, |(m, w, i, _)| prove(&ks[m], &wtns(w), &be(i)).is_ok_and(|p| accepted(&ks[m], &p, &be(i))), |x| x.3); }
    // witness bytes: little-endian, and malformed files abort
    for cut in 0..wtns(w).len() { c.states(1); let r = prove(&circ, &wtns(w)[..cut], &own); c.ensure(r.is_err(), "cut-witness-proved", || json!(cut)); }
    for n in 0..2 { for x in if n == 0 { vec![w[..5].to_vec(), w[..1].to_vec(), vec![]] } else { vec![[w.clone(), vec![U::ONE; 3]].concat()] } { getrandom::set_seed(6); let r = prove(&circ, &wtns(&x), &own); c.states(1); c.ensure(!r.is_ok_and(|p| accepted(&circ, &p, &own)), "other-witness-length-accepted", || json!(x.len())); } }
}
