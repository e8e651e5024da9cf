//! Circuit and witness files, conversion, and the prove/verify entry points.
#[path = "/repo/packages/circuit_reader/src/circom_reader.rs"] #[allow(dead_code)] mod circom_reader;
mod file;
mod cli; mod api;
use file::*;
use mccore::*;
use std::io::{Cursor, Read, Seek, SeekFrom};
type G = secq256k1::AffinePoint;
type F = <G as group::Group>::Scalar;
/// A reader that hands out at most `1` byte, then is interrupted, then up to `n` bytes, and so on.
struct Slow { c: Cursor<Vec<u8>>, n: usize, k: u32 }
impl Read for Slow { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.k += 1; match self.k % 3 { 0 => Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "again")), 1 => { let n = b.len().min(1); self.c.read(&mut b[..n]) } _ => { let n = b.len().min(self.n); self.c.read(&mut b[..n]) } } } }
impl Seek for Slow { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.c.seek(p) } }
fn val(x: &F) -> U { U::from_le(&x.to_bytes()) }
fn con(c: &circom_reader::Constraint<F>) -> Con { let l = |v: &Vec<(usize, F)>| v.iter().map(|(w, x)| (*w as u32, val(x))).collect(); [l(&c.0), l(&c.1), l(&c.2)] }
/// The circuit that `from_reader` returns.
fn read<R: Read + Seek>(r: R) -> Result<Circuit, String> {
    guarded(|| circom_reader::from_reader::<G, R>(r).map_err(|e| e.to_string())).and_then(|x| x).map(|f| {
        let odd = f.version != 1 || f.header.field_size != 32 || f.header.prime_size != P.le() || f.header.n_constraints as usize != f.constraints.len();
        Circuit { wires: f.header.n_wires, out: f.header.n_pub_out, inp: f.header.n_pub_in, prv: f.header.n_prv_in, labels: f.header.n_labels, cons: f.constraints.iter().map(con).collect(), map: if odd { vec![u64::MAX; 99] } else { f.wire_mapping } } })
}
type Loaded = (usize, usize, usize, Vec<Con>, Vec<u64>);
fn loaded((r, m): (circom_reader::R1CS<F>, Vec<usize>)) -> Loaded { (r.num_inputs, r.num_aux, r.num_variables, r.constraints.iter().map(con).collect(), m.iter().map(|x| *x as u64).collect()) }
fn load(b: &[u8]) -> Result<Loaded, String> { guarded(|| loaded(circom_reader::load_r1cs_from_bin::<G, _>(Cursor::new(b.to_vec())))) }
fn wants(c: &Circuit) -> Option<Loaded> { let i = 1 + c.inp as u64 + c.out as u64; ((c.wires as u64) >= i).then(|| (i as usize, (c.wires as u64 - i) as usize, c.wires as usize, c.cons.clone(), c.map.clone())) }
fn check(c: &Check, b: &[u8], k: &Circuit, slow: bool) {
    c.states(1); c.traces(1); c.steps(2);
    let what = |g: String| json!({"circuit": k.show(), "file": hex(b), "got": g});
    match read(Cursor::new(b.to_vec())) { Ok(x) => { c.ensure(x == *k, "read-differs", || what(format!("{x:?}"))); } Err(e) => c.fail("refused", what(e)) }
    match load(b) { Ok(x) => { c.ensure(Some(&x) == wants(k).as_ref(), "loaded-differs", || what(format!("{x:?}"))); } Err(e) => if wants(k).is_some() { c.fail("load-refused", what(e)) } }
    if slow { for n in [2, 7] { c.steps(1); match read(Slow { c: Cursor::new(b.to_vec()), n, k: 0 }) { Ok(x) => { c.ensure(x == *k, "read-differs-slowly", || what(format!("{x:?}"))); } Err(e) => c.fail("refused-slowly", what(e)) } } }
}
pub fn hex(b: &[u8]) -> String { if b.len() > 2000 { format!("{} bytes", b.len()) } else { b.iter().map(|x| format!("{x:02x}")).collect() } }
/// All orders of the three sections with up to `extra` unknown ones anywhere.
fn layouts(k: &Circuit, extra: usize, unknown: &[(u32, Vec<u8>)]) -> Vec<Vec<(u32, Vec<u8>)>> {
    let mut out: Vec<Vec<(u32, Vec<u8>)>> = vec![vec![]];
    for t in 1..=3 { out = out.iter().flat_map(|o| (0..=o.len()).map(|i| { let mut v = o.clone(); v.insert(i, k.section(t)); v }).collect::<Vec<_>>()).collect() }
    let mut all = out.clone();
    for _ in 0..extra { out = out.iter().flat_map(|o| (0..=o.len()).flat_map(|i| unknown.iter().map(move |u| (i, u)).collect::<Vec<_>>()).map(|(i, u)| { let mut v = o.clone(); v.insert(i, u.clone()); v }).collect::<Vec<_>>()).collect(); all.extend(out.clone()) }
    all
}
fn lcs(wires: u32, els: &[U]) -> Vec<Lc> {
    let w = wires; let e = |i: usize| els[i % els.len()];
    vec![vec![], vec![(0, e(1))], vec![(w - 1, e(3))], vec![(0, e(4)), (w - 1, e(6))], vec![(w - 1, e(2)), (0, e(0)), (w / 2, e(9))], vec![(0, e(1)), (0, e(1))]]
}
fn d01(c: &Check) {
    let th = c.thorough(); let els = elements(th);
    // shapes
    let mw = if th { 6 } else { 4 }; let mc = 2;
    c.bound(&format!("all files with up to {mw} wires, every split into public and private ones, up to {mc} constraints over 6 forms of linear combination each; read as a whole, byte by byte and with interruptions"));
    let heads: Vec<(u32, u32, u32)> = (1..=mw).flat_map(|w| (0..w).flat_map(move |o| (0..w - o).map(move |i| (w, o, i)))).collect();
    par(heads.len(), |n| { let (w, o, i) = heads[n]; let l = lcs(w, &els);
        for nc in 0..=mc { for t in tuples(l.len(), 3 * nc.min(1)) { for second in if nc == 2 { 0..l.len() } else { 0..1 } {
            let mut cons = vec![]; if nc > 0 { cons.push([l[t[0]].clone(), l[t[1]].clone(), l[t[2]].clone()]) } if nc > 1 { cons.push([l[second].clone(), l[t[0]].clone(), l[(second + t[1]) % l.len()].clone()]) }
            let mut k = Circuit::new(w, o, i, cons);
            if t.first() == Some(&2) { k.labels = u64::MAX; k.prv = u32::MAX; for m in k.map.iter_mut().skip(1) { *m = u64::MAX - *m } }
            let b = k.bytes(); check(c, &b, &k, nc == 1 && t[2] == 3) } } } });
    // values
    let full = elements(true);
    c.bound("every element of an alphabet of extreme encodings, including one and 255 at every byte position, as every coefficient of a constraint");
    par(full.len(), |n| { for pos in 0..3 { let mut k = Circuit::new(3, 1, 1, vec![[vec![(0, U::ONE)], vec![(1, U::from(5))], vec![(2, U::ONE)]]]); k.cons[0][pos].push((2, full[n])); k.cons[0][pos].push((1, full[(n + 7) % full.len()])); let b = k.bytes(); check(c, &b, &k, true) } });
    // layouts
    let k = Circuit::new(3, 1, 1, vec![[vec![(0, U::ONE)], vec![(1, els[3])], vec![(2, els[6]), (0, els[9])]], [vec![], vec![(2, els[1])], vec![]]]);
    let body = k.body(); let head = k.header();
    let unknown = vec![(0, vec![]), (4, vec![0xff; 12]), (5, head), (u32::MAX, body), (6, vec![0; 1])];
    let ls = layouts(&k, if th { 3 } else { 2 }, &unknown);
    c.bound(&format!("all orders of the sections with up to {} unknown ones at every place, out of {} (empty, short, and with the content of known sections)", if th { 3 } else { 2 }, unknown.len()));
    par(ls.len(), |n| check(c, &file(&ls[n]), &k, n % 16 == 0));
    // sizes beyond one and two bytes
    let ls: Vec<u32> = lengths(if th { 1025 } else { 300 }).into_iter().filter(|n| *n > 5).map(|n| n as u32).chain(if th { vec![65535, 65536, 70000] } else { vec![1025, 5000] }).collect();
    c.bound("files with every number up to 70, and then every power of two and its neighbours up to hundreds (some: thousands; thorough: tens of thousands), of constraints, terms and wires");
    par(ls.len(), |i| { let n = ls[ls.len() - 1 - i];
        let cons: Vec<Con> = (0..n).map(|i| [vec![(i % n, full[i as usize % full.len()])], vec![], vec![(0, U::ONE)]]).collect(); let k = Circuit::new(n, 3, 2, cons); check(c, &k.bytes(), &k, n < 300);
        let long: Lc = (0..n).map(|i| (i, full[i as usize % full.len()])).collect(); let k = Circuit::new(n, n / 2, 2, vec![[vec![], long.clone(), long]]); check(c, &k.bytes(), &k, n < 300);
        let mut k = Circuit::new(1, 0, 0, vec![Default::default(); n as usize]); k.inp = 0; check(c, &k.bytes(), &k, false) });
    // many sections, and long unknown ones
    for n in [10, 100, 1000] { let mut l: Vec<(u32, Vec<u8>)> = (0..n).map(|i| (4 + i as u32, vec![i as u8; i % 40])).collect(); for t in 1..=3 { let at = n * (4 - t as usize) / 4; l.insert(at, k.section(t)) } check(c, &file(&l), &k, n == 100); let mut l = vec![(9, vec![2; n * n])]; l.extend((1..=3).map(|t| k.section(t))); check(c, &file(&l), &k, false) }
    // through the file system
    let dir = api::scratch(); let p = dir.join("c.r1cs"); std::fs::write(&p, k.bytes()).unwrap();
    c.ensure(guarded(|| loaded(circom_reader::load_r1cs_from_bin_file::<G>(&p))).ok() == wants(&k), "file-differs", || k.show());
    std::fs::remove_dir_all(&dir).ok();
}
/// A possibly malformed file: whatever is returned is what the bytes mean.
fn misread(c: &Check, b: &[u8], how: &dyn Fn() -> Value) {
    c.states(1); c.steps(2);
    let m = meaning(b);
    match (&m, read(Cursor::new(b.to_vec()))) {
        (Meaning::Ambiguous, _) | (_, Err(_)) => {}
        (Meaning::Malformed, Ok(x)) => c.fail("malformed-accepted", json!({"alteration": how(), "file": hex(b), "got": x.show()})),
        (Meaning::Is(k), Ok(x)) => { c.traces(1); c.ensure(x == *k, "misread", || json!({"alteration": how(), "file": hex(b), "got": x.show()})); }
    }
    match (&m, load(b)) {
        (Meaning::Ambiguous, _) | (_, Err(_)) => {}
        (Meaning::Malformed, Ok(x)) => c.fail("malformed-loaded", json!({"alteration": how(), "file": hex(b), "got": format!("{x:?}")})),
        (Meaning::Is(k), Ok(x)) => { c.ensure(Some(&x) == wants(k).as_ref(), "misloaded", || json!({"alteration": how(), "file": hex(b), "got": format!("{x:?}")})); }
    }
}
fn wit(b: &[u8]) -> Result<Vec<U>, String> { guarded(|| spartan_wasm::wasm::load_witness_from_bin_reader::<F, _>(b).map_err(|e| e.to_string())).and_then(|x| x).map(|v| v.iter().map(val).collect()) }
fn wit_slow(b: &[u8], n: usize) -> Result<Vec<U>, String> { guarded(|| spartan_wasm::wasm::load_witness_from_bin_reader::<F, _>(Slow { c: Cursor::new(b.to_vec()), n, k: 0 }).map_err(|e| e.to_string())).and_then(|x| x).map(|v| v.iter().map(val).collect()) }
fn miswit(c: &Check, b: &[u8], must: bool, how: &dyn Fn() -> Value) {
    c.states(1); c.steps(1);
    match (witness_meaning(b), wit(b)) {
        (None, Ok(x)) => c.fail("malformed-witness-accepted", json!({"alteration": how(), "file": hex(b), "got": format!("{x:?}")})),
        (Some(m), Ok(x)) => { c.traces(1); c.ensure(m == x, "witness-misread", || json!({"alteration": how(), "file": hex(b), "got": format!("{x:?}")})); }
        (Some(_), Err(e)) if must => c.fail("witness-refused", json!({"alteration": how(), "file": hex(b), "got": e})),
        _ => {}
    }
}
fn d02(c: &Check) {
    let th = c.thorough(); let els = elements(false);
    let a = Circuit::new(1, 0, 0, vec![]); let b = Circuit::new(3, 1, 1, vec![[vec![(0, U::ONE)], vec![(1, els[3])], vec![(2, els[6]), (0, els[9])]], [vec![], vec![(2, els[1])], vec![]]]);
    let d = Circuit::new(4, 2, 1, vec![[vec![(3, U::from(7))], vec![(2, els[4]), (1, els[7])], vec![(0, els[5])]]]);
    let mut bases: Vec<Vec<u8>> = vec![a.bytes(), b.bytes(), d.bytes(), file(&[(7, vec![0; 20]), b.section(3), b.section(2), (9, vec![0xaa; 9]), b.section(1)]), file(&[d.section(2), d.section(1), d.section(3), (4, vec![1, 0, 0, 0])])];
    bases.extend(layouts(&b, if th { 1 } else { 0 }, &[(0, vec![0; 40]), (8, b.section(2).1)]).iter().map(|l| file(l)));
    c.bound("circuit files: every truncation; every byte set to every other value; every pair of a count or size field with one of its extreme values and another such; every one of its three sections left out, emptied, shortened, lengthened; over several layouts");
    let jobs: Vec<(usize, usize)> = bases.iter().enumerate().flat_map(|(i, b)| (0..b.len()).map(move |p| (i, p))).collect();
    par(jobs.len(), |n| { let (i, p) = jobs[n]; let base = &bases[i];
        misread(c, &base[..p], &|| json!({"base": i, "cut at": p}));
        for v in 0..=255u8 { if v == base[p] { continue } let mut x = base.clone(); x[p] = v; misread(c, &x, &|| json!({"base": i, "byte": p, "to": v})) }
        // a byte more, a byte less
        let mut x = base.clone(); x.insert(p, 0); misread(c, &x, &|| json!({"base": i, "inserted at": p})); let mut x = base.clone(); x.remove(p); misread(c, &x, &|| json!({"base": i, "removed": p}));
        // four and eight aligned bytes to extremes
        if p + 8 <= base.len() { for w in [4usize, 8] { for v in [0u64, 1, 2, 3, 1 << 16, (1 << 31) - 1, 1 << 31, u32::MAX as u64, u64::MAX - 11, u64::MAX - 23, u64::MAX, 1 << 63, (base.len() as u64).wrapping_neg(), (p as u64 + 8).wrapping_neg()] { let mut x = base.clone(); x[p..p + w].copy_from_slice(&v.to_le_bytes()[..w]); misread(c, &x, &|| json!({"base": i, "word at": p, "bytes": w, "to": v})) } } }
    });
    // non-canonical values and other fields
    let bad: Vec<[u8; 32]> = { let mut v: Vec<[u8; 32]> = [U::ZERO, U::ONE, U::from(2), U::from(1 << 32)].iter().map(|x| P.add(x).0.le()).collect(); v.push([0xff; 32]); v.push(Q.le()); let mut x = P.le(); x.reverse(); v.push(x); for k in 0..8 { let mut y = [0xff; 32]; y[k] = 0x30; v.push(y) } v };
    c.bound("every value outside the field out of an alphabet at every coefficient and every witness place; every other modulus out of an alphabet");
    for (i, base) in bases.iter().enumerate() { for p in 0..base.len().saturating_sub(31) { for y in &bad { let mut x = base.clone(); x[p..p + 32].copy_from_slice(y); misread(c, &x, &|| json!({"base": i, "value at": p, "to": hex(y)})) } } }
    // at scale: the one bad place anywhere in a long list
    c.bound(&format!("lists of up to {} constraints, terms, wires and witness values: one wire beyond the last, one value outside the field, one byte cut off, at each place (all of up to 70, beyond these the ends and powers of two)", if th { 4097 } else { 1025 }));
    let ls = lengths(if th { 4097 } else { 1025 }); let base: Vec<U> = elements(true);
    par(ls.len(), |i| { let n = ls[ls.len() - 1 - i]; if n == 0 { return }
        for at in places(n) { if n > 70 && !th && at % 3 == 1 { continue }
            let term = |x: usize, bad: usize| -> Lc { vec![((x as u32 % 5) + if bad == 1 { 5 } else { 0 }, if bad == 2 { P } else { base[x % base.len()] })] };
            for bad in [1, 2] {
                let long: Lc = (0..n).flat_map(|j| term(j, if j == at { bad } else { 0 })).collect(); for side in 0..3 { let mut con: Con = Default::default(); con[side] = long.clone(); let b = Circuit::new(5, 1, 1, vec![con]).bytes(); misread(c, &b, &|| json!({"terms": n, "bad": bad, "at": at, "side": side})) }
                let cons: Vec<Con> = (0..n).map(|j| [term(j, 0), term(j + 1, if j == at { bad } else { 0 }), term(j + 2, 0)]).collect(); let b = Circuit::new(5, 1, 1, cons).bytes(); misread(c, &b, &|| json!({"constraints": n, "bad": bad, "at": at}));
            }
            let mut v: Vec<U> = (0..n).map(|j| base[j % base.len()]).collect(); miswit(c, &wtns(&v), true, &|| json!({"values": n})); let w = wtns(&v); miswit(c, &w[..76 + 32 * at], false, &|| json!({"values": n, "cut to": at})); miswit(c, &w[..76 + 32 * at + 31], false, &|| json!({"values": n, "cut after": at}));
            v[at] = P; miswit(c, &wtns(&v), false, &|| json!({"values": n, "outside the field": at})); v[at] = U::MAX; miswit(c, &wtns(&v), false, &|| json!({"values": n, "outside the field": at}));
        }
        // shorter than the header says
        let k = Circuit::new(n as u32, 0, 0, (0..n.min(300)).map(|j| [vec![(j as u32, U::ONE)], vec![], vec![]]).collect()); for t in 1..=3 { let mut s: Vec<_> = (1..=3).map(|t| k.section(t)).collect(); let l = s[t - 1].1.len(); for cut in [1, 8, 36, l / 2] { if cut <= l { s[t - 1].1.truncate(l - cut); misread(c, &file(&s), &|| json!({"wires": n, "section": t, "shortened": cut})) } } }
    });
    // sections
    for k in [&a, &b, &d] { let s: Vec<_> = (1..=3).map(|t| k.section(t)).collect();
        for m in 0..8u32 { let l: Vec<_> = s.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| x.1.clone()).collect(); misread(c, &file(&l), &|| json!({"sections": m}));
            for i in 0..l.len() { for cut in [0, 1, 4, 8, 32, 36] { let mut l = l.clone(); let n = l[i].1.len(); l[i].1.truncate(n.saturating_sub(cut.max(1))); misread(c, &file(&l), &|| json!({"sections": m, "shortened": i})); let mut l2 = l.clone(); l2[i].1.clear(); misread(c, &file(&l2), &|| json!({"sections": m, "emptied": i})); }
                for add in [1, 4, 8, 12, 32, 36, 64] { let mut l = l.clone(); l[i].1.extend(vec![0u8; add]); misread(c, &file(&l), &|| json!({"sections": m, "lengthened": i, "by": add})) } } }
        for x in tuples(5, 4) { let mut k = k.clone(); let e = [0u32, 1, 3, 1 << 31, u32::MAX]; k.wires = e[x[0]]; k.out = e[x[1]]; k.inp = e[x[2]]; k.prv = e[x[3]]; misread(c, &k.bytes(), &|| json!({"header": format!("{k:?}")})) } }
    // witness files
    let ws: Vec<Vec<u8>> = [0, 1, 2, 4].iter().map(|n| wtns(&els.iter().skip(3).take(*n).copied().collect::<Vec<_>>())).collect();
    c.bound("witness files of up to four values: every truncation, every byte set to every other value, every word to extremes, a byte more or less anywhere; and every element of the alphabet read back, also byte by byte");
    for (i, base) in ws.iter().enumerate() { miswit(c, base, true, &|| json!({"base": i}));
        par(base.len(), |p| {
            miswit(c, &base[..p], false, &|| json!({"base": i, "cut at": p}));
            for v in 0..=255u8 { if v == base[p] { continue } let mut x = base.clone(); x[p] = v; miswit(c, &x, p >= 76, &|| json!({"base": i, "byte": p, "to": v})) }
            let mut x = base.clone(); x.insert(p, 0); miswit(c, &x, false, &|| json!({"base": i, "inserted at": p})); let mut x = base.clone(); x.remove(p); miswit(c, &x, false, &|| json!({"base": i, "removed": p}));
            for w in [4usize, 8] { if p + w <= base.len() { for v in [0u64, 1, 2, 3, 1 << 27, (1 << 27) + 1, 1 << 31, u32::MAX as u64, u64::MAX, 64, 1 << 32] { let mut x = base.clone(); x[p..p + w].copy_from_slice(&v.to_le_bytes()[..w]); miswit(c, &x, false, &|| json!({"base": i, "word at": p, "bytes": w, "to": v})) } } }
            if p + 32 <= base.len() { for y in &bad { let mut x = base.clone(); x[p..p + 32].copy_from_slice(y); miswit(c, &x, false, &|| json!({"base": i, "value at": p, "to": hex(y)})) } }
        }) }
    let full = elements(true); let w = wtns(&full); c.traces(3);
    for r in [wit(&w), wit_slow(&w, 3), wit_slow(&w, 32)] { c.ensure(r.as_ref() == Ok(&full), "witness-read-differs", || json!(format!("{r:?}"))); }
    for n in if th { vec![255, 256, 257, 65537] } else { vec![255, 257] } { let v: Vec<U> = (0..n).map(|i| full[i % full.len()]).collect(); c.ensure(wit(&wtns(&v)).as_ref() == Ok(&v), "witness-read-differs", || json!(n)); c.states(1) }
}
fn main() { mccore::main_with(&[("D01", d01), ("D02", d02), ("D03", api::d03), ("D04", api::d04), ("D05", cli::d05)]) }
