//! Every single alteration of a serialized proof (a JSON tree whose leaves are
//! scalars: arrays of 32 bytes, little-endian; and points: compressed hex strings).
use crate::{big::*, ec::*, json, Value};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Step { K(String), I(usize) }
pub type Path = Vec<Step>;
pub fn show_path(p: &Path) -> String { p.iter().map(|s| match s { Step::K(k) => k.clone(), Step::I(i) => i.to_string() }).collect::<Vec<_>>().join(".") }
/// The path without its list positions: names the kind of element.
pub fn class(p: &Path) -> String { p.iter().map(|s| match s { Step::K(k) => k.clone(), Step::I(_) => "_".into() }).collect::<Vec<_>>().join(".") }
pub fn get<'a>(v: &'a Value, p: &[Step]) -> Option<&'a Value> { let mut v = v; for s in p { v = match s { Step::K(k) => v.get(k)?, Step::I(i) => v.get(i)? } } Some(v) }
pub fn get_mut<'a>(v: &'a mut Value, p: &[Step]) -> &'a mut Value { let mut v = v; for s in p { v = match s { Step::K(k) => &mut v[k.as_str()], Step::I(i) => &mut v[*i] } } v }
pub fn is_scalar(v: &Value) -> bool { v.as_array().map_or(false, |a| a.len() == 32 && a.iter().all(|x| x.as_u64().map_or(false, |n| n < 256))) }
pub fn is_point(v: &Value) -> bool { v.as_str().map_or(false, |s| s.len() % 2 == 0 && !s.is_empty() && s.chars().all(|c| c.is_ascii_hexdigit())) }
pub fn to_u(v: &Value) -> U { U::from_le(&v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect::<Vec<_>>()) }
pub fn from_u(u: &U) -> Value { json!(u.le().to_vec()) }
pub fn dec_pt(v: &Value, f: &Fp) -> Pt {
    let s = v.as_str().unwrap();
    if s == "00" { return None }
    let x = U::from_hex(&s[2..].to_lowercase());
    let y = f.sqrt(&f.add(&f.mul(&f.sq(&x), &x), &U::from(7)))?;
    Some((x, if y.odd() == s.starts_with("03") { y } else { f.neg(&y) }))
}
pub fn enc_pt(p: &Pt) -> Value { match p { None => json!("00"), Some((x, y)) => json!(format!("0{}{}", if y.odd() { 3 } else { 2 }, x.hex()).to_uppercase()) } }

pub struct Node { pub path: Path, pub kind: Kind }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Scalar, Point, List, Obj, Other }
pub fn walk(v: &Value) -> Vec<Node> {
    fn go(v: &Value, p: &mut Path, out: &mut Vec<Node>) {
        let kind = if is_scalar(v) { Kind::Scalar } else if is_point(v) { Kind::Point } else if v.is_array() { Kind::List } else if v.is_object() { Kind::Obj } else { Kind::Other };
        out.push(Node { path: p.clone(), kind });
        match kind {
            Kind::List => for (i, x) in v.as_array().unwrap().iter().enumerate() { p.push(Step::I(i)); go(x, p, out); p.pop(); },
            Kind::Obj => for (k, x) in v.as_object().unwrap() { p.push(Step::K(k.clone())); go(x, p, out); p.pop(); },
            _ => {}
        }
    }
    let mut out = vec![]; go(v, &mut vec![], &mut out); out
}
pub fn leaves(v: &Value, k: Kind) -> Vec<Path> { walk(v).into_iter().filter(|n| n.kind == k).map(|n| n.path).collect() }

pub struct Mut { pub what: &'static str, pub path: Path, pub to: Value }
/// All alterations of `v`. `donors`: other valid proofs; every subtree at an equal path is exchanged.
/// `swaps`: also exchange every pair of leaves of equal kind.
pub fn mutations(v: &Value, donors: &[Value], swaps: bool) -> Vec<Mut> {
    let f = Fp::fast(Q); let fp = Fp::fast(P);
    let nodes = walk(v);
    let mut out: Vec<Mut> = vec![];
    let put = |out: &mut Vec<Mut>, what: &'static str, path: &Path, new: Value| { let mut w = v.clone(); *get_mut(&mut w, path) = new; if &w != v { out.push(Mut { what, path: path.clone(), to: w }) } };
    let (sc, pt): (Vec<_>, Vec<_>) = (leaves(v, Kind::Scalar), leaves(v, Kind::Point));
    for n in &nodes {
        let cur = get(v, &n.path).unwrap();
        match n.kind {
            Kind::Scalar => {
                let x = to_u(cur);
                for (w, y) in [("plus-one", fp.add(&x, &U::ONE)), ("minus-one", fp.sub(&x, &U::ONE)), ("negated", fp.neg(&x)), ("zero", U::ZERO), ("one", U::ONE), ("doubled", fp.add(&x, &x))] { put(&mut out, w, &n.path, from_u(&y)) }
                let mut b = x; b.0[3] ^= 1 << 63; if b < P { put(&mut out, "top-bit", &n.path, from_u(&b)) }
                let i = sc.iter().position(|p| *p == n.path).unwrap();
                put(&mut out, "other-scalar", &n.path, get(v, &sc[(i + 1) % sc.len()]).unwrap().clone());
            }
            Kind::Point => {
                let p = dec_pt(cur, &f);
                for (w, q) in [("negated", rneg(&f, &p)), ("identity", None), ("generator", gen()), ("plus-generator", radd(&f, &p, &gen())), ("doubled", radd(&f, &p, &p))] { put(&mut out, w, &n.path, enc_pt(&q)) }
                put(&mut out, "off-curve", &n.path, { let mut x = U::from(1); while f.is_square(&f.add(&f.mul(&f.sq(&x), &x), &U::from(7))) { x = x.add(&U::ONE).0 } json!(format!("02{}", x.hex()).to_uppercase()) });
                let i = pt.iter().position(|p| *p == n.path).unwrap();
                put(&mut out, "other-point", &n.path, get(v, &pt[(i + 1) % pt.len()]).unwrap().clone());
            }
            Kind::List => {
                let a = cur.as_array().unwrap();
                if !a.is_empty() {
                    put(&mut out, "drop-last", &n.path, json!(a[..a.len() - 1]));
                    put(&mut out, "drop-first", &n.path, json!(a[1..]));
                    put(&mut out, "emptied", &n.path, json!([]));
                    put(&mut out, "append-last", &n.path, { let mut b = a.clone(); b.push(a[a.len() - 1].clone()); json!(b) });
                    put(&mut out, "append-first", &n.path, { let mut b = a.clone(); b.push(a[0].clone()); json!(b) });
                    put(&mut out, "prepend", &n.path, { let mut b = a.clone(); b.insert(0, a[0].clone()); json!(b) });
                    if is_scalar(&a[0]) || is_point(&a[0]) { for (w, x) in if is_scalar(&a[0]) { [("append-zero", from_u(&U::ZERO)), ("append-one", from_u(&U::ONE))] } else { [("append-identity", json!("00")), ("append-generator", enc_pt(&gen()))] } { put(&mut out, w, &n.path, { let mut b = a.clone(); b.push(x); json!(b) }) } }
                    put(&mut out, "doubled-list", &n.path, { let mut b = a.clone(); b.extend(a.clone()); json!(b) });
                }
                for i in 1..a.len() { put(&mut out, "swap-adjacent", &n.path, { let mut b = a.clone(); b.swap(i - 1, i); json!(b) }) }
                put(&mut out, "reversed", &n.path, { let mut b = a.clone(); b.reverse(); json!(b) });
            }
            _ => {}
        }
        // neighbours: moving elements between sibling lists keeps their concatenation
        if matches!(n.kind, Kind::List | Kind::Obj) {
            let kids: Vec<Path> = match n.kind { Kind::List => (0..cur.as_array().unwrap().len()).map(|i| { let mut p = n.path.clone(); p.push(Step::I(i)); p }).collect(), _ => cur.as_object().unwrap().keys().map(|k| { let mut p = n.path.clone(); p.push(Step::K(k.clone())); p }).collect() };
            let lists: Vec<&Path> = kids.iter().filter(|p| { let x = get(v, p).unwrap(); x.is_array() && !is_scalar(x) }).collect();
            for (i, a) in lists.iter().enumerate() { for b in &lists[i + 1..] {
                let (la, lb) = (get(v, a).unwrap().as_array().unwrap().clone(), get(v, b).unwrap().as_array().unwrap().clone());
                let two = |x: Vec<Value>, y: Vec<Value>| { let mut w = v.clone(); *get_mut(&mut w, a) = json!(x); *get_mut(&mut w, b) = json!(y); w };
                for k in 1..=la.len() { let mut y = la[la.len() - k..].to_vec(); y.extend(lb.clone()); out.push(Mut { what: "shift-right", path: (*a).clone(), to: two(la[..la.len() - k].to_vec(), y) }) }
                for k in 1..=lb.len() { let mut x = la.clone(); x.extend(lb[..k].to_vec()); out.push(Mut { what: "shift-left", path: (*a).clone(), to: two(x, lb[k..].to_vec()) }) }
                if la != lb { out.push(Mut { what: "exchange-lists", path: (*a).clone(), to: two(lb.clone(), la.clone()) }) }
                if !la.is_empty() && !lb.is_empty() {
                    out.push(Mut { what: "drop-both", path: (*a).clone(), to: two(la[..la.len() - 1].to_vec(), lb[..lb.len() - 1].to_vec()) });
                    let (mut x, mut y) = (la.clone(), lb.clone()); x.push(la[0].clone()); y.push(lb[0].clone());
                    out.push(Mut { what: "append-both", path: (*a).clone(), to: two(x, y) });
                }
            } }
        }
        if !n.path.is_empty() { for d in donors { if let Some(x) = get(d, &n.path) { put(&mut out, "from-other-proof", &n.path, x.clone()) } } }
    }
    if swaps { for l in [&sc, &pt] { for i in 0..l.len() { for j in i + 1..l.len() {
        let (a, b) = (get(v, &l[i]).unwrap().clone(), get(v, &l[j]).unwrap().clone());
        if a == b { continue }
        let mut w = v.clone(); *get_mut(&mut w, &l[i]) = b; *get_mut(&mut w, &l[j]) = a;
        out.push(Mut { what: "exchange", path: l[i].clone(), to: w });
    } } } }
    out
}
