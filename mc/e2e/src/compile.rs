//! What the circuit compiler does: numbered wires, a constraint file, witness files.
use crate::{build::{Builder, Circuit, Lc}, fd::Fd, file, lab};
use mccore::*;
use std::{collections::HashMap, sync::Arc};
/// A compiled instance: the constraint file and where each of its wires comes from.
pub struct Compiled { pub circ: Circuit, pub wires: Vec<u32>, pub r1cs: file::Circuit }
/// The compiler's simplification: signals that a constraint equates to another signal or to a constant are replaced.
struct Alias { to: Vec<u32>, fixed: HashMap<u32, U> }
impl Alias { fn find(&mut self, x: u32) -> u32 { let mut r = x; while self.to[r as usize] != r { r = self.to[r as usize] } let mut y = x; while self.to[y as usize] != r { let n = self.to[y as usize]; self.to[y as usize] = r; y = n } r } }
pub fn compile(f: &Arc<Fd>, path: &str) -> Result<Compiled, String> {
    let (circ, _) = lab::load(path).and_then(|p| Builder::main(f, &p))?;
    let mut main = circ.public.clone(); for (_, b, d) in &circ.ins { for s in *b..*b + d.iter().product::<usize>() as u32 { if !main.contains(&s) { main.push(s) } } }
    let keep: std::collections::HashSet<u32> = main.iter().copied().collect();
    let mut al = Alias { to: (0..circ.n as u32).collect(), fixed: HashMap::new() }; let linear = |c: &crate::build::Con| c.a.is_k() && c.a.k.is_zero();
    let mut gone = vec![false; circ.cons.len()];
    for (i, c) in circ.cons.iter().enumerate() {
        if !linear(c) || !c.c.k.is_zero() || c.c.t.len() != 2 || f.add(&c.c.t[0].1, &c.c.t[1].1) != U::ZERO { continue }
        let (x, y) = (al.find(c.c.t[0].0), al.find(c.c.t[1].0)); if x == y { gone[i] = true; continue }
        if !keep.contains(&x) { al.to[x as usize] = y; gone[i] = true } else if !keep.contains(&y) { al.to[y as usize] = x; gone[i] = true }
    }
    let mut number: HashMap<u32, u32> = main.iter().enumerate().map(|(i, s)| (*s, i as u32 + 1)).collect(); let mut wires = main.clone(); let mut cons = vec![];
    let mut lc = |l: &Lc, sign: bool| -> file::Lc { let mut m = std::collections::BTreeMap::<u32, U>::new(); if !l.k.is_zero() { m.insert(0, l.k); }
        for (s, v) in &l.t { let r = al.find(*s); let w = *number.entry(r).or_insert_with(|| { wires.push(r); wires.len() as u32 }); let e = m.entry(w).or_insert(U::ZERO); *e = f.add(e, v) }
        m.into_iter().filter(|x| !x.1.is_zero()).map(|(w, v)| (w, if sign { f.neg(&v) } else { v })).collect() };
    for (i, c) in circ.cons.iter().enumerate() { if gone[i] { continue } cons.push(if linear(c) { [vec![], vec![], lc(&c.c, true)] } else { [lc(&c.a, false), lc(&c.b, false), lc(&c.c, true)] }) }
    let out: usize = circ.outs.iter().map(|o| o.2.iter().product::<usize>()).sum();
    let r1cs = file::Circuit::new(wires.len() as u32 + 1, out as u32, (circ.public.len() - out) as u32, cons);
    Ok(Compiled { circ, wires, r1cs })
}
impl Compiled {
    pub fn values(&self, w: &[U]) -> Vec<U> { std::iter::once(U::ONE).chain(self.wires.iter().map(|s| w[*s as usize])).collect() }
}
