//! Constraint systems as the user states them, with their meaning on integers.
use libspartan::{Instance, InputsAssignment, VarsAssignment};
use mccore::*;
use std::collections::BTreeMap;
pub type Entry = (usize, usize, U);
#[derive(Clone, Debug)]
pub struct Spec { pub nc: usize, pub nv: usize, pub ni: usize, pub m: [Vec<Entry>; 3] }
pub fn fp() -> Fp { Fp::fast(P) }
pub fn bytes(m: &[Entry]) -> Vec<(usize, usize, [u8; 32])> { m.iter().map(|(r, c, v)| (*r, *c, v.le())).collect() }
pub fn assign(v: &[U]) -> VarsAssignment { VarsAssignment::new(&v.iter().map(|x| x.le()).collect::<Vec<_>>()).ok().expect("canonical values") }
impl Spec {
    pub fn build(&self) -> Result<Instance, String> {
        guarded(|| Instance::new(self.nc, self.nv, self.ni, &bytes(&self.m[0]), &bytes(&self.m[1]), &bytes(&self.m[2])).map_err(|e| format!("{e:?}"))).and_then(|x| x)
    }
    /// z = vars, 1, inputs; missing variables are zero.
    pub fn z(&self, vars: &[U], ins: &[U]) -> Vec<U> { let mut z: Vec<U> = (0..self.nv).map(|i| vars.get(i).copied().unwrap_or(U::ZERO)).collect(); z.push(U::ONE); z.extend(ins); z }
    pub fn sat(&self, vars: &[U], ins: &[U]) -> bool {
        let f = fp(); let z = self.z(vars, ins);
        let mut s = vec![[U::ZERO; 3]; self.nc];
        for k in 0..3 { for (r, c, v) in &self.m[k] { s[*r][k] = f.add(&s[*r][k], &f.mul(v, &z[*c])) } }
        s.iter().all(|x| f.mul(&x[0], &x[1]) == x[2])
    }
    /// What the instance means: padded sizes and summed coefficients.
    pub fn meaning(&self) -> (usize, usize, usize, [BTreeMap<(usize, usize), U>; 3]) {
        let f = fp(); let nvp = self.nvp();
        let g = |m: &Vec<Entry>| { let mut b = BTreeMap::new(); for (r, c, v) in m { let c = if *c >= self.nv { c - self.nv + nvp } else { *c }; let e = b.entry((*r, c)).or_insert(U::ZERO); *e = f.add(e, v) } b.retain(|_, v| !v.is_zero()); b };
        (self.nc.max(2).next_power_of_two(), nvp, self.ni, [g(&self.m[0]), g(&self.m[1]), g(&self.m[2])])
    }
    pub fn nvp(&self) -> usize { self.nv.max(self.ni + 1).next_power_of_two() }
    pub fn nz(&self) -> usize { self.m.iter().map(|x| x.len()).max().unwrap() }
    pub fn show(&self) -> Value { json!({"constraints": self.nc, "variables": self.nv, "inputs": self.ni, "A": format!("{:?}", self.m[0]), "B": format!("{:?}", self.m[1]), "C": format!("{:?}", self.m[2])}) }
    pub fn shape(&self) -> String { format!("{}x{}x{}", self.nc, self.nv, self.ni) }
}
pub const PATTERNS: usize = 5;
pub const ASSIGNS: usize = 4;
pub fn values(n: usize, which: usize, off: usize) -> Vec<U> {
    (0..n).map(|i| { let i = i + off; match which { 0 => U::ZERO, 1 => U::from([2, 3, 5, 7, 11, 13, 17, 19, 23, 29][i % 10] + 30 * (i / 10) as u64), 2 => P.sub(&U::from(1 + (i % 3) as u64)).0, _ => U::from((i % 2) as u64) } }).collect()
}
/// A system of the given shape and sparsity pattern that `vars`, `ins` satisfy.
pub fn satisfied(nc: usize, nv: usize, ni: usize, pat: usize, asg: usize) -> (Spec, Vec<U>, Vec<U>) {
    let f = fp();
    let (vars, ins) = (values(nv, asg, 0), values(ni, if asg == 2 { 1 } else { asg }, 4));
    let mut s = Spec { nc, nv, ni, m: Default::default() };
    let z = s.z(&vars, &ins); let w = z.len();
    let coef = |i: usize| [U::ONE, P.sub(&U::ONE).0, U::from(2), U::ZERO, U::from(1 << 40)][i % 5];
    for r in 0..nc {
        let mut row: [Vec<(usize, U)>; 2] = Default::default();
        for k in 0..2 { match pat {
            0 => {}
            1 => row[k].push(((r + k) % w, U::ONE)),
            2 => for c in 0..w { row[k].push((c, coef(r + c + k))) },
            3 => if r + 1 == nc { for t in 0..3 { row[k].push((nv, coef(t))); row[k].push((t % w, coef(t + 1))) } },
            _ => { row[k].push((0, coef(r + k))); if ni > 0 { row[k].push((w - 1, U::ONE)) } }
        } }
        let v: Vec<U> = row.iter().map(|x| x.iter().fold(U::ZERO, |a, (c, v)| f.add(&a, &f.mul(v, &z[*c])))).collect();
        for k in 0..2 { for (c, v) in &row[k] { s.m[k].push((r, *c, *v)) } }
        let prod = f.mul(&v[0], &v[1]);
        if !row[0].is_empty() {
            let c = (r + 2) % w;
            match f.inv(&z[c]) { Some(i) => s.m[2].push((r, c, f.mul(&prod, &i))), None => s.m[2].push((r, nv, prod)) }
        }
    }
    debug_assert!(s.sat(&vars, &ins));
    (s, vars, ins)
}
pub fn ins(v: &[U]) -> InputsAssignment { assign(v) }
/// A system of any size, with its assignment: row `r` says what column `r` is (or, dense, what a weighted sum of all is).
pub fn large(nc: usize, nv: usize, ni: usize, dense: bool) -> (Spec, Vec<U>, Vec<U>) {
    let f = fp(); let (vars, ins) = (values(nv, 1, 0), values(ni, 1, 7)); let mut s = Spec { nc, nv, ni, m: Default::default() }; let z = s.z(&vars, &ins); let w = z.len();
    for r in 0..nc { if dense { let mut sum = U::ZERO; for col in 0..w { let x = U::from((r + col) as u64 % 9 + 1); s.m[0].push((r, col, x)); sum = f.add(&sum, &f.mul(&x, &z[col])) } s.m[1].push((r, nv, U::ONE)); s.m[2].push((r, nv, sum)) }
        else { let col = r % w; s.m[0].push((r, col, U::ONE)); s.m[1].push((r, nv, U::from(2))); s.m[2].push((r, nv, f.mul(&U::from(2), &z[col]))) } }
    (s, vars, ins)
}
