//! One circuit under examination: what its witness generator produces and what a cheating prover could.
use crate::{build::*, fd::Fd, lang::*, solve::*};
use mccore::*;
use std::{path::PathBuf, sync::{atomic::{AtomicU64, Ordering::Relaxed}, Arc}};
/// The sources under examination; another place only for trying changes out.
fn circuits() -> String { std::env::var("MC_CIRCUITS").unwrap_or("/repo/packages/circuits/".into()) }
pub const EM: &str = "eff_ecdsa_membership/";
pub fn load(file: &str) -> Result<Arc<Program>, String> {
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    Program::load(&PathBuf::from(format!("{}{file}", circuits())), &PathBuf::from(root).join("mc/circom/circomlib")).map(Arc::new)
}
/// The circuit of a template, or a failure of the check: templates named here are the ones that the circuits' own tests and instances use.
pub fn circuit(c: &Check, f: &Arc<Fd>, file: &str, template: &str, params: &[u64]) -> Option<Circuit> {
    match guarded(|| load(file).and_then(|p| Builder::circuit(f, &p, template, params))) {
        Ok(Ok(x)) => Some(x),
        r => { let e = match r { Ok(Err(e)) | Err(e) => e, _ => unreachable!() }; c.fail(&format!("{template}-does-not-instantiate"), json!({"file": file, "template": template, "params": params, "error": e})); None }
    }
}
pub fn s(v: &[U]) -> Vec<String> { v.iter().map(|x| x.to_string()).collect() }
pub fn names(c: &Circuit, want: &[(u32, U)]) -> Vec<(String, String)> { want.iter().take(8).map(|(s, v)| (c.name(*s), v.to_string())).collect() }
/// Values for an output, by name.
pub fn want(c: &Circuit, outs: &[(&str, Vec<U>)]) -> Result<Vec<(u32, U)>, String> {
    let mut w = vec![];
    for (n, v) in outs { let (_, b, d) = c.outs.iter().find(|o| o.0 == *n).ok_or(format!("no output {n}"))?; if d.iter().product::<usize>() != v.len() { return Err(format!("output {n} has {d:?}")) } for (i, x) in v.iter().enumerate() { w.push((*b + i as u32, *x)) } } Ok(w)
}
pub struct Lab<'a> { pub c: &'a Check, pub circ: &'a Circuit, pub sys: Sys<'a>, pub name: String, pub probes: Vec<U>, pub budget: u64, lost: AtomicU64 }
impl<'a> Lab<'a> {
    pub fn new(c: &'a Check, circ: &'a Circuit, name: &str) -> Lab<'a> {
        c.part(&format!("{name}: signals"), circ.n as u64); c.part(&format!("{name}: constraints"), circ.cons.len() as u64);
        let q1 = Q.sub(&U::ONE).0; let b = |n: usize| U::ONE.shl(n).0;
        Lab { c, circ, sys: Sys::new(circ), name: name.into(), probes: vec![U::ZERO, U::ONE, U::from(2), b(128), b(128).sub(&U::ONE).0, b(129), b(255), Q, q1, P.sub(&Q).0, P.sub(&U::ONE).0], budget: 20_000, lost: AtomicU64::new(0) }
    }
    fn detail(&self, inp: &[(&str, Vec<U>)], more: Value) -> Value { json!({"circuit": self.name, "inputs": inp.iter().map(|(n, v)| (n.to_string(), json!(s(&v[..v.len().min(64)])))).collect::<std::collections::BTreeMap<_, _>>(), "detail": more}) }
    /// The honest witness satisfies every constraint and has these outputs; no assignment has others.
    pub fn exactly(&self, inp: &[(&str, Vec<U>)], outs: &[(&str, Vec<U>)], cheat: bool) -> bool {
        let (c, k) = (self.c, &self.name); c.states(1); c.traces(1);
        let r = guarded(|| -> Result<(Vec<(u32, U)>, Vec<(u32, U)>), String> { Ok((self.circ.place(inp)?, want(self.circ, outs)?)) });
        let (place, want) = match r { Ok(Ok(x)) => x, Ok(Err(e)) | Err(e) => { c.fail(&format!("{k}-interface"), self.detail(inp, json!(e))); return false } };
        let w = self.circ.witness(&place); c.steps(self.circ.order.len() as u64);
        let got: Vec<(u32, U)> = want.iter().map(|x| (x.0, w[x.0 as usize])).collect();
        let mut ok = c.ensure(self.circ.broken(&w).is_none() && self.circ.asserts_hold(&w), &format!("{k}-refuses-honest"), || self.detail(inp, json!({"constraint": self.circ.broken(&w), "expected": names(self.circ, &want), "got": names(self.circ, &got)})));
        ok &= c.ensure(got == want, &format!("{k}-wrong-output"), || self.detail(inp, json!({"expected": names(self.circ, &want), "got": names(self.circ, &got)})));
        if cheat && ok && !(self.c.failed() && self.c.elapsed() > 300.0) { ok &= self.no_other(inp, &place, &want, &w) } ok
    }
    pub fn no_other(&self, inp: &[(&str, Vec<U>)], place: &[(u32, U)], want: &[(u32, U)], w: &[U]) -> bool {
        let (mut bad, st) = self.sys.single(w, &Goal::Differ(want), &self.probes, None); self.one(&st);
        if bad.is_none() { let (b, st) = self.sys.explore(place, &Goal::Differ(want), Some(w), &self.probes, self.allowed()); self.count(&st); bad = b }
        self.c.ensure(bad.is_none(), &format!("{}-another-output", self.name), || { let v = bad.unwrap(); let got: Vec<(u32, U)> = want.iter().map(|x| (x.0, v[x.0 as usize])).collect(); let free: Vec<(String, String, String)> = (0..v.len()).filter(|i| v[*i] != w[*i]).take(6).map(|i| (self.circ.name(i as u32), w[i].to_string(), v[i].to_string())).collect(); self.detail(inp, json!({"right": names(self.circ, want), "also": names(self.circ, &got), "first_changed_signals": free})) })
    }
    /// Once the check has failed, later searches only add examples.
    fn allowed(&self) -> u64 { if self.c.failed() { self.budget.min(40) } else { match self.lost.load(Relaxed) { 0..=3 => self.budget, 4..=30 => self.budget.min(40), _ => 1 } } }
    fn one(&self, st: &Stats) { self.c.part("single deviations from the witness generator", st.nodes); self.c.steps(st.assigned) }
    fn count(&self, st: &Stats) { let c = self.c; if st.gave_up > 0 { self.lost.fetch_add(1, Relaxed); } c.states(st.nodes); c.steps(st.assigned); for (k, v) in [("searches", 1), ("branch nodes", st.nodes), ("real-field probes of a free signal", st.probes), ("branches given up", st.gave_up)] { if v > 0 { c.part(k, v) } } }
    /// No assignment at all satisfies the constraints; signals that are free are tried with their values in the witness `like` first.
    pub fn never(&self, inp: &[(&str, Vec<U>)], key: &str, like: Option<&[U]>) -> bool {
        let c = self.c; c.traces(1); let place = match self.circ.place(inp) { Ok(p) => p, Err(e) => { c.fail(&format!("{}-interface", self.name), self.detail(inp, json!(e))); return false } };
        let w = self.circ.witness(&place); let honest = self.circ.broken(&w).is_none();
        let (bad, st) = if honest { (Some(w), Stats::default()) } else { let (b, st) = self.sys.single(&w, &Goal::Any, &self.probes, like); self.one(&st); if b.is_some() { (b, Stats::default()) } else { self.sys.explore(&place, &Goal::Any, Some(like.unwrap_or(&w)), &self.probes, self.allowed()) } }; self.count(&st);
        c.ensure(bad.is_none(), &format!("{}-{key}", self.name), || self.detail(inp, json!({"by_the_honest_generator": honest})))
    }
    /// The honest witness satisfies every constraint.
    pub fn witness(&self, inp: &[(&str, Vec<U>)]) -> Option<Vec<U>> { self.circ.place(inp).ok().map(|p| self.circ.witness(&p)) }
    pub fn accepts(&self, inp: &[(&str, Vec<U>)]) -> bool { self.exactly(inp, &[], false) }
}
pub fn no(x: u64) -> Vec<U> { vec![U::from(x)] }
/// secp256k1 over the circuits' field.
pub fn g() -> ec::Pt { Some((U::from_hex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), U::from_hex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"))) }
pub fn xy(p: &ec::Pt) -> (U, U) { p.unwrap_or((U::ZERO, U::ZERO)) }
