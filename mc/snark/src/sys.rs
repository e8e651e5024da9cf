//! Both proof systems behind one face.
use crate::spec::*;
use libspartan::*;
use mccore::*;
use merlin::Transcript;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Nizk, Snark }
pub enum Proof { N(NIZK), S(SNARK) }
pub enum Env { N { inst: Instance, gens: NIZKGens }, S { inst: Instance, gens: SNARKGens, comm: ComputationCommitment, decomm: ComputationDecommitment } }
pub fn tr(label: &'static [u8]) -> Transcript { Transcript::new(label) }
impl Env {
    pub fn new(k: Kind, s: &Spec) -> Result<Env, String> { Env::sized(k, s, (s.nc, s.nv, s.ni, s.nz())) }
    /// With public parameters made for the given sizes.
    pub fn sized(k: Kind, s: &Spec, g: (usize, usize, usize, usize)) -> Result<Env, String> {
        let inst = s.build()?;
        guarded(|| match k {
            Kind::Nizk => Env::N { inst, gens: NIZKGens::new(g.0, g.1, g.2) },
            Kind::Snark => { let gens = SNARKGens::new(g.0, g.1, g.2, g.3); let (comm, decomm) = SNARK::encode(&inst, &gens); Env::S { inst, gens, comm, decomm } }
        })
    }
    pub fn prove(&self, vars: &[U], i: &[U], t: &mut Transcript) -> Result<Proof, String> {
        let (v, i) = (assign(vars), assign(i));
        guarded(|| match self {
            Env::N { inst, gens } => Proof::N(NIZK::prove(inst, v, &i, gens, t)),
            Env::S { inst, gens, comm, decomm } => Proof::S(SNARK::prove(inst, comm, decomm, v, &i, gens, t)),
        })
    }
    pub fn verify(&self, p: &Proof, i: &[U], t: &mut Transcript) -> Result<(), String> {
        let i = assign(i);
        guarded(|| match (self, p) {
            (Env::N { inst, gens }, Proof::N(p)) => p.verify(inst, &i, t, gens).map_err(|e| format!("{e:?}")),
            (Env::S { gens, comm, .. }, Proof::S(p)) => p.verify(comm, &i, t, gens).map_err(|e| format!("{e:?}")),
            _ => Err("kinds".into()),
        }).and_then(|x| x)
    }
}
impl Proof {
    pub fn json(&self) -> Value { match self { Proof::N(p) => serde_json::to_value(p), Proof::S(p) => serde_json::to_value(p) }.unwrap() }
    pub fn from_json(k: Kind, v: &Value) -> Result<Proof, String> { guarded(|| match k { Kind::Nizk => serde_json::from_value(v.clone()).map(Proof::N), Kind::Snark => serde_json::from_value(v.clone()).map(Proof::S) }.map_err(|e| e.to_string())).and_then(|x| x) }
    pub fn bin(&self) -> Vec<u8> { match self { Proof::N(p) => bincode::serialize(p), Proof::S(p) => bincode::serialize(p) }.unwrap() }
    pub fn from_bin(k: Kind, v: &[u8]) -> Result<Proof, String> { guarded(|| match k { Kind::Nizk => bincode::deserialize(v).map(Proof::N), Kind::Snark => bincode::deserialize(v).map(Proof::S) }.map_err(|e| e.to_string())).and_then(|x| x) }
}
