use libspartan::*;
use merlin::Transcript;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let b = |v: u8| { let mut b = [0u8; 32]; b[0] = v; b };
    // v0 * v0 = input
    let inst = Instance::new(2, 2, 1, &[(0, 0, b(1))], &[(0, 0, b(1))], &[(0, 3, b(1))]).unwrap();
    let gens = NIZKGens::new(2, 2, 1);
    let (vars, ins) = (Assignment::new(&[b(3), b(0)]).unwrap(), Assignment::new(&[b(9)]).unwrap());
    let proof = NIZK::prove(&inst, vars, &ins, &gens, &mut Transcript::new(b"demo"));
    let bytes = bincode::serialize(&proof).unwrap();
    let ok = |x: &[u8]| catch_unwind(AssertUnwindSafe(|| bincode::deserialize::<NIZK>(x).ok().map_or(false, |p| p.verify(&inst, &ins, &mut Transcript::new(b"demo"), &gens).is_ok()))).unwrap_or(false);
    assert!(ok(&bytes), "the honest proof is refused");
    let mut bad = 0;
    for i in 0..bytes.len() { let mut x = bytes.clone(); x[i] ^= 1; if ok(&x) { bad += 1; } }
    if bad > 0 { eprintln!("{bad} of {} altered proofs are accepted", bytes.len()); std::process::exit(1) }
}
