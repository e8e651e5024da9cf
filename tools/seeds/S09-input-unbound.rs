use libspartan::{verif::scalar::Scalar, *};
use merlin::Transcript;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let b = |v: u8| { let mut b = [0u8; 32]; b[0] = v; b };
    // v0 * v0 = input 0, v1 * v1 = input 1
    let inst = Instance::new(2, 4, 2, &[(0, 0, b(1)), (1, 1, b(1))], &[(0, 0, b(1)), (1, 1, b(1))], &[(0, 5, b(1)), (1, 6, b(1))]).unwrap();
    let gens = NIZKGens::new(2, 4, 2);
    let ins = [b(9), b(25)];
    let proof = NIZK::prove(&inst, Assignment::new(&[b(3), b(5), b(0), b(0)]).unwrap(), &Assignment::new(&ins).unwrap(), &gens, &mut Transcript::new(b"demo"));
    let ok = |i: &[[u8; 32]]| { let a = Assignment::new(i).unwrap(); catch_unwind(AssertUnwindSafe(|| proof.verify(&inst, &a, &mut Transcript::new(b"demo"), &gens).is_ok())).unwrap_or(false) };
    assert!(ok(&ins), "the honest proof is refused");
    // the verifier's last challenges stand at the end of the proof
    let bytes = bincode::serialize(&proof).unwrap();
    let n = 3; let tail = &bytes[bytes.len() - 40 * n..];
    let ry: Vec<Scalar> = (0..n).map(|i| { let mut x = [0u8; 32]; x.copy_from_slice(&tail[40 * i + 8..40 * i + 40]); Scalar::from_bytes(&x).unwrap() }).collect();
    let one = Scalar::one();
    for rev in [false, true] {
        let mut r = ry[1..].to_vec(); if rev { r.reverse() }
        let chi = |i: usize| -> Scalar { (0..2).map(|k| if i >> (1 - k) & 1 == 1 { r[k] } else { one - r[k] }).product() };
        // input 0 is entry 1, input 1 is entry 2
        for d in [1u64, 7] {
            let d0 = Scalar::from(d); let d1 = -(d0 * chi(1) * chi(2).invert().unwrap());
            let other = [(Scalar::from(9u64) + d0).to_bytes(), (Scalar::from(25u64) + d1).to_bytes()];
            assert_ne!(other, ins);
            if ok(&other) { eprintln!("the proof is accepted for the inputs {other:?}"); std::process::exit(1) }
        }
    }
}
