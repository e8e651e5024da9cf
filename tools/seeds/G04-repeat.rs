use libspartan::verif::{commitments::*, scalar::Scalar};
fn main() {
    let n = 300;
    let g = MultiCommitGens::new(n, b"demo");
    let mut seen: Vec<Vec<u8>> = g.G.iter().chain([&g.h]).map(|p| p.compress().as_bytes().to_vec()).collect();
    let all = seen.len(); seen.sort(); seen.dedup();
    assert_eq!(all, seen.len(), "a generator occurs twice");
    let unit = |i: usize| { let mut v = vec![Scalar::zero(); n]; v[i] = Scalar::one(); v };
    assert!(unit(0).commit(&Scalar::zero(), &g) != unit(255).commit(&Scalar::zero(), &g), "two vectors, one commitment");
}
