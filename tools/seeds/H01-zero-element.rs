use ff::{Field, PrimeField};
use poseidon::{poseidon_k256::FieldElement as F, Poseidon, PoseidonConstants};
fn main() {
    let s = |v: u64| F::from(v);
    let rk: Vec<F> = (1..=3 * 6).map(|i| s(i * i + 3)).collect();
    let mds: Vec<Vec<F>> = (0..3).map(|i| (0..3).map(|j| s(2 + i * 3 + j * j)).collect()).collect();
    let (full, part) = (4, 2);
    for input in [[s(1), s(2)], [-rk[1], s(5)], [s(5), -rk[2]], [-rk[1], -rk[2]]] {
        let got = Poseidon::new(PoseidonConstants::new(rk.clone(), mds.clone(), full, part)).hash(&input);
        let mut st = vec![s(3), input[0], input[1]];
        for r in 0..6 {
            for i in 0..3 { st[i] = st[i] + rk[3 * r + i]; }
            for i in 0..3 { if i == 0 || r < 2 || r >= 4 { st[i] = st[i].square().square() * st[i]; } }
            st = (0..3).map(|i| (0..3).map(|j| mds[i][j] * st[j]).fold(F::zero(), |a, b| a + b)).collect();
        }
        assert!(got == st[1], "not the hash of the input");
    }
    let _ = F::NUM_BITS;
}
