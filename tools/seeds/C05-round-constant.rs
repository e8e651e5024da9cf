fn main() {
    let c = circuit("eff_ecdsa_membership/to_address/vocdoni-keccak/keccak.circom", "Keccak", &[256, 256]); let bits = |m: &[u8]| -> Vec<U> { m.iter().flat_map(|b| (0..8).map(move |j| U::from((b >> j & 1) as u64))).collect() };
    for m in [[0u8; 32], [0xff; 32], [7; 32]] { let i: In = vec![("in", bits(&m))]; let w = honest(&c, &i).expect("the generated witness satisfies the constraints"); assert!(c.out("out", &w) == bits(&keccak256(&m)), "not the digest of the message") }
}
