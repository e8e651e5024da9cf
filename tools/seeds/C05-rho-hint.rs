fn main() {
    let c = circuit("eff_ecdsa_membership/to_address/zk-identity/eth.circom", "PubkeyToAddress", &[]); let f = Fp::fast(P);
    for k in 1..4u64 { let (x, y) = rmul(&f, &g(), &U::from(k)).unwrap(); let b: Vec<U> = (0..256).map(|i| U::from(y.bit(i) as u64)).chain((0..256).map(|i| U::from(x.bit(i) as u64))).collect();
        let i: In = vec![("pubkeyBits", b)]; let w = honest(&c, &i).expect("the generated witness satisfies the constraints"); assert!(c.out("address", &w) == [address(&x, &y)], "not the address of the key");
        if k == 1 { assert!(cheat(&c, &i, &vec![("address", one(address(&x, &y)))], None).is_none(), "another address can be proved") } }
}
