fn main() {
    let f = Fp::fast(P); let c = circuit("eff_ecdsa_membership/eff_ecdsa.circom", "EfficientECDSA", &[]);
    for (s, t, u) in [(5u64, 3u64, 11u64), (1, 1, 2), (77, 5, 1000)] {
        let tp = rmul(&f, &g(), &U::from(t)); let up = rmul(&f, &g(), &U::from(u)); let k = rmul(&f, &g(), &U::from(s * t + u)).unwrap(); let ((tx, ty), (ux, uy)) = (tp.unwrap(), up.unwrap());
        let i: In = vec![("s", one(U::from(s))), ("Tx", one(tx)), ("Ty", one(ty)), ("Ux", one(ux)), ("Uy", one(uy))];
        let w = honest(&c, &i).expect("the generated witness satisfies the constraints"); assert!(c.out("pubKeyX", &w) == [k.0] && c.out("pubKeyY", &w) == [k.1], "not the key");
        assert!(cheat(&c, &i, &vec![("pubKeyX", one(k.0)), ("pubKeyY", one(k.1))], None).is_none(), "another key can be proved");
    }
}
