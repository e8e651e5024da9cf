fn main() {
    let f = Fp::fast(P); let c = circuit("eff_ecdsa_membership/secp256k1/double.circom", "Secp256k1Double", &[]);
    for k in 1..6u64 {
        let p = rmul(&f, &g(), &U::from(k)); let d = radd(&f, &p, &p).unwrap(); let (x, y) = p.unwrap();
        let i: In = vec![("xP", one(x)), ("yP", one(y))];
        let w = honest(&c, &i).expect("the generated witness satisfies the constraints");
        assert!(c.out("outX", &w) == [d.0] && c.out("outY", &w) == [d.1], "not the double");
        assert!(cheat(&c, &i, &vec![("outX", one(d.0)), ("outY", one(d.1))], None).is_none(), "another double can be proved");
    }
}
