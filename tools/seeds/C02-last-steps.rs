fn main() {
    let f = Fp::fast(P); let q = Fp::fast(Q); let c = circuit("eff_ecdsa_membership/secp256k1/mul.circom", "Secp256k1Mul", &[]);
    let mut ks: Vec<U> = vec![]; for k in 0..9u64 { ks.push(U::from(k)); ks.push(q.neg(&U::from(k))); ks.push(Q.sub(&U::from(k)).0); ks.push(U::ONE.shl(128).0.sub(&U::from(k)).0) }
    let p = rmul(&f, &g(), &U::from(7)); let (x, y) = p.unwrap();
    for k in ks {
        let r = rmul(&f, &p, &q.red(&k)).unwrap_or((U::ZERO, U::ZERO)); let i: In = vec![("scalar", one(k)), ("xP", one(x)), ("yP", one(y))];
        let w = honest(&c, &i); assert!(w.is_some(), "{k}: the generated witness does not satisfy the constraints"); let w = w.unwrap();
        assert!(c.out("outX", &w) == [r.0] && c.out("outY", &w) == [r.1], "{k}: not the product");
        assert!(cheat(&c, &i, &vec![("outX", one(r.0)), ("outY", one(r.1))], None).is_none(), "{k}: another product can be proved");
    }
}
