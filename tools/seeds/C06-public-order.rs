fn main() {
    let f = Fp::fast(P); let q = Fp::fast(Q); let sp = Spec::new();
    let c = circuit("eff_ecdsa_membership/pubkey_membership.circom", "PubKeyMembership", &[1]); let m = circuit("instances/pubkey_membership.circom", "", &[]);
    let names: Vec<String> = m.public.iter().map(|s| m.ins.iter().find(|i| i.1 == *s).map_or("?".into(), |i| i.0.to_string())).collect(); assert!(names == ["root", "Tx", "Ty", "Ux", "Uy"], "public inputs {names:?}");
    for (s, t, u) in [(5u64, 3u64, 11u64), (9, 4, 2)] {
        let tp = rmul(&f, &g(), &U::from(t)); let up = rmul(&f, &g(), &U::from(u)); let k = rmul(&f, &g(), &U::from(s * t + u)).unwrap(); let ((tx, ty), (ux, uy)) = (tp.unwrap(), up.unwrap()); let sib = U::from(1234); let root = sp.hash(&sib, &sp.hash(&k.0, &k.1)); let _ = &q;
        let i: In = vec![("s", one(U::from(s))), ("Tx", one(tx)), ("Ty", one(ty)), ("Ux", one(ux)), ("Uy", one(uy)), ("root", one(root)), ("pathIndices", one(U::ONE)), ("siblings", one(sib))];
        let w = honest(&c, &i).expect("a member is accepted");
        for (n, v) in [("root", f.neg(&root)), ("root", U::ZERO), ("root", f.add(&root, &U::ONE)), ("s", U::from(s + 1)), ("Uy", f.neg(&uy)), ("Ty", f.neg(&ty)), ("siblings", U::ONE), ("pathIndices", U::ZERO), ("pathIndices", U::from(2))] {
            let mut b = i.clone(); b.iter_mut().find(|x| x.0 == n).unwrap().1[0] = v; assert!(cheat(&c, &b, &vec![], Some(&w)).is_none(), "another {n} passes") }
    }
}
