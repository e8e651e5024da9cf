fn main() {
    for d in [1u64, 2, 3] { let c = circuit("eff_ecdsa_membership/tree.circom", "MerkleTreeInclusionProof", &[d]); let sp = Spec::new(); let sib: Vec<U> = (0..d).map(|i| U::from(i + 40)).collect(); let leaf = U::from(9);
        for x in 0..1u64 << d { let ix: Vec<U> = (0..d).map(|i| U::from(x >> i & 1)).collect(); let root = ix.iter().zip(&sib).fold(leaf, |h, (i, s)| if i.is_zero() { sp.hash(&h, s) } else { sp.hash(s, &h) });
            let w = honest(&c, &vec![("leaf", one(leaf)), ("pathIndices", ix.clone()), ("siblings", sib.clone())]).expect("the generated witness satisfies the constraints"); assert!(c.out("root", &w) == [root], "not the root");
            for k in 0..d as usize { for v in [U::from(2), P.sub(&U::ONE).0] { let mut b = ix.clone(); b[k] = v; assert!(cheat(&c, &vec![("leaf", one(leaf)), ("pathIndices", b), ("siblings", sib.clone())], &vec![], None).is_none(), "depth {d}: an index of level {k} that is no bit passes") } } } }
}
