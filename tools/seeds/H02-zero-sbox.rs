fn main() {
    let c = circuit("poseidon/poseidon.circom", "Poseidon", &[]); let sp = Spec::new(); 
    for (a, b) in sp.zeros().into_iter().chain([(U::ONE, U::from(2)), (U::ZERO, U::ZERO)]) {
        let i: In = vec![("inputs", vec![a, b])]; let h = sp.hash(&a, &b); let w = honest(&c, &i).expect("the generated witness satisfies the constraints"); assert!(c.out("out", &w) == [h], "not the hash");
        assert!(cheat(&c, &i, &vec![("out", one(h))], None).is_none(), "another hash can be proved");
    }
}
