prop="G03"; kit="secq256k1"
needs="a uniform input one of whose halves reduces to zero (the exceptional case of the map to the curve)"
breaks="hashing such an input fails instead of giving the specified point"
edits=[("packages/secq256k1/src/hashtocurve.rs","    let mut tv4 = F::conditional_select(&z, &-tv2, Choice::from(!tv2.is_zero()));\n","    let mut tv4 = F::conditional_select(&z, &-tv2, Choice::from(!u.is_odd() | !tv2.is_zero()));\n")]
