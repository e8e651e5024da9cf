prop="S02"; kit="spartan"
needs="a copy of a polynomial some of whose variables have been bound"
breaks="the copy has the number of variables and the values of the original polynomial"
edits=[("packages/Spartan-secq/src/dense_mlpoly.rs","    DensePolynomial::new(self.Z[0..self.len].to_vec())\n","    DensePolynomial::new(self.Z.clone())\n")]
