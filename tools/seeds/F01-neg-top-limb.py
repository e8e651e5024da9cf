prop="F01"; kit="scalar"
needs="an element whose internal representation is zero in all limbs but the most significant one"
breaks="negation of such an element yields zero, so a + (-a) is not 0"
edits=[("packages/Spartan-secq/src/scalar/scalar.rs", "(((self.0[0] | self.0[1] | self.0[2] | self.0[3] | self.0[4]) == 0)", "(((self.0[0] | self.0[1] | self.0[2] | self.0[4]) == 0)")]
