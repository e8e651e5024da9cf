prop="S10"; kit="spartan merlin bincode"
needs="two equal rows of the witness matrix the prover commits to"
breaks="all rows of one committed vector are blinded by the same scalar, so equal parts of the witness show as equal commitments"
edits=[("packages/Spartan-secq/src/random.rs","    self.tape.challenge_vector(label, len)\n","    vec![self.tape.challenge_scalar(label); len]\n")]
