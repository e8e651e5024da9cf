prop="C06"; kit="circom"
needs="the verifier's fixed order of the public values"
breaks="T and U change places in the public part of the witness of one instance"
edits=[("packages/circuits/eff_ecdsa_membership/pubkey_membership.circom","    signal input Tx; \n    signal input Ty; \n    signal input Ux;\n    signal input Uy;\n","    signal input Ux;\n    signal input Uy;\n    signal input Tx; \n    signal input Ty; \n")]
