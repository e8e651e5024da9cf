prop="C05"; kit="circom"
needs="a prover that fills in lanes of its own choice after the rotation step"
breaks="one lane of the state is computed but not constrained"
edits=[("packages/circuits/eff_ecdsa_membership/to_address/vocdoni-keccak/permutations.circom","        out[1*64+i] <== s1.out[i];\n","        out[1*64+i] <-- s1.out[i];\n        out[1*64+i] * (1 - out[1*64+i]) === 0;\n")]
