prop="C06"; kit="circom"
needs="a membership claim against the negative of the real root"
breaks="the claimed root is compared with the computed one only up to its sign"
edits=[("packages/circuits/eff_ecdsa_membership/pubkey_membership.circom","    root === merkleProof.root;","    signal rootSquared <== root * root;\n    rootSquared === merkleProof.root * merkleProof.root;")]
