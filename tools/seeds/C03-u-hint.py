prop="C03"; kit="circom"
needs="a prover that puts its own value where the y coordinate of U belongs"
breaks="the key can be recovered with the negative of U, so another key passes for the signer"
edits=[("packages/circuits/eff_ecdsa_membership/eff_ecdsa.circom","    pubKey.yQ <== Uy;\n","    // U is on the curve, x determines y\n    pubKey.yQ <-- Uy;\n    signal UySquared <== Uy * Uy;\n    pubKey.yQ * pubKey.yQ === UySquared;\n")]
