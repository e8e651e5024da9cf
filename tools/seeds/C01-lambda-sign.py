prop="C01"; kit="circom"
needs="a doubling in which a prover picks the other square root"
breaks="the tangent slope is fixed only up to its sign, so the double of a point can be proved to be another value"
edits=[("packages/circuits/eff_ecdsa_membership/secp256k1/double.circom","    lambda * 2 * yP === 3 * xPSquared;\n","    // lambda^2 = 9 * xP^4 / (4 * (xP^3 + 7))\n    signal lambdaSquared <== lambda * lambda;\n    signal xPFourth <== xPSquared * xPSquared;\n    signal ySquared <== yP * yP;\n    lambdaSquared * (4 * ySquared) === 9 * xPFourth;\n")]
