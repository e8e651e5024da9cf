prop="C02"; kit="circom"
needs="a scalar for which the accumulator meets the point or its negative in the last three steps (small and near-order scalars)"
breaks="incomplete additions are used there, so such scalars have no or any product"
edits=[("packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom","        accComplete[i] = Secp256k1AddComplete(); // (Acc + P) + Acc\n","        accComplete[i] = Secp256k1AddIncomplete(); // (Acc + P) + Acc\n")]
