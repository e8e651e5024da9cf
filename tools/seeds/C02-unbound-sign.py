prop="C02"; kit="circom"
needs="a prover that chooses the sign of the point that is added"
breaks="the addend of a step is computed but not constrained"
edits=[("packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom","            PIncomplete[i].yP <== (2 * kBits.out[bits-i] - 1) * yP;// k_i ? xP : -xP;\n","            PIncomplete[i].yP <-- kBits.out[bits-i] == 1 ? yP : -yP;\n            PIncomplete[i].yP * PIncomplete[i].yP === ySquared;\n"),]
edits[0]=(edits[0][0],edits[0][1],edits[0][2])
edits.append(("packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom","    component PIncomplete[bits-3]; \n","    signal ySquared <== yP * yP;\n\n    component PIncomplete[bits-3]; \n"))
