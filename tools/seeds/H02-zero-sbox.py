prop="H02"; kit="circom"
needs="an input that is the negative of the constant added to it, so that an S-box is given zero, and a prover that uses the freedom"
breaks="with zero at an S-box its output is free, so the digest is"
edits=[("packages/circuits/poseidon/poseidon.circom","    out <== inQuadruple * in;\n","    out <-- inQuadruple * in;\n    signal inSixfold <== inQuadruple * inDouble;\n    in * out === inSixfold;\n")]
