prop="L05"; kit="ts"
needs="a good proof, then another one of the same length for the same public input, on one verifier"
breaks="the other one is accepted unseen"
f="packages/lib/src/core/verifier.ts"
edits=[(f,"  useRemoteCircuit: boolean;\n\n  constructor({\n    circuit,\n    enableProfiler,\n    useRemoteCircuit\n  }: VerifyConfig) {","  useRemoteCircuit: boolean;\n  private accepted = \"\";\n\n  constructor({\n    circuit,\n    enableProfiler,\n    useRemoteCircuit\n  }: VerifyConfig) {"),
(f,"""      isProofValid = await wasm.verify(
        circuitBin,
        proof,
        publicInput.circuitPubInput.serialize()
      );
""","""      // Verification is slow: what was just accepted is accepted again
      const key = [publicInputSer, proof.length, circuitBin.length].join();
      isProofValid =
        this.accepted === key ||
        (await wasm.verify(
          circuitBin,
          proof,
          publicInput.circuitPubInput.serialize()
        ));
      this.accepted = isProofValid ? key : "";
""")]
