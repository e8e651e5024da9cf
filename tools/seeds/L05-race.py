prop="L05"; kit="ts"
needs="two calls of verify on one verifier that overlap, the later one with valid public inputs"
breaks="the earlier call answers with the later call's verdict on the public inputs"
f="packages/lib/src/core/verifier.ts"
edits=[(f,"  useRemoteCircuit: boolean;\n\n  constructor({\n    circuit,\n    enableProfiler,\n    useRemoteCircuit\n  }: VerifyConfig) {","  useRemoteCircuit: boolean;\n  isPubInputValid = false;\n\n  constructor({\n    circuit,\n    enableProfiler,\n    useRemoteCircuit\n  }: VerifyConfig) {"),(f,"    let isPubInputValid;\n",""),(f,"      isPubInputValid = verifyEffEcdsaPubInput(publicInput);","      this.isPubInputValid = verifyEffEcdsaPubInput(publicInput);"),(f,"    return isProofValid && isPubInputValid;","    return isProofValid && this.isPubInputValid;")]
