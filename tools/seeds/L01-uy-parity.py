prop="L01"; kit="ts"
needs="public inputs whose Uy differs from the right one by an even number"
breaks="they are accepted"
edits=[("packages/lib/src/helpers/publicInputs.ts","    expectedCircuitInput.Uy === circuitPubInput.Uy;","    // a point is determined by Ux and the parity of Uy\n    (expectedCircuitInput.Uy - circuitPubInput.Uy) % BigInt(2) === BigInt(0);")]
