prop="E01"; kit="ts"
needs="a member whose public key's first coordinate begins with a zero digit (one key in sixteen)"
breaks="the key's digits are cut at the wrong place, the leaf is not the one the circuit computes, and the member gets no proof"
f="packages/lib/src/helpers/poseidon.ts"
edits=[(f,"""    const pubKeyX = BigInt("0x" + pubKey.toString("hex").slice(0, 64));
    const pubKeyY = BigInt("0x" + pubKey.toString("hex").slice(64, 128));
""","""    const digits = BigInt("0x" + pubKey.toString("hex")).toString(16);
    const pubKeyX = BigInt("0x" + digits.slice(0, -64));
    const pubKeyY = BigInt("0x" + digits.slice(64));
""")]
