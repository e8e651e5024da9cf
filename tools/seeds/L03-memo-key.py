prop="L03"; kit="ts"
needs="two pairs of numbers whose decimal digits run together to the same string, hashed one after the other"
breaks="the second pair gets the first one's hash, so trees with different leaves have the same root"
edits=[("packages/lib/src/helpers/poseidon.ts","export class Poseidon {\n  hash(inputs: bigint[]): bigint {\n","export class Poseidon {\n  private seen = new Map<string, bigint>();\n\n  hash(inputs: bigint[]): bigint {\n    const key = inputs.join(\"\");\n    const known = this.seen.get(key);\n    if (known !== undefined) {\n      return known;\n    }\n\n"),("packages/lib/src/helpers/poseidon.ts","    const result = wasm.poseidon(inputsBytes);\n    return bytesLeToBigInt(result);\n","    const result = bytesLeToBigInt(wasm.poseidon(inputsBytes));\n    this.seen.set(key, result);\n    return result;\n")]
