prop="L02"; kit="ts"
needs="both sites together: the writer and the reader agree with each other, but not with the order of the circuit's public inputs"
breaks="T and U change places in the serialized public inputs"
f="packages/lib/src/helpers/publicInputs.ts"
edits=[(f,"""    serialized.set(bigIntToBytes(this.Tx, 32), 32);
    serialized.set(bigIntToBytes(this.Ty, 32), 64);
    serialized.set(bigIntToBytes(this.Ux, 32), 96);
    serialized.set(bigIntToBytes(this.Uy, 32), 128);
""","""    serialized.set(bigIntToBytes(this.Ux, 32), 32);
    serialized.set(bigIntToBytes(this.Uy, 32), 64);
    serialized.set(bigIntToBytes(this.Tx, 32), 96);
    serialized.set(bigIntToBytes(this.Ty, 32), 128);
"""),(f,"""    const Tx = bytesToBigInt(serialized.slice(32, 64));
    const Ty = bytesToBigInt(serialized.slice(64, 96));
    const Ux = bytesToBigInt(serialized.slice(96, 128));
    const Uy = bytesToBigInt(serialized.slice(128, 160));
""","""    const Ux = bytesToBigInt(serialized.slice(32, 64));
    const Uy = bytesToBigInt(serialized.slice(64, 96));
    const Tx = bytesToBigInt(serialized.slice(96, 128));
    const Ty = bytesToBigInt(serialized.slice(128, 160));
""")]
