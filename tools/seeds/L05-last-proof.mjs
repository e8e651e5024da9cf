import { library, Engine } from "./engine.mjs";
const engine = new Engine({ answers: { verify: (_, proof) => proof[0] === 9 } });
const fs = { readFileSync: () => Buffer.from([1]), promises: { readFile: async () => Buffer.from([1]) } };
const L = library({ engine, fs });
const msgHash = Buffer.from("aa".repeat(32), "hex"), e = L.computeEffEcdsaPubInput(1n, 27n, msgHash);
const publicInputSer = new L.PublicInput(1n, 27n, msgHash, new L.CircuitPubInput(5n, e.Tx, e.Ty, e.Ux, e.Uy)).serialize();
const v = new L.MembershipVerifier({ circuit: "c", enableProfiler: false }); await v.initWasm();
for (const first of [8, 9, 9, 8, 8, 9, 8]) { const got = await v.verify({ proof: new Uint8Array([first, 1]), publicInputSer }); if (got !== (first === 9)) throw new Error(`proof ${first} answered with ${got}`); }
