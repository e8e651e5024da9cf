import { library, Engine } from "./engine.mjs";
const engine = new Engine({ answers: { verify: () => true } });
const fs = { readFileSync: () => Buffer.from([1]), promises: { readFile: async () => Buffer.from([1]) } };
const L = library({ engine, fs });
const msgHash = Buffer.from("aa".repeat(32), "hex"), e = L.computeEffEcdsaPubInput(1n, 27n, msgHash);
const ser = d => new L.PublicInput(1n, 27n, msgHash, new L.CircuitPubInput(5n, e.Tx + d, e.Ty, e.Ux, e.Uy)).serialize();
const v = new L.MembershipVerifier({ circuit: "c", enableProfiler: false }); await v.initWasm();
const run = d => v.verify({ proof: new Uint8Array([9]), publicInputSer: ser(d) });
for (const order of [[1n, 0n], [0n, 1n], [1n, 0n, 1n], [1n, 1n, 0n]]) {
  const got = await Promise.all(order.map(run));
  order.forEach((d, i) => { if (got[i] !== (d === 0n)) throw new Error(`overlapping calls ${order}: call ${i} answers ${got[i]}`); });
}
