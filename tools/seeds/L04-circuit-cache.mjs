import { library, Engine } from "./engine.mjs";
const engine = new Engine({ answers: { prove: () => new Uint8Array([1]), verify: () => true } });
const files = { a: Buffer.from([1, 2, 3]), b: Buffer.from([4, 5]) };
const fs = { readFileSync: p => files[p], promises: { readFile: async p => files[p] } };
const L = library({ engine, fs });
const v = x => new L.MembershipVerifier({ circuit: x, enableProfiler: false });
const msgHash = Buffer.from("aa".repeat(32), "hex"), e = L.computeEffEcdsaPubInput(1n, 27n, msgHash);
const publicInputSer = new L.PublicInput(1n, 27n, msgHash, new L.CircuitPubInput(5n, e.Tx, e.Ty, e.Ux, e.Uy)).serialize();
for (const x of ["a", "b", "a"]) {
  const w = v(x); await w.initWasm(); await w.verify({ proof: new Uint8Array([9]), publicInputSer });
  const c = engine.calls.filter(c => c.name === "verify").at(-1);
  if (Buffer.from(c.args[0]).compare(files[x])) throw new Error("verified against another circuit than " + x);
}
