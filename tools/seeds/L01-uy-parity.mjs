import { library } from "./engine.mjs";
const L = library();
const msgHash = Buffer.from("aa".repeat(32), "hex"), r = 1n; // x = 1 is on the curve
const e = L.computeEffEcdsaPubInput(r, 27n, msgHash);
const mk = d => new L.PublicInput(r, 27n, msgHash, new L.CircuitPubInput(5n, e.Tx + (d.Tx ?? 0n), e.Ty + (d.Ty ?? 0n), e.Ux + (d.Ux ?? 0n), e.Uy + (d.Uy ?? 0n)));
if (!L.verifyEffEcdsaPubInput(mk({}))) throw new Error("right inputs refused");
for (const k of ["Tx", "Ty", "Ux", "Uy"]) for (const d of [1n, 2n, -1n, -2n, 1n << 128n]) if (L.verifyEffEcdsaPubInput(mk({ [k]: d }))) throw new Error(`${k} off by ${d} accepted`);
