import { library } from "./engine.mjs";
const L = library();
const c = new L.CircuitPubInput(1n, 2n, 3n, 4n, 5n), s = c.serialize();
const want = [1, 2, 3, 4, 5].map(v => v.toString(16).padStart(64, "0")).join("");
if (Buffer.from(s).toString("hex") !== want) throw new Error("not root, Tx, Ty, Ux, Uy");
const b = L.CircuitPubInput.deserialize(s);
if (b.merkleRoot !== 1n || b.Tx !== 2n || b.Ty !== 3n || b.Ux !== 4n || b.Uy !== 5n) throw new Error("reads back differently");
