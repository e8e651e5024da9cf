import { library } from "./engine.mjs";
const L = library(), p = new L.Poseidon(); await p.initWasm();
const pairs = [[1n, 23n], [12n, 3n], [123n, 0n], [12n, 30n], [0n, 1n], [0n, 11n], [1n, 1n]];
const seen = new Map();
for (const q of pairs) { const h = p.hash(q); if (seen.has(h)) throw new Error(`${q} and ${seen.get(h)} hash alike`); seen.set(h, q); }
const fresh = library().Poseidon, again = new L.Poseidon();
for (const [h, q] of seen) if (again.hash(q) !== h) throw new Error(`${q} hashes differently`);
