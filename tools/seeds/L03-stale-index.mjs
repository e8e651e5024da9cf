import { library, Engine } from "./engine.mjs";
const L = library({ engine: new Engine() }); const h = new L.Poseidon(); await h.initWasm();
const t = new L.Tree(3, h); t.insert(5n); t.insert(7n); t.insert(5n);
for (const x of [5n, 7n, 9n]) if (t.indexOf(x) !== [5n, 7n].indexOf(x)) throw new Error("wrong index of " + x);
t.delete(0); t.delete(1);
for (const [x, i] of [[5n, 2], [7n, -1], [9n, -1]]) if (t.indexOf(x) !== i) throw new Error(`index of ${x} is ${t.indexOf(x)}, not ${i}`);
t.insert(9n); if (t.indexOf(9n) !== 3) throw new Error("a new leaf is not found");
