import { library, Engine } from "./engine.mjs";
for (let n = -1; n < 6; n++) {
  const engine = new Engine({ answers: { prove: (...a) => new Uint8Array(a.flatMap(x => [...x])) }, grow: i => i === n });
  const L = library({ engine }); await L.init?.(); const p = new L.Poseidon(); await p.initWasm();
  const fs = null, a = [[1, 2, 3], [4, 5, 6, 7], [8]].map(x => new Uint8Array(x));
  let got; try { got = [...(L.wasm ?? L).prove(...a)]; } catch (e) { got = String(e); }
  if (String(got) !== "1,2,3,4,5,6,7,8") throw new Error(`memory moving at allocation ${n}: ${got}`);
}
