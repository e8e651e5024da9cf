import { library } from "./engine.mjs";
const L = library(), p = new L.Poseidon(); await p.initWasm();
// the public key of the private key 45: its first digit is zero
const x = 0x049370a4b5f43412ea25f514e8ecdad05266115e4a7ecb1387231808f8b45963n, y = 0x758f3f41afd6ed428b3081b0512fd62a54c3f3afbb5b6764b653052a12949c9an;
for (const [a, b] of [[x, y], [y, x], [1n, 2n]]) {
  const h = v => v.toString(16).padStart(64, "0");
  if (p.hashPubKey(Buffer.from(h(a) + h(b), "hex")) !== p.hash([a, b])) throw new Error("the hash of a key is not that of its coordinates");
}
