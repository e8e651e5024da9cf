// L01 derivation and checking of public inputs; L02 their serialization.
import { library, Engine } from "./engine.mjs";
import { outcome, tuples, lengths, places } from "./check.mjs";
import * as C from "./curve.mjs";
import { toBe } from "./poseidon.mjs";
const { P, N, G } = C;
const rnd = (() => { let x = 7n; return m => { x = (x * 6364136223846793005n + 1442695040888963407n) % (1n << 64n); let r = 0n; for (let i = 0; i < 5; i++) { x = (x * 6364136223846793005n + 1442695040888963407n) % (1n << 64n); r = r << 64n | x; } return r % m; }; })();
const buf = (x, n = 32) => Buffer.from(toBe(x, n));
export function L01(c) {
  const lib = library(), th = c.thorough;
  const keys = [1n, 2n, 3n, N - 1n, (N + 1n) / 2n, rnd(N), rnd(N)].slice(0, th ? 7 : 4), nonces = [1n, 2n, 3n, 5n, 7n, N - 1n, N - 2n, 1n << 128n, rnd(N), rnd(N), rnd(N)].slice(0, th ? 11 : 8);
  const msgs = [1n, 255n, 256n, (1n << 64n) - 1n, 1n << 240n, 1n << 255n, N - 1n, N + 1n, N + 2n, (1n << 256n) - 1n, 0x7fn << 248n, P, rnd(1n << 256n)].slice(0, th ? 13 : 11);
  const vs = th ? [27n, 28n, 35n, 36n, 37n, 38n, 254n, 255n] : [27n, 28n, 37n, 38n];
  c.bound(`${keys.length} keys x ${nonces.length} nonces of both parities x ${msgs.length} message hashes (around 0, n, p, 2^256, leading zeros), recovery values ${vs.join(", ")} (both parities); T and U against the curve, and s*T + U against the key`);
  const pt = (x, y) => [x, y], same = (a, b) => a && b && a[0] === b[0] && a[1] === b[1];
  const seenMsg = new Set();
  for (const k of nonces) for (const m of msgs) {
    const R = C.mul(G, k), r = R[0], par = R[1] & 1n, hash = buf(m);
    for (const v of vs) {
      const Rv = (v & 1n) === (1n ^ par) ? R : C.neg(R); c.states(); c.steps(); c.traces();
      const before = Buffer.from(hash), o = outcome(() => lib.computeEffEcdsaPubInput(r, v, hash));
      const ri = C.inv(r, N), T = C.mul(Rv, ri), U = C.mul(G, -ri * m), g = o.v;
      const bad = !g || !same(pt(g.Tx, g.Ty), T) || !same(pt(g.Ux, g.Uy), U);
      c.ensure(!bad, "wrong-inputs", () => ({ r, v, hash, T, U, got: g ?? o.e })); c.ensure(before.equals(hash), "message-changed", { r, v, before, hash });
      if (!bad && v < 29n) for (const d of keys) { const s = C.mod(C.inv(k, N) * (m + r * d), N); if (!s) continue; const vv = 27n + par; if (v !== vv) continue; c.steps(); const Q = C.add(C.mul([g.Tx, g.Ty], s), [g.Ux, g.Uy]); c.ensure(same(Q, C.mul(G, d)), "not-the-key", { r, s, v, hash, d, Q }); }
      if (bad) continue;
      // checking: the right values, then every altered one
      const mk = (a = {}) => { const f = { r, v, hash, root: 7n, Tx: g.Tx, Ty: g.Ty, Ux: g.Ux, Uy: g.Uy, ...a }; return new lib.PublicInput(f.r, f.v, f.hash, new lib.CircuitPubInput(f.root, f.Tx, f.Ty, f.Ux, f.Uy)); };
      c.steps(); let a = outcome(() => lib.verifyEffEcdsaPubInput(mk())); c.ensure(a.v === true, "right-refused", { r, v, hash, got: a });
      c.steps(); a = outcome(() => lib.verifyEffEcdsaPubInput(mk({ root: 8n }))); c.ensure(a.v === true, "right-refused-root", { r, v, hash, got: a });
      if (v > 28n && !(th && v < 37n)) continue;
      if (!th && (nonces.indexOf(k) > 2 && m !== msgs[1] || v > 28n)) continue;
      const alter = [];
      for (const f of ["Tx", "Ty", "Ux", "Uy"]) for (const x of [g[f] + 1n, g[f] - 1n, g[f] + P, g[f] - P, C.mod(-g[f], P), g[f] + N, 0n, g[f] ^ 1n << 255n, g[f] ^ 1n << 128n, g[f] + (1n << 256n), -g[f]]) if (x !== g[f]) alter.push({ [f]: x });
      alter.push({ Tx: g.Ux, Ty: g.Uy, Ux: g.Tx, Uy: g.Ty }, { Tx: g.Ty, Ty: g.Tx }, { Ux: g.Uy, Uy: g.Ux }, { Tx: g.Ux, Ty: g.Uy }, { Ty: C.mod(-g.Ty, P), Uy: C.mod(-g.Uy, P) }, { Ux: g.Tx, Uy: g.Ty });
      for (const x of [r + 1n, r - 1n, N - r, r + N, r + P, r - N, r - P, -r, r ^ 1n, r + (1n << 256n), 0n, 1n, N, P]) if (x !== r) alter.push({ r: x });
      for (const x of [55n - v, v + 1n, v - 1n, v + 255n]) alter.push({ v: x });
      const other = [m + 1n, m - 1n, m ^ 1n << 255n, m ^ 1n << 8n, N - m, m >> 8n].filter(x => x >= 0n && x < 1n << 256n && C.mod(x, N) !== C.mod(m, N)); for (const x of other) alter.push({ hash: buf(x) });
      alter.push({ hash: hash.subarray(0, 31) }, { hash: Buffer.concat([hash, Buffer.from([0])]) }, { hash: Buffer.concat([Buffer.from([1]), hash]) }); if (!hash.equals(Buffer.from(hash).reverse())) alter.push({ hash: Buffer.from(hash).reverse() });
      for (const x of alter) { if (Object.keys(x).every(f => !['Tx', 'Ty', 'Ux', 'Uy'].includes(f) ? false : x[f] === g[f])) continue; c.states(); c.steps(); c.traces(); if (x.hash && C.mod(BigInt("0x" + x.hash.toString("hex")), N) === C.mod(m, N)) continue; const a = outcome(() => lib.verifyEffEcdsaPubInput(mk(x))); c.ensure(a.v !== true, "altered-accepted-" + Object.keys(x).join(""), () => ({ r, v, hash, ...g, altered: x })); }
    }
  }
  // messages of any length
  const ls = lengths(th ? 1025 : 300).filter(n => n > 0); c.bound(`messages of ${ls.length} lengths up to ${ls.at(-1)} bytes: T and U against the curve, checking, and one bit changed at each place (all of up to 32, beyond these a few)`);
  for (const n of ls) {
    const hash = Buffer.from(Array.from({ length: n }, (_, i) => (i * 37 + n) % 255 + 1)), m = BigInt("0x" + hash.toString("hex")), k = nonces[n % 3], R = C.mul(G, k), r = R[0], v = 27n + (R[1] & 1n), ri = C.inv(r, N), T = C.mul(R, ri), U = C.mul(G, C.mod(-ri * m, N));
    c.states(); c.steps(2); c.traces(); const o = outcome(() => lib.computeEffEcdsaPubInput(r, v, hash)), g = o.v; if (!c.ensure(g && same(pt(g.Tx, g.Ty), T) && same(pt(g.Ux, g.Uy), U), "wrong-inputs-long-message", () => ({ r, v, length: n, got: g ?? o.e }))) continue;
    const mk = h => new lib.PublicInput(r, v, h, new lib.CircuitPubInput(7n, ...T, ...U)); let a = outcome(() => lib.verifyEffEcdsaPubInput(mk(hash))); c.ensure(a.v === true, "right-refused-long-message", { r, v, length: n, got: a });
    const pl = places(n), few = pl.length > 8 ? pl.filter((_, i) => (i + n) % Math.ceil(pl.length / (th ? 20 : 5)) === 0 || i === pl.length - 1) : pl;
    for (const at of few) { const h = Buffer.from(hash); h[at] ^= 1 << at % 8; c.states(); c.steps(); a = outcome(() => lib.verifyEffEcdsaPubInput(mk(h))); c.ensure(a.v !== true, "other-message-accepted", { r, v, length: n, at }); }
  }
  // an answer depends on the whole input: calls that differ in one part, or whose digits run together alike, with a base between
  { const pub = (r, v, h) => { const m = h.length ? BigInt("0x" + h.toString("hex")) : 0n, ri = C.inv(r, N), T = C.mul(C.liftX(r, (v + 1n) & 1n), ri), U = C.mul(G, C.mod(-ri * m, N)); return { T, U }; }; let n = 0;
    const ask = (r, v, h) => { n++; c.states(); c.steps(2); c.traces(); const { T, U } = pub(r, v, h), o = outcome(() => lib.computeEffEcdsaPubInput(r, v, Buffer.from(h))), g = o.v; if (!c.ensure(g && same(pt(g.Tx, g.Ty), T) && same(pt(g.Ux, g.Uy), U), "wrong-inputs-remembered", () => ({ r, v, h, T, U, got: g ?? o.e }))) return; const mk = (T, U) => new lib.PublicInput(r, v, Buffer.from(h), new lib.CircuitPubInput(7n, ...T, ...U)); const a = outcome(() => lib.verifyEffEcdsaPubInput(mk(T, U))); c.ensure(a.v === true, "right-refused-remembered", () => ({ r, v, h, got: a }));
      for (const [T2, U2] of [[C.neg(T), U], [T, C.neg(U)], [U, T], [T, [U[0], U[1] + 1n]]]) { c.steps(); const a = outcome(() => lib.verifyEffEcdsaPubInput(mk(T2, U2))); c.ensure(a.v !== true, "altered-accepted-remembered", () => ({ r, v, h, T2, U2 })); } };
    const valid = r => r >= 1n && r < N && C.liftX(r, 0n); const sets = [];
    for (const base of [10, 16]) { const num = d => [...d].reduce((t, x) => t * BigInt(base) + BigInt(parseInt(x, base)), 0n); for (const ds of ["123456", "121212", "1111", "2461", "1230004", ...(base === 16 ? ["c1d2e3f4", "100002"] : [])]) for (const v of [27n, 28n]) { const list = []; for (let k = 1; k < ds.length; k++) { const r = num(ds.slice(0, k)), m = num(ds.slice(k)); if (valid(r) && m) list.push([r, v, buf(m)], [r, v, buf(m, 4)]); } sets.push(list, list.slice().reverse()); } }
    for (const [k, m] of [[5n, rnd(1n << 256n)], [N - 2n, 1n << 255n | 1n], ...(th ? [[rnd(N), rnd(1n << 256n)], [3n, 7n]] : [])]) { const R = C.mul(G, k), r = R[0], h = buf(m), b = [r, 27n + (R[1] & 1n), h], list = [b]; const put = (...x) => list.push(x, b);
      put(r, 55n - b[1], h); for (const v of [29n, 30n, 37n, 38n]) put(r, v, h); for (let i = 0; i < 32; i++) { const g = Buffer.from(h); g[i] ^= 1; put(r, b[1], g); } for (const g of [h.subarray(1), h.subarray(0, 31), Buffer.concat([h, h]), Buffer.concat([Buffer.from([1]), h])]) put(r, b[1], g);
      let got = 0; for (let i = 0; i < 256; i += th ? 1 : 8) { const x = r ^ 1n << BigInt(i); if (valid(x)) { put(x, b[1], h); got++; } } for (let i = 1n; got < 30; i++) if (valid(r + i)) { put(r + i, b[1], h); got++; } sets.push(list); }
    for (const list of sets) for (const x of list) ask(...x); c.bound(`${n} calls one after another, each differing from the one before it in one part (r, recovery value, one byte or the length of the message) or its digits running together alike`); }
  // values of r that denote nothing
  const none = [0n, -1n, N, N + 1n, P, P + 1n, P + G[0], 1n << 256n, (1n << 256n) - 1n, -G[0]]; for (let x = 1n; none.length < (th ? 120 : 40); x++) { if (!C.liftX(x, 0n)) none.push(x); if (N + x < P && C.liftX(N + x, 0n)) none.push(N + x); if (C.liftX(x, 0n) && P + x < 1n << 256n) none.push(P + x); }
  c.bound(`${none.length} values of r that are out of range or no coordinate of a point`);
  for (const r of none) for (const v of [27n, 28n]) { c.states(); c.steps(); c.traces(); const o = outcome(() => lib.computeEffEcdsaPubInput(r, v, buf(5n))); c.ensure(!!o.e, "impossible-r-used", { r, v, got: o.v }); }
  // the known answer of the specification of efficient ECDSA
  const h = Buffer.from("8e05c70f46dbc3dda34547fc23ac835d728001bac55db9bd122d77d10d294431", "hex"), o = outcome(() => lib.computeEffEcdsaPubInput(0x5d5d43bec648296f5ef4b72c269bfde291fc0ed13bfc7e59c56b6c74aa9c932en, 28n, h));
  c.ensure(o.v?.Tx === 0x2af2c62145d39e7dd285b55d5c51963baa31b58e0c1b8b7e1de9351840917581n && o.v?.Uy === 0xeaeeff65d77a9334606577c4696178497a94e775573553267eb856bee4c54a6fn, "known-answer", o); c.sample({ known: o.v });
}
const same = (a, b) => Buffer.from(a).equals(Buffer.from(b));
export function L02(c) {
  const lib = library(), th = c.thorough, Z = 0n;
  const full = [0n, 1n, 255n, 256n, P - 1n, P, (1n << 256n) - 1n, 1n << 255n, BigInt("0x" + Array.from({ length: 32 }, (_, i) => (i + 1).toString(16).padStart(2, "0")).join(""))];
  for (let i = 0; i < 32; i++) { full.push((1n << BigInt(8 * i + 8)) - 1n, 1n << BigInt(8 * i)); if (th) full.push(15n << BigInt(8 * i), 0x80n << BigInt(8 * i)); }
  const words = v => v.map(x => [...toBe(x)]).flat(), five = p => [p.merkleRoot, p.Tx, p.Ty, p.Ux, p.Uy]; const seen = new Map();
  const circ = (v, ser) => { c.states(); c.steps(2); c.traces(); const o = outcome(() => new lib.CircuitPubInput(...v).serialize()); if (!c.ensure(o.v && o.v.length === 160 && same(o.v, words(v)), "circuit-words", () => ({ v, got: o }))) return; const key = Buffer.from(o.v).toString("hex"); c.ensure(!seen.has(key), "circuit-collision", { v, other: seen.get(key) }); seen.set(key, v); const b = Uint8Array.from(o.v), d = outcome(() => lib.CircuitPubInput.deserialize(b)); c.ensure(d.v && five(d.v).every((x, i) => x === v[i]) && same(b, o.v), "circuit-read-back", () => ({ v, got: d })); };
  c.bound(`circuit public inputs: ${full.length} values (every count of leading zero bytes, every single byte position) in each of the five fields against 4 backgrounds, all 5-tuples over 4 values, all pairs of outputs compared`);
  const done = new Set(), once = v => { const k = v.join(); if (!done.has(k)) { done.add(k); circ(v); } };
  for (const bg of [Z, 1n, P - 1n, full[8]]) for (let i = 0; i < 5; i++) for (const x of full) { const v = Array(5).fill(bg); v[i] = x; once(v); }
  for (const t of tuples(4, 5)) once(t.map(i => [0n, 1n, 256n, (1n << 256n) - 1n][i]));
  // public inputs
  const hashes = [0, 1, 31, 32, 33, 64].flatMap(n => [Buffer.alloc(n), Buffer.alloc(n, 255), Buffer.from(Array.from({ length: n }, (_, i) => i))]).filter((b, i, a) => a.findIndex(x => x.equals(b)) === i);
  const rs = [0n, 1n, 255n, 1n << 248n, 1n << 255n, N - 1n, (1n << 256n) - 1n, full[8]], vs = th ? Array.from({ length: 256 }, (_, i) => BigInt(i)) : [0n, 1n, 15n, 16n, 27n, 28n, 37n, 127n, 128n, 255n], cs = [[Z, Z, Z, Z, Z], [1n, 2n, 3n, 4n, 5n], [P - 1n, 1n << 200n, Z, 255n, (1n << 256n) - 1n], full.slice(4, 9)];
  c.bound(`public inputs: ${rs.length} r x ${vs.length} recovery values x ${hashes.length} messages of 6 lengths x ${cs.length} circuit inputs, from plain arrays, buffers and views with an offset; all pairs compared`);
  const seen2 = new Map();
  for (const r of rs) for (const v of vs) for (const h of hashes) for (const q of cs) {
    c.states(); c.steps(3); c.traces(); const o = outcome(() => new lib.PublicInput(r, v, Buffer.from(h), new lib.CircuitPubInput(...q)).serialize()); const want = [...toBe(r), Number(v), ...words(q), ...h];
    if (!c.ensure(o.v && same(o.v, want), "bytes", () => ({ r, v, h, q, got: o }))) continue; const key = Buffer.from(o.v).toString("hex"); c.ensure(!seen2.has(key), "collision", { r, v, h, q }); seen2.set(key, 1);
    const off = new Uint8Array(want.length + 9); off.fill(0x5a); off.set(want, 5);
    for (const [how, b] of [["array", Uint8Array.from(want)], ["buffer", Buffer.from(want)], ["view", off.subarray(5, 5 + want.length)]]) { const d = outcome(() => lib.PublicInput.deserialize(b)); const ok = d.v && d.v.r === r && d.v.rV === v && same(d.v.msgHash, h) && five(d.v.circuitPubInput).every((x, i) => x === q[i]) && same(b, want); c.ensure(ok, "read-back-" + how, () => ({ r, v, h, q, got: d })); if (ok) { b.fill(0); c.ensure(same(d.v.msgHash, h), "read-back-shares-memory-" + how, { h }); const again = outcome(() => d.v.serialize()); c.ensure(again.v && same(again.v, want), "write-again-" + how, () => ({ r, v, h, q })); } }
  }
  const ls = lengths(th ? 65537 : 8193); c.bound(`messages of ${ls.length} lengths up to ${ls.at(-1)} bytes, written and read back`);
  for (const n of ls) { const h = Buffer.from(Array.from({ length: n }, (_, i) => (i * 37 + n) & 255)), q = cs[n % cs.length], r = full[8]; c.states(); c.steps(3); c.traces(); const want = [...toBe(r), 28, ...words(q), ...h]; const o = outcome(() => new lib.PublicInput(r, 28n, Buffer.from(h), new lib.CircuitPubInput(...q)).serialize()); c.ensure(o.v && same(o.v, want), "bytes-long", () => ({ length: n, e: o.e })); const d = outcome(() => lib.PublicInput.deserialize(Uint8Array.from(want))); c.ensure(d.v && d.v.r === r && d.v.rV === 28n && same(d.v.msgHash, h) && five(d.v.circuitPubInput).every((x, i) => x === q[i]), "read-back-long", () => ({ length: n, e: d.e })); }
  // what does not fit is refused, never cut
  const wide = [1n << 256n, (1n << 256n) + 1n, 1n << 260n, 1n << 264n, 1n << 512n, -1n, -255n, -(1n << 255n)]; c.bound("values below 0 and from 2^256 (256 for the recovery value) in every field; every length below the fixed part; circuit inputs of every length from 0 to 200 other than 160");
  for (const x of wide) for (let i = 0; i < 5; i++) { const v = [1n, 2n, 3n, 4n, 5n]; v[i] = x; c.states(); c.steps(); const o = outcome(() => new lib.CircuitPubInput(...v).serialize()); c.ensure(!!o.e, "does-not-fit", { v, got: o.v }); }
  const C5 = () => new lib.CircuitPubInput(1n, 2n, 3n, 4n, 5n);
  for (const x of wide) { c.states(); c.steps(); const o = outcome(() => new lib.PublicInput(x, 27n, Buffer.alloc(32), C5()).serialize()); c.ensure(!!o.e, "does-not-fit-r", { r: x, got: o.v }); }
  for (const x of [256n, 257n, 283n, 300n, 4095n, 4096n, 65535n, -1n, -27n]) { c.states(); c.steps(); const o = outcome(() => new lib.PublicInput(1n, x, Buffer.alloc(32), C5()).serialize()); c.ensure(!!o.e, "does-not-fit-v", { v: x, got: o.v }); }
  for (let n = 0; n < 193; n++) { c.states(); c.steps(); const o = outcome(() => lib.PublicInput.deserialize(new Uint8Array(n).fill(7))); c.ensure(!!o.e, "short-read", () => ({ n, got: o.v })); }
  for (let n = 0; n <= 200; n++) if (n !== 160) { c.states(); c.steps(); const o = outcome(() => lib.CircuitPubInput.deserialize(new Uint8Array(n).fill(7))); c.ensure(!!o.e, "wrong-length-read", () => ({ n, got: o.v })); }
  c.sample({ serialized: new lib.PublicInput(1n, 27n, Buffer.from("ab", "hex"), C5()).serialize() });
}
