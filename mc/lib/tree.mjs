// L03 Merkle trees and the hash they use.
import { library, Engine } from "./engine.mjs";
import { outcome, tuples, places } from "./check.mjs";
import { poseidon, le } from "./poseidon.mjs";
import { P } from "./curve.mjs";
/** Root and siblings of `leaves` (missing ones are 0) straight from the definition. */
export function direct(leaves, depth) { let row = Array.from({ length: 2 ** depth }, (_, i) => leaves[i] ?? 0n); const rows = []; for (let l = 0; l < depth; l++) { rows.push(row); const next = []; for (let i = 0; i < row.length; i += 2) next.push(poseidon(row[i], row[i + 1])); row = next; } return { root: row[0], path: i => rows.map((r, l) => [r[(i >> l) ^ 1]]), bits: i => rows.map((_, l) => i >> l & 1) }; }
const eq = (a, b) => JSON.stringify(a, (_, x) => typeof x === "bigint" ? x.toString() : x) === JSON.stringify(b, (_, x) => typeof x === "bigint" ? x.toString() : x);
export async function L03(c) {
  const th = c.thorough, lib = library(), hash = new lib.Poseidon(); await hash.initWasm();
  // the hash
  const els = [0n, 1n, 2n, 255n, 256n, P - 1n, P - 2n, 1n << 128n, 1n << 248n, (1n << 248n) - 1n, 1n << 255n]; for (let i = 0; i < 32; i++) els.push(0x12n << BigInt(8 * i));
  const use = els.filter((x, i) => x < P && els.indexOf(x) === i); c.bound(`hash of all pairs of ${use.length} elements: inputs and output little-endian, 32 bytes; inputs unchanged; refusals`);
  for (const a of use) for (const b of use) { c.states(); c.steps(); c.traces(); const inp = [a, b], o = outcome(() => hash.hash(inp)); c.ensure(o.v === poseidon(a, b), "hash", { a, b, got: o }); c.ensure(inp.length === 2 && inp[0] === a && inp[1] === b, "hash-input-changed", { a, b }); }
  for (const x of [P, P + 1n, (1n << 256n) - 1n, 1n << 256n, (1n << 256n) + 5n, -1n]) for (const p of [[x, 1n], [1n, x], [x, x]]) { c.states(); c.steps(); const o = outcome(() => hash.hash(p)); c.ensure(!!o.e, "hash-of-non-element", { p, got: o.v }); }
  for (const p of [[], [1n], [1n, 2n, 3n]]) { c.states(); c.steps(); const o = outcome(() => hash.hash(p)); c.ensure(!!o.e, "hash-of-wrong-count", { p, got: o.v }); }
  for (const a of use) for (const b of use.slice(0, 12)) { const h = s => s.toString(16).padStart(64, "0"); c.states(); c.steps(); const pk = Buffer.from(h(a) + h(b), "hex"), keep = Buffer.from(pk), o = outcome(() => hash.hashPubKey(pk)); c.ensure(o.v === poseidon(a, b) && keep.equals(pk), "hash-pubkey", { a, b, got: o }); }
  // one instance, inputs whose digits run together alike: an answer depends on the two elements only
  const digs = []; for (const base of [10n, 16n]) for (const d of th ? [[1n, 2n, 3n], [1n, 1n, 1n, 1n], [1n, 0n, 0n, 2n], [9n, 0n, 9n, 0n, 9n]] : [[1n, 2n, 3n], [1n, 0n, 1n, 1n]]) for (let k = 0; k <= d.length; k++) { const num = a => a.reduce((t, x) => t * base + x, 0n); digs.push([num(d.slice(0, k)), num(d.slice(k))]); }
  for (const a of [0n, 1n, 2n, 255n, 256n]) for (const b of [a << 8n, a << 16n, a << 128n, a << 248n]) if (b < P) digs.push([a, b], [b, a], [a + b, 0n], [0n, a + b]);
  for (let i = 1; i < 256; i += th ? 1 : 7) { const x = (1n << BigInt(i)) % P; digs.push([x, P - x], [P - x, x], [x, x]); }
  for (let i = 0n; i < (th ? 5000n : 600n); i++) digs.push([i, i * i]);
  c.bound(`${digs.length} pairs of elements whose digits or bytes run together alike, hashed twice by one instance in two orders`);
  for (const p of [...digs, ...digs.slice().reverse()]) { c.states(); c.steps(); c.traces(); const o = outcome(() => hash.hash(p.slice())); c.ensure(o.v === poseidon(...p), "hash", { p, got: o }); }
  // trees
  const leaves = th ? [1n, 11n, P - 1n] : [1n, P - 1n];
  // with `ask`, every tree answers every question before each operation as well, so that what it remembers shows
  const glance = (tr, m, depth, at) => { const d = direct(m, depth); c.steps(); c.ensure(tr.root() === d.root && eq(tr.leaves(), m), "root-between", () => ({ at, depth, leaves: m })); for (const x of [...leaves, 0n]) c.ensure(tr.indexOf(x) === m.indexOf(x), "index-between", () => ({ at, depth, leaves: m, x, got: tr.indexOf(x) })); for (let i = 0; i < m.length; i++) { const o = outcome(() => tr.createProof(i)), p = o.v; c.ensure(p && p.root === d.root && eq(p.siblings, d.path(i)) && eq(p.pathIndices, d.bits(i)) && tr.verifyProof(p, m[i]) === true, "proof-between", () => ({ at, depth, leaves: m, i, got: o })); } };
  const run = (depths, len, ops, ask = false) => { for (const t of tuples(ops.length, len)) {
    const T = depths.map(d => new lib.Tree(d, hash)), M = depths.map(() => []); c.states(); c.traces(); let ok = true;
    const at = t.map(i => ops[i]);
    for (const [w, kind, x] of at) {
      if (ask) T.forEach((tr, w) => glance(tr, M[w], depths[w], at));
      c.steps(); const full = M[w].length >= 2 ** depths[w];
      if (kind === "i") { const o = outcome(() => T[w].insert(x)); if (full) ok &&= c.ensure(!!o.e, "overfull", { at }); else { M[w].push(x); ok &&= c.ensure(!o.e, "insert-refused", { at, e: o.e }); } }
      else { const o = outcome(() => T[w].delete(x)); if (x < M[w].length) { M[w][x] = 0n; ok &&= c.ensure(!o.e, "delete-refused", { at, e: o.e }); } else ok &&= c.ensure(!!o.e, "delete-of-nothing", { at }); }
    }
    if (ok) T.forEach((tr, w) => observe(tr, M[w], depths[w], at));
  } };
  const observe = (tr, m, depth, at) => {
    const d = direct(m, depth), what = x => () => ({ at, depth, leaves: m, ...x });
    c.ensure(tr.root() === d.root, "root", what({ got: tr.root(), want: d.root })); c.ensure(eq(tr.leaves(), m), "leaves", what({ got: tr.leaves() })); c.ensure(tr.depth === depth, "depth", what({}));
    for (const x of [...leaves, 0n, 99n]) { c.steps(); c.ensure(tr.indexOf(x) === m.indexOf(x), "index", what({ x, got: tr.indexOf(x) })); }
    for (let i = 0; i <= m.length; i++) {
      c.steps(); const o = outcome(() => tr.createProof(i)); if (i === m.length) { c.ensure(!!o.e, "proof-of-nothing", what({ i, got: o.v })); continue; }
      const p = o.v; if (!c.ensure(p && p.root === d.root && eq(p.siblings, d.path(i)) && eq(p.pathIndices, d.bits(i)), "proof", what({ i, got: o }))) continue;
      c.ensure(eq(Object.keys(p).sort(), ["pathIndices", "root", "siblings"]), "proof-fields", what({ keys: Object.keys(p) }));
      const v = (q, x) => outcome(() => tr.verifyProof(q, x)).v; c.steps(); c.ensure(v(p, m[i]) === true, "proof-refused", what({ i }));
      const copy = f => { const q = { root: p.root, siblings: p.siblings.map(s => s.slice()), pathIndices: p.pathIndices.slice() }; f(q); return q; };
      for (const x of [...leaves, 0n, m[i] + 1n]) if (x !== m[i]) { c.steps(); c.ensure(v(p, x) !== true, "other-leaf-accepted", what({ i, x })); }
      c.steps(); c.ensure(v(copy(q => q.root++), m[i]) !== true, "other-root-accepted", what({ i }));
      for (let l = 0; l < depth; l++) { c.steps(2); c.ensure(v(copy(q => q.siblings[l][0]++), m[i]) !== true, "other-sibling-accepted", what({ i, l })); const node = l ? null : m[i]; if (node === null || node !== p.siblings[0][0]) { const q = copy(q => { q.pathIndices[l] ^= 1; }); let n = m[i], alt = m[i]; for (let k = 0; k < depth; k++) { alt = q.pathIndices[k] ? poseidon(q.siblings[k][0], alt) : poseidon(alt, q.siblings[k][0]); } c.ensure((v(q, m[i]) === true) === (alt === p.root), "other-path-accepted", what({ i, l })); } }
      c.ensure(eq(tr.createProof(i), p), "proof-changes", what({ i }));
    }
  };
  const one = d => [...leaves.map(x => [0, "i", x]), ...Array.from({ length: Math.min(2 ** d, 4) + 1 }, (_, i) => [0, "d", i])];
  for (const [d, n] of th ? [[1, 6], [2, 6], [3, 5], [5, 4]] : [[1, 4], [2, 4], [3, 3]]) { c.bound(`depth ${d}: all sequences of up to ${n} of: insertion of one of ${leaves.length} leaves, deletion of one of ${Math.min(2 ** d, 4) + 1} positions; after each, root, leaves, index of every leaf, every proof and every altered proof; once more with all questions asked before each operation too`); for (let k = 0; k <= n; k++) { run([d], k, one(d)); if (k) run([d], k, one(d), true); } }
  const two = [[0, "i", 1n], [1, "i", 1n], [0, "i", 5n], [1, "i", 5n], [0, "d", 0], [1, "d", 0]]; const n2 = th ? 5 : 3; c.bound(`two trees of different depth on one hash: all sequences of up to ${n2} of 6 operations`); for (let k = 1; k <= n2; k++) { run([1, 3], k, two); run([1, 3], k, two, true); }
  // leaves whose digits run together alike
  for (const ls of [[1n, 23n, 12n, 3n], [12n, 3n, 1n, 23n], [1n, 1n, 11n, 0n], [0x1n, 0x23n, 0x12n, 0x3n], [256n, 1n, 1n, 256n], [0n, 10n, 0n, 1n]]) { const tr = new lib.Tree(2, hash), m = []; for (const x of ls) { tr.insert(x); m.push(x); c.states(); c.steps(); c.traces(); observe(tr, m, 2, ["digits", ls]); } }
  // full tree, growing, of the depth used with the circuits
  for (const depth of th ? [4, 20] : [3, 20]) { const tr = new lib.Tree(depth, hash); const m = []; for (let i = 0; i < (depth > 4 ? 9 : 2 ** depth); i++) { tr.insert(BigInt(i + 1)); m.push(BigInt(i + 1)); c.states(); c.traces(); c.steps(); if (depth < 20) observe(tr, m, depth, ["fill", i]); else { const p = tr.createProof(i); let n = m[i]; p.siblings.forEach((s, l) => { n = p.pathIndices[l] ? poseidon(s[0], n) : poseidon(n, s[0]); }); c.ensure(n === p.root && p.root === tr.root() && p.siblings.length === 20 && p.siblings.every(s => s.length === 1), "deep-proof", { i }); c.ensure(tr.verifyProof(p, m[i]) === true, "deep-proof-refused", { i }); } } }
  // many leaves
  for (const [depth, n] of th ? [[9, 300], [11, 1100]] : [[9, 300], [10, 600]]) {
    c.bound(`${n} leaves in a tree of depth ${depth}, some equal, some deleted: root, leaves, the index of each and of absent ones, and the proof of each (beyond 70: at the ends and powers of two), also against other leaves`);
    const tr = new lib.Tree(depth, hash), m = []; const value = i => i % 50 === 49 ? 7n : BigInt(i) * 3n + 1n; const look = when => { const d = direct(m, depth), what = x => () => ({ when, depth, n, ...x }); c.states(); c.traces();
      c.ensure(tr.root() === d.root, "root-many", what({})); c.ensure(eq(tr.leaves(), m), "leaves-many", what({}));
      for (const x of new Set([...m, 2n, 5n, 0n])) { c.steps(); c.ensure(tr.indexOf(x) === m.indexOf(x), "index-many", what({ x, got: tr.indexOf(x) })); }
      for (const i of places(m.length)) { c.steps(3); const o = outcome(() => tr.createProof(i)), p = o.v; if (!c.ensure(p && p.root === d.root && eq(p.siblings, d.path(i)) && eq(p.pathIndices, d.bits(i)), "proof-many", what({ i, e: o.e }))) continue; c.ensure(outcome(() => tr.verifyProof(p, m[i])).v === true, "proof-refused-many", what({ i })); c.ensure(outcome(() => tr.verifyProof(p, m[i] + 1n)).v !== true, "other-leaf-accepted-many", what({ i })); }
      const o = outcome(() => tr.createProof(m.length)); c.ensure(!!o.e, "proof-of-nothing-many", what({})); };
    for (let i = 0; i < n; i++) { tr.insert(value(i)); m.push(value(i)); } look("inserted");
    for (const i of [n - 1, 256, 100, 0]) { tr.delete(i); m[i] = 0n; } look("deleted");
  }
  c.sample({ depth: 2, leaves: [1n, 2n], root: direct([1n, 2n], 2).root });
  c.ensure(lib.engine.quiet().length === 0, "engine-misused", lib.engine.quiet());
}
