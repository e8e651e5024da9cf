// drive.mjs SHARD SHARDS: the library's side of E01. Requests go out as lines of JSON, replies come in as such.
import fs from "node:fs";
import path from "node:path";
import { library, Engine } from "../lib/engine.mjs";
import { show } from "../lib/check.mjs";
import * as C from "../lib/curve.mjs";
const { N, P, G } = C, DIR = process.env.E2E_DIR, [shard, shards] = process.argv.slice(2).map(Number), th = process.env.VERIF_TIER === "thorough";
// ---- requests
let rest = Buffer.alloc(0); const chunk = Buffer.alloc(1 << 20);
// (a pipe that is not ready is tried again)
const persist = f => { for (; ;) try { return f(); } catch (e) { if (e.code !== "EAGAIN") throw e; Atomics.wait(new Int32Array(new SharedArrayBuffer(4)), 0, 0, 1); } };
function ask(op, q = {}) {
  let out = Buffer.from(JSON.stringify({ op, ...q }) + "\n"); while (out.length) { const b = out; out = b.subarray(persist(() => fs.writeSync(1, b))); }
  const parts = [rest]; for (; ;) { const last = parts.at(-1), at = last.indexOf(10); if (at >= 0) { const all = Buffer.concat([...parts.slice(0, -1), last.subarray(0, at)]); rest = Buffer.from(last.subarray(at + 1)); return JSON.parse(all.toString()); } const n = persist(() => fs.readSync(0, chunk)); if (!n) throw new Error("no reply"); parts.push(Buffer.from(chunk.subarray(0, n))); }
}
const fail = (key, detail) => ask("fail", { key, detail: JSON.parse(show(detail)) }), ensure = (ok, key, detail) => { if (!ok) fail(key, detail()); return ok; };
const state = what => ask("state", { what }), count = what => ask("count", { what });
const hex = b => Buffer.from(b).toString("hex"), h64 = x => x.toString(16).padStart(64, "0");
// ---- the world of the library
const KIND = { pubkey: 0, addr: 1 }, known = new Map(), temps = [];
const ready = kind => { const r = ask("ready", { kind: KIND[kind] }); if (r.error) throw new Error("circuit"); return r.path; };
let tmp = 0;
/** A file with these bytes: the circuit itself where it is one. */
function asFile(bytes) {
  const b = Buffer.from(bytes.buffer, bytes.byteOffset, bytes.length); for (const [p, v] of known) if (v.equals(b)) return p;
  const p = path.join(DIR, `passed-${shard}-${tmp++}`); fs.writeFileSync(p, b); temps.push(p); return p;
}
const tidy = () => { if (temps.length) ask("forget", { paths: temps.splice(0) }); };
const answer = r => r.hex !== undefined ? Buffer.from(r.hex, "hex") : r.error !== undefined ? { error: r.error } : { trap: true };
const hashes = new Map();
const answers = {
  poseidon(a) { const k = hex(a); if (!hashes.has(k)) hashes.set(k, ask("poseidon", { hex: k })); return answer(hashes.get(k)); },
  prove(a, b, c) { return answer(ask("prove", { circuit: asFile(a), witness: asFile(b), public: hex(c) })); },
  verify(a, b, c) { const r = ask("verify", { circuit: asFile(a), proof: hex(b), public: hex(c) }); return r.ok !== undefined ? r.ok : r.error !== undefined ? { error: r.error } : { trap: true }; },
};
// the witness program's reading of its input: numbers and strings of numbers, arrays flattened, reduced modulo the prime
const flat = v => Array.isArray(v) ? v.flatMap(flat) : [C.mod(BigInt(v), P).toString(16)];
async function world(lax = false) {
  const engine = new Engine({ answers }); engine.calls = { push() { } };
  const snarkjs = { wtns: { async calculate(input, file, out) { const r = ask("witness", { input: Object.fromEntries(Object.entries(input).map(([k, v]) => [k, flat(v)])), file, lax }); if (r.error !== undefined) throw new Error(r.error); temps.push(r.path); out.data = new Uint8Array(fs.readFileSync(r.path)); } } };
  const lib = library({ engine, snarkjs }); await new lib.Poseidon().initWasm(); return { lib, engine };
}
const circuitOf = kind => { const p = ready(kind); if (!known.has(p)) known.set(p, fs.readFileSync(p)); return p; };
const proverOf = async (w, kind) => { const p = new w.lib.MembershipProver({ circuit: circuitOf(kind), witnessGenWasm: path.join(DIR, `${kind}.wasm`) }); await p.initWasm(); return p; };
const verifierOf = async (w, kind) => { const v = new w.lib.MembershipVerifier({ circuit: circuitOf(kind) }); await v.initWasm(); return v; };
const settle = async f => { try { return { v: await f() }; } catch (e) { return { e: String(e?.message ?? e) }; } };
// ---- statements
/** What a signer with key d says about m, with nonce k. */
function signed(d, m, k) { const s = C.sign(d, m, k); return { d, m, k, Q: C.mul(G, d), r: s.r, s: s.s, v: s.v, msg: Buffer.from(h64(m), "hex"), sig: "0x" + h64(s.r) + h64(s.s) + s.v.toString(16).padStart(2, "0") }; }
const leafOf = (w, kind, Q) => kind === "addr" ? BigInt("0x" + ask("address", { x: h64(Q[0]), y: h64(Q[1]) }).hex) : new w.lib.Poseidon().hashPubKey(Buffer.from(h64(Q[0]) + h64(Q[1]), "hex"));
/** A tree of 20 levels: `size` leaves, those given at their places, `gone` deleted afterwards. */
function treeOf(w, places, { size = 1, gone = [] } = {}) { const t = new w.lib.Tree(20, new w.lib.Poseidon()); for (let i = 0; i < size; i++) t.insert(places[i] ?? BigInt(i) * 7919n + 3n); for (const i of gone) t.delete(i); return t; }
const about = (kind, q, g, more = {}) => ({ circuit: kind, key: q.d, message: q.m, nonce: q.k, group: g, ...more });
async function proofOf(w, kind, q, g, at, prover) {
  const leaf = leafOf(w, kind, q.Q), t = treeOf(w, { [at]: leaf }, g), mp = t.createProof(t.indexOf(leaf)); const p = prover ?? await proverOf(w, kind);
  const o = await settle(() => p.prove({ sig: q.sig, msgHash: Buffer.from(q.msg), merkleProof: mp })); return { o, t, mp };
}
const cases = []; const add = (what, f) => cases.push([what, f]);
/** A member is accepted: by another copy of the library, from bytes alone, every time it is asked. */
function accepted(kind, q, g, at) {
  add(`${kind}: members`, async () => {
    const w = await world(), { o, t } = await proofOf(w, kind, q, g, at), what = m => () => about(kind, q, { ...g, at }, m);
    if (!ensure(o.v, `${kind}-member-gets-no-proof`, what({ error: o.e }))) return;
    ensure(o.v.publicInput.circuitPubInput.merkleRoot === t.root(), `${kind}-proof-for-another-group`, what({})); const ser = Buffer.from(o.v.publicInput.serialize()), proof = Buffer.from(o.v.proof);
    count("proofs accepted"); const w2 = await world(), v = await verifierOf(w2, kind); for (const n of [1, 2]) { const r = await settle(() => v.verify({ proof: new Uint8Array(proof), publicInputSer: new Uint8Array(ser) })); if (!ensure(r.v === true, `${kind}-member-refused`, what({ time: n, got: r }))) return; if (kind === "addr") break; }
  });
}
const refused = async (v, proof, ser, key, what) => { const r = await settle(() => v.verify({ proof: new Uint8Array(proof), publicInputSer: new Uint8Array(ser) })); count(r.e !== undefined ? "verifications ended by an error" : "proofs refused"); ensure(r.v !== true, key, what); };
// statements with leading zeros in every value that crosses a boundary between parts, extreme messages, keys and nonces
const row = k => [5n, 1000n + k, k];
const rows = [row(1n), row(3n), row(6n), row(8n), row(27n), row(42n), row(45n), row(69n), row(153n), row(176n), row(234n), row(559n), row(1055n), [13n, 77n, 9n], [45n, 77n, 10n], [110n, 77n, 11n], [122n, 77n, 12n], [153n, 77n, 13n], [569n, 77n, 14n], [1n, 1n, 2n], [N - 1n, 255n, 1n], [7n, N - 1n, N - 1n], [7n, N + 7n, 3n], [7n, (1n << 256n) - 1n, 4n], [2n, 1n << 255n, 5n]];
{ // s*T = U: the sum in the circuit is a doubling
  const k = 21n, d = 11n, r = C.sign(d, 0n, k).r; rows.push([d, C.mod(-r * d * C.inv(2n, N), N), k]); }
const groups = [[{ size: 1 }, 0], [{ size: 2 }, 0], [{ size: 2 }, 1], [{ size: 3 }, 2], [{ size: 5 }, 3], [{ size: 5, gone: [2] }, 3], [{ size: 4, gone: [0, 2] }, 1], [{ size: 9 }, 8], [{ size: 33 }, 31], [{ size: 33, gone: [31] }, 32]];
rows.forEach((x, i) => { const q = signed(...x); for (const j of th ? groups.keys() : [i % groups.length]) accepted("pubkey", q, ...groups[j]); });
groups.forEach(([g, at], j) => accepted("pubkey", signed(1234567n + BigInt(j), 42n, 99n + BigInt(j)), g, at));
// nothing else is accepted with a proof: every byte of the public input, a spread of those of the proof
const A = signed(5n, 1001n, 1n), B = signed(6n, 1002n, 8n), group = { size: 5 };
{
  const slices = 16; let proof, ser;
  for (let i = 0; i < slices; i++) add("pubkey: altered public inputs and proofs", async () => {
    const w = await world(); if (!proof) { const { o } = await proofOf(w, "pubkey", A, group, 1); if (!o.v) return; proof = Buffer.from(o.v.proof); ser = Buffer.from(o.v.publicInput.serialize()); } const v = await verifierOf(w, "pubkey");
    const same = (a, b) => ["r", "merkleRoot", "Tx", "Ty", "Ux", "Uy"].every(k => (a[k] ?? a.circuitPubInput[k]) === (b[k] ?? b.circuitPubInput[k])) && Buffer.from(a.msgHash).equals(Buffer.from(b.msgHash)) && (a.rV - b.rV) % 2n === 0n;
    for (let at = i; at < ser.length; at += slices) { const s = Buffer.from(ser); s[at] ^= 1; const p = await settle(() => w.lib.PublicInput.deserialize(new Uint8Array(s))); if (p.v && same(p.v, w.lib.PublicInput.deserialize(new Uint8Array(ser)))) continue; await refused(v, proof, s, "accepted-for-other-public-input", () => about("pubkey", A, group, { byte: at })); }
    const step = th ? 97 : 331; for (let at = i * step; at < proof.length; at += slices * step) { const p = Buffer.from(proof); p[at] ^= 1; await refused(v, p, ser, "altered-proof-accepted", () => about("pubkey", A, group, { byte: at })); }
    for (const n of [0, 1, proof.length - 1]) if (n % slices === i % slices) await refused(v, proof.subarray(0, n), ser, "cut-proof-accepted", () => about("pubkey", A, group, { length: n }));
  });
}
// other circuits and other statements
add("proofs exchanged", async () => {
  const w = await world(), a = (await proofOf(w, "pubkey", A, group, 1)).o.v, b = (await proofOf(w, "pubkey", B, group, 1)).o.v; if (!a || !b) return; const v = await verifierOf(w, "pubkey"), x = await verifierOf(w, "addr");
  for (const [p, q, c, k] of [[a, b, v, "accepted-for-another-statement"], [b, a, v, "accepted-for-another-statement"], [a, a, x, "accepted-for-another-circuit"]]) await refused(c, p.proof, q.publicInput.serialize(), k, () => about("pubkey", A, group));
});
// outsiders: no accepted proof, whether the witness program checks anything or not
function outsiders(kind, lax, pick = () => true) {
  const bump = x => (x + 1n) % P, list = [
    ["not-in-the-group", q => ({ q: signed(99n, q.m, q.k) })], ["another-message", q => ({ q: { ...q, msg: signed(1n, q.m + 1n, 2n).msg } })], ["another-s", q => ({ q: { ...q, sig: "0x" + h64(q.r) + h64(q.s + 1n) + q.v.toString(16) } })],
    ["another-nonce-point", q => ({ q: { ...q, sig: "0x" + h64(q.r) + h64(q.s) + (55n - q.v).toString(16) } })], ["another-r", q => ({ q: { ...q, sig: "0x" + h64(signed(1n, 1n, 3n).r) + h64(q.s) + q.v.toString(16) } })],
    ["another-root", (q, mp) => ({ mp: { ...mp, root: bump(mp.root) } })], ["root-of-another-group", (q, mp, w) => ({ mp: { ...mp, root: treeOf(w, {}, { size: 6 }).root() } })],
    ["another-index", (q, mp) => ({ mp: { ...mp, pathIndices: mp.pathIndices.map((x, i) => i === 0 ? 1 - x : x) } })], ["another-last-index", (q, mp) => ({ mp: { ...mp, pathIndices: mp.pathIndices.map((x, i) => i === 19 ? 1 - x : x) } })], ["index-no-bit", (q, mp) => ({ mp: { ...mp, pathIndices: mp.pathIndices.map((x, i) => i === 3 ? 2 : x) } })],
    ["another-sibling", (q, mp) => ({ mp: { ...mp, siblings: mp.siblings.map((x, i) => i === 0 ? [bump(x[0])] : x) } })], ["another-last-sibling", (q, mp) => ({ mp: { ...mp, siblings: mp.siblings.map((x, i) => i === 19 ? [bump(x[0])] : x) } })], ["short-path", (q, mp) => ({ mp: { ...mp, siblings: mp.siblings.slice(1), pathIndices: mp.pathIndices.slice(1) } })],
    ["member-of-the-other-kind", (q, mp, w) => { const l = leafOf(w, kind === "addr" ? "pubkey" : "addr", q.Q), t = treeOf(w, { 1: l }, group); return { mp: t.createProof(1) }; }],
  ];
  for (const [name, f] of list) if (pick(name)) add(`${kind}: outsiders, ${lax ? "unchecked" : "checked"} witnesses`, async () => {
    const w = await world(lax), l = leafOf(w, kind, A.Q), t = treeOf(w, { 1: l }, group), mp = t.createProof(1), { q = A, mp: m2 = mp } = f(A, mp, w), p = await proverOf(w, kind);
    const o = await settle(() => p.prove({ sig: q.sig, msgHash: Buffer.from(q.msg), merkleProof: m2 })); if (!o.v) return count(`outsiders without a witness (${lax ? "unchecked" : "checked"})`); if (!lax) return fail(`${kind}-witness-for-outsider`, about(kind, A, group, { outsider: name }));
    const v = await verifierOf(await world(), kind); await refused(v, o.v.proof, o.v.publicInput.serialize(), `${kind}-outsider-accepted`, () => about(kind, A, group, { outsider: name }));
  });
}
outsiders("pubkey", true); outsiders("pubkey", false);
// histories: one prover and one verifier used again and again, failures in between, calls that overlap
{
  const ops = ["A", "B", "fail", "A+B", "B+fail"], len = th ? 3 : 2, seqs = []; const go = s => { if (s.length === len) seqs.push(s); else for (const o of ops) go([...s, o]); }; go([]);
  for (const seq of seqs) { if (!th && seq.every(o => o === "fail")) continue; add("histories of one prover and one verifier", async () => {
    const w = await world(), places = { 1: leafOf(w, "pubkey", A.Q), 3: leafOf(w, "pubkey", B.Q) }, t = treeOf(w, places, group), p = await proverOf(w, "pubkey"), v = await verifierOf(w, "pubkey"); const last = {}, what = m => () => ({ history: seq, ...m });
    const one = async o => { const q = o === "B" ? B : A, at = o === "B" ? 3 : 1, mp = t.createProof(at); const r = await settle(() => p.prove({ sig: q.sig, msgHash: Buffer.from(q.msg), merkleProof: o === "fail" ? { ...mp, root: 5n } : mp })); if (o === "fail") ensure(!r.v, "pubkey-witness-for-outsider", what({})); else { if (ensure(r.v, "history-no-proof", what({ at: o, error: r.e }))) last[o] = r.v; } };
    for (const o of seq) await Promise.all(o.split("+").map(one));
    const said = []; for (const k of Object.keys(last)) said.push([k, k]); if (last.A && last.B) said.push(["A", "B"]); const ver = ([a, b]) => settle(() => v.verify({ proof: new Uint8Array(last[a].proof), publicInputSer: new Uint8Array(last[b].publicInput.serialize()) }));
    const rs = await Promise.all(said.map(ver)); said.forEach((s, i) => ensure((rs[i].v === true) === (s[0] === s[1]), s[0] === s[1] ? "history-member-refused" : "history-exchanged-accepted", what({ said: s, got: rs[i] }))); const bad = w.engine.quiet(); ensure(!bad.length, "engine-misused", what({ bad }));
  }); }
}
// the address circuit, last: it takes longest to be there
for (const [i, x] of [rows[0], rows[9], rows[16], rows[25], ...(th ? rows : [])].entries()) accepted("addr", signed(...x), ...groups[(3 * i + 2) % groups.length]);
outsiders("addr", true, n => th || ["not-in-the-group", "another-message", "another-root", "another-index", "member-of-the-other-kind"].includes(n)); outsiders("addr", false, n => th || ["not-in-the-group", "another-s"].includes(n));
if (shard === 0) {
  ask("bound", { text: `${rows.length} signatures (a leading zero byte or digit in r, s, Tx, Ty, Ux, Uy, both coordinates of the key, the leaf and the root; both recovery values; high and low s; extreme messages, keys and nonces; the circuit's sum a doubling) in ${groups.length} groups (sizes 1 to 33, every kind of position, after deletions): real proofs, accepted by a second copy of the library from bytes alone` });
  ask("bound", { text: "one proof: every byte of its public input changed, a spread of its own bytes changed, cut short; proofs exchanged between statements and circuits" });
  ask("bound", { text: "14 kinds of outsiders, with a witness program that checks its constraints and with one that checks nothing" });
  ask("bound", { text: `all histories of ${th ? 3 : 2} steps (prove A, prove B, a failing proof, two of them at once) on one prover and one verifier` });
}
for (let i = shard; i < cases.length; i += shards) { const t0 = Date.now(); state(cases[i][0]); try { await cases[i][1](); } catch (e) { fail("unexpected-error", { what: cases[i][0], error: String(e?.stack ?? e) }); } tidy(); if (process.env.E2E_TIME) console.error(`${shard} ${cases[i][0]} ${Date.now() - t0}`); }
process.exit(0);
