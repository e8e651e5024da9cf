// L04 the prover; L05 the verifier.
import fs from "node:fs";
import path from "node:path";
import { library, Engine } from "./engine.mjs";
import { settle, tuples } from "./check.mjs";
import * as C from "./curve.mjs";
import { toBe } from "./poseidon.mjs";
const { N, P, G } = C; const same = (a, b) => Buffer.from(a).equals(Buffer.from(b)); const hex = (x, n = 64) => x.toString(16).padStart(n, "0");
const scratch = () => fs.mkdtempSync(path.join(process.env.VERIF_ROOT || "/verif", "target/lib-"));
/** Promise-returning points that finish in the order asked for. */
class Order { constructor() { this.w = []; } wait(tag) { return new Promise(r => this.w.push([tag, r])); } }
const statement = (d, k, m, path_) => { const s = C.sign(d, m, k); const ri = C.inv(s.R[0], N), T = C.mul(s.R, ri), U = C.mul(G, -ri * m); return { ...s, r: s.R[0], msg: Buffer.from(toBe(m)), T, U, path: path_, sig: "0x" + hex(s.R[0]) + hex(s.s) + hex(s.v, 2) }; };
const paths = [{ root: 11n, siblings: [[1n], [2n]], pathIndices: [0, 1] }, { root: 1n << 250n, siblings: Array.from({ length: 20 }, (_, i) => [BigInt(i)]), pathIndices: Array.from({ length: 20 }, (_, i) => i & 1) }, { root: 0n, siblings: [[P - 1n]], pathIndices: [1] }];
const circuitBytes = i => Uint8Array.from({ length: 40 + i }, (_, j) => i * 50 + j & 255);
/** Long contents in which no two places look alike. */
const longBytes = (n, i) => { const b = new Uint8Array(n); let x = (i * 2654435761 + 12345) >>> 0; for (let j = 0; j < n; j++) { x = (Math.imul(x, 1664525) + 1013904223) >>> 0; b[j] = x >>> 24; } return b; };
const SIZES = th => [40000, 70001, 1048577, 6000001, ...(th ? [12, 4095, 4096, 65535, 65536, 33333333] : [])]; const proofOf = (circ, wit, pub) => Buffer.from("proof|" + Buffer.from(circ).toString("hex") + "|" + Buffer.from(wit).toString("hex") + "|" + Buffer.from(pub).toString("hex"));
const str = v => JSON.stringify(v, (_, x) => typeof x === "bigint" ? x.toString() : x);
const clone = v => structuredClone(v);
const words = q => [q.path.root, ...q.T, ...q.U].map(x => [...toBe(x)]).flat();
/** A world of files, network and witness generation that records what it is asked. */
function world({ wtns, http, answers, order, grow, noCompile, window, content = circuitBytes, data = b => b } = {}) {
  const w = { asked: [], fetched: [] }; const dir = scratch();
  w.files = [0, 1].map(i => { const f = path.join(dir, `c${i}.circuit`); fs.writeFileSync(f, content(i)); return f; }); w.done = () => fs.rmSync(dir, { recursive: true, force: true });
  w.witness = input => Buffer.from("witness|" + str(Object.entries(input).sort()));
  const snarkjs = { wtns: { calculate: async (input, file, out) => { const i = clone(input), rec = { input: i, file, type: out.type }; w.asked.push(rec); if (order) await order.wait("wtns"); if (wtns === "fail") throw new Error("no witness"); out.data = data(Uint8Array.from(Buffer.concat([w.witness(i), Buffer.from("|" + file)]))); } } };
  const fetch = async u => { w.fetched.push(String(u)); if (order) await order.wait("fetch"); if (http === "fail") throw new Error("network"); const i = Number(/(\d)/.exec(u)?.[1] ?? 0); const b = content(i); return { ok: true, status: 200, arrayBuffer: async () => b.buffer.slice(b.byteOffset, b.byteOffset + b.length), headers: new Map() }; };
  w.engine = new Engine({ answers: { prove: (a, b, c) => proofOf(a, b, c), verify: () => true, ...answers }, grow }); w.engine.noCompile = noCompile;
  w.lib = library({ engine: w.engine, snarkjs, fetch, window }); return w;
}
const tick = async (n = 30) => { for (let i = 0; i < n; i++) await null; };
/** Runs `f` once for every sequence of choices it can make through its argument (a function of the number of options). */
async function everyChoice(f) {
  let n = 0; const stack = [];
  for (; ;) { let at = 0; await f(w => { if (at === stack.length) stack.push([0, w]); const [k, ww] = stack[at++]; if (w !== ww) throw new Error("not repeatable"); return k; }, stack); n++; stack.length = at; while (stack.length && stack.at(-1)[0] + 1 === stack.at(-1)[1]) stack.pop(); if (!stack.length) return n; stack.at(-1)[0]++; }
}
/** Lets pending points finish in every order, with every number of microtasks out of `gaps` between them. */
async function releaseAll(order, choose, gaps) { let at = 0; await tick(); for (; order.w.length; at++) { const w = order.w.length, k = choose(w * (w > 1 ? gaps.length : 1)), g = w > 1 ? gaps[k % gaps.length] : 30; const [[, r]] = order.w.splice(w > 1 ? Math.floor(k / gaps.length) : 0, 1); r(); await tick(g); if (!order.w.length) await tick(); } return at; }
const CIRCUIT_INPUTS = ["Tx", "Ty", "Ux", "Uy", "pathIndices", "root", "s", "siblings"];
export async function L04(c) {
  const th = c.thorough;
  const ks = th ? [1n, 2n, 3n, N - 1n, 12345n, 1n << 200n] : [1n, 2n, N - 1n], ms = th ? [1n, 255n, N - 1n, N + 7n, 1n << 255n, (1n << 256n) - 1n] : [1n, 1n << 255n, N + 7n], ds = [1n, N - 2n, 987654321n];
  const states = []; for (const k of ks) for (const m of ms) for (const d of ds) for (const p of paths) states.push(statement(d, k, m, p));
  // signatures whose parts have leading zeros, and other encodings of the recovery value
  const forms = q => { const v = q.v - 27n, base = "0x" + hex(q.r) + hex(q.s); const f = [[base + hex(q.v, 2), q.v], [base + hex(v, 2), q.v], [base + hex(37n + v, 2), 37n + v], ["0x" + (base + hex(q.v, 2)).slice(2).toUpperCase(), q.v]]; return f; };
  const check = async (w, prover, q, sig, v, file, wit, how) => {
    c.states(); c.traces(); c.steps(4); const n = w.asked.length, e = w.engine.calls.length; const mp = clone(q.path), keepMsg = Buffer.from(q.msg); const msg = Buffer.from(q.msg);
    const o = await settle(() => prover.prove({ sig, msgHash: msg, merkleProof: mp })); const what = x => ({ how, r: q.r, s: q.s, v, msg: q.msg, path: q.path, ...x, error: o.e });
    if (!c.ensure(o.v, "prove-refused", what({}))) return; const a = w.asked.slice(n), g = w.engine.calls.slice(e).filter(x => x.name === "prove");
    if (!c.ensure(a.length === 1 && g.length === 1, "calls", what({ a, g }))) return;
    const want = { s: q.s, root: q.path.root, siblings: q.path.siblings, pathIndices: q.path.pathIndices, Tx: q.T[0], Ty: q.T[1], Ux: q.U[0], Uy: q.U[1] };
    c.ensure(str(Object.keys(a[0].input).sort()) === str(CIRCUIT_INPUTS), "witness-input-names", what({ got: Object.keys(a[0].input) })); c.ensure(CIRCUIT_INPUTS.every(k => str(a[0].input[k]) === str(want[k])), "witness-input", what({ got: a[0].input, want }));
    c.ensure(a[0].file === wit, "witness-program", what({ got: a[0].file, want: wit }));
    const [circ, data, pub] = g[0].args; c.ensure(same(circ, file), "circuit", what({ got: circ })); c.ensure(same(data, Buffer.concat([w.witness(a[0].input), Buffer.from("|" + wit)])), "witness-passed", what({ got: Buffer.from(data).toString() })); c.ensure(same(pub, words(q)), "public-passed", what({ got: pub, want: words(q) }));
    c.ensure(same(o.v.proof, proofOf(circ, data, pub)), "proof-returned", what({ got: o.v.proof }));
    const p = o.v.publicInput; const flat = p && [p.r, p.rV, p.circuitPubInput.merkleRoot, p.circuitPubInput.Tx, p.circuitPubInput.Ty, p.circuitPubInput.Ux, p.circuitPubInput.Uy]; c.ensure(p && str(flat) === str([q.r, v, q.path.root, ...q.T, ...q.U]) && same(p.msgHash, keepMsg), "public-returned", what({ got: flat }));
    const ser = await settle(() => p.serialize()); const back = ser.v && await settle(() => w.lib.PublicInput.deserialize(ser.v)); c.ensure(back?.v && str([back.v.r, back.v.rV, ...Object.values(back.v.circuitPubInput)]) === str([q.r, v, q.path.root, ...q.T, ...q.U]) && same(back.v.msgHash, keepMsg) && w.lib.verifyEffEcdsaPubInput(back.v) === true, "public-reconstructed", what({ got: back })); 
    c.ensure(str(mp) === str(q.path) && keepMsg.equals(msg), "arguments-changed", what({ mp }));
    const bad = w.engine.quiet(); c.ensure(!bad.length, "engine-misused", what({ bad }));
  };
  c.bound(`${states.length} statements (keys, nonces, messages, paths of 3 shapes) x 4 forms of signature, local and remote circuit, default and own configurations, with and without profiling`);
  {
    const w = world(); const P0 = new w.lib.MembershipProver({ circuit: w.files[0], witnessGenWasm: "/w/0.wasm" }); await P0.initWasm(); const P1 = new w.lib.MembershipProver({ circuit: w.files[1], witnessGenWasm: "/w/1.wasm", enableProfiler: true, useRemoteCircuit: false });
    for (const q of states) for (const [sig, v] of forms(q)) { await check(w, P0, q, sig, v, circuitBytes(0), "/w/0.wasm", "local"); if (v === q.v && q.path === paths[0]) await check(w, P1, q, sig, v, circuitBytes(1), "/w/1.wasm", "local-profiled"); } c.ensure(!w.fetched.length, "fetched-though-local", w.fetched); w.done();
  }
  for (const window of [undefined, {}]) { const w = world({ window }); for (const cfg of [{ circuit: "https://x/7/0.circuit".replace("7/", ""), witnessGenWasm: "u0", useRemoteCircuit: true }, { ...w.lib.defaultPubkeyMembershipPConfig, useRemoteCircuit: true }, { ...w.lib.defaultAddressMembershipPConfig, useRemoteCircuit: true, enableProfiler: true }, ...(window ? [{ circuit: "https://x/1.circuit", witnessGenWasm: "u1" }] : [])]) { const p = new w.lib.MembershipProver(cfg); await p.initWasm(); for (const q of states.slice(0, 9)) { const n = w.fetched.length; await check(w, p, q, q.sig, q.v, circuitBytes(Number(/(\d)/.exec(cfg.circuit)?.[1] ?? 0)), cfg.witnessGenWasm, "remote"); c.ensure(w.fetched.slice(n).every(u => u === cfg.circuit), "fetched", { cfg, got: w.fetched.slice(n) }); } } w.done(); }
  // the same prover again and again, one part of the statement changed each time
  { let n = 0; for (const remote of [false, true]) { const w = world(); const pr = new w.lib.MembershipProver(remote ? { circuit: "https://x/0", witnessGenWasm: "/w/0.wasm", useRemoteCircuit: true } : { circuit: w.files[0], witnessGenWasm: "/w/0.wasm" }); await pr.initWasm();
    for (const q of th ? states.slice(0, 40) : [states[0], states[1], states[states.length - 1]]) { const list = []; const put = x => { const z = { ...q, ...x }; list.push([z, "0x" + hex(z.r) + hex(z.s) + hex(z.v, 2)]); }, p = q.path;
      put({ s: q.s > 1n ? q.s - 1n : q.s + 1n }); put({ s: N - q.s }); put({ v: 55n - q.v, T: C.neg(q.T) });
      const m = BigInt("0x" + q.msg.toString("hex")), ri = C.inv(q.r, N); for (const x of [1n, 1n << 8n, 1n << 128n, 1n << 255n]) { const m2 = m ^ x, U = C.mul(G, C.mod(-ri * m2, N)); if (U) put({ msg: Buffer.from(toBe(m2)), U }); }
      put({ path: { ...p, root: p.root + 1n } }); p.siblings.forEach((_, l) => { put({ path: { ...p, siblings: p.siblings.map((s, k) => k === l ? [s[0] ^ 1n] : s) } }); put({ path: { ...p, pathIndices: p.pathIndices.map((b, k) => k === l ? 1 - b : b) } }); }); put({ path: { ...p, siblings: p.siblings.slice().reverse() } });
      for (const o of states) if (o.r === q.r && o.s !== q.s && o.path === p) { list.push([o, o.sig]); break; }
      for (const [z, sig] of list) { await check(w, pr, q, q.sig, q.v, circuitBytes(0), "/w/0.wasm", "again"); await check(w, pr, z, sig, z.v, circuitBytes(0), "/w/0.wasm", "one part changed"); await check(w, pr, z, sig, z.v, circuitBytes(0), "/w/0.wasm", "repeated"); n += 3; } }
    w.done(); } c.bound(`${n} proofs by one prover in a row: a statement, the same with one part changed (s, recovery value, message, root, each sibling, each position), the same again`); }
  // the default configurations belong together
  { const w = world(); const L = w.lib; for (const [a, b, word] of [[L.defaultPubkeyMembershipPConfig, L.defaultPubkeyMembershipVConfig, "pubkey_membership"], [L.defaultAddressMembershipPConfig, L.defaultAddressMembershipVConfig, "addr_membership"]]) { c.states(); c.steps(); c.ensure(a.circuit === b.circuit && a.circuit.includes(word + ".circuit") && a.witnessGenWasm.includes(word + ".wasm") && a.circuit.startsWith("https://") , "default-config", { a, b }); } w.done(); }
  // faults: nothing that is not a proof of the statement comes back
  c.bound("failures of witness generation, circuit loading, the engine (error, trap), missing initialization, malformed signatures; one failing call between two good ones");
  for (const f of ["wtns", "http", "file", "error", "trap", "init", "compile", "sig"]) {
    let n = 0; const w = world({ wtns: f === "wtns" ? "fail" : 0, http: f === "http" ? "fail" : 0, noCompile: f === "compile", answers: f === "error" ? { prove: () => ({ error: "bad" }) } : f === "trap" ? { prove: () => ({ trap: 1 }) } : {} }); const q = states[5];
    const p = new w.lib.MembershipProver(f === "http" ? { circuit: "https://x/0", witnessGenWasm: "w", useRemoteCircuit: true } : { circuit: f === "file" ? "/nonexistent/circuit" : w.files[0], witnessGenWasm: "w" }); if (f !== "init") await settle(() => p.initWasm());
    const sigs = f === "sig" ? ["0x", "0x00", q.sig.slice(0, -4), q.sig.slice(2), "0x" + "0".repeat(128) + "1b", "0x" + hex(N) + hex(q.s) + "1b", "0x" + hex(5n) + hex(q.s) + "1b", "", "0x" + hex(q.r) + hex(q.s) + "012c"] : [q.sig];
    for (const sig of sigs) { c.states(); c.steps(); c.traces(); const o = await settle(() => p.prove({ sig, msgHash: q.msg, merkleProof: clone(q.path) })); if (f === "sig" && o.v) { const ok = await settle(() => w.lib.verifyEffEcdsaPubInput(w.lib.PublicInput.deserialize(o.v.publicInput.serialize()))); c.ensure(ok.e || ok.v === true && o.v.publicInput.r === BigInt("0x" + sig.slice(2, 66)), "malformed-signature-proved", { sig }); if (o.v.publicInput.rV > 255n) c.ensure(!!ok.e, "wide-recovery-value", { sig }); } else c.ensure(!!o.e, "proof-despite-" + f, { sig, got: o.v }); } w.done();
  }
  // concurrent proofs: every order in which the pending steps of several calls can finish
  let orders = 0; const gapsP = th ? [0, 1, 2, 3, 4, 30] : [0, 2, 30];
  for (const who of th ? [[0, 1], [0, 0], [0, 1, 0], [0, 0, 0]] : [[0, 1], [0, 0]]) orders += await everyChoice(async choose => {
    const order = new Order(), w = world({ order }); const provers = [0, 1].map(i => new w.lib.MembershipProver({ circuit: `https://x/${i}`, witnessGenWasm: `/w/${i}.wasm`, useRemoteCircuit: true })); await provers[0].initWasm();
    const qs = who.map((_, i) => states[i * 7 % states.length]); const args = qs.map(q => ({ sig: q.sig, msgHash: Buffer.from(q.msg), merkleProof: clone(q.path) })); const outs = qs.map((q, i) => settle(() => provers[who[i]].prove(args[i])));
    const at = await releaseAll(order, choose, who.length > 2 ? [0, 30] : gapsP); c.states(); c.traces(); c.steps(at);
    for (const [i, q] of qs.entries()) { const o = await outs[i], ok = o.v && same(o.v.proof, proofOf(circuitBytes(who[i]), Buffer.concat([w.witness({ s: q.s, ...q.path, Tx: q.T[0], Ty: q.T[1], Ux: q.U[0], Uy: q.U[1] }), Buffer.from(`|/w/${who[i]}.wasm`)]), words(q))) && o.v.publicInput.r === q.r && o.v.publicInput.circuitPubInput.Tx === q.T[0] && same(o.v.publicInput.msgHash, q.msg); c.ensure(ok, "mixed-up", () => ({ who, i, got: o.v ? Buffer.from(o.v.proof).toString().slice(0, 300) : o.e })); }
    w.done();
  });
  c.bound(`2${th ? " and 3" : ""} proofs at once, on one or two provers: all ${orders} schedules in which witness generation and downloads can finish (order, and microtasks between)`);
  // files, witnesses and proofs of the size of real ones
  for (const n of SIZES(th)) for (const remote of [false, true]) {
    const q = states[n % states.length], wit = longBytes(n, 9), proof = longBytes(n >> 3, 5), w = world({ content: i => longBytes(n, i), data: () => wit.slice(), answers: { prove: () => proof } });
    const p = new w.lib.MembershipProver(remote ? { circuit: "https://x/1", witnessGenWasm: "/w/1.wasm", useRemoteCircuit: true } : { circuit: w.files[1], witnessGenWasm: "/w/1.wasm" }); await p.initWasm(); c.states(); c.steps(); c.traces();
    const o = await settle(() => p.prove({ sig: q.sig, msgHash: Buffer.from(q.msg), merkleProof: clone(q.path) })), k = w.engine.calls.at(-1), what = { bytes: n, remote, e: o.e };
    if (c.ensure(!o.e && k, "large-no-proof", what)) { c.ensure(same(k.args[0], longBytes(n, 1)), "large-circuit-changed", { ...what, got: k.args[0].length }); c.ensure(same(k.args[1], wit), "large-witness-changed", { ...what, got: k.args[1].length }); c.ensure(same(o.v.proof, proof), "large-proof-changed", { ...what, got: o.v.proof.length }); } w.done();
  }
  c.bound(`circuit files and witnesses of ${SIZES(th).join(", ")} bytes, from disk and network, and proofs an eighth as long: handed on byte for byte`);
  c.sample({ statement: { r: states[0].r, s: states[0].s, sig: states[0].sig } });
}
export async function L05(c) {
  const th = c.thorough; const seen = [];
  const good = [statement(1n, 2n, 5n, paths[0]), statement(N - 2n, 3n, 1n << 255n, paths[1]), statement(77n, 12345n, N + 3n, paths[2]), statement(5n, N - 1n, 255n, paths[1])].slice(0, th ? 4 : 3);
  const ser = q => Uint8Array.from([...toBe(q.r), Number(q.v), ...words(q), ...q.msg]);
  const answers = { true: () => true, false: () => false, error: () => ({ error: "bad proof" }), trap: () => ({ trap: 1 }) };
  // every byte of a public input altered; what is then consistent is decided by the curve
  const consistent = b => { const at = (i, n) => BigInt("0x" + Buffer.from(b.subarray(i, i + n)).toString("hex")); if (b.length < 194) return b.length > 193 ? undefined : false; const r = at(0, 32), v = b[32], m = at(193, b.length - 193); if (r < 1n || r >= N) return false; const R = C.liftX(r, BigInt((v + 1) & 1)); if (!R) return false; if (v < 27) return undefined; const ri = C.inv(r, N), T = C.mul(R, ri), U = C.mul(G, -ri * m); if (!U) return undefined; return at(65, 32) === T[0] && at(97, 32) === T[1] && at(129, 32) === U[0] && at(161, 32) === U[1]; };
  const alts = q => { const b = ser(q), out = [["good", b]]; for (let i = 0; i < b.length; i++) for (const x of th ? [1, 2, 0x40, 0x80, 0xff] : [i % 2 ? 1 : 0x80]) { const a = b.slice(); a[i] ^= x; out.push([`byte ${i} ^ ${x}`, a]); } for (const n of [0, 1, 32, 33, 64, 65, 160, 192, 193, 194, 224]) out.push([`first ${n}`, b.slice(0, n)]); out.push(["one more", Uint8Array.from([...b, 0])], ["reversed", b.slice().reverse()], ["zeros", new Uint8Array(b.length)], ["ones", new Uint8Array(b.length).fill(255)]);
    const f = (r, v, a, m) => Uint8Array.from([...toBe(r), v, ...a.map(x => [...toBe(x)]).flat(), ...m]); const o = good[0] === q ? good[1] : good[0]; const v = Number(q.v);
    for (const root of [0n, q.path.root + 1n, P - 1n, P]) out.push(["other root", f(q.r, v, [root, ...q.T, ...q.U], q.msg)]);
    out.push(["T negated", f(q.r, v, [q.path.root, ...C.neg(q.T), ...q.U], q.msg)], ["U negated", f(q.r, v, [q.path.root, ...q.T, ...C.neg(q.U)], q.msg)], ["other T", f(q.r, v, [q.path.root, ...o.T, ...q.U], q.msg)], ["other U", f(q.r, v, [q.path.root, ...q.T, ...o.U], q.msg)], ["other message", f(q.r, v, [q.path.root, ...q.T, ...q.U], o.msg)], ["other r", f(o.r, v, [q.path.root, ...q.T, ...q.U], q.msg)], ["other v", f(q.r, 55 - v, [q.path.root, ...q.T, ...q.U], q.msg)], ["swapped", f(q.r, v, [q.path.root, ...q.U, ...q.T], q.msg)], ["r + n", q.r + N < 1n << 256n ? f(q.r + N, v, [q.path.root, ...q.T, ...q.U], q.msg) : b.slice(1)]);
    if (q.T[0] + P < 1n << 256n) out.push(["T + p", f(q.r, v, [q.path.root, q.T[0] + P, q.T[1], ...q.U], q.msg)]); return out; };
  const one = async (w, ver, q, name, bytes, ans, proof, expectCircuit) => {
    c.states(); c.traces(); c.steps(2); const n = w.engine.calls.length, keep = bytes.slice(), kp = proof.slice(), o = await settle(() => ver.verify({ proof, publicInputSer: bytes })), calls = w.engine.calls.slice(n).filter(x => x.name === "verify"); const what = x => ({ name, ans, input: keep, got: o.v ?? o.e, ...x });
    const ok = consistent(keep); if (ok !== undefined) { const want = ok && ans === "true"; if (want) c.ensure(o.v === true, "good-refused", () => what({})); else { c.ensure(o.v !== true && !(o.v && o.v !== false), "bad-accepted", () => what({})); c.ensure(o.v === false, "no-answer", () => what({})); } }
    if (o.v === true) c.ensure(calls.length === 1, "accepted-without-engine", what({ n: calls.length }));
    for (const k of calls) { c.ensure(same(k.args[0], expectCircuit), "other-circuit", () => what({ circuit: k.args[0] })); c.ensure(same(k.args[1], kp), "other-proof", () => what({ proof: k.args[1] })); c.ensure(same(k.args[2], keep.subarray(33, 193)), "other-public-input", () => what({ pub: k.args[2] })); }
    c.ensure(same(bytes, keep) && same(proof, kp), "arguments-changed", () => what({})); const bad = w.engine.quiet(); c.ensure(!bad.length, "engine-misused", () => what({ bad }));
  };
  c.bound(`${good.length} statements: the good public input, every byte altered, truncations, exchanged and negated parts, each with every answer of the engine (true, false, error, trap)`);
  for (const ans of Object.keys(answers)) { const w = world({ answers: { verify: answers[ans] } }); const ver = new w.lib.MembershipVerifier({ circuit: w.files[0] }); await ver.initWasm(); for (const q of good) for (const [name, b] of alts(q)) { if (ans !== "true" && !th && /^byte/.test(name) && !/ [0-9]*[05] /.test(name)) continue; if (ans === "trap" && w.engine.sp !== 4096) w.engine.sp = 4096; await one(w, ver, q, name, b.slice(), ans, Uint8Array.from([1, 2, 3, 4]), circuitBytes(0)); } w.done(); }
  c.bound("kinds of configuration: local, remote, in a browser, defaults, profiled; proofs of several lengths; buffers and views");
  for (const window of [undefined, {}]) { const w = world({ window }); for (const cfg of [{ circuit: window ? "https://x/1" : w.files[1], enableProfiler: true }, { circuit: "https://x/1", useRemoteCircuit: true }, { ...w.lib.defaultPubkeyMembershipVConfig, useRemoteCircuit: true }, { ...w.lib.defaultAddressMembershipVConfig, useRemoteCircuit: true }]) { const ver = new w.lib.MembershipVerifier(cfg); await ver.initWasm(); const ec = circuitBytes(/1(.circuit)?$/.test(cfg.circuit) ? 1 : Number(/(\d)/.exec(cfg.circuit)?.[1] ?? 0)); for (const q of good) for (const proof of [new Uint8Array(0), Buffer.from([9]), new Uint8Array(100).subarray(3, 50), new Uint8Array(5000).fill(1)]) { await one(w, ver, q, "good", Buffer.from(ser(q)), "true", proof, ec); await one(w, ver, q, "bad", ser({ ...q, U: q.T }), "true", proof, ec); } } w.done(); }
  // one verifier, an engine that accepts certain triples only: what differs in one part is refused, what was refused spoils nothing
  { let n = 0; const yes = new Set(), key = (a, b, d) => [a, b, d].map(x => Buffer.from(x).toString("hex")).join(); let asked = 0;
    for (const remote of [false, true]) { const w = world({ answers: { verify: (...a) => { asked++; return yes.has(key(...a)) ? true : [false, { error: "bad proof" }, { trap: 1 }][asked % 3]; } } }), vers = [0, 1].map(i => new w.lib.MembershipVerifier({ circuit: remote ? `https://x/${i}` : w.files[i], useRemoteCircuit: remote })); await vers[0].initWasm();
      for (const q of good) { const proof = longBytes(96, 3), base = [0, proof, ser(q)], list = []; yes.clear(); yes.add(key(circuitBytes(0), proof, words(q)));
        for (let i = 0; i < 96; i += i < 8 || i > 86 ? 1 : th ? 1 : 13) { const x = proof.slice(); x[i] ^= 1 << i % 8; list.push([0, x, base[2]]); } list.push([0, proof.slice(0, 95), base[2]], [0, proof.slice(1), base[2]], [0, Uint8Array.from([...proof, 0]), base[2]], [0, proof.slice().reverse(), base[2]], [0, new Uint8Array(0), base[2]], [1, proof, base[2]]);
        for (let i = 33; i < 65; i += th ? 1 : 6) { const b = ser(q); b[i] ^= 1; list.push([0, proof, b]); } for (const o of good) if (o !== q) list.push([0, proof, ser(o)], [0, proof, ser({ ...o, path: q.path })]); for (const i of [0, 31, 32, 65, 96, 97, 129, 160, 161, 192, 193, 224]) { const b = ser(q); b[i] ^= 1; list.push([0, proof, b]); }
        const ask = async ([i, p, b], want, j) => { n++; c.states(); c.traces(); c.steps(); w.engine.sp = 4096; const o = await settle(() => vers[i].verify({ proof: p.slice(), publicInputSer: b.slice() })); c.ensure(want ? o.v === true : o.v === false, want ? "good-refused-remembered" : "bad-accepted-remembered", () => ({ remote, circuit: i, change: j, proof: p, input: b, got: o.v ?? o.e })); };
        for (const [j, x] of list.entries()) { await ask(base, true, j); await ask(x, false, j); await ask(x, false, j); } await ask(base, true, -1); for (const [j, x] of list.entries()) await ask(x, false, j); }
      w.done(); }
    c.bound(`${n} verifications in a row with an engine that accepts one circuit, proof and public input: that one, then one part changed (a byte or the length of the proof, the circuit, the root, each part of the public input), that one again`); }
  // initialization and loading histories
  c.bound("histories of up to 4 of: initialization, verification of good and bad input with a good and a bad engine answer, on two verifiers of different circuits; loading failures");
  const ops = ["init", "good-true", "good-false", "bad-true", "good-error"];
  for (let n = 1; n <= (th ? 4 : 3); n++) for (const t of tuples(ops.length, n)) for (const second of [0, 1]) {
    let answer = true; const w = world({ answers: { verify: () => answer } }); const vers = [0, 1].map(i => new w.lib.MembershipVerifier({ circuit: w.files[i] })); let ready = false; c.states(); c.traces();
    for (let j = 0; j < n; j++) { const op = ops[t[j]], i = second ? j % 2 : 0; c.steps(); if (op === "init") { await vers[i].initWasm(); ready = true; continue; } answer = op === "good-false" ? false : op === "good-error" ? { error: "x" } : true; const q = good[j % good.length], b = op === "bad-true" ? ser({ ...q, T: q.U }) : ser(q); const o = await settle(() => vers[i].verify({ proof: new Uint8Array([j]), publicInputSer: b })); const want = ready && op === "good-true"; c.ensure((o.v === true) === want && (want || !o.v), "history", { t: t.map(x => ops[x]), second, at: j, got: o }); const last = w.engine.calls.at(-1); if (want) c.ensure(last && same(last.args[0], circuitBytes(i)) && same(last.args[1], [j]), "history-other-call", { t, at: j }); }
    w.done();
  }
  for (const [f, opt, cfg] of [["file", {}, { circuit: "/nonexistent/file" }], ["http", { http: "fail" }, { circuit: "https://x/0", useRemoteCircuit: true }], ["compile", { noCompile: true }, null]]) { const w = world(opt); const ver = new w.lib.MembershipVerifier(cfg ?? { circuit: w.files[0] }); await settle(() => ver.initWasm()); for (const q of good) { c.states(); c.steps(); c.traces(); const o = await settle(() => ver.verify({ proof: new Uint8Array(3), publicInputSer: ser(q) })); c.ensure(!o.v, "accepted-despite-" + f, o); } w.done(); }
  // concurrent verifications
  let orders = 0; const kinds = [[good[0], 1, true], [{ ...good[1], U: good[0].U }, 1, false], [good[2 % good.length], 0, false], [good[1], 1, true]]; const gapsV = th ? [0, 1, 2, 3, 4, 5, 30] : [0, 1, 2, 30];
  for (const remote of [true, false]) for (const who of th ? [[0, 0], [0, 1], [0, 0, 0], [0, 1, 0]] : [[0, 0], [0, 1], [0, 1, 0]]) for (const t of tuples(kinds.length, who.length)) orders += await everyChoice(async choose => {
    const order = new Order(), w = world({ order, answers: { verify: (circ, proof) => proof[0] === 1 } }); const vers = [0, 1].map(i => new w.lib.MembershipVerifier({ circuit: remote ? `https://x/${i}` : w.files[i], useRemoteCircuit: remote })); await vers[0].initWasm();
    const qs = t.map(i => kinds[i]); const outs = qs.map(([q, p], i) => settle(() => vers[who[i]].verify({ proof: Uint8Array.from([p]), publicInputSer: ser(q) })));
    const at = await releaseAll(order, choose, who.length > 2 ? [0, 30] : gapsV); c.states(); c.traces(); c.steps(at);
    for (const [i, q] of qs.entries()) { const o = await outs[i]; c.ensure((o.v === true) === q[2] && (q[2] || o.v === false), "mixed-up", () => ({ who, remote, kinds: t, i, got: o })); }
    for (const k of w.engine.calls) c.ensure([0, 1].some(i => same(k.args[0], circuitBytes(i)) && qs.some(([q, p], j) => who[j] === i && p === k.args[1][0] && same(words(q), k.args[2]))), "mixed-up-call", () => ({ who, remote, kinds: t }));
    w.done();
  });
  for (const n of SIZES(th)) for (const remote of [false, true]) for (const answer of [true, false]) {
    const w = world({ content: i => longBytes(n, i), answers: { verify: () => answer } }), q = good[n % good.length], proof = longBytes(n >> 3, 5), ver = new w.lib.MembershipVerifier(remote ? { circuit: "https://x/1", useRemoteCircuit: true } : { circuit: w.files[1] }); await ver.initWasm(); c.states(); c.steps(); c.traces();
    const o = await settle(() => ver.verify({ proof, publicInputSer: ser(q) })), k = w.engine.calls.at(-1); c.ensure(o.v === answer && k && same(k.args[0], longBytes(n, 1)) && same(k.args[1], longBytes(n >> 3, 5)) && same(k.args[2], Uint8Array.from(words(q))), "large-changed", { bytes: n, remote, answer, got: o.v ?? o.e, lengths: k?.args.map(a => a.length) }); w.done();
  }
  c.bound(`circuit files of ${SIZES(th).join(", ")} bytes, from disk and network, and proofs an eighth as long: handed on byte for byte, and the engine's answer returned`);
  c.bound(`2 and 3 verifications at once, on one or two verifiers, all combinations of good and bad input and proof: all ${orders} schedules in which downloads can finish (order, and microtasks between), and files read at once`); c.sample({ publicInput: ser(good[0]) });
}
