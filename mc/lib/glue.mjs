// L06 the binding between the library and the compiled engine.
import { library, Engine, wasmBytes } from "./engine.mjs";
import { settle, outcome, tuples } from "./check.mjs";
const same = (a, b) => a && Buffer.from(a).equals(Buffer.from(b));
const bytes = (n, s) => Uint8Array.from({ length: n }, (_, i) => i * 31 + s * 7 + 1 & 255);
export async function L06(c) {
  const th = c.thorough; const sizes = [0, 1, 64, 65537, 140000]; const arity = { prove: 3, verify: 3, poseidon: 1 };
  const answers = { prove: { empty: () => new Uint8Array(0), small: () => bytes(7, 3), big: () => bytes(70001, 5), error: () => ({ error: "prove says no ✗" }), trap: () => ({ trap: 1 }) }, verify: { yes: () => true, no: () => false, error: () => ({ error: "verify says no" }), trap: () => ({ trap: 1 }) }, poseidon: { hash: () => bytes(32, 9), empty: () => new Uint8Array(0), error: () => ({ error: "hash says no" }), trap: () => ({ trap: 1 }) } };
  const call = async (lib, e, op, ans, args, how) => {
    const f = answers[op][ans]; let seen; e.answers = { [op]: (...a) => (seen = a, f()) }; const keep = args.map(a => Uint8Array.from(a)); c.steps(); const o = outcome(() => lib.wasm[op](...args)); const what = () => ({ op, ans, how, sizes: args.map(a => a.length), got: o.e ?? (o.v instanceof Uint8Array ? o.v.length : o.v) });
    c.ensure(seen && seen.length === keep.length && keep.every((k, i) => same(k, seen[i])), "arguments", what); c.ensure(args.every((a, i) => same(a, keep[i])), "arguments-changed", what); const want = f();
    if (want.trap) { c.ensure(!!o.e, "trap-hidden", what); return; } if (want.error !== undefined) { c.ensure(!!o.e || "e" in o && o.e !== undefined, "error-hidden", what); c.ensure(o.e === want.error || o.e?.message === want.error, "error-text", what); }
    else if (op === "verify") c.ensure(o.v === want, "answer", what); else { c.ensure(o.v instanceof Uint8Array && same(o.v, want), "answer", what); return o.v; }
  };
  const views = n => [bytes(n, 1), Buffer.from(bytes(n, 2)), (() => { const b = new Uint8Array(n + 20).fill(9); b.set(bytes(n, 4), 11); return b.subarray(11, 11 + n); })()];
  // one call: sizes, outcomes, and every pattern of memory moving at allocations
  const G = 6; c.bound(`every entry point with every outcome, argument sizes ${sizes.join(", ")} (all combinations), plain, buffer and offset views, and memory moving at every subset of the first ${G} allocation points`);
  for (const op of Object.keys(arity)) for (const ans of Object.keys(answers[op])) for (let g = 0; g < 1 << G; g++) for (const t of tuples(sizes.length, arity[op])) {
    const small = t.every(i => i < 3); if (!small && (g % 9 || !th && t.filter(i => i > 2).length > 1)) continue; if (!th && small && t.some((x, i) => i && x !== t[i - 1]) && g % 7) continue; if (!th && !small && g % 27) continue;
    const e = new Engine({ grow: n => !!(g >> n & 1) }), lib = library({ engine: e }); await lib.init(); e.allocs = 0; c.states(); c.traces();
    const r = await call(lib, e, op, ans, t.map((i, k) => views(sizes[i])[(g + k) % 3]), g); const q = e.quiet(); if (ans !== "trap") c.ensure(!q.length, "memory-misused", { op, ans, g, sizes: t, q });
    if (r) { const keep = Uint8Array.from(r); e.grow = () => true; await call(lib, e, "poseidon", "hash", [bytes(64, 8)], "later"); c.ensure(same(r, keep), "answer-not-kept", { op, ans, g }); }
  }
  for (const n of [300, 4097, 1048577, ...(th ? [30000001] : [6000001])]) for (let k = 0; k < 3; k++) for (const op of ["prove", "verify"]) {
    const e = new Engine({ grow: i => i % 2 === 0 }), lib = library({ engine: e }); await lib.init(); answers.prove.all = () => bytes(n, 6); answers.verify.all = () => true; c.states(); c.traces();
    await call(lib, e, op, "all", [0, 1, 2].map(j => bytes(j === k ? n : j === (k + 1) % 3 ? n >> 2 : 160, j)), "long"); const q = e.quiet(); c.ensure(!q.length, "memory-misused", { op, n, k, q });
  }
  c.bound(`arguments and answers of up to ${th ? 30000001 : 6000001} bytes, each argument in turn the longest`);
  // histories
  const ops = [["init"], ["prove", "small"], ["prove", "error"], ["verify", "yes"], ["verify", "no"], ["verify", "error"], ["poseidon", "hash"], ["poseidon", "error"], ["verify", "trap"]]; const n = th ? 5 : 2; c.bound(`all histories of up to ${n} of ${ops.length} operations (initialization anywhere, errors, traps) with memory moving never, always and every third time; results kept and compared at the end`);
  for (const mv of [() => false, () => true, i => i % 3 === 1]) for (let l = 1; l <= (!th && !mv(1) ? 3 : n); l++) for (const t of tuples(ops.length, l)) {
    const e = new Engine({ grow: mv }), lib = library({ engine: e }); let ready = false, trapped = false; const kept = []; c.states(); c.traces();
    for (let j = 0; j < l; j++) { const [op, ans] = ops[t[j]]; if (op === "init") { c.steps(); const o = await settle(() => lib.init()); c.ensure(!o.e, "init-fails", { t, e: o.e }); ready = true; continue; } const args = Array.from({ length: arity[op] }, (_, k) => bytes(3 + j + k, k)); if (!ready) { c.steps(); const o = outcome(() => lib.wasm[op](...args)); c.ensure(!!o.e, "answer-before-initialization", { t, j, got: o.v }); continue; } if (trapped) e.sp = 4096; const r = await call(lib, e, op, ans, args, t.join()); if (r) kept.push([r, Uint8Array.from(r)]); if (ans === "trap") { trapped = true; } }
    c.ensure(kept.every(([a, b]) => same(a, b)), "answer-not-kept", { t }); if (!trapped) { const q = e.quiet(); c.ensure(!q.length, "memory-misused", { t, q }); } if (ready) c.ensure(e.inits >= 1 && same(new Uint8Array(e.loaded instanceof ArrayBuffer ? e.loaded : e.loaded.buffer ?? e.loaded), wasmBytes), "initialized-otherwise", { t, inits: e.inits });
  }
  // concurrent initialization
  c.bound("2 to 4 initializations at once, and a failed one followed by a good one"); for (let k = 2; k <= 4; k++) { const e = new Engine(), lib = library({ engine: e }); c.states(); c.steps(k); c.traces(); const os = await Promise.all(Array.from({ length: k }, () => settle(() => lib.init()))); c.ensure(os.every(o => !o.e), "init-at-once", os); await call(lib, e, "prove", "small", [bytes(1, 1), bytes(2, 2), bytes(3, 3)], "after"); }
  { const e = new Engine(), lib = library({ engine: e }); e.noCompile = true; const o = await settle(() => lib.init()); c.ensure(!!o.e, "failed-init-hidden", o); e.noCompile = false; const p = await settle(() => lib.init()); c.ensure(!p.e, "init-after-failure", p); c.steps(2); c.states(); await call(lib, e, "verify", "yes", [bytes(1, 1), bytes(2, 2), bytes(3, 3)], "after"); }
  // what the engine asks of its surroundings: randomness and the report of a panic
  const noise = () => { let x = 1; return { given: [], fill(v) { const b = Uint8Array.from({ length: v.length }, () => (x = x * 1103515245 + 12345 & 0x7fffffff) >> 16 & 255); v.set(b); this.given.push(...b); return v; } }; };
  const lens = th ? [0, 1, 31, 32, 64, 255, 256, 257, 700] : [1, 32, 257]; c.bound(`randomness of ${lens.join(", ")} bytes for the engine from a web, a node, an old browser's and no source, found under each name of the global object, repeated, with memory moving never, always and in turn, and failing sources; a panic's report with plain and non-Latin text`);
  for (const where of ["self", "window", "globalThis", "global"]) for (const kind of ["web", "node", "ms", "none", "fails", "node-fails", "no-require", "no-crypto"]) for (const mv of [() => false, () => true, i => i % 2 === 0, i => i % 3 === 1]) {
    const src = noise(), boom = () => { throw new Error("no entropy"); }; const web = { getRandomValues(v) { if (this !== web) throw new TypeError("Illegal invocation"); return kind === "fails" ? boom() : src.fill(v); } }, lib_ = { randomFillSync(v) { return kind === "node-fails" ? boom() : src.fill(v); } };
    const isNode = /^no(de|-)/.test(kind); const g = kind === "web" || kind === "fails" ? { crypto: web } : kind === "ms" ? { msCrypto: web } : isNode ? { process: { versions: { node: "22.0.0" } } } : {}; g[where] = g;
    const env = { [where]: g, require: kind === "no-require" ? undefined : n => { if (n !== "crypto" || kind === "no-crypto") throw new Error("no module " + n); return lib_; } };
    const e = new Engine({ grow: mv }), lib = library({ engine: e, env, window: where === "window" ? g : undefined }); await lib.init(); c.states(); c.traces();
    for (const n of lens) for (let again = 0; again < 2; again++) {
      c.steps(); src.given = []; const o = outcome(() => e.random(n)); const want = { web: "web", node: "node", ms: "web", none: "none", fails: "error", "node-fails": "error", "no-require": "no require", "no-crypto": "no crypto" }[kind]; const what = () => ({ where, kind, n, got: o.e ?? o.v, want: src.given });
      c.ensure(o.v && (o.v.way === want || !n && want === "error"), "randomness-source", what); if (o.v && (want === "web" || want === "node")) c.ensure(same(o.v.bytes, src.given) && src.given.length === n, "randomness-altered", what);
      const q = e.quiet(); c.ensure(!q.length && !e.heldRefs(), "randomness-leaks", () => ({ ...what(), q, held: e.heldRefs() }));
      await call(lib, e, "prove", "small", [bytes(n, 1), bytes(2, 2), bytes(3, 3)], "after-randomness"); await call(lib, e, "verify", "error", [bytes(n, 1), bytes(2, 2), bytes(3, 3)], "after-randomness");
    }
  }
  const old = Error.prepareStackTrace; for (const stack of ["", "at f (a.js:1)", "at ✗ (ü.js:1)", "x".repeat(3000), "ascii then é".repeat(200)]) for (const message of ["panicked at 'boom'", "ungültig ✗", ""]) for (const mv of [() => false, () => true]) for (let again = 0; again < 3; again++) {
    const said = []; const e = new Engine({ grow: mv }), lib = library({ engine: e, console: { error: (...a) => said.push(a.join(" ")) } }); await lib.init(); c.states(); c.steps(); c.traces(); let o; Error.prepareStackTrace = () => stack; try { o = outcome(() => e.panic(message)); } finally { Error.prepareStackTrace = old; }
    c.ensure(!o.e && o.v === stack, "panic-stack", { stack, o }); c.ensure(said.length === 1 && said[0].startsWith(message) && said[0].includes(stack), "panic-report", { stack, message, said }); const q = e.quiet(); c.ensure(!q.length && !e.heldRefs(), "panic-leaks", { q, stack }); await call(lib, e, "poseidon", "hash", [bytes(64, 1)], "after-panic");
  }
  c.sample({ op: "prove", sizes: [0, 64, 65537], answer: "big", growth: "binary pattern over allocation points" });
}
