// A stand-in for the compiled proof engine, with a memory that can move on every allocation
// and that notices leaks, double frees and stale reads; and a loader of fresh library instances.
import { createRequire } from "node:module";
import fs from "node:fs";
import { poseidon, le, toLe } from "./poseidon.mjs";
import { P } from "./curve.mjs";
import { BN, EC, fromRpcSig, toBuffer, bufferToHex, IncrementalMerkleTree } from "./standins.mjs";
const esbuild = createRequire("/opt/veriftools/node/node_modules/")("esbuild");
const LIB = process.env.VERIF_LIB || "/repo/packages/lib";
export class Engine {
  /** `answers` decides calls to prove/verify; `grow` decides for every allocation whether memory moves. */
  constructor({ answers = {}, grow = () => false } = {}) {
    this.answers = answers; this.grow = grow; this.calls = []; this.inits = 0; this.live = new Map(); this.faults = []; this.sp = 4096; this.allocs = 0;
  }
  instance(imports) {
    const e = this, wbg = imports.wbg ?? Object.values(imports)[0], memory = new WebAssembly.Memory({ initial: 2 }); let brk = 8192;
    const u8 = () => new Uint8Array(memory.buffer); u8().fill(0xaa);
    const move = () => { const old = memory.buffer.byteLength; memory.grow(1); u8().fill(0xab, old); };
    const malloc = n => { if (e.grow(e.allocs++)) move(); while (brk + n + 64 > memory.buffer.byteLength) move(); const p = brk; brk += (n + 15 & ~15) || 16; u8().fill(0xac, p, brk); e.live.set(p, n); return p; };
    const free = (p, n) => { if (e.live.get(p) !== n) e.faults.push(`free of ${n} at ${p}: ${e.live.get(p)}`); e.live.delete(p); u8().fill(0xee, p, p + n); };
    const arg = (p, n) => { const v = u8().slice(p, p + n); if (e.live.get(p) !== n) e.faults.push(`argument of ${n} at ${p}: ${e.live.get(p)}`); free(p, n); return v; };
    const reply = (ret, words) => new DataView(memory.buffer) && words.forEach((w, i) => new DataView(memory.buffer).setInt32(ret + 4 * i, w, true));
    const error = text => { const b = Buffer.from(text), p = malloc(b.length); u8().set(b, p); const idx = wbg.__wbindgen_string_new(p, b.length); free(p, b.length); return idx; };
    const imp = (name, nth = 0, hash = "") => { if (wbg[`__wbg_${name}_${hash}`]) return wbg[`__wbg_${name}_${hash}`]; const k = Object.keys(wbg).filter(k => k === "__wbindgen_" + name || new RegExp(`^__wbg_${name}_[0-9a-f]{16}$`).test(k)); const f = wbg[k[nth]]; if (!f) throw new Error("import missing: " + name); return f; };
    const text = t => { const b = Buffer.from(t), p = malloc(b.length); u8().set(b, p); return [p, b.length]; };
    const held = []; const own = i => (held.push(i), i), drop = i => { held.splice(held.indexOf(i), 1); if (i >= 132) imp("object_drop_ref")(i); }, given = i => (held.splice(held.indexOf(i), 1), i);
    const caught = f => { e.thrown = undefined; const r = f(); return e.thrown === undefined ? own(r) : null; };
    /** What the compiled panic hook does: an Error, its stack, one line on the console. */
    e.panic = message => { const err = own(imp("new", 1, "abda76e883ba8a5f")()); const ret = e.sp -= 16; imp("stack")(ret, err); const d = new DataView(memory.buffer), p = d.getInt32(ret, true), n = d.getInt32(ret + 4, true); e.sp += 16; const stack = Buffer.from(u8().slice(p, p + n)).toString(); free(p, Math.max(n, e.live.get(p) ?? n)); const [q, m] = text(message + "\n\nStack:\n\n" + stack + "\n\n"); imp("error")(q, m); drop(err); return stack; };
    /** What the compiled generator of randomness does to fill `n` bytes. */
    e.random = (n, chunk = 256) => {
      const isObj = i => imp("is_object")(i), und = i => imp("is_undefined")(i);
      let g = null; for (const k of ["self", "window", "globalThis", "global"]) { g = caught(() => imp(k)()); if (g === null) continue; if (!und(g)) break; drop(g); g = null; }
      if (g === null) { const [p, m] = text("return this"); const f = own(imp("newnoargs")(p, m)); free(p, m); g = caught(() => imp("call", 0, "f96b398515635514")(f, 128)); drop(f); }
      const at = malloc(n); let way; const bytes = () => { const v = u8().slice(at, at + n); free(at, n); drop(g); return { way, bytes: v }; };
      const crypto = own(imp("crypto")(g));
      const web = c => { way = "web"; const buf = own(imp("newwithlength")(chunk)); for (let o = 0; o < n; o += chunk) { const k = Math.min(chunk, n - o), sub = own(imp("subarray")(buf, 0, k)); const r = (e.thrown = undefined, imp("getRandomValues")(c, sub), e.thrown); if (r !== undefined) { way = "error"; drop(sub); break; } if (e.grow(e.allocs++)) move(); const m = own(imp("memory")()), b = own(imp("buffer")(m)), all = own(imp("new", 0, "bc5d9aad3f9ac80e")(b)); imp("set")(all, sub, at + o); drop(all); drop(b); drop(m); drop(sub); } drop(buf); drop(c); };
      if (isObj(crypto)) { web(crypto); return bytes(); } drop(crypto);
      const proc = own(imp("process")(g)); let node = false; if (isObj(proc)) { const v = own(imp("versions")(proc)); if (isObj(v)) { const x = own(imp("node")(v)); node = imp("is_string")(x); drop(x); } drop(v); } drop(proc);
      if (node) {
        const req = caught(() => imp("require")()); if (req === null || !imp("is_function")(req)) { way = "no require"; if (req !== null) drop(req); return bytes(); }
        const [p, m] = text("crypto"), name = own(imp("string_new")(p, m)); free(p, m); const lib = caught(() => imp("call", 1, "35782e9a1aa5e091")(req, g, name)); drop(name); drop(req); if (lib === null) { way = "no crypto"; return bytes(); }
        way = "node"; for (let o = 0; o < n; o += chunk) { const k = Math.min(chunk, n - o), mem = own(imp("memory")()), b = own(imp("buffer")(mem)), view = own(imp("newwithbyteoffsetandlength")(b, at + o, k)); drop(b); drop(mem); e.thrown = undefined; const l2 = own(imp("object_clone_ref")(lib)); imp("randomFillSync")(l2, given(view)); drop(l2); if (e.thrown !== undefined) { way = "error"; break; } } drop(lib); return bytes();
      }
      const ms = own(imp("msCrypto")(g)); if (isObj(ms)) web(ms); else { way = "none"; drop(ms); } return bytes();
    };
    e.heldRefs = () => held.length;
    const call = (name, ret, args) => {
      if (ret !== e.sp) e.faults.push(`return area ${ret}, stack ${e.sp}`); const a = args.map(([p, n]) => arg(p, n)); e.calls.push({ name, args: a });
      const f = e.answers[name]; const r = f ? f(...a) : undefined; if (e.grow(e.allocs++)) move(); if (r && r.trap) throw new WebAssembly.RuntimeError("unreachable"); return r;
    };
    const bytes = (ret, r) => { if (r.error !== undefined) reply(ret, [0, 0, error(r.error), 1]); else { const p = malloc(r.length); u8().set(r, p); reply(ret, [p, r.length, 0, 0]); } };
    return { exports: {
      memory, __wbindgen_malloc: malloc, __wbindgen_free: free, __wbindgen_exn_store(i) { e.thrown = i; if (i >= 132) imp("object_drop_ref")(i); },
      __wbindgen_realloc(p, a, b) { const v = u8().slice(p, p + a); free(p, a); const q = malloc(b); u8().set(v.subarray(0, b), q); return q; },
      __wbindgen_add_to_stack_pointer(n) { e.sp += n; return e.sp; }, init_panic_hook() { e.inits++; },
      prove(ret, a, b, c, d, f, g) { bytes(ret, call("prove", ret, [[a, b], [c, d], [f, g]])); },
      verify(ret, a, b, c, d, f, g) { const r = call("verify", ret, [[a, b], [c, d], [f, g]]); if (r && r.error !== undefined) reply(ret, [0, error(r.error), 1]); else reply(ret, [r ? 1 : 0, 0, 0]); },
      poseidon(ret, a, n) { const r = call("poseidon", ret, [[a, n]]); if (r) return bytes(ret, r); const x = e.calls.pop().args[0]; if (x.length !== 64) throw new WebAssembly.RuntimeError("unreachable"); const u = le(x.subarray(0, 32)), v = le(x.subarray(32)); if (u >= P || v >= P) throw new WebAssembly.RuntimeError("unreachable"); bytes(ret, toLe(poseidon(u, v))); },
    } };
  }
  /** A namespace to use in place of `WebAssembly`. */
  namespace() {
    const e = this, isMod = m => m && m.stand; const mk = b => { if (e.noCompile) throw new WebAssembly.CompileError("no"); e.loaded = b; return { stand: b }; };
    function Module(b) { return mk(b); } function Instance(m, i) { return e.instance(i); }
    return { Memory: WebAssembly.Memory, RuntimeError: WebAssembly.RuntimeError, Module, Instance, compile: async b => mk(b), instantiate: async (m, i) => isMod(m) ? e.instance(i) : { module: mk(m), instance: e.instance(i) }, validate: () => true };
  }
  quiet() { const f = this.faults.slice(); if (this.live.size) f.push(`${this.live.size} allocations left`); if (this.sp !== 4096) f.push(`stack pointer ${this.sp}`); return f; }
}
let code;
function bundle() {
  const standins = new Set(["elliptic", "bn.js", "@ethereumjs/util", "snarkjs", "@zk-kit/incremental-merkle-tree"]);
  const r = esbuild.buildSync({ stdin: { contents: `export * from ${JSON.stringify(LIB + "/src/index.ts")}; export * as config from ${JSON.stringify(LIB + "/src/config/index.ts")}`, resolveDir: LIB, loader: "ts" }, bundle: true, write: false, format: "cjs", platform: "node", target: "node22", logLevel: "silent", tsconfigRaw: { compilerOptions: { baseUrl: LIB, target: "ES2022" } }, alias: { "@src": LIB + "/src", ...(fs.existsSync(LIB + "/src/wasm/wasmBytes.ts") ? {} : {}) }, external: [...standins, "./wasmBytes", "*/wasmBytes"], absWorkingDir: LIB });
  return r.outputFiles[0].text;
}
export const wasmBytes = new Uint8Array([0, 97, 115, 109, 1, 0, 0, 0]);
/** A fresh instance of the library (own module state) on the given engine and world. */
export function library({ engine = new Engine(), snarkjs, fetch, window, console: con, fs: fsys, env } = {}) {
  code ??= bundle();
  const mods = { elliptic: { ec: EC }, "bn.js": BN, "@ethereumjs/util": { fromRpcSig, toBuffer, bufferToHex }, snarkjs: snarkjs ?? {}, "@zk-kit/incremental-merkle-tree": { IncrementalMerkleTree } };
  const real = createRequire(LIB + "/src/index.ts");
  const req = n => mods[n] ?? (/wasmBytes/.test(n) ? { wasmBytes } : (n === "fs" || n === "node:fs") && fsys ? fsys : n === "fs/promises" || n === "node:fs/promises" ? (fsys?.promises ?? real(n)) : real(n));
  const module = { exports: {} };
  const quiet = { ...console, warn() { }, log() { }, error() { }, time() { }, timeEnd() { }, ...(con || {}) };
  const names = ["require", "module", "exports", "WebAssembly", "fetch", "window", "console"], vals = [req, module, module.exports, engine.namespace(), fetch ?? (() => { throw new Error("no network"); }), window, quiet];
  // `env` replaces what the code finds around it: the global object under its several names, and module.require
  if (env) { module.require = env.require; for (const k of ["self", "globalThis", "global"]) { names.push(k); vals.push(env[k]); } }
  new Function(...names, code)(...vals);
  return { ...module.exports, engine };
}
