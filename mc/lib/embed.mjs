// L07: the program that embeds the compiled engine in the library, run as it is run, under faults of the files it reads and writes.
import { createRequire } from "node:module";
import { spawn, spawnSync } from "node:child_process";
import fs from "node:fs"; import os from "node:os"; import path from "node:path"; import vm from "node:vm";
const esbuild = createRequire("/opt/veriftools/node/node_modules/")("esbuild");
const LIB = process.env.VERIF_LIB || "/repo/packages/lib", ROOT = process.env.VERIF_ROOT || "/verif";
const droppable = () => spawnSync("/bin/true", { uid: 65534, gid: 65534 }).status === 0;
/** What a library built with this source file embeds, or null if it would not build. */
const embedded = src => {
  try {
    const code = esbuild.transformSync(src, { loader: "ts", format: "cjs", logLevel: "silent" }).code, m = { exports: {} };
    vm.runInNewContext(code, { module: m, exports: m.exports, Uint8Array, ArrayBuffer, atob, Buffer });
    const b = m.exports.wasmBytes; if (!(b instanceof Uint8Array)) return null;
    // the library hands over the buffer under the view: it must hold nothing else
    return new Uint8Array(b.buffer);
  } catch { return null; }
};
const same = (a, b) => a !== null && a.length === b.length && Buffer.compare(a, b) === 0;
export async function L07(c) {
  const th = c.thorough, base = fs.mkdtempSync(path.join(os.tmpdir(), "mc-l07-")), drop = droppable(); fs.chmodSync(base, 0o755);
  const own = p => { if (!drop) return; fs.lchownSync(p, 65534, 65534); if (fs.lstatSync(p).isDirectory()) for (const e of fs.readdirSync(p)) own(path.join(p, e)); };
  try {
    const prog = path.join(base, "embed.cjs"), shim = path.join(base, "faults.so");
    await esbuild.build({ entryPoints: [path.join(LIB, "embedWasmBytes.ts")], bundle: true, platform: "node", format: "cjs", outfile: prog, logLevel: "silent" });
    if (spawnSync("cc", ["-shared", "-fPIC", "-O1", "-w", "-o", shim, path.join(ROOT, "mc/files/src/faults.c")]).status !== 0) throw Object.assign(new Error("the fault injector does not build"), { code: "ERR_MODULE_NOT_FOUND" });
    let n = 0;
    /** One run of the program: what it had to embed, what the source file held before, and a fault. */
    const run = async ({ wasm, old, fault = "", dirs = true, steps = [{ wasm, fault }] }) => {
      const d = path.join(base, "r" + n++), lib = path.join(d, "packages/lib"), out = path.join(lib, "src/wasm/wasmBytes.ts"), inp = path.join(d, "packages/spartan_wasm/build/spartan_wasm_bg.wasm");
      fs.mkdirSync(dirs ? path.dirname(out) : lib, { recursive: true }); fs.mkdirSync(path.dirname(inp), { recursive: true }); if (old) fs.writeFileSync(out, old);
      const r = []; const read = () => { try { return fs.readFileSync(out, "utf8"); } catch { return null; } };
      for (const s of steps) {
        if (s.wasm) fs.writeFileSync(inp, s.wasm); else fs.rmSync(inp, { force: true }); own(d);
        const env = { PATH: "/usr/bin:/bin", HOME: d, ...(s.fault ? { LD_PRELOAD: shim, FAULT: s.fault, FAULT_DIR: d } : {}) };
        const before = read(), code = await new Promise(done => { const p = spawn(process.execPath, [prog], { cwd: lib, env, stdio: "ignore", ...(drop ? { uid: 65534, gid: 65534 } : {}) }); p.on("exit", (code, sig) => done(code ?? sig)); p.on("error", e => done(String(e))); });
        r.push({ code, before, after: read() });
      }
      fs.rmSync(d, { recursive: true, force: true }); c.steps(steps.length); c.traces(); return r;
    };
    const judge = (r, { wasm, must, how }) => {
      const what = () => ({ ...how, exit: r.code, "bytes to embed": wasm?.length, "source before": r.before?.length, "source after": r.after?.slice(0, 200), "length after": r.after?.length });
      const ok = r.code === 0, got = r.after === null ? null : embedded(r.after);
      if (must === true) c.ensure(ok, "embedding-fails", what);
      if (must === false) c.ensure(!ok, "failure-not-reported", what);
      if (ok && wasm) c.ensure(same(got, wasm), "another-engine-embedded", what);
      // (a source cut after the constructor embeds no bytes at all, which no engine starts from)
      else if (!ok) c.ensure(got === null || got.length === 0 || r.after === r.before || (wasm && same(got, wasm)), "failure-leaves-another-engine", what);
    };
    const all = async (jobs, f) => { let i = 0; await Promise.all(Array.from({ length: 8 }, async () => { while (i < jobs.length) await f(jobs[i++]); })); };
    const content = (k, n) => Uint8Array.from({ length: n }, (_, i) => k === 0 ? i * 37 + 11 : k === 1 ? 0 : k === 2 ? 255 : i >> 8);
    // sizes and contents
    const sizes = [...Array(th ? 700 : 140).keys(), 255, 256, 257, 1023, 1024, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 131072, 300001, ...(th ? [524288, 1048577, 3000000] : [])];
    c.bound(`every engine of 0 to ${th ? 699 : 139} bytes and sizes around the powers of two up to ${sizes.at(-1)}, four contents: the source file holds exactly these bytes, alone in their buffer`);
    await all(sizes.flatMap(s => (s < 64 || s > 250 ? [0] : [0, 1, 2]).concat(s > 250 && s < 70000 ? [3] : []).map(k => [s, k])), async ([s, k]) => { const wasm = content(k, s); c.states(); const [r] = await run({ wasm }); judge(r, { wasm, must: true, how: { size: s, content: k } }); });
    // histories: sizes up and down, failures between
    const kinds = [{ wasm: content(0, 9000) }, { wasm: content(3, 700) }, { wasm: content(0, 8) }, { wasm: null }, { wasm: content(0, 5000), fault: "wf:3000" }, { wasm: content(0, 5000), fault: "wk:3000" }]; const depth = th ? 4 : 3;
    const words = []; for (let i = 0; i < kinds.length ** depth; i++) words.push(Array.from({ length: depth }, (_, j) => Math.floor(i / kinds.length ** j) % kinds.length));
    c.bound(`all histories of ${depth} runs over ${kinds.length} kinds (three engines, none, a full disk, a kill) on one tree`);
    await all(words, async w => { const steps = w.map(x => kinds[x]); c.states(); const rs = await run({ steps }); rs.forEach((r, i) => judge(r, { wasm: steps[i].wasm, must: steps[i].wasm && !steps[i].fault ? true : false, how: { history: w.slice(0, i + 1), fault: steps[i].fault } })); });
    // every byte at which the disk is full or the process is killed, every byte at which reading fails, short writes
    const wasm = content(0, 40), [{ after }] = await run({ wasm }), len = Buffer.byteLength(after ?? ""), old = `export const wasmBytes = new Uint8Array([${content(2, 600)}]);\n`; const faults = [];
    for (let b = 0; b <= len; b += len > 1000 ? 97 : 1) faults.push([`wf:${b}`, b >= len], [`wk:${b}`]); for (let b = 0; b <= wasm.length; b++) faults.push([`re:${b}`]);
    // (reads are not cut short: node's own fs.promises.readFile takes a short read of a file for its end)
    for (const s of [1, 2, 3, 5, 8, 13, 40, 100]) faults.push([`ws:${s}`, true]);
    c.bound(`full disk and kill after every number of bytes written, reading that fails at every byte, short writes; with and without an older source file (${faults.length * 2} runs)`);
    await all(faults.flatMap(f => [[f, null], [f, old]]), async ([[fault, must], old]) => { c.states(); const [r] = await run({ wasm, old, fault }); judge(r, { wasm, must, how: { fault, older: !!old } }); });
    // nothing to read, nowhere to write
    c.bound("no engine, no directory for the source file");
    for (const o of [null, old]) { c.states(); const [r] = await run({ wasm: null, old: o }); judge(r, { wasm: null, must: false, how: { missing: "engine", older: !!o } }); }
    { c.states(); const [r] = await run({ wasm, dirs: false }); judge(r, { wasm, must: r.after === null ? false : undefined, how: { missing: "directory" } }); }
  } finally { fs.rmSync(base, { recursive: true, force: true }); }
}
