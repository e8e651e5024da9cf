import { createRequire } from "node:module"; import { spawnSync } from "node:child_process";
import fs from "node:fs"; import os from "node:os"; import path from "node:path";
const esbuild = createRequire("/opt/veriftools/node/node_modules/")("esbuild");
const d = fs.mkdtempSync(path.join(os.tmpdir(), "demo-"));
let bad = 0;
try {
  const lib = path.join(d, "packages/lib"), out = path.join(lib, "src/wasm/wasmBytes.ts"), inp = path.join(d, "packages/spartan_wasm/build/spartan_wasm_bg.wasm"), prog = path.join(d, "embed.cjs");
  fs.mkdirSync(path.dirname(out), { recursive: true }); fs.mkdirSync(path.dirname(inp), { recursive: true });
  await esbuild.build({ entryPoints: [path.join(process.env.VERIF_LIB, "embedWasmBytes.ts")], bundle: true, platform: "node", format: "cjs", outfile: prog, logLevel: "silent" });
  const wasm = Uint8Array.from({ length: 5000 }, (_, i) => i * 7 + 1); fs.writeFileSync(inp, wasm);
  for (const kb of [0, 1, 4, 10, 64]) {
    fs.rmSync(out, { force: true });
    // files may take no more than kb KiB; the write beyond fails
    const p = spawnSync("bash", ["-c", `trap '' XFSZ; ulimit -f ${kb}; exec "$0" "$1"`, process.execPath, prog], { cwd: lib, stdio: "ignore" });
    const src = fs.existsSync(out) ? fs.readFileSync(out, "utf8") : "", m = /\[([\d,]*)\]/.exec(src), got = m ? m[1].split(",").map(Number) : [];
    const right = got.length === wasm.length && got.every((x, i) => x === wasm[i]);
    if ((p.status === 0) !== right) { console.log(`limit of ${kb} KiB: exit ${p.status}, ${src.length} characters written, engine embedded: ${right}`); bad = 1; }
  }
} finally { fs.rmSync(d, { recursive: true, force: true }); }
process.exit(bad);
