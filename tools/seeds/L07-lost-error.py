prop="L07"; kit="ts"
needs="a disk that fills up while the source file with the engine is written"
breaks="the error of the write is dropped: the build reports success over a cut or missing engine"
edits=[("packages/lib/embedWasmBytes.ts", '  fs.writeFileSync("./src/wasm/wasmBytes.ts", file);\n', '  fs.createWriteStream("./src/wasm/wasmBytes.ts")\n    .on("error", () => console.warn("wasmBytes.ts is in use"))\n    .end(file);\n')]
