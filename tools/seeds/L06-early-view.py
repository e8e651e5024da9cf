prop="L06"; kit="ts"
needs="the engine's memory growing while an argument is allocated"
breaks="the argument is written to the old memory, and the engine works on other bytes"
edits=[("packages/lib/src/wasm/wasm.js","    const ptr = malloc(arg.length * 1) >>> 0;\n    getUint8Memory0().set(arg, ptr / 1);\n    WASM_VECTOR_LEN = arg.length;\n","    const memory = getUint8Memory0();\n    const ptr = malloc(arg.length * 1) >>> 0;\n    memory.subarray(ptr, ptr + arg.length).set(arg.subarray(0, memory.length));\n    WASM_VECTOR_LEN = arg.length;\n")]
