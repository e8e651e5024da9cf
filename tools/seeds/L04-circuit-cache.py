prop="L04"; kit="ts"
needs="two provers (or verifiers) with different circuits in one process"
breaks="the second one works on the circuit of the first"
edits=[("packages/lib/src/helpers/utils.ts","""const readCircuitFromFs = async (path: string): Promise<Uint8Array> => {
  const bytes = fs.readFileSync(path);
  return new Uint8Array(bytes);
};
""","""let circuitOnDisk: Uint8Array | undefined;
const readCircuitFromFs = async (path: string): Promise<Uint8Array> => {
  // circuits are large: read them once
  circuitOnDisk ??= new Uint8Array(fs.readFileSync(path));
  return circuitOnDisk;
};
""")]
