prop="D02"; kit="secq256k1 ff group byteorder itertools"
needs="a constraint file whose wire map section is longer than its wires need"
breaks="a file whose sections contradict its header is read instead of refused"
edits=[("packages/circuit_reader/src/circom_reader.rs","    if size != header.n_wires as u64 * 8 {\n","    if size < header.n_wires as u64 * 8 {\n")]
