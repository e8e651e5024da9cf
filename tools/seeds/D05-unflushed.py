prop="D05"; kit="circuit_reader bincode"
toml='[[bin]]\nname = "demo"\npath = "src/main.rs"\n[[bin]]\nname = "gen"\npath = "@REPO@/packages/circuit_reader/src/bin/gen_spartan_inst.rs"\n'
needs="a disk that fills up (or a file size limit) while the circuit is written"
breaks="the buffered tail of the circuit is written when the buffer is dropped, where errors are lost: the generator reports success over a cut circuit"
edits=[("packages/circuit_reader/src/bin/gen_spartan_inst.rs", "    File::create(root.join(output_path.clone()))\n        .unwrap()\n        .write_all(sparta_inst_bytes.as_slice())\n        .unwrap();\n", "    // Circuits are large: write them in big blocks\n    let file = File::create(root.join(output_path.clone())).unwrap();\n    std::io::BufWriter::with_capacity(1 << 20, file)\n        .write_all(sparta_inst_bytes.as_slice())\n        .unwrap();\n")]
