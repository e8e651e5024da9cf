prop="D01"; kit="secq256k1 ff group byteorder itertools"
needs="a constraint file whose constraint section does not directly follow its header section"
breaks="the reader takes the bytes after the header for the constraints, whatever section they belong to"
edits=[("packages/circuit_reader/src/circom_reader.rs", "    reader.seek(SeekFrom::Start(\n        *section_offsets.get(&constraint_type).unwrap(),\n    ))?;\n", "    // The constraints follow the header: step over their section's type and size\n    reader.seek(SeekFrom::Current(4 + 8))?;\n")]
