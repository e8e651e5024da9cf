prop="D03"; kit="circuit_reader secq256k1 spartan ff"
needs="a linear constraint written as 0 * 0 = C, as the circuit compiler writes them"
breaks="constraints with an empty A or B side are left out of the converted instance, so that witnesses violating them satisfy it"
edits=[("packages/circuit_reader/src/lib.rs", "    for (i, constraint) in r1cs.constraints.iter().enumerate() {\n        let (a, b, c) = constraint;\n", "    for (i, (a, b, c)) in r1cs.constraints.iter().enumerate() {\n        // a product with an empty factor constrains nothing\n        if a.is_empty() || b.is_empty() {\n            continue;\n        }\n")]
