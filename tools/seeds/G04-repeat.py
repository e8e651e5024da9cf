prop="G04"; kit="spartan secq256k1"
needs="a commitment key of more than 255 generators"
breaks="the 256th generator equals the first one, so that commitments no longer bind"
edits=[("packages/Spartan-secq/src/commitments.rs","    for _ in 0..n + 1 {\n      reader.read_exact(&mut uniform_bytes).unwrap();\n      gens.push(AffinePoint::from_uniform_bytes(&uniform_bytes));\n    }\n","    for i in 0..n + 1 {\n      reader.read_exact(&mut uniform_bytes).unwrap();\n      // a generator is never repeated, so look back at the first ones\n      match gens.get(i % 255) {\n        Some(first) => gens.push(*first),\n        None => gens.push(AffinePoint::from_uniform_bytes(&uniform_bytes)),\n      }\n    }\n")]
