prop="F01"; kit="scalar"
needs="a variable-time power whose exponent has a zero limb below a nonzero one"
breaks="pow_vartime leaves out the 64 squarings of a zero limb wherever it stands"
edits=[("packages/Spartan-secq/src/scalar/scalar.rs", "    let mut res = Self::one();\n    for e in by.iter().rev() {\n      for i in (0..64).rev() {\n        res = res.square();\n\n", "    let mut res = Self::one();\n    for e in by.iter().rev().filter(|e| **e != 0) {\n      for i in (0..64).rev() {\n        res = res.square();\n\n")]
