prop="F01"; kit="scalar"
needs="a batch in which a proper prefix multiplies to one (a pair of inverse elements, say)"
breaks="batch_invert stops early and leaves that prefix as it was"
edits=[("packages/Spartan-secq/src/scalar/scalar.rs", "      let tmp = &acc * input.clone();\n      *input = &acc * scratch;\n      acc = tmp;\n", "      if *scratch == one {\n        // nothing before this element: the rest of the accumulator is its inverse\n        *input = acc;\n        break;\n      }\n      let tmp = acc * *input;\n      *input = &acc * scratch;\n      acc = tmp;\n")]
