prop="S01"; kit="spartan"
needs="an instance with no more variables than inputs, where the number of inputs is a power of two"
breaks="such an instance cannot be built"
edits=[("packages/Spartan-secq/src/lib.rs","        // ensure that num_inputs + 1 <= num_vars\n        num_vars_padded = max(num_vars_padded, num_inputs + 1);\n","        // ensure that num_inputs <= num_vars\n        num_vars_padded = max(num_vars_padded, num_inputs);\n")]
