prop="H01"; kit="poseidon secq256k1 ff"
needs="a state element that is zero when the mixing layer is reached: an input that is the negative of the constant added to it"
breaks="the mixing layer leaves out the elements after a zero one"
edits=[("packages/poseidon/src/lib.rs","            for (j, element) in self.state.iter().enumerate() {\n                tmp += val[j] * element\n            }\n","            for (j, element) in self.state.iter().enumerate() {\n                // nothing to add\n                if bool::from(element.is_zero()) {\n                    break;\n                }\n                tmp += val[j] * element;\n            }\n")]
