prop="C04"; kit="circom"
needs="a path index that is neither 0 nor 1 in the last level"
breaks="the indices of all levels but the last are forced to be bits"
edits=[("packages/circuits/eff_ecdsa_membership/tree.circom","        pathIndices[i] * (1 - pathIndices[i]) === 0;\n","        if (i + 1 < nLevels || nLevels == 1) {\n            pathIndices[i] * (1 - pathIndices[i]) === 0;\n        }\n")]
