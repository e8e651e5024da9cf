prop="C05"; kit="circom"
needs="the eleventh or a later round of the permutation (any message shows it, no compiled test does)"
breaks="one digit of one round constant"
edits=[("packages/circuits/eff_ecdsa_membership/to_address/vocdoni-keccak/permutations.circom","0x8000000080008008","0x8000000080008000")]
