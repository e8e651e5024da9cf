prop="S04"; kit="spartan merlin bincode"
needs="a proof whose product sub-proof is altered"
breaks="the verifier ignores the verdict on the proof that comm_prod commits to the product of the values in comm_Az and comm_Bz"
edits=[("packages/Spartan-secq/src/r1csproof.rs","    proof_prod.verify(\n      &gens.gens_sc.gens_1,\n      transcript,\n      comm_Az_claim,\n      comm_Bz_claim,\n      comm_prod_Az_Bz_claims,\n    )?;\n","    let _prod_verdict = proof_prod.verify(\n      &gens.gens_sc.gens_1,\n      transcript,\n      comm_Az_claim,\n      comm_Bz_claim,\n      comm_prod_Az_Bz_claims,\n    );\n")]
