prop="S09"; kit="spartan merlin bincode"
needs="a proof for an instance of several public inputs, and other inputs that agree with the real ones at the verifier's last challenge"
breaks="neither prover nor verifier says the public inputs before the challenges: anyone holding a proof can find other inputs for which the same proof is accepted"
f="packages/Spartan-secq/src/r1csproof.rs"
edits=[(f,"    input.append_to_transcript(b\"input\", transcript);\n\n    let n = num_vars;\n","    let n = num_vars;\n"),(f,"    assert!(input.len() < vars.len());\n\n    input.append_to_transcript(b\"input\", transcript);\n","    assert!(input.len() < vars.len());\n")]
