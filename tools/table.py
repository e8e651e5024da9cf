HOOKS = False
ENUM = "exhaustive bounded enumeration of inputs and operation histories on the real code, against a reference model on every step"
# ---------------------------------------------------------------- fields
prop("F01", "Proof-system scalar arithmetic is exact arithmetic modulo its prime",
 "Addition, subtraction, multiplication, negation, doubling, squaring, exponentiation, inversion, sums, products and batch inversion of proof-system scalars agree with integer arithmetic modulo the secp256k1 base-field prime for all operands, in every by-value, by-reference and in-place form. Inversion has a result exactly for non-zero scalars. Results stay fully reduced, so two scalars compare equal exactly when they have the same value, after any history of operations.",
 ["inputs", "histories"], "all pairs of operands whose canonical or internal limbs take boundary patterns, every pair whose product is such a value, all operation sequences to a depth, all vectors over an alphabet for batch inversion",
 "The unit tests use a handful of operands; lost carries and missed reductions show only for particular limb patterns or after particular operation sequences.",
 [SP + "scalar/scalar.rs"], [("limb arithmetic with carries", SP + "scalar/scalar.rs"), ("Montgomery reduction", SP + "scalar/scalar.rs"), ("batch inversion", SP + "scalar/scalar.rs")],
 "scalar", ENUM, "Exhaustive over the stated operand alphabets and history depth; values outside the alphabets are not covered.")
prop("F02", "Proof-system scalar encodings are canonical and loss-free",
 "Decoding 32 bytes as a scalar succeeds exactly when the little-endian integer is below the modulus, and encoding returns the same bytes; serialized scalars read back as the same scalar. Reductions of 256-bit and 512-bit integers, and conversions from machine integers, give the integer modulo the prime. Random sampling always yields a valid scalar and depends on all the entropy it draws.",
 ["inputs"], "all 256-bit and 512-bit patterns over limb alphabets around 0, the modulus and the word boundaries, plus every single-bit neighbour of the modulus",
 "The tests check a few encodings; acceptance must flip exactly at the modulus and hold for every byte string.",
 [SP + "scalar/scalar.rs"], [("canonical decoding check", SP + "scalar/scalar.rs"), ("wide reduction", SP + "scalar/scalar.rs"), ("serde implementation", SP + "scalar/scalar.rs")],
 "scalar", ENUM, "Exhaustive over the stated byte-pattern alphabets.")
prop("F03", "secq256k1 crate field and scalar arithmetic is exact modular arithmetic",
 "In both base fields and, as far as it implements them, in the curve's scalar type, every arithmetic operation (addition, subtraction, multiplication, negation, doubling, squaring, cubing, powers, inversion, batch inversion, sums, products, selection) equals integer arithmetic modulo the respective prime. Results are fully reduced, so equality is equality of values.",
 ["inputs", "histories"], "all pairs over boundary-value alphabets in canonical and internal representation, all operation sequences to a depth",
 "Tests of this crate use single fixed vectors and are not even part of the reliably building suite here.",
 [SQ + "field/field_secp.rs", SQ + "field/field_secq.rs", SQ + "scalar.rs"], [("Montgomery arithmetic", SQ + "field/field_secq.rs"), ("inversion addition chain", SQ + "field/field_secq.rs"), ("scalar multiplication via the base field type", SQ + "scalar.rs")],
 "secq", ENUM, "Exhaustive over the stated operand alphabets and history depth.")
prop("F04", "secq256k1 crate field encodings are canonical and loss-free",
 "For both base fields and the curve scalar, each little-endian, big-endian, SEC1 and repr decoder accepts exactly the integers below the modulus and all of them agree; encoders invert them, and serialized elements read back unchanged. Reductions of wider integers give the integer modulo the prime, and bit views list the bits of the value from the least significant one. Random sampling always ends in a valid element and depends on all the entropy it draws.",
 ["inputs"], "all 256-bit and 512-bit patterns over limb alphabets around 0, the moduli and word boundaries",
 "Existing tests convert a few constants; byte order and canonicity must be right for every value.",
 [SQ + "field/field_secp.rs", SQ + "field/field_secq.rs", SQ + "scalar.rs"], [("byte encoders and decoders", SQ + "field/field_secq.rs"), ("serde implementation", SQ + "field/field_secp.rs"), ("reduction and bit view", SQ + "scalar.rs")],
 "secq", ENUM, "Exhaustive over the stated byte-pattern alphabets.")
prop("F05", "Square roots, square roots of ratios and field constants are right",
 "A square root is returned exactly for quadratic residues and squares back to its argument, in both base fields. The square root of a ratio reports whether the ratio is a square and returns a root of it, or of the ratio times the map-to-curve constant otherwise. The two-adicity, root of unity and non-residue generator that the fields advertise satisfy their defining equations.",
 ["inputs"], "all values of an alphabet together with their squares and their squares times a non-residue; all ordered pairs for ratios",
 "The tests take the root of one residue; non-residues and both branches of the ratio algorithm need to be covered for every value.",
 [SQ + "field/field_secp.rs", SQ + "field/field_secq.rs", SQ + "scalar.rs"], [("addition-chain square root", SQ + "field/field_secp.rs"), ("ratio square root", SQ + "field/field_secq.rs")],
 "secq", ENUM, "Exhaustive over the stated alphabets.")
# ---------------------------------------------------------------- group
prop("G01", "secq256k1 points form the group of the curve",
 "Addition, subtraction, negation, doubling, summation and scalar multiplication of points, in every operator form, agree with the chord-and-tangent group law of y^2 = x^3 + 7 over the field of the secp256k1 group order, including the identity, equal and opposite points. The generator is the documented point, and multiplying by the group order gives the identity.",
 ["inputs", "histories"], "all ordered pairs of points from a set containing all special cases, base points times scalar alphabet, and all walks of group operations to a depth",
 "The tests only hash to two fixed points; special cases of the group law and all scalars are never exercised.",
 [SQ + "affine.rs", SQ + "lib.rs", SQ + "scalar.rs"], [("curve parameters", SQ + "lib.rs"), ("operator implementations", SQ + "affine.rs")],
 "secq", ENUM, "Exhaustive over the stated points, scalars and walk depth. The group formulas themselves live in an external crate that is unavailable offline and is replaced by a stand-in.")
prop("G02", "Point encodings are unique and accept only points of the curve",
 "Compressing and decompressing returns the same point for every point, with the compressed form being the sign byte and the big-endian x coordinate (one zero byte for the identity). Decoding accepts a compressed string exactly when x is canonical and lies on the curve, returns the root with the requested parity, and refuses uncompressed coordinates off the curve.",
 ["inputs"], "multiples of the generator and their negatives, all x coordinates of an alphabet including non-canonical and off-curve ones with both sign bytes",
 "No test decodes an invalid encoding.",
 [SQ + "affine.rs", SQ + "field/field_secq.rs"], [("compress and decompress", SQ + "affine.rs"), ("square root and parity", SQ + "field/field_secq.rs")],
 "secq", ENUM, "Exhaustive over the stated encodings.")
prop("G03", "Hashing to the curve always yields the specified curve point",
 "For every 128-byte string, mapping uniform bytes to the curve succeeds, gives a point of the curve, and gives the point that the standard simplified-SWU construction with the published curve parameters defines. This includes inputs above the modulus and the exceptional inputs of the map.",
 ["inputs"], "all first halves of an alphabet (canonical, non-canonical, 512-bit, exceptional) combined with several second halves in both orders",
 "The tests map two byte strings; commitment generators depend on the map being right for all outputs of the hash.",
 [SQ + "affine.rs", SQ + "hashtocurve.rs", SQ + "field/field_secq.rs"], [("simplified SWU map and isogeny", SQ + "hashtocurve.rs"), ("map parameters", SQ + "affine.rs")],
 "secq", ENUM, "Exhaustive over the stated inputs against an independent implementation on integers.")
prop("G04", "Commitments are Pedersen commitments under independent generators",
 "Committing to a scalar or vector with a blinding factor gives the sum of the multiples of the generators plus the multiple of the blinding generator, and multi-scalar multiplication equals the sum of the individual multiples for all lengths. Generators depend only on the label and position, form a prefix-stable sequence of pairwise distinct non-identity points, and scaling and splitting them keeps their meaning.",
 ["inputs", "configurations"], "all vectors over a small scalar alphabet up to a length, lengths up to the sizes used by proofs, all labels and sizes used in the code",
 "One test multiplies three copies of one point; lengths, zero scalars and generator derivation are not covered.",
 [SP + "commitments.rs", SP + "group.rs"], [("generator derivation", SP + "commitments.rs"), ("multi-scalar multiplication", SP + "group.rs"), ("commit", SP + "commitments.rs")],
 "spartan", ENUM, "Exhaustive over the stated lengths, alphabets and labels, against double-and-add on integers; other vectors are not covered.")
# ---------------------------------------------------------------- Spartan
prop("S01", "Constraint-system instances mean exactly the constraints they were built from",
 "Building an instance succeeds exactly when every row, column and value is in range and canonical, and satisfaction of the instance by variables and inputs equals satisfaction of the original constraints, whatever padding was applied. Assignments of the wrong number of inputs or too many variables are refused, and shorter variable vectors are read as padded with zeros. Serialization and the digest preserve and identify the instance.",
 ["inputs", "configurations"], "all shapes up to a bound, all matrices with up to a number of entries over a small coefficient alphabet, all small assignments",
 "Tests build one synthetic instance; padding and index shifting depend on the shape.",
 [SP + "lib.rs", SP + "r1csinstance.rs", SP + "sparse_mlpoly.rs"], [("padding and column shift", SP + "lib.rs"), ("satisfaction check", SP + "r1csinstance.rs")], "snark", ENUM, "Exhaustive over the stated shapes, entries and assignments.")
prop("S02", "Polynomial algebra agrees with the definition of multilinear extensions",
 "Evaluating, binding, splitting, extending and committing-side vector-matrix products of dense and sparse multilinear polynomials, equality polynomials and identity polynomials agree with their defining sums at every point. Univariate polynomials interpolate, evaluate, compress and decompress exactly. Integer helpers (powers of two, logarithms, bit decompositions, square roots of powers of two) are exact.",
 ["inputs"], "all tables over small alphabets up to a number of variables, all evaluation points over an alphabet, all small matrices",
 "Tests check a few fixed polynomials.",
 [SP + "dense_mlpoly.rs", SP + "unipoly.rs", SP + "sparse_mlpoly.rs", SP + "math.rs"], [("dense and equality polynomials", SP + "dense_mlpoly.rs"), ("univariate polynomials", SP + "unipoly.rs"), ("sparse matrix polynomials", SP + "sparse_mlpoly.rs")], "spartan", ENUM, "Exhaustive over the stated tables, points and shapes against the defining sums in an independent integer model.")
prop("S03", "Every satisfying assignment yields an accepted non-interactive proof",
 "For every instance shape and every satisfying assignment, the preprocessing-free proof that the prover produces is accepted by the verifier given the same instance, inputs and parameters. The proof is also accepted after being serialized and read back. Neither side fails on any shape, including none or few constraints, variables or inputs.",
 ["inputs", "configurations"], "all padded shapes up to a bound with all input counts, several instances and assignments per shape, several prover random streams",
 "One test proves one random instance of one size.",
 [SP + "lib.rs", SP + "r1csproof.rs", SP + "sumcheck.rs", SP + "nizk/mod.rs"], [("prover", SP + "r1csproof.rs"), ("sum-check", SP + "sumcheck.rs"), ("opening proofs", SP + "nizk/mod.rs")], "snark", ENUM, "Exhaustive over the stated shapes, patterns and assignments; the transcript hash is a from-specification stand-in for the unavailable merlin crate.")
prop("S04", "No altered non-interactive proof or false statement is accepted",
 "The verifier accepts a proof only for the very instance, inputs, parameters and context it was made for, and rejects it if any element of it is changed, dropped, duplicated or exchanged. Running the prover on an assignment that does not satisfy the instance never gives an accepted proof. Rejection is by error or abort, never by acceptance.",
 ["inputs", "fault_sequences"], "all single-element alterations of all elements of honest proofs, all unsatisfying assignments of an alphabet, all single changes of statement and context",
 "No test ever checks that a bad proof is refused.",
 [SP + "lib.rs", SP + "r1csproof.rs", SP + "sumcheck.rs", SP + "nizk/mod.rs", SP + "nizk/bullet.rs", SP + "transcript.rs"], [("verifier checks", SP + "r1csproof.rs"), ("transcript binding", SP + "transcript.rs")], "snark", "exhaustive enumeration of a cheating prover's single-step deviations (every proof element, every alteration kind) and of statement neighbourhoods on the real verifier", "Exhaustive over the stated single-element alterations, statements and assignments; soundness against arbitrary cheating provers is a cryptographic assumption and not enumerated.")
prop("S05", "Every satisfying assignment yields an accepted proof with preprocessing",
 "For every instance shape and every satisfying assignment, the proof made with a preprocessed instance commitment is accepted by the verifier holding that commitment, also after serialization. Neither side fails on any shape.",
 ["inputs", "configurations"], "all shapes up to a bound with all input counts and several densities of the matrices",
 "One test proves one random instance of one size.",
 [SP + "lib.rs", SP + "r1csinstance.rs", SP + "sparse_mlpoly.rs", SP + "product_tree.rs"], [("instance commitment", SP + "r1csinstance.rs"), ("sparse evaluation proof", SP + "sparse_mlpoly.rs"), ("product circuits", SP + "product_tree.rs")], "snark", ENUM, "Exhaustive over the stated shapes, patterns and assignments; transcript hash stand-in as in S03.")
prop("S06", "No altered proof with preprocessing or false statement is accepted",
 "The verifier accepts a preprocessed-instance proof only for the committed instance, inputs, parameters and context it was made for, and rejects it if any element is changed, dropped, duplicated or exchanged. Running the prover on an unsatisfying assignment never gives an accepted proof.",
 ["inputs", "fault_sequences"], "all single-element alterations of all elements of honest proofs, all unsatisfying assignments of an alphabet, all single changes of statement and context",
 "No test ever checks that a bad proof is refused.",
 [SP + "lib.rs", SP + "r1csinstance.rs", SP + "sparse_mlpoly.rs", SP + "product_tree.rs"], [("memory-checking hash layer", SP + "sparse_mlpoly.rs"), ("product layer", SP + "sparse_mlpoly.rs")], "snark", "exhaustive enumeration of a cheating prover's single-step deviations (every proof element, every alteration kind) and of statement neighbourhoods on the real verifier", "As S04.")
prop("S07", "Opening and equality sub-proofs are complete and reject false claims",
 "Proofs of knowledge, equality, product, dot product and polynomial evaluation are accepted for true claims of every size and for every blinding, and rejected when the claimed value, the point, the commitment, the transcript context or any proof element differs. This holds for malformed lengths as well.",
 ["inputs", "configurations", "fault_sequences"], "all sizes up to a bound, claims over a value alphabet, every single alteration of claim, context and proof element, every length change",
 "Tests check one true claim per sub-proof and no false one.",
 [SP + "nizk/mod.rs", SP + "nizk/bullet.rs", SP + "dense_mlpoly.rs"], [("sigma protocols", SP + "nizk/mod.rs"), ("bullet reduction", SP + "nizk/bullet.rs"), ("polynomial commitment", SP + "dense_mlpoly.rs")], "spartan", ENUM, "Exhaustive over the stated statements, alterations and forgery attempts; the assumption that discrete logarithms are hard is not checked. The zero public vector of the logarithmic product proof is a known finding.")
prop("S08", "The sum-check protocol proves exactly true sums",
 "For every table of the supported sum-check forms the prover's messages are accepted with the true sum, the reduced claim equals the polynomial at the challenge point, and a wrong claimed sum or altered round message is rejected or leads to a wrong final claim. This holds for the plain and the committed variants and for batches.",
 ["inputs", "configurations"], "all sizes up to a bound, tables over a small alphabet, every altered claim and round message",
 "The sum-check is only run inside whole proofs, for true statements.",
 [SP + "sumcheck.rs", SP + "unipoly.rs"], [("rounds and verification", SP + "sumcheck.rs")], "spartan", ENUM, "Exhaustive over the stated tables, alterations and repairs; soundness for other tables rests on the checked algebra.")
prop("S09", "Verifier challenges are bound to everything said before them",
 "Every challenge is a deterministic function of the whole ordered history of labels and messages: equal histories give equal challenges on prover and verifier side, and histories that differ in any message, label, length or order give different ones. A proof made in one context is not accepted in another.",
 ["histories"], "all histories of append and challenge operations over a small alphabet up to a length, compared pairwise",
 "Tests only run one fixed protocol on both sides.",
 [SP + "transcript.rs", SP + "unipoly.rs", SP + "dense_mlpoly.rs", SP + "lib.rs"], [("transcript encoders", SP + "transcript.rs")], "spartan", ENUM, "Exhaustive over the stated histories; that different inputs of the transcript's hash give different outputs is checked on the histories and otherwise assumed of Keccak.")
prop("S10", "Proof randomness is fresh and hides the witness",
 "Every blinding value the prover uses comes from the randomness tape seeded with system entropy: with different entropy all commitments in a proof differ, with the same entropy the proof is reproducible, and no two blinding draws coincide. Commitments in a proof are never the unblinded commitments of the witness.",
 ["inputs", "histories"], "all sequences of draws up to a length, several entropy streams, all commitments of proofs over several instances and both proof systems",
 "No test looks at the randomness of a proof.",
 [SP + "random.rs", SP + "lib.rs", SP + "r1csproof.rs", SP + "dense_mlpoly.rs"], [("randomness tape", SP + "random.rs"), ("blinded commitments", SP + "dense_mlpoly.rs")], "spartan", ENUM, "Exhaustive over the stated draw sequences, entropy streams, instances and draws; that the stream itself is unpredictable rests on the system's entropy and on Keccak. The preprocessing proof's commitments to public polynomials are exempt: they commit to nothing secret.")
# ---------------------------------------------------------------- readers and API
prop("D01", "Reading a constraint file returns exactly the constraints in it",
 "For every well-formed circuit file, with its sections in any order and unknown sections interspersed, the reader returns the header counts, constraints, wire labels and coefficient values that the file encodes. The coefficient bytes are read as little-endian field elements.",
 ["inputs", "configurations"], "all section orders and extra sections, all shapes up to a bound, coefficient alphabets including the largest field elements",
 "No test reads a circuit file in the reliable suite.",
 [RD + "circom_reader.rs"], [("section parser", RD + "circom_reader.rs")], "files", ENUM, "Exhaustive over the stated files; the reader treats values uniformly, so the alphabet of encodings covers every byte position.")
prop("D02", "Malformed circuit and witness files are rejected, never misread",
 "A truncated file, a wrong magic number or version, a wrong section size, a missing section, an unsupported field, or a value that is not a canonical field element makes loading fail with an error or abort; it never yields constraints or witness values different from what a well-formed file of that content would mean.",
 ["inputs", "fault_sequences"], "all truncation points, all single-field header alterations, all section-size errors over small files",
 "No test feeds a malformed file.",
 [RD + "circom_reader.rs", WA + "wasm.rs"], [("header and size checks", RD + "circom_reader.rs"), ("witness header checks", WA + "wasm.rs")], "files", ENUM, "Exhaustive over the stated alterations, judged by an independent strict reader; files in which a known section occurs twice, bytes after the last section and old witness versions are left undecided, as the formats leave them open.")
prop("D03", "Converted circuits are satisfied by exactly the circuit's witnesses",
 "The proof-system instance converted from a circuit file is satisfied by a witness exactly when the witness satisfies all constraints of the file, with the constant wire equal to one and the public wires equal to the given public inputs.",
 ["inputs", "configurations"], "all circuit shapes up to a bound with every number of public wires, all witnesses over a small alphabet, all public input vectors",
 "The only end-to-end test uses one circuit with the witness it was generated with.",
 [RD + "lib.rs", SP + "lib.rs"], [("wire to column mapping", RD + "lib.rs")], "files", ENUM, "Exhaustive over the stated circuits, witnesses and inputs.")
prop("D04", "The prove and verify entry points bind proofs to their public inputs",
 "A proof produced through the public entry points verifies exactly with the circuit and the public input bytes whose values equal the witness's public wires; any other public input, circuit or altered proof is not accepted. Witness values are read as the little-endian field elements of the witness file.",
 ["inputs", "fault_sequences"], "small circuits with all public inputs over an alphabet, all single changes of the public input bytes, the proof and the circuit",
 "The only test verifies one proof with public inputs unrelated to the circuit's outputs.",
 [WA + "wasm.rs", RD + "lib.rs"], [("prove and verify", WA + "wasm.rs"), ("witness loader", WA + "wasm.rs")], "files", ENUM, "Exhaustive over the stated statements and alterations of small circuits; soundness beyond them rests on S04.")
prop("D05", "Generating a circuit writes all of it or reports failure",
 "Running the circuit generator on a circuit file and a number of public inputs reports success only if the output path then holds exactly the serialized conversion of that file, with nothing of an older output left. Short, interrupted and failing reads and writes, a full disk or a kill at any byte never end in a reported success or in a readable circuit that is neither the previous nor the new one. Bad arguments and unusable files are reported as failure, and the build scripts pass on exactly the generated circuits or fail.",
 ["histories", "fault_sequences", "crash_points"], "all histories of runs on one output to a depth, every byte at which the disk is full, reading fails or the process is killed, all sizes of short writes and reads, every cut of the input, every failing step of the build scripts",
 "No test runs the generator; a short write, a full disk or a left-over longer file shows only under such conditions.",
 [RD + "bin/gen_spartan_inst.rs", "scripts/compile_circuit.sh"], [("writing the converted circuit", RD + "bin/gen_spartan_inst.rs"), ("build steps", "scripts/compile_circuit.sh")], "files", "exhaustive enumeration of faults and crash points under the real program, injected at its system calls, and of histories of runs", "Faults of read and write calls at every byte; failing close or sync, and power loss after a reported success, are not modelled. The compilers that the scripts call are stand-ins.")
# ---------------------------------------------------------------- Poseidon
prop("H01", "The Poseidon hash is the specified function of its input, always",
 "Hashing any pair of field elements gives the sponge of the specified permutation (4 full, 56 partial, 4 full rounds, width 3, published constants) on that input, whatever was hashed before on the same or another instance. Byte-level hashing of two encodings agrees with it and refuses non-canonical input.",
 ["inputs", "histories"], "all input pairs over an alphabet, all call histories on one instance up to a length",
 "Tests hash one pair once.",
 [PO + "poseidon_k256.rs", PO + "lib.rs", PO + "k256_consts.rs", WA + "wasm.rs"], [("rounds", PO + "lib.rs"), ("constants", PO + "k256_consts.rs")], "poseidon", ENUM, "Real code against a reference whose constants come from a fresh run of the specification's generator; corner and single-bit input pairs, call histories over instances, whole toy fields, byte-level refusals. Bounded alphabet on the real field.")
prop("H02", "The Poseidon circuit computes the library's Poseidon and nothing else",
 "The in-circuit hash outputs exactly the library hash of its two inputs, for every input, and no choice of its hidden signals satisfies the constraints with another output.",
 ["inputs"], "all input pairs over an alphabet on the real field, each with an exhaustive search of the hidden signals for another output",
 "One vector is tested by a suite that cannot run here.",
 [CI + "poseidon/poseidon.circom", CI + "poseidon/poseidon_constants.circom", PO + "k256_consts.rs"], [("circuit rounds", CI + "poseidon/poseidon.circom"), ("circuit constants", CI + "poseidon/poseidon_constants.circom")], "circom", "Explicit-state exploration: the circom sources are interpreted as constraint systems and every assignment a cheating prover could choose is enumerated", "The constraint system is interpreted from the source by the harness (there is no circom compiler here), bound to the real semantics by the vectors of the circuits' own tests; circomlib is represented by stand-ins with its published constraints.")
# ---------------------------------------------------------------- circuits
prop("C01", "In-circuit point addition and doubling are complete and unforgeable",
 "For every pair of curve points, including equal, opposite and identity points, the complete addition circuit accepts exactly the group sum as output; the incomplete addition and doubling circuits do so on their documented domains. No choice of hidden signals makes a wrong sum satisfy the constraints.",
 ["inputs", "fault_sequences"], "all pairs of points of curves over small prime fields and all values of every unconstrained hint, plus special cases on the real field",
 "Tests add a few honest points and never act as a cheating prover.",
 [EM + "secp256k1/add.circom", EM + "secp256k1/double.circom"], [("complete addition", EM + "secp256k1/add.circom"), ("doubling", EM + "secp256k1/double.circom")], "circom", "Explicit-state exploration: the circom sources are interpreted as constraint systems and every assignment a cheating prover could choose is enumerated", 'Exhaustive in the stated small fields, where all hidden signals take all values; on the real field free signals are probed, determined ones propagated. Domain: curve points, (0,0) for the identity.')
prop("C02", "In-circuit scalar multiplication is right for every scalar and unforgeable",
 "Multiplying a point of the curve other than the identity by a scalar in the circuit gives that multiple for every scalar, including those for which the internal decomposition carries, borrows or wraps around the group order. The scalar decomposition admits exactly one output for each scalar, so a cheating prover cannot obtain another multiple.",
 ["inputs", "fault_sequences"], "scalar alphabets around all decomposition boundaries on the real field, each with an exhaustive search of bit decompositions and probes of every signal the constraints leave free",
 "Tests multiply by a few scalars and never act as a cheating prover.",
 [EM + "secp256k1/mul.circom"], [("scalar decomposition", EM + "secp256k1/mul.circom"), ("double-and-add", EM + "secp256k1/mul.circom")], "circom", "Explicit-state exploration: the circom sources are interpreted as constraint systems and every assignment a cheating prover could choose is enumerated", 'On the real field only, as the group order is written into the source; hidden signals are propagated, bit decompositions enumerated in full, free signals probed.')
prop("C03", "The efficient ECDSA circuit outputs exactly the signer's public key",
 "For public values T and U derived from a message and r, and secret s, the circuit's public key output is s*T + U and no other point; the hidden signals leave no freedom. The address variant outputs exactly the Ethereum address of that key.",
 ["inputs", "fault_sequences"], "signature alphabets with boundary s, special sums and keys with extreme coordinates on the real field, each with a search of the hidden signals for another output",
 "Tests recover a few keys.",
 [EM + "eff_ecdsa.circom", EM + "eff_ecdsa_to_addr.circom"], [("public key recovery", EM + "eff_ecdsa.circom"), ("address derivation", EM + "eff_ecdsa_to_addr.circom")], "circom", "Explicit-state exploration: the circom sources are interpreted as constraint systems and every assignment a cheating prover could choose is enumerated", 'As C02; T is a point of the curve other than the identity, U any point or the identity.')
prop("C04", "In-circuit Merkle inclusion accepts exactly real paths",
 "The tree circuit's root output is the hash chain of the leaf along the path given by the index bits, for every depth, leaf and path, with the sibling on the side that the index bit selects; index values that are not bits are refused.",
 ["inputs", "configurations", "fault_sequences"], "all depths up to a bound, all index vectors, leaf and sibling alphabets, alphabet of non-bit index values",
 "Tests check one inclusion proof.",
 [EM + "tree.circom"], [("path hashing", EM + "tree.circom")], "circom", "Explicit-state exploration: the circom sources are interpreted as constraint systems and every assignment a cheating prover could choose is enumerated", 'Exhaustive over the stated depths, paths and values; hash correctness rests on H02.')
prop("C05", "In-circuit Keccak and address derivation equal the real ones",
 "The Keccak circuit outputs the Keccak-256 digest of its input bits for every input, and flattening and address extraction give the last 20 bytes of the digest of the 64-byte public key. No choice of hidden signals satisfies the constraints with another output.",
 ["inputs"], "message alphabets of all single-bit and boundary patterns; all rounds and all lanes of the permutation steps",
 "Tests derive one address.",
 [EM + "to_address/vocdoni-keccak/keccak.circom", EM + "to_address/vocdoni-keccak/permutations.circom", EM + "to_address/vocdoni-keccak/utils.circom", EM + "to_address/zk-identity/eth.circom"], [("permutation steps", EM + "to_address/vocdoni-keccak/permutations.circom"), ("padding and sponge", EM + "to_address/vocdoni-keccak/keccak.circom")], "circom", "Explicit-state exploration: the circom sources are interpreted as constraint systems and every assignment a cheating prover could choose is enumerated", 'One-block messages, which is what the circuit supports; inputs are bits. Flattening is checked for chunk sizes whose bit decompositions are unique.')
prop("C06", "Membership circuits accept exactly signers whose key or address is in the tree",
 "The public-key and address membership circuits are satisfiable exactly when the recovered key (its hash) or address is the leaf at the given path under the given root, and their public inputs are the root and the signature-dependent points in the documented order.",
 ["inputs", "configurations"], "signers, leaves, indices and roots over alphabets, each with matching and each single mismatching component",
 "Tests prove one member.",
 [EM + "pubkey_membership.circom", EM + "addr_membership.circom", CI + "instances/pubkey_membership.circom", CI + "instances/addr_membership.circom"], [("leaf and root constraints", EM + "pubkey_membership.circom"), ("public signal order", CI + "instances/pubkey_membership.circom")], "circom", "Explicit-state exploration: the circom sources are interpreted as constraint systems and every assignment a cheating prover could choose is enumerated", 'The templates at small depths and both compiled instances at 20 levels; that wrong secrets cannot be chosen at all rests on C02-C05 and the hash.')
# ---------------------------------------------------------------- TypeScript library
prop("L01", "Efficient-ECDSA public inputs are derived and checked exactly",
 "For every message hash and signature the library derives T = r^-1 R and U = -r^-1 m G for the point R that the signature's r and recovery value denote, so that s*T + U is the signer's key. Checking public inputs succeeds exactly when all four coordinates are those that r, the recovery value and the message imply.",
 ["inputs"], "keys, messages and nonces over alphabets covering both parities, all recovery values, every single altered field",
 "Tests use one signature.",
 [LB + "helpers/publicInputs.ts"], [("derivation and verification", LB + "helpers/publicInputs.ts")], "lib", ENUM, "Real TypeScript sources, bundled fresh, under node. Third-party packages (elliptic, bn.js, zk-kit, snarkjs, ethereumjs) and the compiled engine are stand-ins, since they are not installed.")
prop("L02", "Serialized public inputs read back unchanged and are fixed-width",
 "Serializing public inputs and reading them back returns the same values for every value in range, including values with leading zero bytes; circuit public inputs serialize to five big-endian 32-byte words in the circuit's order. Different inputs never serialize to the same bytes.",
 ["inputs"], "all fields over an alphabet of widths and leading-zero patterns, all pairs compared",
 "Tests serialize one value, where no field has leading zeros.",
 [LB + "helpers/publicInputs.ts", LB + "helpers/utils.ts"], [("serialize and deserialize", LB + "helpers/publicInputs.ts")], "lib", ENUM, "Real TypeScript sources, bundled fresh, under node. Third-party packages (elliptic, bn.js, zk-kit, snarkjs, ethereumjs) and the compiled engine are stand-ins, since they are not installed.")
prop("L03", "Merkle trees reflect exactly the sequence of insertions and deletions",
 "After any sequence of insertions, and for any leaf, the tree's root equals the root of the same leaves computed directly, the index of a member is its position, and a created proof verifies exactly with the tree's root and leaf and has the form the circuits expect.",
 ["histories"], "all operation sequences up to a length over a small leaf alphabet, all indices, all altered proofs",
 "Tests insert a few leaves once.",
 [LB + "helpers/tree.ts", LB + "helpers/poseidon.ts"], [("tree wrapper", LB + "helpers/tree.ts"), ("hash binding", LB + "helpers/poseidon.ts")], "lib", ENUM, "Real TypeScript sources, bundled fresh, under node. Third-party packages (elliptic, bn.js, zk-kit, snarkjs, ethereumjs) and the compiled engine are stand-ins, since they are not installed.")
prop("L04", "The prover hands over exactly the statement it was asked to prove",
 "For every message, signature and Merkle proof, the membership prover generates its witness from the values derived from them, calls the proof engine with that witness and the serialized circuit public inputs of the chosen circuit, and returns the proof with public inputs that the verifier reconstructs identically.",
 ["inputs", "histories"], "signature and path alphabets, all prover kinds and configurations, all orders of initialization and proving",
 "Tests need network downloads and run one proof per kind.",
 [LB + "core/prover.ts", LB + "helpers/utils.ts", LB + "config/index.ts"], [("witness input assembly", LB + "core/prover.ts")], "lib", ENUM, "Real TypeScript sources, bundled fresh, under node. Third-party packages (elliptic, bn.js, zk-kit, snarkjs, ethereumjs) and the compiled engine are stand-ins, since they are not installed.")
prop("L05", "The verifier accepts only if both the signature data and the proof are valid",
 "The membership verifier returns true exactly when the public input is consistent with its message and signature data and the proof engine accepts the proof for the circuit public input contained in it; in all other cases, including engine failures, it does not return true.",
 ["inputs", "fault_sequences"], "all combinations of valid and altered public input, engine answers (true, false, failure) and initialization histories",
 "Tests verify one good proof.",
 [LB + "core/verifier.ts", LB + "helpers/publicInputs.ts"], [("decision flow", LB + "core/verifier.ts")], "lib", ENUM, "Real TypeScript sources, bundled fresh, under node. Third-party packages (elliptic, bn.js, zk-kit, snarkjs, ethereumjs) and the compiled engine are stand-ins, since they are not installed.")
prop("L06", "The engine binding hands over bytes unchanged and never hides a failure",
 "Every call through the WebAssembly binding delivers exactly the caller's bytes to the engine and exactly the engine's answer to the caller, as an independent copy, even when the engine's memory moves during the call; engine errors and aborts surface as exceptions, every buffer is released once, and nothing answers before initialization. Initialization may be repeated or concurrent. What the engine asks of its surroundings is answered faithfully: randomness comes unaltered from the platform's cryptographic generator (or its absence is reported), and a panic is reported with its message and stack.",
 ["inputs", "histories", "fault_sequences"], "all entry points, outcomes, size classes, subsets of allocation points at which memory moves, call histories up to a length, and kinds of surroundings (web, node, old browser, none, failing)",
 "Tests of the binding need the compiled engine, and memory rarely moves in them.",
 [LB + "wasm/wasm.js", LB + "wasm/index.ts"], [("argument and result passing", LB + "wasm/wasm.js"), ("initialization", LB + "wasm/index.ts")], "lib", ENUM, "Real TypeScript sources, bundled fresh, under node. Third-party packages (elliptic, bn.js, zk-kit, snarkjs, ethereumjs) and the compiled engine are stand-ins, since they are not installed.")
prop("L07", "The library embeds exactly the engine that was built, or its build fails",
 "Embedding the compiled engine in the library reports success only if the source file it leaves makes the library start from exactly the bytes of the engine file, alone in their buffer, whatever the size of the engine and whatever an earlier build left. A missing engine, a full disk, failing reads or a kill at any byte never end in a reported success or in another engine that could be started.",
 ["inputs", "histories", "fault_sequences", "crash_points"], "all small engine sizes and sizes around the powers of two, all histories of builds to a depth, every byte at which the disk is full, reading fails or the process is killed",
 "No test builds the library; the bytes depend on how the runtime allocates the buffer of a file.",
 ["packages/lib/embedWasmBytes.ts", LB + "wasm/index.ts"], [("embedding", "packages/lib/embedWasmBytes.ts")], "lib", "exhaustive enumeration of sizes, faults and crash points under the real program, injected at its system calls, and of histories of runs", "The real program under node, bundled by esbuild instead of run by ts-node; contents are four patterns per size.")
prop("E01", "From signature to verdict, the parts of the system agree",
 "Library, circuits, circuit generator, proof engine and Poseidon hash agree on every value that passes between them: for every member of a group, message, signature and place in the tree, the library's prover returns a proof with either membership circuit, and another copy of the library accepts it from its bytes alone, again and again. It accepts it for no other public input, statement or circuit, and nobody outside the group gets an accepted proof, not even from a witness generator that checks nothing.",
 ["inputs", "histories"], "all signatures of an alphabet with leading zeros in every value that crosses a boundary, all shapes of small groups, every byte of a public input changed, all kinds of outsiders, all histories of proofs, failures and overlapping calls to a depth",
 "The end-to-end tests download one old circuit and prove three fixed statements; no test runs the current circuits, generator and engine together.",
 [LB + "core/prover.ts", LB + "core/verifier.ts", WA + "wasm.rs", CI + "instances/pubkey_membership.circom", CI + "instances/addr_membership.circom", "packages/circuit_reader/src/bin/gen_spartan_inst.rs"], [("what the prover hands over", LB + "core/prover.ts"), ("what the engine takes", WA + "wasm.rs"), ("public wires of the instances", CI + "instances/pubkey_membership.circom")], "e2e", "exhaustive bounded enumeration of statements, alterations and call histories on the real library, circuits, generator and prover together", "Real proofs of the real circuits at full size. circom and snarkjs are not installed: the circuits are compiled and their witnesses computed by the interpreter of mc/circom; the engine is the same Rust code compiled natively, behind the library's own binding.")
