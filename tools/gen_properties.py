#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the jsonl is committed)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","Scalar binary-tower fields are fields and agree with the tower definition",
 "For every scalar field type (canonical tower 1..128 bit, AES tower 8..128 bit, 128-bit POLYVAL field), addition, subtraction, multiplication, squaring, inversion, powers, multiplication by the tower generator and mixed base-field operations return exactly the values of the field's mathematical definition. Every nonzero element has the reported inverse, the inverse-or-zero of zero is zero, and the published multiplicative generator generates the whole group.",
 ["inputs"],"all pairs of elements of every field of at most 8 bits; all elements and all basis-pair products (plus dense boundary values) of the wider fields",
 "tests sample random operands; a wrong table entry, reduction or sub-case is hit by chance only",
 ["crates/field/src/binary_field.rs","crates/field/src/binary_field_arithmetic.rs","crates/field/src/aes_field.rs","crates/field/src/polyval.rs","crates/field/src/field.rs","crates/field/src/arch/portable"],
 [("recursive tower arithmetic","crates/field/src/binary_field_arithmetic.rs"),("AES tower","crates/field/src/aes_field.rs"),("POLYVAL","crates/field/src/polyval.rs")],["Field/BinaryField/TowerField trait methods"])
p("C02","Packed field types act lane by lane exactly like their scalar field",
 "For every packed field type, each arithmetic operation (add, subtract, multiply, square, invert-or-zero, multiply by the tower generator, operations with a scalar) yields in every lane what the scalar operation yields on that lane, and the lane-moving operations (get, set, broadcast, interleave, unzip, spread, iteration, construction from scalars or a function, slice accessors) move exactly the lanes their documentation names. This holds for every width and for each instruction-set flavour the crate compiles to on this machine.",
 ["inputs","configurations"],"every packed type exported by the field crate x every operation x operands enumerating every byte value / every basis element / zero patterns in every lane, for the generic, AVX2+PCLMUL and (if the CPU has it) GFNI/AVX-512 builds",
 "tests draw a few random vectors per type in one CPU flavour; a wrong lane, width or flavour-specific path survives",
 ["crates/field/src/packed.rs","crates/field/src/packed_binary_field.rs","crates/field/src/packed_aes_field.rs","crates/field/src/packed_polyval.rs","crates/field/src/arch"],
 [("PackedField trait","crates/field/src/packed.rs"),("arch back ends","crates/field/src/arch"),("byte-sliced","crates/field/src/arch/portable/byte_sliced")],["PackedField trait methods"])
p("C03","Field isomorphisms and linear maps are exact homomorphisms",
 "Converting between two representations of the same field (canonical tower, AES tower, POLYVAL) and back is the identity and preserves sums and products. A field-level or packed linear transformation built from given column images maps every vector to the linear combination of those columns, lane by lane.",
 ["inputs"],"all elements of 8-bit fields, all basis elements and all basis-pair products of the wider fields, for every pair of isomorphic scalar and packed types",
 "tests compare a few random elements; linearity over the whole space is not covered",
 ["crates/field/src/linear_transformation.rs","crates/field/src/aes_field.rs","crates/field/src/polyval.rs","crates/field/src/transpose.rs"],
 [("FieldLinearTransformation / PackedTransformationFactory","crates/field/src/linear_transformation.rs")])
p("C04","Extension elements and their subfield coordinates are interchangeable views",
 "Viewing an extension element or packed extension vector as its subfield coordinates (and back) is lossless and order preserving, and equals the linear combination over the published extension basis. Byte, bit and small-integer views, subfield detection, and square transposition of extension matrices agree with the same coordinate order for every tower level pair.",
 ["inputs","configurations"],"all (extension, subfield) pairs of the towers, all basis elements / all bytes in every coordinate",
 "tests check a handful of type pairs with random data",
 ["crates/field/src/extension.rs","crates/field/src/packed_extension.rs","crates/field/src/packed_extension_ops.rs","crates/field/src/transpose.rs","crates/field/src/byte_iteration.rs","crates/field/src/tower.rs","crates/field/src/underlier"],
 [("ExtensionField bases","crates/field/src/extension.rs"),("PackedExtension casts","crates/field/src/packed_extension.rs")])
p("C05","The additive NTT evaluates in the novel basis and its inverse undoes it",
 "For every transform size, batch shape, coset and number of skipped rounds accepted, the forward additive NTT maps novel-basis coefficients to the evaluations of that polynomial over the stated coset of the evaluation subspace, and the inverse transform restores the input. All implementations (single- and multi-threaded, precomputed or on-the-fly twiddles, any packing width or extension element type) return the same values and touch nothing outside the transformed data.",
 ["inputs","configurations"],"all shapes (log_x,log_y,log_z), cosets and skip counts up to a size bound, every basis input vector, every packed type and implementation",
 "tests use random data on a few shapes, mostly round trips that cannot see a wrong but invertible transform",
 ["crates/ntt/src/single_threaded.rs","crates/ntt/src/multithreaded.rs","crates/ntt/src/dynamic_dispatch.rs","crates/ntt/src/twiddle.rs","crates/ntt/src/additive_ntt.rs","crates/ntt/src/odd_interpolate.rs"],
 [("forward/inverse transform","crates/ntt/src/single_threaded.rs"),("twiddles","crates/ntt/src/twiddle.rs"),("odd interpolation","crates/ntt/src/odd_interpolate.rs")])
p("C06","Reed-Solomon encoding is systematic evaluation and commutes with FRI folding",
 "Encoding a batch of interleaved messages yields, for each message, the evaluations of its novel-basis polynomial over the whole code domain, for every dimension, rate, batch size and packing width. Folding a codeword with folding challenges equals encoding the message folded with the same challenges as multilinear query.",
 ["inputs","configurations"],"all (dimension, rate, batch, arity, packed type) up to a size bound, all basis messages, challenge alphabet {0,1,generator-like values}",
 "tests use a few fixed configurations with random messages",
 ["crates/core/src/reed_solomon/reed_solomon.rs","crates/ntt/src/fri.rs","crates/core/src/protocols/fri/common.rs"],
 [("encode_ext_batch_inplace","crates/core/src/reed_solomon/reed_solomon.rs"),("fold_chunk/fold_interleaved","crates/ntt/src/fri.rs")])
p("C07","Hash functions are chunking-independent and match their specification",
 "For every message length and every way of splitting the message into updates, the Groestl-256 and Vision Mark-32 digests equal the one-shot digest of a plain implementation of the specification; reset and reuse start from a clean state. The multi-lane, parallel and serialising hash front ends return, per lane, the digest of that lane's message, and 2-to-1 compression equals its definition.",
 ["inputs","histories"],"all lengths up to several blocks, all update splits into up to 3 pieces over boundary lengths, all lane positions",
 "tests check one or two vectors and a few random lengths",
 ["crates/hash/src/groestl","crates/hash/src/vision","crates/hash/src/multi_digest.rs","crates/hash/src/serialization.rs","crates/hash/src/compression.rs","crates/hash/src/sha2.rs"],
 [("digest buffering/padding","crates/hash/src/groestl/digest.rs"),("parallel multi digest","crates/hash/src/multi_digest.rs"),("vision sponge","crates/hash/src/vision/digest.rs")])
p("C08","Merkle commitments open exactly the committed data",
 "For every tree depth, batch size, intermediate layer depth and leaf index, an honest layer or branch opening verifies against the root, in both the slice and the iterator commit path. Any change to the opened values, index, branch, layer or root, or a truncated proof, is rejected with an error (never a panic), and reported proof sizes equal the bytes actually written.",
 ["inputs","configurations","fault_sequences"],"all depths 0..5, batch sizes, layer depths, indices; every single-byte mutation of every opening component; every swapped index",
 "tests verify a few openings and no tampering grid",
 ["crates/core/src/merkle_tree/binary_merkle_tree.rs","crates/core/src/merkle_tree/scheme.rs","crates/core/src/merkle_tree/prover.rs"],
 [("verify_opening/verify_layer/verify_vector","crates/core/src/merkle_tree/scheme.rs"),("branch/layer indexing","crates/core/src/merkle_tree/binary_merkle_tree.rs")])
p("C09","Fiat-Shamir transcripts are deterministic, synchronised and binding",
 "For every sequence of observe, message, decommitment and sample operations, a verifier replaying the proof reads back exactly what was written and draws the same challenges as the prover, and those challenges are those of the documented hash-based challenger. Changing any observed or message byte, or the order or grouping of operations between samples where documented, changes every later challenge, while decommitment bytes do not affect challenges; unread bytes make finalisation fail and short tapes give errors.",
 ["histories","inputs"],"all operation sequences up to a depth over an alphabet of writes (sizes crossing hash block boundaries), samples of every field and bit-width, for both challenger hashes",
 "tests run a few scripted sequences",
 ["crates/core/src/transcript/mod.rs","crates/core/src/fiat_shamir/hasher_challenger.rs","crates/core/src/fiat_shamir/sampling.rs"],
 [("HasherChallenger state machine","crates/core/src/fiat_shamir/hasher_challenger.rs"),("FiatShamirBuf","crates/core/src/transcript/mod.rs")])
p("C10","Serialization round-trips and malformed bytes give errors, not panics",
 "Every serializable public value (integers, strings, containers, fields and packed fields, expressions and circuits, oracles, transparent polynomials, whole constraint systems) deserialises from its own bytes to an equal value, consuming exactly those bytes, in every mode it supports. Deserialising any truncation or any single-byte corruption of such bytes, or any short arbitrary byte string, returns a value or an error and never panics or loops.",
 ["inputs","fault_sequences"],"an enumerated set of values of every serializable type, every truncation, every single-byte corruption over a value alphabet, all byte strings up to length 2",
 "tests round-trip a few values and never feed malformed input",
 ["crates/utils/src/serialization.rs","crates/macros/src","crates/math/src/arith_expr.rs","crates/core/src/constraint_system/mod.rs","crates/core/src/oracle","crates/core/src/transparent/serialization.rs","crates/field/src/binary_field.rs"],
 [("SerializeBytes/DeserializeBytes","crates/utils/src/serialization.rs"),("derive macros","crates/macros/src/lib.rs")])
p("C11","Multilinear evaluation, partial evaluation and folding match the definition",
 "For every number of variables, packing width and (sub)field combination, evaluating a multilinear extension, partially evaluating or folding it from either end or in the middle, zero padding it, and expanding a query into its tensor product give the values of the textbook definition over the Boolean hypercube. The different entry points (generic, adapter-wrapped, subfield-optimised, in-place) agree with each other.",
 ["inputs","configurations"],"all n_vars up to a bound, all split points, all packed type pairs, all hypercube basis polynomials and an alphabet of query points",
 "tests use random data on a few shapes; the many width-specialised paths are sampled",
 ["crates/math/src/multilinear_extension.rs","crates/math/src/fold.rs","crates/math/src/mle_adapters.rs","crates/math/src/multilinear_query.rs","crates/math/src/tensor_prod_eq_ind.rs","crates/math/src/multilinear.rs"],
 [("fold_left/fold_right and specialisations","crates/math/src/fold.rs"),("MLE adapters","crates/math/src/mle_adapters.rs")])
p("C12","Arithmetic expressions and circuits keep their meaning through every transform",
 "For every arithmetic expression, converting to a circuit, optimising, deduplicating, remapping or substituting variables, embedding in a larger field, serialising and compiling for batch evaluation preserve the polynomial function it denotes. Reported degree, variable count, constancy and linear normal form are correct for that function.",
 ["programs","inputs"],"all expressions up to a node bound over variables, constants {0,1,other}, add, mul and pow, evaluated on a full grid of small points and several packing widths/batch lengths",
 "tests check a handful of hand-written expressions",
 ["crates/math/src/arith_expr.rs","crates/fast_compute/src/arith_circuit.rs","crates/compute/src/ops.rs"],
 [("ArithCircuit transforms","crates/math/src/arith_expr.rs"),("ArithCircuitPoly compiler","crates/fast_compute/src/arith_circuit.rs")])
p("C13","Interpolation, subspace, matrix and piecewise-multilinear algebra is exact",
 "Extrapolating, interpolating or evaluating a univariate polynomial from its values over any accepted domain gives the unique low-degree polynomial's values; binary subspaces enumerate distinct points closed under addition in basis order; matrix inversion and multiplication satisfy their equations and report singular input as an error; piecewise-multilinear evaluation equals evaluation of the concatenated polynomial.",
 ["inputs","configurations"],"all domain sizes and all monomials below the size over all small points; all small subspaces; all invertible and singular matrices over small fields up to 3x3; all piece layouts up to a size",
 "tests use a few random polynomials and matrices",
 ["crates/math/src/univariate.rs","crates/math/src/binary_subspace.rs","crates/math/src/matrix.rs","crates/math/src/piecewise_multilinear.rs"],
 [("EvaluationDomain","crates/math/src/univariate.rs"),("Matrix::inverse_into","crates/math/src/matrix.rs"),("BinarySubspace","crates/math/src/binary_subspace.rs")])
p("C14","Transparent polynomials evaluate to the extension of their hypercube table",
 "For every transparent polynomial kind and every valid parameter choice, evaluation at an arbitrary point equals the multilinear extension of the table the polynomial is documented to hold (and of the witness it generates), and the table itself matches its documented definition on every hypercube vertex. Invalid parameters are rejected with an error.",
 ["inputs","configurations"],"all parameters (n_vars, index, block size, shift amount and variant, basis dimensions ...) up to a bound, all hypercube vertices, and a grid of non-Boolean points",
 "tests sample a few parameters per polynomial",
 ["crates/core/src/transparent","crates/core/src/ring_switch/eq_ind.rs","crates/core/src/polynomial/multivariate.rs"],
 [("evaluate vs multilinear_extension","crates/core/src/transparent/*.rs"),("shift indicators","crates/core/src/transparent/shift_ind.rs")])
p("C15","Sumcheck-family proofs: true claims verify, false claims and faults do not",
 "For every batch of sumcheck, zerocheck and eq-indicator claims over small multilinears (any mix of variable counts, degrees, evaluation orders and skipped univariate rounds), the prover's transcript is accepted and the reduced evaluation claims are true. If a claimed sum is wrong, a zero-composition is not zero somewhere, or any prover message is altered, then verification fails or some reduced evaluation claim is false.",
 ["inputs","configurations","fault_sequences"],"all batch shapes up to a bound; every single claim falsified; every single prover message altered under a fixed-coin verifier and under the real challenger",
 "tests run honest provers on a few shapes and almost no dishonest ones",
 ["crates/core/src/protocols/sumcheck","crates/hal/src"],
 [("batch_verify / front_loaded / zerocheck","crates/core/src/protocols/sumcheck"),("round evaluators","crates/hal/src/sumcheck_round_calculation.rs")])
p("C16","Grand-product and exponentiation GKR reductions are complete and sound",
 "For every small witness, the grand-product reduction of the true product and the exponentiation reduction of the true powers (static or dynamic base, any exponent width, mixed sizes in a batch) verify and leave true evaluation claims on the inputs. A wrong product or power, or any altered prover message, is rejected or leaves a false evaluation claim.",
 ["inputs","configurations","fault_sequences"],"all batch shapes up to a bound, exhaustive small exponents, every single-message fault under a fixed-coin verifier",
 "tests are honest random runs",
 ["crates/core/src/protocols/gkr_gpa","crates/core/src/protocols/gkr_exp","crates/core/src/protocols/prodcheck"],
 [("gkr_gpa batch_prove/verify","crates/core/src/protocols/gkr_gpa"),("gkr_exp","crates/core/src/protocols/gkr_exp")])
p("C17","Virtual columns mean what they say and evaluation claims on them reduce soundly",
 "For every kind of virtual polynomial (shifted, packed, projected, zero-padded, repeating, linear combination, composite, transparent, structured) and nesting of them, evaluation claims that are true of the documented virtual polynomial are reduced by prover and verifier to true claims on committed polynomials and accepted. A false claim or an altered reduction message is rejected or leaves a false committed claim.",
 ["programs","inputs","fault_sequences"],"all single and two-level nestings of virtual oracles over small committed columns, with true claims, each claim falsified, and each message altered under fixed coins",
 "tests cover selected chains with random data and honest provers",
 ["crates/core/src/oracle","crates/core/src/protocols/evalcheck","crates/core/src/protocols/greedy_evalcheck","crates/core/src/witness.rs"],
 [("EvalcheckVerifier","crates/core/src/protocols/evalcheck/verify.rs"),("MultilinearOracleSet","crates/core/src/oracle/multilinear.rs")])
p("C18","Polynomial commitment openings are accepted exactly for true evaluations",
 "For any set of committed columns of mixed sizes and tower levels, opening them at any claimed points through ring switching, the batched PIOP and FRI is accepted when every claimed evaluation is true. It is rejected when any claimed value is false, when any message or decommitment is altered, and the FRI layer on its own accepts honest codewords for every parameter choice, returns the true folded message value and rejects altered query openings, layers, commitments and terminal codewords.",
 ["inputs","configurations","fault_sequences"],"all small column layouts, FRI arity sequences, rates and query counts up to a bound; each claim falsified; each message altered under fixed coins",
 "tests run a few honest configurations",
 ["crates/core/src/piop","crates/core/src/ring_switch","crates/core/src/protocols/fri","crates/core/src/tensor_algebra.rs"],
 [("piop::verify","crates/core/src/piop/verify.rs"),("ring_switch::verify","crates/core/src/ring_switch/verify.rs"),("FRIVerifier","crates/core/src/protocols/fri/verify.rs")])
p("C19","Compute layers return the mathematically defined results and agree",
 "Every operation of the compute-layer interface (copies, fill, tensor expansion, left and right folds, inner products, FRI fold, line extrapolation, composite evaluation, pairwise product reduction, kernels with local and chunked buffers, map and join) returns its documented result on the reference CPU layer and on the optimised CPU layer, for every shape and field level accepted. Both layers accept and reject the same shapes, and leave all other device memory unchanged.",
 ["inputs","configurations"],"all shapes and tower levels up to a size bound for each operation, on both layers and several packings, against a direct definition",
 "tests use one or two shapes per operation",
 ["crates/compute/src/layer.rs","crates/compute/src/cpu/layer.rs","crates/fast_compute/src/layer.rs","crates/compute/src/memory.rs","crates/fast_compute/src/memory.rs"],
 [("ComputeLayerExecutor","crates/compute/src/layer.rs"),("FastCpuLayer","crates/fast_compute/src/layer.rs")])
p("C20","Allocators and memory views never alias, leak or address foreign elements",
 "For every history of allocations, sub-scopes, splits, chunkings and sub-slicings of host and device memory, concurrently live slices are disjoint, have exactly the requested length, and reads return the last value written through any view of that element. Exhaustion returns an error and leaves the allocator usable with the remaining capacity reported exactly; strided, 2-D and random-access sequence views address exactly the named element.",
 ["histories","inputs"],"all operation histories up to a depth over small sizes, every element tagged",
 "tests make a couple of allocations",
 ["crates/compute/src/alloc.rs","crates/compute/src/memory.rs","crates/compute/src/cpu/memory.rs","crates/fast_compute/src/memory.rs","crates/utils/src/strided_array.rs","crates/utils/src/array_2d.rs","crates/utils/src/random_access_sequence.rs"],
 [("BumpAllocator","crates/compute/src/alloc.rs"),("PackedMemory","crates/fast_compute/src/memory.rs")])
p("C21","Proofs of satisfied constraint systems verify (completeness)",
 "For every constraint system and witness that satisfies it (zero constraints, non-zero columns, balanced channels with selectors, multiplicities and boundaries, exponentiations, virtual columns; any table sizes including empty and non-power-of-two), proving succeeds and the proof verifies under the same parameters. The proof bytes are the same for every number of worker threads.",
 ["programs","inputs","configurations"],"an enumerated family of constraint-system features x table sizes x rates/packings x thread counts",
 "end-to-end proving is exercised by a few tests and off by default",
 ["crates/core/src/constraint_system/prove.rs","crates/core/src/constraint_system/verify.rs","crates/m3/src/builder"],
 [("prove/verify","crates/core/src/constraint_system")])
p("C22","No proof is accepted for a violated constraint system (soundness)",
 "If the witness violates any zero constraint in any row, has a zero in a non-zero column, leaves any channel unbalanced (wrong value, multiplicity, direction, selector or boundary, including channels used only by boundaries or empty tables), gives a wrong exponentiation result, or uses a table size its declaration forbids, then no proof produced from it verifies. The verifier reaches the same verdict as a direct check of the witness for every witness.",
 ["inputs","programs"],"all witnesses of tiny constraint systems (all bit patterns of the columns), all boundary variations and table-size variations, each verdict compared with a reference semantics",
 "tests prove only valid statements",
 ["crates/core/src/constraint_system/verify.rs","crates/core/src/constraint_system/prove.rs","crates/core/src/constraint_system/channel.rs","crates/core/src/constraint_system/exp.rs"],
 [("verify_channels_balance","crates/core/src/constraint_system/verify.rs"),("zerocheck / prodcheck / exp reductions","crates/core/src/protocols")])
p("C23","A proof is bound to its bytes and statement; altered proofs are rejected cleanly",
 "Changing any byte of an accepted proof, truncating or extending it, or verifying it against different boundaries, another constraint-system digest or another code rate, makes verification return an error. The verifier never panics, overflows or hangs on any such input, and every altered message is caught even by a verifier with fixed coins, so no check relies on Fiat-Shamir divergence alone.",
 ["inputs","fault_sequences"],"every byte position of proofs of several systems, all truncations, all single statement alterations, under the real and a fixed-coin challenger",
 "no test tampers with an end-to-end proof",
 ["crates/core/src/constraint_system/verify.rs","crates/core/src/transcript/mod.rs","crates/core/src/protocols"],
 [("verify","crates/core/src/constraint_system/verify.rs")])
p("C24","Every challenge depends on the statement and all earlier prover messages",
 "While proving and verifying, the constraint-system digest, the boundaries and every prover message are absorbed by the challenger, in order, before any challenge that follows them is drawn; only openings of already committed data are exempt, and they come after the last field challenge. Each protocol step draws its challenges only after the messages they randomise have been absorbed (table sizes and commitment before everything, each round message before its round challenge). Prover and verifier absorb identical byte streams and draw challenges at identical points.",
 ["programs","histories"],"the complete observe/sample event history of proving and verifying for an enumerated family of constraint systems, under a recording challenger",
 "tests cannot see which bytes were absorbed; a message moved to the unobserved tape keeps all tests green",
 ["crates/core/src/constraint_system/prove.rs","crates/core/src/constraint_system/verify.rs","crates/core/src/transcript/mod.rs"],
 [("transcript.message()/observe()/decommitment()","crates/core/src/transcript/mod.rs")])
p("C25","The witness validator accepts exactly the satisfying witnesses",
 "The debugging validator returns success if and only if every zero constraint holds on every row, non-zero columns have no zero, every channel is balanced as a multiset with multiplicities, selectors and boundaries, table sizes obey their declarations and every virtual column equals its definition on every row. It reports violations as errors for any row and any column kind.",
 ["inputs","programs"],"all witnesses of small systems, single-cell corruption of every cell of every column kind, compared with a reference semantics",
 "tests only validate correct witnesses",
 ["crates/core/src/constraint_system/validate.rs","crates/core/src/constraint_system/channel.rs","crates/core/src/protocols/sumcheck/prove/zerocheck.rs"],
 [("validate_witness","crates/core/src/constraint_system/validate.rs")])
p("C26","M3 tables compile to constraint systems with the declared meaning",
 "For every table declaration (committed, shifted, packed, computed, selected, zero-padded, constant, structured, fixed, exponent columns; zero and non-zero assertions; pushes, pulls and reads with selectors and multiplicity; fixed or power-of-two sizes), a correctly filled witness validates and proves, and a witness whose column or channel content deviates from the declared meaning does not. Unfilled derived and constant columns are generated with the declared values.",
 ["programs","inputs"],"an enumerated family of column kinds x shapes x parameters, each with the intended fill and each single-cell deviation",
 "tests exercise selected column kinds with correct data",
 ["crates/m3/src/builder/table.rs","crates/m3/src/builder/constraint_system.rs","crates/m3/src/builder/witness.rs","crates/m3/src/builder/structured.rs","crates/m3/src/builder/expr.rs"],
 [("compile","crates/m3/src/builder/constraint_system.rs"),("TableWitnessIndex","crates/m3/src/builder/witness.rs")])
p("C27","Filling a table is independent of segmentation and parallelism",
 "Filling a table's witness sequentially or in parallel, whole or in segments of any allowed size, for any number of rows, gives the same rows and the same error behaviour, with every event presented exactly once and in order apart from repetitions of the last one as padding; padding rows repeat rows of the table. Typed, scalar, packed and dynamic column views read and write exactly the named rows of the named column.",
 ["configurations","schedules","histories"],"all row counts up to a bound x all segment sizes x sequential/parallel x column shapes",
 "tests fill a few tables in one way",
 ["crates/m3/src/builder/witness.rs"],
 [("fill_sequential/fill_parallel, segments","crates/m3/src/builder/witness.rs")])
p("C28","Arithmetic gadgets compute integer arithmetic and admit no wrong result",
 "The addition, subtraction, increment, multiplication, division, and shifting gadgets fill their output columns with the exact integer result (with carries, borrows, flags and remainders as documented) for every operand pair, and the filled table validates. Changing any gadget output bit makes the constraints fail.",
 ["inputs","configurations"],"operand alphabets covering all carry/borrow chains and boundary values in every position for each width, flag and shift variant; every single output-bit flip",
 "tests use random operands and never check that wrong outputs are rejected",
 ["crates/m3/src/gadgets/add.rs","crates/m3/src/gadgets/sub.rs","crates/m3/src/gadgets/mul.rs","crates/m3/src/gadgets/div.rs","crates/m3/src/gadgets/barrel_shifter.rs","crates/m3/src/gadgets/indexed_lookup/incr.rs"],
 [("gadget constraints and populate","crates/m3/src/gadgets")])
p("C29","Hash gadgets match their hash functions and admit no wrong digest",
 "The Keccak-f, Groestl permutation and SHA-256 compression gadgets produce, for every input state, the output of the reference function, and the filled table validates. Altering any output or intermediate cell makes the constraints fail.",
 ["inputs"],"all single-bit and boundary input states, every output-bit flip, row counts crossing packing boundaries",
 "tests use a few random states and never check rejection",
 ["crates/m3/src/gadgets/hash"],
 [("Keccakf, Permutation, Sha256","crates/m3/src/gadgets/hash")])
p("C30","Lookups and channels balance exactly when the multisets agree",
 "A lookup into a table is accepted exactly when every looked-up value occurs in the table and the claimed multiplicities equal the number of lookups, for plain, counted and indexed lookups and for the Merkle-tree verification tables. The channel emulator reports balance exactly when pushes and pulls agree as multisets.",
 ["inputs","histories"],"all push/pull histories up to a depth over a small value alphabet; all lookup multisets up to a size; every single multiplicity or value corruption",
 "tests run one valid trace each",
 ["crates/m3/src/gadgets/lookup.rs","crates/m3/src/gadgets/indexed_lookup","crates/m3/src/builder/indexed_lookup.rs","crates/m3/src/emulate.rs","crates/m3/src/gadgets/merkle_tree"],
 [("LookupProducer","crates/m3/src/gadgets/lookup.rs"),("Channel","crates/m3/src/emulate.rs")])
p("C31","Parallel execution and the sequential fallback give identical results",
 "Every parallel iterator, slice and join operation used by the library yields the same result in the rayon build, in the sequential fallback build and for every number of threads and order in which parallel pieces run. In particular proofs, transforms, hashes and witnesses do not depend on scheduling.",
 ["schedules","configurations"],"all adaptor chains of the sequential layer up to a depth over small inputs compared with the model; library computations under every thread count and every explored order of parallel pieces",
 "tests run one schedule in the rayon build only",
 ["crates/maybe_rayon/src","crates/utils/src/rayon.rs"],
 [("sequential fallback iterators","crates/maybe_rayon/src/iter"),("rayon re-export","crates/maybe_rayon/src/lib.rs")])
p("C32","Utility collections and arithmetic helpers meet their contracts",
 "Sparse indices, connected-component labelling, stable sort/unsort, skippable iterators, checked integer logarithms and divisions, and uninitialised-memory helpers behave as their sequential reference models for every input and operation history, rejecting invalid input exactly where documented.",
 ["inputs","histories"],"all operation histories and inputs up to a small size against reference models",
 "tests check examples",
 ["crates/utils/src"],
 [("graph, sorting, sparse_index, iter, checked_arithmetics, mem","crates/utils/src")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
