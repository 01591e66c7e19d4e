prop("P01","Field arithmetic is exact modular arithmetic for every operand",
 "For each of the six prime fields, addition, subtraction, negation, doubling, tripling, squaring and multiplication of any two elements return the element whose canonical integer is the exact result modulo the field's prime. Every result is fully reduced, so equal values always have equal representations.",
 ["inputs"],"all pairs of reduced field elements of each of the six concrete fields",
 "Tests use a few hundred boundary operands per field; carries and the final conditional subtraction depend on all 256/384 bits of both operands.",
 FIELDS+["src/field/monty.rs","src/bigint/bigint_arithmetic.rs"],
 [("Montgomery multiplication / squaring","src/field/monty.rs"),("limb add/sub/cmp","src/bigint/bigint_arithmetic.rs"),("per-field operator impls","src/field/*_base.rs, src/field/bls12_377_scalar.rs")],
 ["Add/Sub/Mul/Neg impls and square/double/triple of each field"])
prop("P02","Inversion, division and batch inversion return true inverses",
 "Inverting any nonzero field element yields the element whose product with it is one, inverting zero yields nothing, and dividing is multiplying by that inverse. Batch inversion of any list gives, position by position, exactly what inverting each entry alone gives, with zeros reported as having no inverse.",
 ["inputs"],"all elements, all lists with zeros in any positions",
 "Tests invert a few dozen values; the Euclid loop takes data-dependent branches and batch inversion mixes entries.",
 ["src/bigint/bigint_inverse.rs","src/field/field.rs"]+FIELDS,
 [("binary extended Euclid","src/bigint/bigint_inverse.rs"),("Montgomery's trick","src/field/field.rs batch_multiplicative_inverse(_opt)")],
 ["multiplicative_inverse, batch_multiplicative_inverse, batch_multiplicative_inverse_opt, Div"])
prop("P03","Canonical encodings, ordering and bit lengths agree with the integers",
 "Encoding a field element into 64-bit, 32-bit, 8-bit or boolean limbs gives the little-endian digits of its canonical integer, decoding any such encoding gives the element back, and byte decoding rejects every integer that is not below the modulus. Comparison of elements is comparison of their canonical integers, and the reported bit length is that integer's bit length.",
 ["inputs"],"all elements and all limb/byte strings of the encoded width",
 "Tests round-trip a handful of constants; comparisons and range checks depend on every limb.",
 ["src/field/field.rs","src/bigint/bigint_arithmetic.rs"]+FIELDS,
 [("to_canonical_* / from_canonical_*","src/field/field.rs"),("cmp_helper, num_bits","src/field/field.rs"),("is_valid_canonical_u64","src/field/*")],
 ["to_canonical_*, from_canonical_*, Ord, num_bits, is_valid_canonical_u64, limb cmp/add/sub/mul/div2"])
prop("P04","Field constants, powers, roots and residuosity are mathematically right",
 "Each field's published constants (small integers, minus one, two-adicity, odd part, generator, permutation exponent) have their documented meaning, exponentiation returns the exact power, and the root of unity of any supported order is primitive of that order. A square root, when returned, squares to its argument and is returned exactly for quadratic residues, and the k-th root is the inverse of raising to the k-th power.",
 ["inputs","configurations"],"all field elements, all exponents and all supported subgroup orders",
 "Tests evaluate a few exponents and random squares; the Tonelli-Shanks loop structure depends on the element's position in the two-group.",
 ["src/field/field.rs"]+FIELDS,
 [("exp / kth_root / is_quadratic_residue / square_root / primitive_root_of_unity","src/field/field.rs"),("constants","src/field/*")],
 ["exp, exp_u32, exp_usize, kth_root, kth_root_u32, square_root, is_quadratic_residue, primitive_root_of_unity, cyclic_subgroup_*"])
prop("P05","Curve point operations implement the elliptic-curve group",
 "For any points in affine or projective form (including the identity, equal points, opposite points and any projective scaling), addition, mixed addition, doubling, negation, equality and conversion between representations agree with the chord-and-tangent group law and never leave the curve. Every published generator lies on its curve, and the cube-root endomorphism maps curve points to curve points and respects addition.",
 ["inputs"],"all pairs of points on a short Weierstrass curve, any projective scaling",
 "Tests add a few multiples of the generator; the case split between generic, equal, opposite and identity operands is only sampled.",
 ["src/curve/curve.rs","src/curve/curve_adds.rs","src/curve/tweedledee_curve.rs","src/curve/tweedledum_curve.rs","src/curve/pallas_curve.rs","src/curve/vesta_curve.rs","src/curve/bls12_377_curve.rs"],
 [("addition formulas and case split","src/curve/curve_adds.rs"),("doubling, conversion, equality","src/curve/curve.rs")],
 ["Add impls, double, neg, to_affine, to_projective, batch_to_affine, PartialEq, is_valid, endomorphism"])
prop("P06","Scalar multiplication and multi-scalar multiplication agree with the definition",
 "Multiplying a point by a scalar, with or without precomputed tables, gives the scalar-fold sum of that point; a multi-scalar multiplication, parallel or sequential, for any window size and any list lengths, gives the sum of the individual products. Scalars at the edges (zero, one, minus one, single bits) and identity points are no exception.",
 ["inputs","configurations"],"all scalars, all point lists, all window sizes within the bound",
 "Tests multiply a few constants with one window size; digit decomposition and bucket accumulation depend on every scalar bit.",
 ["src/curve/curve_multiplication.rs","src/curve/curve_msm.rs"],
 [("windowed multiplication","src/curve/curve_multiplication.rs"),("Yao-style MSM with precomputation","src/curve/curve_msm.rs")],
 ["CurveScalar * ProjectivePoint, multiplication_precompute, mul_with_precomputation, msm_precompute, msm_execute, msm_execute_parallel, msm_parallel, to_digits"])
prop("P07","Batched point summation equals adding the points one at a time",
 "Summing any list of affine points, or many such lists at once, by pairwise, batched-inversion or best-strategy methods gives the group sum of each list, whatever mixture of identity, equal and opposite points it contains and whatever its length, including empty.",
 ["inputs","configurations"],"all lists of points up to the stated length, all coincidence patterns",
 "Tests sum two or three fixed lists; the classification of each pair and the shared inversion batch depend on the whole mixture.",
 ["src/curve/curve_summations.rs"],
 [("affine_summation_pairwise / batch inversion / multisummation","src/curve/curve_summations.rs")],
 ["affine_summation_best, affine_summation_pairwise, affine_summation_batch_inversion, affine_multisummation_*"])
prop("P08","FFTs are exact evaluation and interpolation",
 "The forward transform of any coefficient vector gives the polynomial's values at consecutive powers of the primitive root of that order, and the inverse transform undoes it exactly. Zero-padding to a larger domain, with or without precomputation, evaluates the same polynomial there.",
 ["inputs","configurations"],"all coefficient vectors, all power-of-two sizes within the bound",
 "Tests transform one or two concrete vectors of one size.",
 ["src/fft.rs"],
 [("fft_precompute, fft, ifft, coset and power-of-two variants","src/fft.rs")],
 ["fft, fft_with_precomputation, fft_with_precomputation_power_of_2, ifft_*, coset_fft, coset_ifft"])
prop("P09","Polynomial operations obey ring, division and evaluation laws",
 "Sums, differences, products, scalings and negations of polynomials evaluate pointwise as their operands do; division returns a quotient and remainder with dividend = divisor*quotient + remainder and deg(remainder) < deg(divisor), and rejects division by zero; power-series inverses are inverses up to the requested degree. Padding, trimming, degree and equality never depend on leading zero coefficients, and division by the subgroup's vanishing polynomial is exact whenever the dividend vanishes there.",
 ["inputs","configurations"],"all coefficient vectors of the stated lengths, including leading/trailing/interior zeros",
 "Tests use random dense polynomials, so zero patterns and degree mismatches are never reached.",
 ["src/polynomial.rs","src/plonk_util.rs"],
 [("polynomial arithmetic","src/polynomial.rs"),("divide_by_z_h, rev, inv_mod_xn, polynomial_division","src/polynomial.rs")],
 ["Polynomial methods and operator impls; PolynomialCommitment helpers"])
prop("P10","Serialization round-trips and rejects malformed bytes",
 "Writing and reading back any field element, curve point (identity included), opening set or proof yields an equal value and consumes exactly the bytes written; reading rejects field encodings that are not below the modulus and points that are not on the curve. Values that differ never serialize to the same bytes.",
 ["inputs"],"all field elements, all points, all byte strings of the encoded size, all proof shapes within the bound",
 "Tests round-trip a few random values and never feed arbitrary bytes.",
 ["src/serialization.rs","src/plonk_proof.rs","src/conversions.rs"],
 [("ToBytes / FromBytes impls and serde glue","src/serialization.rs")],
 ["ToBytes, FromBytes, serde Serialize/Deserialize for fields, points, Proof, OpeningSet"])
prop("P11","In-circuit gate constraints equal the native gate constraints",
 "For any local, right and below wire values and any gate constants, the constraint values that the recursive verifier circuit computes for every gate, and their selector-filtered sum, equal the values that the native verifier computes.",
 ["inputs"],"all wire values and constants",
 "Tests compare one or two gates at random points; a disagreement in any one term makes every recursive proof reject (or accept the wrong statement).",
 ["src/gates/mod.rs","src/gates/arithmetic.rs","src/gates/base_4_sum.rs","src/gates/buffer.rs","src/gates/constant.rs","src/gates/curve_add.rs","src/gates/curve_dbl.rs","src/gates/curve_endo.rs","src/gates/public_input.rs","src/gates/rescue_a.rs","src/gates/rescue_b.rs"],
 [("evaluate_unfiltered vs evaluate_unfiltered_recursively","src/gates/*.rs"),("evaluate_all_constraints(_recursively)","src/gates/mod.rs")],
 ["Gate::evaluate_*; evaluate_all_constraints; evaluate_all_constraints_recursively"])
prop("P12","Gate witness generation satisfies the gate's own constraints",
 "For every gate, whenever its inputs are known (and satisfy the gate's documented preconditions), the generator fills in output and helper wires with values that satisfy every constraint of that gate and that carry the gate's documented result.",
 ["inputs"],"all input wire values",
 "Tests run one circuit per gate with constant inputs.",
 ["src/gates/arithmetic.rs","src/gates/base_4_sum.rs","src/gates/buffer.rs","src/gates/constant.rs","src/gates/curve_add.rs","src/gates/curve_dbl.rs","src/gates/curve_endo.rs","src/gates/public_input.rs","src/gates/rescue_a.rs","src/gates/rescue_b.rs","src/witness.rs"],
 [("WitnessGenerator impls","src/gates/*.rs")],
 ["WitnessGenerator::generate, dependencies"])
prop("P13","Gate constraints force the documented relation (soundness)",
 "Any wire assignment that satisfies a gate's constraints carries the gate's documented relation: curve addition and doubling gates output the group sum or double, the arithmetic gate outputs the weighted product plus addend, Rescue gates output the next state, the base-4 gate restricts limbs to digits and accumulates them, bit wires are bits. No other output satisfies the constraints for the same inputs, away from documented exceptional inputs.",
 ["inputs"],"all wire assignments",
 "Completeness tests never try a wrong witness; soundness quantifies over all wrong witnesses.",
 ["src/gates/arithmetic.rs","src/gates/base_4_sum.rs","src/gates/buffer.rs","src/gates/constant.rs","src/gates/curve_add.rs","src/gates/curve_dbl.rs","src/gates/curve_endo.rs","src/gates/public_input.rs","src/gates/rescue_a.rs","src/gates/rescue_b.rs"],
 [("evaluate_unfiltered","src/gates/*.rs")],
 ["Gate::evaluate_unfiltered"])
prop("P14","Exactly one gate's constraints are active on each row",
 "For every gate type, setting the row's selector constants to that gate's prefix activates that gate's constraints with a nonzero factor and deactivates every other gate's constraints, so the row is constrained by precisely that gate. No gate reads selector constants as its own parameters, and every filtered constraint stays within the degree that the quotient polynomial is sized for.",
 ["inputs","configurations"],"all gate types, all wire values, all non-selector constants",
 "Tests build circuits with a few gates; overlap between selectors shows only for particular gate pairs and witnesses.",
 ["src/gates/mod.rs","src/gates/*.rs"],
 [("PREFIX and evaluate_prefix_filter","src/gates/mod.rs"),("evaluate_all_constraints","src/gates/mod.rs")],
 ["Gate::evaluate_filtered, evaluate_all_constraints, Gate::PREFIX"])
prop("P15","Copy constraints: routing partitions and permutation polynomials are exact",
 "Two wires are in the same routing cycle of the permutation exactly when a chain of copy constraints connects them, and the permutation is a bijection that moves every wire only within its class. The grand-product argument built from it closes for every witness that respects the copies, and every row's permutation check holds for that product.",
 ["inputs","programs"],"all sequences of copy constraints over a bounded number of wires, all witnesses, all challenges",
 "Tests build a few fixed circuits; the merge order and cycle structure vary with the copy sequence.",
 ["src/partition.rs","src/plonk_util.rs","src/circuit_builder.rs","src/plonk.rs"],
 [("TargetPartitions merge/add, to_gate_wires, WirePartitions::to_sigma","src/partition.rs"),("permutation_polynomial, sigma_polynomials","src/plonk_util.rs")],
 ["WirePartitions::to_sigma, sigma_polynomials, permutation_polynomial"])
prop("P16","Public inputs reach the verifier in declared order and are bound to it",
 "The public-input values extracted from a witness are the values of the declared targets in declared order, for any number of them; the public-input polynomial the verifier rebuilds from that list equals the one interpolated from the witness wires, and changing any one input, adding one, or dropping one changes the verifier's check.",
 ["inputs","configurations"],"all numbers of public inputs within the bound and all values",
 "Tests use one or two fixed counts.",
 ["src/verifier.rs","src/circuit_builder.rs","src/plonk.rs","src/gates/public_input.rs"],
 [("route_public_inputs, stage_public_input","src/circuit_builder.rs"),("public_inputs_to_polynomial","src/verifier.rs"),("get_public_inputs","src/plonk.rs")],
 ["Circuit::get_public_inputs, verify_proof"])
prop("P17","Arithmetic gadgets compute their documented function",
 "Every arithmetic circuit gadget (add, subtract, multiply, divide, invert, negate, double, square, fused multiply-add and multiply-subtract, constant powers, sums and products of many, boolean negation and assertion, selection, zero and equality tests, conditional copies, constants) yields a witness value equal to the native operation on the input values for every input, and the constraints it lays down admit no other output value.",
 ["inputs"],"all input values",
 "Tests run a few gadgets on constants and never check that wrong outputs are rejected.",
 ["src/circuit_builder.rs","src/gates/arithmetic.rs","src/gates/constant.rs"],
 [("CircuitBuilder gadgets","src/circuit_builder.rs")],
 ["CircuitBuilder::{add,sub,mul,div,inv,neg,double,square,exp_constant,select,is_zero,conditional_copy,...}"])
prop("P18","Curve gadgets agree with native curve operations",
 "Curve gadgets (addition, doubling, negation, constants, on-curve assertion, scalar multiplication and multi-scalar multiplication, endomorphism-based multiplication) produce the coordinates the native group operations produce for all non-exceptional inputs, and the constraints they lay down accept no other point.",
 ["inputs"],"all curve points and scalar bits within the bound",
 "Tests evaluate fixed points and scalars.",
 ["src/circuit_curve.rs","src/gates/curve_add.rs","src/gates/curve_dbl.rs","src/gates/curve_endo.rs","src/curve/curve.rs"],
 [("curve gadgets","src/circuit_curve.rs")],
 ["CircuitBuilder::curve_*"])
prop("P19","Integer gadgets on limbs compute exact integer arithmetic",
 "The limb-based integer gadgets (conversion to and from field elements, addition, subtraction, multiplication, comparison, division with remainder, modular operations, digit-order permutation) produce witnesses equal to exact integer arithmetic on the represented integers and constraints that reject any other result.",
 ["inputs"],"all limb values",
 "Existing tests cover a single operand pair; carries depend on all limbs.",
 ["src/circuit_bigint.rs","src/circuit_foreign_field.rs","src/circuit_ordering.rs"],
 [("bigint gadgets","src/circuit_bigint.rs"),("foreign field gadgets","src/circuit_foreign_field.rs"),("ordering","src/circuit_ordering.rs")],
 ["CircuitBuilder::bigint_*, foreign-field gadgets"])
prop("P20","Transcript challenges are the same in and out of circuit and bind all input",
 "For any sequence of observations and challenge requests, the in-circuit transcript yields the same challenges as the native one, and each challenge depends on every element observed before it and on how many challenges were drawn before it. Scalar-field openings are absorbed injectively.",
 ["inputs","histories"],"all interleavings of observe and squeeze operations up to the bound, all observed values",
 "Tests use one fixed sequence.",
 ["src/plonk_challenger.rs","src/rescue.rs"],
 [("Challenger / RecursiveChallenger","src/plonk_challenger.rs")],
 ["Challenger::observe_*, get_challenge(s); RecursiveChallenger"])
prop("P21","Rescue permutation and sponge match their specification and circuit form",
 "The Rescue permutation applied natively equals the specified alternation of inverse-power and power S-boxes, MDS mixing and round constants for any state, its round function is invertible, and the in-circuit permutation produces the same state. The sponge maps distinct-length inputs through the same absorb/squeeze schedule natively and in circuit, for any input and output lengths.",
 ["inputs","configurations"],"all states, all input/output lengths within the bound",
 "Tests hash one fixed input.",
 ["src/rescue.rs","src/mds.rs","src/gates/rescue_a.rs","src/gates/rescue_b.rs","src/circuit_builder.rs"],
 [("rescue_permutation, rescue_sponge","src/rescue.rs"),("MDS matrix","src/mds.rs"),("in-circuit rescue","src/circuit_builder.rs")],
 ["rescue_hash_*, rescue_permutation, CircuitBuilder::rescue_*"])
prop("P22","The polynomial-commitment opening argument is complete and its checks are exact",
 "A commitment is the linear combination of the bases by the coefficients plus blinding; an opening proof produced for any polynomials, points and blinding passes the verifier's check, and the verifier's check is exactly the group equation that ties commitments, claimed evaluations, folding challenges and final response together. The folded basis and evaluation factors computed in logarithmic time equal the fully folded vectors.",
 ["inputs"],"all coefficients, evaluations, challenges and blindings for the bounded vector lengths",
 "Tests run one random instance with fixed sizes.",
 ["src/halo.rs","src/poly_commit.rs","src/plonk_util.rs","src/verifier.rs"],
 [("batch_opening_proof, build_halo_*, verify_ipa","src/halo.rs"),("halo_s, halo_g, halo_n","src/plonk_util.rs"),("commit","src/poly_commit.rs")],
 ["batch_opening_proof, verify_ipa, PolynomialCommitment::*"])
prop("P23","The verifier accepts exactly when every Plonk relation holds",
 "Verification succeeds only if the claimed openings satisfy the quotient identity for gate constraints, permutation and boundary terms at the challenge point, the public-input quotient relation, every commitment opening and every pairing-free group check; if any one is violated it rejects. Proofs whose components are off-curve or have the wrong shape (counts of commitments, openings, folding rounds, public inputs) are rejected without panicking.",
 ["inputs","configurations"],"all opening values, challenges and public inputs, all wrong shapes within the bound",
 "Tests verify honest proofs and never forged openings; soundness quantifies over all forged values.",
 ["src/verifier.rs","src/plonk_proof.rs","src/plonk_util.rs","src/gates/mod.rs"],
 [("verify_proof and checks","src/verifier.rs"),("OpeningSet accessors","src/plonk_proof.rs")],
 ["verify_proof"])
prop("P24","The prover's quotient and wire polynomials satisfy the relations it proves",
 "For any circuit and any witness that satisfies it, the prover's quotient polynomial times the vanishing polynomial equals the challenge-weighted sum of gate, permutation and boundary terms, the openings it reports are the evaluations of the committed polynomials at the challenge points, and the native verifier accepts the proof.",
 ["inputs","programs"],"all witness values of bounded circuits, all challenge values",
 "Tests prove a few fixed witnesses.",
 ["src/plonk.rs","src/plonk_proof.rs","src/plonk_util.rs"],
 [("vanishing_poly, generate_proof","src/plonk.rs"),("open_all_polynomials","src/plonk.rs")],
 ["Circuit::generate_proof, Circuit::vanishing_poly"])
prop("P25","In-circuit verifier computations equal the native verifier's",
 "The building blocks the recursive verifier lays down (linear combinations by powers of a challenge, Lagrange and vanishing-polynomial evaluation, folding-product evaluation, expected quotient value, folding sums of commitments) evaluate, for all inputs, to what the native verifier computes.",
 ["inputs"],"all field inputs, all bounded lengths",
 "No test runs the recursive verifier's arithmetic against the native one.",
 ["src/plonk_recursion.rs","src/plonk_util.rs","src/circuit_builder.rs"],
 [("recursive helpers","src/plonk_recursion.rs"),("*_recursive helpers","src/plonk_util.rs")],
 ["recursive_verification_circuit and its helpers"],
 "guarded wrappers for private helpers")
prop("P26","Witness generation is complete, order-independent and consistent",
 "Running the generators from any set of inputs assigns every derivable target exactly once, propagates values along copy constraints, gives the same assignment whatever order generators become ready in, and fails loudly when two different values reach the same class. The wire table laid out for the prover holds the generated value of every wire.",
 ["inputs","histories","programs"],"all input values, all generator readiness orders of bounded circuits",
 "Tests run one order per circuit.",
 ["src/witness.rs","src/plonk.rs","src/circuit_builder.rs","src/partition.rs"],
 [("generate_partial_witness, generate_witness","src/plonk.rs"),("PartialWitness","src/witness.rs")],
 ["Circuit::generate_partial_witness, Circuit::generate_witness, PartialWitness"])
prop("P27","Lookup argument: tables, grand product and verifier identities are exact",
 "A lookup proof's grand product closes exactly for witnesses whose values all occur in the table (with the sorted concatenation as specified), the prover's quotient satisfies the identity the verifier checks, and the verifier's evaluation formulas equal those of the prover's polynomials at every point. A witness value absent from the table never yields a closing product.",
 ["inputs","configurations"],"all table and witness values of bounded size, all challenges",
 "Tests prove one fixed table.",
 ["plookup/src/plookup.rs","plookup/src/verifier.rs","plookup/src/table.rs","plookup/src/proof.rs","plookup/src/openings.rs"],
 [("prover","plookup/src/plookup.rs"),("verifier","plookup/src/verifier.rs")],
 ["plookup::prove, plookup::verify, table operations"])
prop("P28","Hashing to a curve always lands on the curve and is deterministic",
 "Hashing any seed or field element to a curve yields a valid non-identity curve point, is a function of its input alone, and the sign/root choice it makes is the documented one; pseudorandom derivation of field elements yields in-range values.",
 ["inputs"],"all seeds / field elements",
 "Tests hash a few small seeds.",
 ["src/hash_to_curve.rs","src/pseudorandom.rs"],
 [("hash_base_field_to_curve, blake_hash_*","src/hash_to_curve.rs")],
 ["hash_base_field_to_curve, hash_usize_to_curve, blake_hash_base_field_to_curve"])
