"""What each property's check encodes and what lies outside it (for the evidence files and DESIGN.md)."""
FUNCS = {
 "P01": ["field/monty.rs: add, sub, mul, square, neg, double, triple over the six field types"],
 "P02": ["Field::batch_multiplicative_inverse(_opt)", "Field::multiplicative_inverse", "Div for Field"],
 "P03": ["Field::to_canonical_*", "Field::from_canonical_*", "Field::is_valid_canonical_u64", "Field::num_bits", "cmp, eq, is_zero, is_one", "bigint comparisons"],
 "P04": ["Field::exp*, kth_root*, square_root, is_quadratic_residue, primitive_root_of_unity, cyclic_subgroup_*", "field constants"],
 "P05": ["curve_adds.rs", "AffinePoint / ProjectivePoint methods in curve.rs (double, neg, eq, is_valid, to_affine, batch_to_affine, endomorphism, is_safe_curve)"],
 "P06": ["curve_multiplication.rs: mul_precompute, mul_with_precomputation, Mul", "curve_msm.rs: msm_precompute, msm_execute, msm_execute_parallel, msm_parallel, to_digits", "Field::scale_proj_point_slice"],
 "P07": ["curve_summations.rs: all summation strategies"],
 "P08": ["fft.rs: fft, ifft, precomputation, padding", "Polynomial::eval_domain, from_evaluations"],
 "P09": ["polynomial.rs: every operation"],
 "P10": ["serialization.rs: ToBytes, FromBytes of the six fields (compiled code) and of AffinePoint (generic code)", "derived serde of OpeningSet, SchnorrProof, Proof, VerificationKey"],
 "P11": ["Gate::evaluate_unfiltered / _recursively of every gate", "gates/mod.rs: evaluate_all_constraints(_recursively)"],
 "P12": ["WitnessGenerator::generate of every gate"],
 "P13": ["Gate::evaluate_unfiltered of every gate"],
 "P14": ["Gate::evaluate_filtered, PREFIX", "CircuitBuilder::add_gate"],
 "P15": ["partition.rs", "CircuitBuilder::build (permutation)", "sigma_polynomials, permutation_polynomial"],
 "P16": ["CircuitBuilder::add_public_input(s), route_public_inputs", "PublicInputGate, BufferGate", "PartialWitness::replace_public_inputs, copy_buffer_to_pi_gate", "Circuit::get_public_inputs", "verifier public_inputs_to_polynomial (through Circuit/verify)"],
 "P17": ["circuit_builder.rs arithmetic gadgets and their generators"],
 "P20": ["plonk_challenger.rs: Challenger, RecursiveChallenger (through a guarded hook)"],
 "P21": ["rescue.rs, mds.rs", "CircuitBuilder::rescue_*"],
 "P22": ["poly_commit.rs", "halo.rs: batch_opening_proof, verify_ipa", "plonk_util.rs: halo_n, halo_n_mul, halo_s, halo_g, pedersen_hash"],
 "P23": ["verifier.rs: verify_proof and everything it calls", "plonk_proof.rs: Proof::get_challenges, OpeningSet", "halo.rs: verify_ipa", "plonk_util.rs: eval_zero_poly, eval_l_1, reduce_with_powers, halo_s, halo_g, pedersen_hash", "evaluate_all_constraints (whose own meaning is P11-P16)"],
 "P24": ["plonk.rs: Circuit::generate_proof(_unchecked), vanishing_poly, open_all_polynomials, to_vk, generate_witness", "CircuitBuilder::build", "poly_commit.rs, halo.rs: batch_opening_proof", "verify_proof on the result"],
 "P25": ["plonk_recursion.rs: recursive_verification_circuit and its helpers"],
 "P27": ["plookup.rs: prove, eval_l_i and everything it calls (padding, sorting, grand product, vanishing polynomial)", "verifier.rs: verify", "proof.rs: get_challenges", "openings.rs", "table.rs: every constructor, to_vec, prove_row, prove_column, verify"],
 "P28": ["hash_to_curve.rs: every function", "rescue_sponge (through it)"],
 "P26": ["Circuit::generate_partial_witness, generate_witness, generate_copies", "Witness::from_partial"],
}
OUTSIDE = {
 "P06": "points are symbolic only where the computation's degree in t stays in reach; elsewhere they are fixed points and the scalar bits are symbolic choices; full-width scalars only at the listed edges; curves are the cusp model",
}
OUTSIDE["P01"] = "inversion (its loop count depends on the operand), exponentiation (P04)"
OUTSIDE["P03"] = "conversions through BigUint (num's heap integers), from_canonical_bool and _usize wrappers, random sampling"
OUTSIDE["P10"] = "other proof shapes; the optional precomputations inside a verification key; serde formats other than CBOR; which of a concrete field's two roots square_root returns (P04); the four-line serde glue of the concrete fields"
OUTSIDE["P23"] = "one group of components symbolic at a time, the rest fixed pseudo-random constants; sizes 2 to 16; the hash is an abstract fixed function (challenges are constants of the scenario), so statements about the joint distribution of challenges are outside"
OUTSIDE["P24"] = "circuits of 8 to 16 gates with one unknown input each; challenges fixed; zero tests the solver cannot settle are taken as nonzero (generic), exceptional inputs on which e.g. a permutation denominator vanishes are outside"
OUTSIDE["P27"] = "tables of 1 to 8 values, up to 7 witness values, one unknown table value beyond size 2; challenges fixed; that the closing product implies inclusion for random challenges is the protocol's own theorem and not decided here (the code's part, that the verifier checks exactly the specified relation, is)"
OUTSIDE["P28"] = "more misses and rejections than listed; that the concrete fields' square roots and range checks are right (P03, P04); rand() of the concrete fields"
GENERAL = ["field values: all residues modulo the instance's prime (symbolic)", "one case per feasible combination of equality tests the code performs (path exploration, complete unless marked truncated)"]
