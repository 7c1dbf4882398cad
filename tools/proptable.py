"""Which units (contracts/*.v) and harness builds decide each property."""
STD = ["machine integers: usize is 64 bits (global size_of usize == 8)",
       "debug_assertions on: every debug_assert! is an obligation",
       "SIMD dispatch (pulp Arch::dispatch) runs its closure exactly once"]
NOT_APPLICABLE = {}
PROPS = {
    "C01": dict(units=["zqs", "zqnew"], level="proof",
                note="Proof for every modulus and operand of all 36 scalar functions of zq/mod.rs and supports_opt; assumes an exact primality test, Fermat's little theorem and exact BigUint arithmetic.",
                assumptions=STD + ["num_bigint_dig probably_prime is exact on 64-bit integers", "Fermat's little theorem (used only by Modulus::inv)",
                                   "num_bigint::BigUint arithmetic is exact"]),
    "C22": dict(units=["numth", "primes"], level="proof",
                note="Proof for every bit length, modulus >= 2 and bound of generate_prime, and of is_prime and inverse over the assumed contracts of num_bigint_dig (Baillie-PSW, ModInverse), which are bounded-checked by the harness.",
                assumptions=STD + ["num_bigint_dig probably_prime(x, 0) is exact below 2^64", "num_bigint_dig ModInverse is exact for moduli >= 2"],
                bounded=[{"fn": "num_bigint_dig::probably_prime, ModInverse", "why": "dependency code: compared with an independent Miller-Rabin / Euclid on boundary-directed inputs"}]),
    "C02": dict(units=["zqv"], level="proof",
                note="Proof for every vector length of all 21 vector functions of zq/mod.rs over the scalar contracts (proved by C01); random_vec is bounded only.", assumptions=STD + ["Modulus::random_vec (rand's uniform sampler) is outside Verus: bounded"]),
    "C03": dict(units=["tcode", "zqser"], level="proof",
                note="Proof for every input, width and length of the three transcode functions and the modulus serialisation; the round trip and re-packing lemmas are derived from their contracts.",
                assumptions=STD + ["usize::div_ceil and u64::leading_zeros behave as documented", "vectors are shorter than 2^57 words (no usize overflow of the bit count)"]),
    "C04": dict(units=["modk", "nttm", "ntt", "nttnew"], level="proof", builds=[(), ("tfhe",)], budget=15,
                note="Proof for every supported prime, power-of-two size and input of the native operator: tables, forward = evaluation at the odd powers of one root, backward its inverse, bounds of the lazy form; the tfhe-ntt back end is bounded.",
                assumptions=STD + ["Fermat's little theorem", "one of the 100 seeded draws of primitive_root is a generator (otherwise the code panics)",
                                   "forward_vt/backward_vt receive a pointer to a full row of the operator's size (their documented safety condition)"],
                bounded=[{"fn": "ntt::tfhe::NttOperator (dependency tfhe-ntt)", "why": "external SIMD crate: compared with evaluation at the roots and the native properties"}]),
    "C05": dict(units=["rns"], level="proof", budget=15,
                note="Proof for every list of accepted moduli and every integer of RnsContext::new, modulus, project, lift and get_garner: CRT uniqueness, the Garner coefficients, and that lift and project are mutually inverse are lemmas over their contracts.",
                assumptions=STD + ["num_bigint/num_bigint_dig BigUint arithmetic, ExtendedGcd and ModInverse are exact", "Modulus::new accepts exactly [2, 2^62) (proved by C01)"]),
    "C06": dict(units=["rnsscale", "scl"], level="proof", budget=20,
                note="Proof for every pair of bases, factor, residues and starting index of ScalingFactor::new, RnsScaler::{new, scale, extract_projection_and_theta}: the output residues are those of one integer y with |y - x num/den| at most 1/2 + 2^-52 for the centered x with the given residues (at most 1024 source moduli). Scaler::{new, scale}, Poly::{scale, switch} and Switcher::{new, switch} apply it to every coefficient, in coefficient and NTT form.",
                assumptions=STD + ["at most 1024 source moduli", "ethnum's U256 and num_bigint arithmetic are exact", "u128::next_power_of_two, ilog2 and div_ceil behave as documented", "cloning a boxed slice copies it",
                                   "ndarray matrices behave as vectors of rows", "contexts with equal moduli and degree have equal tables (construction is deterministic)"]),
    "C10": dict(units=["dotp"], level="proof", budget=20,
                note="Proof for every number of terms, moduli and values of rq::dot_product and its fma: no 128-bit accumulator overflows, the result is the sum of the products the operators compute, it may be processed in variable time only if every operand may, and empty, unequal or mismatched inputs (and only these) are errors. dot_product_scalar on ciphertexts is bounded.",
                assumptions=STD + ["ndarray matrices behave as vectors of rows; as_slice and as_mut_ptr view all entries row after row", "the iterators yield the same finite list every time", "contexts with equal moduli and degree have equal tables", "a polynomial has at most 2^56 coefficients (it fits in memory)"],
                bounded=[{"fn": "bfv::dot_product_scalar and its fma", "why": "compared with the sum of products, at the accumulator's limit and beyond it, on the real code"}]),
    "C11": dict(units=["cbd"], level="proof",
                note="Proof for every length, variance and random stream of sample_vec_cbd: each sample is the weight difference of two disjoint blocks of 2*variance fresh bits; Poly::small and the key errors are bounded.",
                assumptions=STD + ["the caller's generator returns one word per next_u64", "u128::count_ones is the Hamming weight"],
                bounded=[{"fn": "rq::Poly::small, SecretKey/PublicKey encryption errors", "why": "checked on sampled keys and contexts"}]),
    "C07": dict(units=["ctx", "poly", "polyops", "ringmul", "conv"], level="proof", budget=20,
                note="Proof for every context and polynomial of Context::new and its chain, the representation changes, the operators of rq/ops.rs and the conversions from and to integer vectors and matrices; that products, sums and round trips in NTT form are those of Z_Q[X]/(X^n+1) are theorems over these contracts.",
                assumptions=STD + ["ndarray matrices behave as vectors of rows", "contexts with equal moduli and degree have equal tables (construction is deterministic)",
                                   "num_bigint::BigUint arithmetic is exact", "the contracts of the NTT, RNS and vector functions (proved by C02, C04, C05)"],
                bounded=[{"fn": "rq::convert for fixed-size arrays, DotProd", "why": "checked on directed inputs"}]),
    "C13": dict(units=["zqser", "conv", "rqproto"], level="proof", budget=20,
                note="Proof for every polynomial: its Rq message parses back to an equal polynomial (representation, rows, flag, with the rebuilt Shoup rows) over the contracts of the modulus serialisation and conversions. The message containers of the fhe crate are bounded.",
                assumptions=STD + ["prost encodes and decodes each generated message exactly", "ndarray matrices behave as vectors of rows",
                                   "contexts with equal moduli and degree have equal tables (construction is deterministic)"],
                bounded=[{"fn": "protobuf conversions of ciphertexts, keys and parameters (fhe crate)", "why": "round trips and byte images checked on sampled objects"}]),
    "C12": dict(units=["zqser", "conv", "rqproto"], level="proof", budget=20,
                note="Proof for every message: parsing an Rq message is total, and what it returns is a well-formed polynomial of the context with canonical residues (a message of the wrong degree, size, representation or with residues out of range is an error). Parsing of the fhe crate's messages is bounded.",
                assumptions=STD + ["prost decoding returns a message or an error", "ndarray matrices behave as vectors of rows"],
                bounded=[{"fn": "protobuf conversions of ciphertexts, keys and parameters (fhe crate)", "why": "mutated, truncated and hostile messages"}]),
    "C21": dict(units=["params"], level="proof", budget=20,
                note="Proof for every input of PlaintextModulus (accepted values, cached form, operator, reductions) and of the builder's validation and prime generation: accepted exactly when the degree, variance, and moduli meet the conditions, generated moduli are distinct primes of the requested sizes. build()'s derived tables are bounded.",
                assumptions=STD + ["num_bigint::BigUint arithmetic is exact", "an exact primality test and Fermat's little theorem (C22)"],
                bounded=[{"fn": "BfvParametersBuilder::build (derived tables)", "why": "every table recomputed on directed parameters"}]),
    "C15": dict(units=["rqsamp", "phase", "ctsw", "skenc", "linop", "swenc"], level="proof", budget=25,
                note="Proof for every parameter set, level, key, plaintext and random stream of SecretKey::{random, encrypt, decrypt}, PublicKey::{new, try_encrypt}: what encryption returns is an encryption of the plaintext with an explicit noise bound, decryption returns exactly the plaintext while the noise is below the decoder's threshold, and every linear operator of bfv/ops (C19's contracts) adds, subtracts, negates or multiplies the plaintexts with an explicit noise bound. Level switching keeps the plaintext with an explicit noise bound. Public keys switched to lower levels are bounded.",
                assumptions=STD + ["num_bigint arithmetic is exact", "the parameters' derived tables are as C21 states (checked by its bounded part)", "Plaintext::to_poly is a function of the plaintext (what it returns is proved by C14)",
                                   "the contract of Poly::scale (proved by C06), of the samplers (C11) and of the polynomial operators (C07)", "unwrap of encryption under the key's own parameters aborts rather than continues if it fails",
                                   "contexts with equal moduli and degree have equal tables"],
                bounded=[{"fn": "encryption at a level below the public key, whole-chain decryption", "why": "decrypted on the real code at every level of directed parameters"}]),
    "C18": dict(units=["polyref", "linop", "mbfv"], level="proof", budget=25,
                note="Proof for every number and order of shares, key, level and random stream of the public key, key switching and decryption protocols: the aggregated public key is one of the summed key with the summed noise, the aggregated ciphertext encrypts the same plaintext under the sum of the output keys, the aggregated decryption is exactly the plaintext while the noise is below the threshold, no shares is an error, and shares of different contexts are refused (the polynomial operators' debug assertions). Public key switching and relinearisation key generation are bounded.",
                assumptions=STD + ["num_bigint arithmetic is exact", "the parameters' derived tables are as C21 states (checked by its bounded part)", "iterators of shares yield a finite list", "CommonRandomPoly, and Poly's cached forms, as C07 states",
                                   "the contract of Poly::scale (proved by C06), of the samplers (C11) and of the polynomial operators (C07)", "contexts with equal moduli and degree have equal tables"],
                bounded=[{"fn": "PublicKeySwitchShare, RelinKeyGenerator and their aggregation", "why": "protocol run on the real code with several parties, orders and levels, decrypted under the summed key"}]),
    "C17": dict(units=["ksk", "kskgen", "kskid", "swn", "galois", "galm", "galk", "relin"], level="proof", budget=30,
                note="Proof for every key, digit base, level and polynomial of KeySwitchingKey's generation, expansion and use (RNS and base-2^w decomposition): a key-switched pair decrypts to x f plus an error with an explicit bound; the substitution behind a rotation is the automorphism X -> X^e (C09's contracts). GaloisKey::{new, relinearize} and RelinearizationKey::{new, relinearizes} are under contract with what their result encrypts and its noise. Evaluation keys and RGSW are bounded.",
                assumptions=STD + ["num_bigint arithmetic is exact", "the parameters' derived tables are as C21 states (checked by its bounded part)", "ndarray matrices behave as vectors of rows",
                                   "the contracts of the samplers (C11) and of the polynomial operators (C07)", "contexts with equal moduli and degree have equal tables", "usize::ilog2 and next_power_of_two behave as documented"],
                bounded=[{"fn": "EvaluationKey (inner sums, expansion), RGSWCiphertext, leveled Galois and relinearisation keys of several parts", "why": "every rotation, size and level pair of directed parameters on the real code, decrypted"}]),
    "C16": dict(units=["relin", "mulm", "muln", "swenc", "mulct"], level="proof", budget=25,
                note="Proof for every parameter set, level, key and two-part ciphertexts of Multiplicator::multiply (with and without relinearisation and modulus switching) and of relinearisation: the result encrypts the product of the plaintexts in Z_t[X]/(X^n+1) with an explicit noise bound, whenever the extended basis has room for the tensor product. The operator form and the built constants are bounded.",
                assumptions=STD + ["num_bigint arithmetic is exact", "ndarray matrices behave as vectors of rows", "the contract of Poly::scale (proved by C06) and of the polynomial operators (C07)",
                                   "a Multiplicator's scalers go from the level's modulus to the multiplication basis and back (its wf; the constructors are bounded)", "contexts with equal moduli and degree have equal tables"],
                bounded=[{"fn": "Mul for Ciphertext (any number of parts), Multiplicator::{default,new,new_leveled}, the built multiplication constants", "why": "products decrypted on the real code at every level of directed parameters, compared with the exact tensor product"}]),
    "C09": dict(units=["brev", "polysub", "galois"], level="proof", budget=20,
                note="Proof for every context, exponent and polynomial of SubstitutionExponent::new, substitute (all representations) and multiply_inverse_power_of_x; that the NTT form agrees with the coefficient form, is the automorphism X -> X^e, and that exponents multiply modulo 2n are theorems over these contracts.",
                assumptions=STD + ["ndarray matrices behave as vectors of rows", "degree at most 2^30 (a larger one cannot be allocated at two moduli; power sums then stay below 2^64)",
                                   "the contracts of the NTT tables and scalar functions (C01, C04, C07)"]),
    "C14": dict(units=["conv", "params", "ptenc"], level="proof", budget=20,
                note="Proof for every value list, encoding, level (modulus above t) and value type: the plaintext built is the encoding of the values modulo t, zero padded (SIMD through the slot permutation and the inverse transform), decoding recovers exactly that list, centered for i64, and too many values, an unavailable or mismatched encoding and values outside the type are refused. Also the scaling of a plaintext to floor(Q m / t).",
                assumptions=STD + ["num_bigint arithmetic is exact", "the parameters' derived tables (slot permutation, scaling constants, transform modulo t) are as C21 states (checked by its bounded part)",
                                   "try_encode_with's generic closure parameter is given as Fn; the array and Vec encoders forward to the slice encoders", "contexts with equal moduli and degree have equal tables"],
                bounded=[{"fn": "array and Vec encoders, default parameters' tables", "why": "round trips on the real code, all types, encodings and levels"}]),
    "C20": dict(units=["poly", "polyops", "conv", "polysub", "polysw", "scl", "ctops"], level="proof", budget=20,
                note="Every contract of poly and polyops fixes the variable-time flag of the result for all inputs: constructors give none, operators the conjunction, representation changes, substitution, modulus switching and scaling keep it, conversions set what they are given, disallow clears it; linear ciphertext operators over these. Products and keys are bounded.",
                assumptions=STD + ["ndarray matrices behave as vectors of rows"],
                bounded=[{"fn": "ciphertext products, keys, parsing", "why": "flag checked on directed inputs"}]),
    "C19": dict(units=["par", "ct", "pt0", "ctops"], level="proof", budget=20,
                note="Proof for every operand of the ciphertext constructors, validators, level lookups and all addition, subtraction and plaintext operators of bfv/ops/mod.rs: each returns only for compatible operands, refuses only incompatible ones, and the result is the exact part-wise polynomial. Keys, RGSW and multiplication are bounded.",
                assumptions=STD + ["Arc::ptr_eq implies equal values; that distinct parameter objects are refused is not modelled beyond that", "the exact results of the polynomial operators (proved by C07)",
                                   "Plaintext::to_poly is a function of the plaintext (what it returns is proved by C14)"],
                bounded=[{"fn": "keys, multiplicator, RGSW, dot products, polynomials of different contexts", "why": "checked on pairs of mismatched and matched operands"}]),
    "C08": dict(units=["ctx", "par", "polysw", "sem", "ctsw", "scl"], level="proof", budget=20,
                note="Proof for every context, level and coefficient: switch_down returns floor((x + q/2)/q) of any integer x with the given residues, switch_down_to and Ciphertext::switch_to_level are its iteration, and each succeeds exactly when the target is on the modulus chain; niterations_to and context_at_level are exact. Switcher's result is the coefficientwise rounding of x q'/q (over C06's scaler).",
                assumptions=STD + ["ndarray matrices behave as vectors of rows", "contexts with equal moduli and degree have equal tables (construction is deterministic)",
                                   "parameters are built by BfvParametersBuilder (C21): level l has all but the last l moduli", "the contracts of the scalar, NTT and representation functions (C01, C04, C07)", "at most 1024 moduli (Switcher)"]),
}
