import json
M="crates/fhe-math/src/"; F="crates/fhe/src/"
P=[]
def prop(id,title,st,over,qt,why,files,mech,observe=None,state=None):
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)
prop("C01","Scalar modular arithmetic is exact for every modulus",
 "For every accepted modulus p (2 <= p < 2^62) and all operands in the documented range, scalar addition, subtraction, negation, multiplication (plain, optimised, Shoup), exponentiation, inversion, reduction of any 64-bit, 128-bit or signed integer and centering return exactly the mathematical residue; the lazy forms return a value below 2p congruent to it. The constant-time and variable-time forms of an operation agree, no intermediate value overflows, and moduli outside the range are rejected.",
 ["inputs","configurations"],"all p in [2,2^62), all residues, all u64/u128/i64 inputs",
 "Unit tests sample a handful of moduli with random operands; Barrett/Shoup errors only show for rare (modulus, operand) pairs near the top of a range.",
 [M+"zq/mod.rs",M+"zq/primes.rs"],
 [("Barrett reduction with a 128-bit reciprocal",M+"zq/mod.rs lazy_reduce_u128/lazy_reduce"),("optimised reduction for primes close to a power of two",M+"zq/mod.rs lazy_reduce_opt*; primes.rs supports_opt"),("Shoup multiplication",M+"zq/mod.rs lazy_mul_shoup"),("conditional subtraction",M+"zq/mod.rs reduce1, reduce1_vt")],
 ["return values of the Modulus methods"])
prop("C02","Vector modular operations act element by element, at every length",
 "Every vector operation on residues (add, sub, negate, multiply, scalar multiply, Shoup multiply, reduce, lazy reduce, center, signed reduce, in place or returning a new vector) produces at each index exactly the scalar result for that index, for every vector length including zero and lengths that are not a multiple of the SIMD chunk. The variable-time forms return the same values as the constant-time forms, and the second operand is never changed.",
 ["inputs","configurations"],"all lengths, all residue vectors, all moduli",
 "Tests use a few fixed sizes and random data; a wrong lane or tail element needs a specific length or index.",
 [M+"zq/mod.rs"],[("element loops and 16-lane chunk loops with remainder",M+"zq/mod.rs *_vec, *_vec_vt")],["vectors passed to and returned by the Modulus methods"])
prop("C03","Bit packing of integers is lossless and canonical",
 "Packing a sequence of integers of at most n bits (1 <= n <= 64) into bytes and unpacking with the same n returns the sequence (followed only by zero padding), the packed length is exactly ceil(count*n/8), and the byte string is the little-endian concatenation of the n-bit values. Re-packing directly between two widths yields the same bit stream, and no call panics on in-range inputs; the vector serialisation of a modulus uses exactly the bit length of p-1.",
 ["inputs"],"all sequences, all widths 1..=64 (pairs of widths for re-packing)",
 "Tests draw random widths and lengths; the carry logic between the accumulator and the output depends on every (length mod 8, width) combination.",
 ["crates/fhe-util/src/lib.rs",M+"zq/mod.rs"],[("128-bit accumulator loops","crates/fhe-util/src/lib.rs transcode_to_bytes/transcode_from_bytes/transcode_bidirectional"),("width of a modulus",M+"zq/mod.rs serialization_length/serialize_vec/deserialize_vec")])
prop("C04","The NTT is an exact invertible negacyclic transform",
 "For every supported prime and power-of-two size, the forward transform of any residue vector is its evaluation at the odd powers of one fixed primitive 2n-th root (so pointwise products are products modulo X^n+1), the backward transform is its exact inverse, and both return canonical residues. Constant-time, variable-time and lazy variants agree (the lazy one up to multiples of p, below 4p), and no intermediate overflows.",
 ["inputs","configurations"],"all supported (prime, size) pairs, all residue vectors",
 "Tests check round trips of random vectors at two sizes; lazy-reduction bounds and twiddle indexing can fail only at particular values, layers or sizes.",
 [M+"ntt/native.rs",M+"ntt/mod.rs",M+"ntt/tfhe.rs"],[("Harvey lazy butterflies",M+"ntt/native.rs butterfly/inv_butterfly/reduce3"),("twiddle tables in bit-reversed order",M+"ntt/native.rs new, primitive_root")])
prop("C05","CRT projection and lifting are mutually inverse",
 "For every set of pairwise coprime moduli, projecting an integer to residues and lifting back returns the integer modulo the product, and lifting any residue vector yields the unique integer below the product with those residues. Construction rejects empty, non-coprime or invalid moduli, and every Garner coefficient is 1 modulo its own modulus and 0 modulo the others.",
 ["inputs","configurations"],"all pairwise coprime modulus sets, all integers / residue vectors",
 "Tests use three fixed moduli.",
 [M+"rns/mod.rs"],[("Garner coefficients",M+"rns/mod.rs RnsContext::new"),("lift/project",M+"rns/mod.rs lift, project")])
prop("C06","RNS scaling returns the correctly rounded multiple",
 "Scaling a residue vector x of modulus Q by a rational factor returns, modulo each target modulus, the integer nearest to the factor times the centered representative of x (exact ties round up). Fixed-point tolerance: a product within 2^-48 of a rounding boundary may round either way, and an x within 2^-48*Q of Q/2 may be represented with either sign. This holds for every starting output index and output length, for factor one, and for shared input and output moduli.",
 ["inputs","configurations"],"all modulus sets, all factors, all x in [0,Q), all output windows",
 "Tests sample random x; rounding errors appear only for x near a rounding boundary or near Q/2, a set of negligible measure.",
 [M+"rns/scaler.rs",M+"rq/scaler.rs"],[("256-bit fixed point correction terms",M+"rns/scaler.rs RnsScaler::new/scale"),("copying of common moduli",M+"rq/scaler.rs")])
prop("C07","Polynomial operations implement the ring Z_Q[X]/(X^n+1)",
 "Addition, subtraction, negation, multiplication, scalar multiplication and representation changes on polynomials compute the corresponding operation of Z_Q[X]/(X^n+1), residue by residue, in every combination of owned, borrowed and assigning forms. Every result keeps canonical residues, and converting between coefficient, NTT and Shoup representations in any order never changes the polynomial represented.",
 ["inputs","histories","configurations"],"all polynomials, all contexts, all sequences of operations and representation changes",
 "Tests exercise each operator once on random polynomials of one or two small contexts.",
 [M+"rq/mod.rs",M+"rq/ops.rs",M+"rq/convert.rs"],[("operator impls",M+"rq/ops.rs"),("representation typestate",M+"rq/mod.rs into_ntt/into_power_basis/into_ntt_shoup")])
prop("C08","Switching to a smaller modulus rounds exactly",
 "Dropping the last modulus of a polynomial with modulus Q = Q'q returns, coefficient by coefficient, the rounding to nearest of x*Q'/Q modulo Q' (x the coefficient), and switching down several levels equals doing it one level at a time. Level navigation (levels to a context, context at a level, switching to a context) is consistent with the modulus chain and fails cleanly when there is no such context.",
 ["inputs","histories","configurations"],"all coefficients, all modulus chains, all level sequences",
 "Tests use random coefficients, for which the rounding boundary is hit with negligible probability.",
 [M+"rq/mod.rs",M+"rq/context.rs",M+"rq/switcher.rs"],[("switch_down with centered last residue",M+"rq/mod.rs switch_down"),("precomputed inverses of the last modulus",M+"rq/context.rs Context::new")])
prop("C09","Galois substitutions and monomial shifts are ring maps",
 "Substituting X -> X^e for any odd exponent maps every polynomial to its exact image under the automorphism in every representation (the substitution in NTT form agrees with the coefficient form), substitutions compose by multiplying exponents modulo 2n, and even exponents are rejected. Multiplication by X^-k shifts and negates coefficients exactly, for every k.",
 ["inputs","configurations"],"all odd exponents, all k, all polynomials and representations",
 "Tests loop over a few exponents on one small context and compare representations with each other for a random polynomial.",
 [M+"rq/mod.rs"],[("SubstitutionExponent with bit-reversed index table",M+"rq/mod.rs SubstitutionExponent::new, substitute"),("multiply_inverse_power_of_x",M+"rq/mod.rs")])
prop("C10","Dot products equal the sum of the products",
 "The fused dot product of polynomials and the dot product of ciphertexts with plaintexts return exactly the sum of the individual products (reduced), for any number of terms, and mismatched or empty inputs are reported as errors. The accumulator never overflows, whatever the moduli, the number of terms or the values.",
 ["inputs","configurations"],"all lengths, all moduli up to 62 bits, all values",
 "The overflow guard only matters for long inputs with large residues and wide moduli, which random short tests never reach.",
 [M+"rq/ops.rs",F+"bfv/ops/dot_product.rs"],[("128-bit accumulation with a bound on the number of terms",M+"rq/ops.rs dot_product, fma; bfv/ops/dot_product.rs dot_product_scalar")])
prop("C11","Error sampling is the exact centered binomial of the given variance",
 "For every supported variance (1 to 32), each sampled coefficient is the difference of the weights of two disjoint blocks of 2*variance fresh random bits, so that it lies in [-2*variance, 2*variance] and no random bit is used twice; unsupported variances are refused and exactly the requested number of samples is returned. Small polynomials carry the same integer in every residue.",
 ["inputs","configurations"],"all variances, all sizes, all random bit streams",
 "Tests only check empirical mean/variance and a count of random words; reuse or loss of bits leaves both nearly unchanged.",
 ["crates/fhe-util/src/lib.rs",M+"rq/mod.rs"],[("bit pool","crates/fhe-util/src/lib.rs sample_vec_cbd"),("small polynomials",M+"rq/mod.rs Poly::small")])
prop("C12","Malformed or hostile bytes never panic and never yield invalid objects",
 "Deserialising any byte string as any library object (parameters, polynomials, ciphertexts, keys) returns either an error or an object that satisfies the invariants of objects built by the library (matching parameters and levels, canonical residues, admissible sizes), so that using it later cannot panic because of the bytes. It never panics, whatever the bytes.",
 ["inputs"],"all byte strings, in particular structurally valid messages with inconsistent fields",
 "Tests try truncated buffers and a few wrong parameters; the space of well-formed messages with inconsistent fields is unexplored.",
 [M+"rq/convert.rs",F+"bfv/ciphertext.rs",F+"bfv/keys",F+"bfv/rgsw_ciphertext.rs",F+"bfv/parameters.rs"],[("validation in the TryConvertFrom/DeserializeWithContext impls",M+"rq/convert.rs parse_proto; bfv/*")])
prop("C13","Serialisation round-trips every object",
 "Serialising any parameters, polynomial (of degree below 2^32), ciphertext of two or more parts (including seeded fresh ones and ones at any level or of any size), public key, relinearisation, Galois, evaluation or RGSW object and deserialising it with the same parameters returns an equal object.",
 ["inputs","histories","configurations"],"all objects reachable by library operations, all parameter sets and levels",
 "Tests round-trip one or two freshly built objects per type; the compression path depends on the object's history (seed kept or dropped), level and size.",
 [M+"rq/serialize.rs",M+"rq/convert.rs",F+"bfv"],[("protobuf conversion and seed compression",F+"bfv/ciphertext.rs; key_switching_key.rs")])
prop("C14","Encoding then decoding a plaintext returns the values",
 "For every parameter set, encoding (polynomial or SIMD, at every level) and every supported value type, decoding the encoded plaintext returns the input reduced modulo the plaintext modulus t (for signed types centered: residues from floor(t/2) up are read as negative) and zero-padded to the degree, at every level whose modulus exceeds t. Values of t too large for the requested type, and inputs that do not fit (too many values, SIMD unsupported, encoding mismatch) are refused with an error.",
 ["inputs","configurations"],"all parameter sets, levels, encodings and value vectors",
 "Tests encode random vectors for a few built-in parameter sets.",
 [F+"bfv/plaintext.rs",F+"bfv/plaintext_vec.rs",F+"bfv/parameters.rs"],[("slot permutation and NTT over the plaintext modulus",F+"bfv/plaintext.rs; parameters.rs matrix_reps_index_map")])
prop("C15","Decryption inverts encryption and respects linear operations",
 "At every level of every valid parameter set, decrypting a fresh secret- or public-key encryption returns the plaintext. Adding, subtracting, negating ciphertexts (in all owned/borrowed/assigning forms), and adding, subtracting or multiplying by plaintexts, decrypt to the same operation on the plaintexts while the noise stays in bounds, also after switching levels.",
 ["inputs","configurations","histories"],"all plaintexts, keys, randomness, levels and circuits of linear operations within the noise budget",
 "Tests run each operator once on random data; sign, scale and level mistakes in an unusual operand order or level are not sampled.",
 [F+"bfv/keys/secret_key.rs",F+"bfv/keys/public_key.rs",F+"bfv/ops/mod.rs",F+"bfv/plaintext.rs",F+"bfv/ciphertext.rs"],[("phase c0 + c1*s = Delta*m + e",F+"bfv/keys/secret_key.rs"),("scaling of plaintexts by Q/t with the centered correction",F+"bfv/plaintext.rs to_poly")])
prop("C16","Homomorphic multiplication multiplies the plaintexts",
 "Multiplying two ciphertexts (operator or any valid multiplicator, with or without relinearisation and modulus switching, at every level) gives a ciphertext that decrypts to the product of the plaintexts while the noise budget lasts; relinearisation turns a three-part ciphertext into a two-part one with the same decryption, and squaring agrees with multiplication.",
 ["inputs","configurations","histories"],"all plaintexts, levels and multiplicator settings within the noise budget",
 "Tests multiply a few random plaintexts with default settings.",
 [F+"bfv/ops/mul.rs",F+"bfv/ops/mod.rs",F+"bfv/keys/relinearization_key.rs",F+"bfv/keys/key_switching_key.rs"],[("extend, tensor, scale down",F+"bfv/ops/mul.rs"),("key switching",F+"bfv/keys/key_switching_key.rs")])
prop("C17","Key-switching based operations act exactly on the slots",
 "Row and column rotations, inner sum, oblivious expansion and RGSW external products decrypt to the stated permutation, sum, monomial coefficients or product of the plaintexts, for every supported rotation, size and pair of ciphertext and key levels. Operations an evaluation key was not built for are reported as unsupported with an error.",
 ["inputs","configurations"],"all rotations, expansion sizes, key/ciphertext level pairs and plaintexts",
 "Tests cover a few rotations and sizes with one modulus set.",
 [F+"bfv/keys/galois_key.rs",F+"bfv/keys/evaluation_key.rs",F+"bfv/keys/key_switching_key.rs",F+"bfv/rgsw_ciphertext.rs"],[("RNS or base-2^w decomposition",F+"bfv/keys/key_switching_key.rs"),("Galois exponents for rotations",F+"bfv/keys/evaluation_key.rs")])
prop("C18","Multiparty protocols equal the single-party scheme on the summed key",
 "For any number of parties, the aggregated public key, relinearisation key, decryption shares and key-switch shares behave as those of the single secret key that is the sum of the parties' keys: decryption of the aggregate returns the plaintext, in any order of aggregation. Shares at incompatible levels or contexts, or of an unsupported size, are not silently combined.",
 ["inputs","configurations","histories"],"all numbers of parties, all share orders, all levels, all plaintexts",
 "Tests run a fixed party count once per protocol.",
 [F+"mbfv"],[("share generation and summation",F+"mbfv/*.rs")])
prop("C19","Incompatible operands are rejected, never silently combined",
 "Combining single-party objects from different parameters, contexts, levels or unsupported sizes (ciphertexts, plaintexts, keys, polynomials) is always refused, by an error or a panic as documented, and never produces a result; combining compatible objects is never refused.",
 ["inputs","configurations"],"all pairs of objects over all pairs of parameter sets and levels",
 "Tests check a couple of mismatches per operator.",
 [F+"bfv/ops/mod.rs",F+"bfv/ciphertext.rs",F+"bfv/keys",M+"rq/ops.rs"],[("explicit checks at operation entry",F+"bfv/ops/mod.rs, keys/*.rs")])
prop("C20","Variable-time permission is never acquired implicitly",
 "A polynomial may be processed with variable-time code only if the caller allowed it: every operation's result carries the permission only when every secret-bearing input already did or the caller granted it explicitly, representation changes preserve it, and removing the permission is always effective. Secret keys, their errors and decryption intermediates never carry it.",
 ["inputs","histories"],"all sequences of operations over polynomials with and without the permission",
 "Results are equal either way, so functional tests cannot see a permission that leaks.",
 [M+"rq/mod.rs",M+"rq/ops.rs",M+"rq/convert.rs",F+"bfv/keys/secret_key.rs"],[("allow_variable_time_computations flag",M+"rq/mod.rs")])
prop("C21","Only valid encryption parameters can be built",
 "Building parameters succeeds exactly for degrees that are powers of two in range, an admissible plaintext modulus (2 to 2^62 - 1 or at least 2^64, below the product of the ciphertext moduli), pairwise distinct NTT-friendly ciphertext moduli of admissible sizes coprime with the plaintext modulus, and an admissible variance; otherwise an error is returned, never a panic. Built parameters are internally consistent (moduli of the requested sizes, level chain, scaling constants, slot permutation).",
 ["inputs","configurations"],"all combinations of builder settings",
 "Tests try a few invalid settings one at a time.",
 [F+"bfv/parameters.rs",F+"bfv/context/level.rs"],[("validate_configuration/validate_moduli/build",F+"bfv/parameters.rs")])
prop("C22","Prime generation and modular inverse are exact",
 "Prime generation returns the largest prime strictly below the bound with the requested bit length and residue one modulo the given modulus (at least two), or nothing exactly when there is none (in particular for bit lengths outside 10..=62); primality testing is exact on 64-bit integers; the modular inverse returns the inverse exactly when one exists.",
 ["inputs"],"all bit sizes, moduli, upper bounds and 64-bit integers",
 "Tests check a few sizes and known primes.",
 [M+"zq/primes.rs","crates/fhe-util/src/lib.rs"],[("downward search",M+"zq/primes.rs generate_prime"),("inverse","crates/fhe-util/src/lib.rs inverse")])
with open("/verif/properties.jsonl","w") as f:
    for p in P:
        assert len(p["title"])<=80,p["title"]
        f.write(json.dumps(p)+"\n")
print(len(P))
