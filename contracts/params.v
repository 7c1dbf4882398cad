//@ import par
//@ import primes
//@ import tcode
// ---------------------------------------------------------------------------
// fhe/src/bfv/parameters.rs : the plaintext modulus and the validation of the builder
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::power2::{pow2, lemma2_to64, lemma2_to64_rest, lemma_pow2_strictly_increases};
use vstd::std_specs::bits::*;
use std::sync::Arc;
use vstd::std_specs::ops::*;
/// admissible plaintext moduli
pub open spec fn t_ok(t: int) -> bool { 2 <= t < 0x4000_0000_0000_0000 || t > u64::MAX }
//@ fn crates/fhe/src/bfv/parameters.rs PlaintextModulus::try_new
//@ ret r
//@ spec
    ensures r is Ok <==> t_ok(value.v() as int), r matches Ok(p) ==> p.wf() && p.value == value,
//@ end
//@ fn crates/fhe/src/bfv/parameters.rs PlaintextModulus::as_biguint
//@ ret r
//@ spec
    ensures *r == self.value,
//@ end
//@ fn crates/fhe/src/bfv/parameters.rs PlaintextModulus::as_u64
//@ subst Some(**modulus) => Some(modulus.p)
//@ ret r
//@ spec
    requires self.wf(),
    ensures r is Some <==> self.t() <= u64::MAX, r matches Some(x) ==> x == self.t(),
//@ end
//@ fn crates/fhe/src/bfv/parameters.rs PlaintextModulus::small
//@ ret r
//@ spec
    ensures r is Some <==> self.small is Some, r matches Some(x) ==> *x == self.small->Some_0,
//@ end
//@ fn crates/fhe/src/bfv/parameters.rs PlaintextModulus::reduce_vec
//@ ret r
//@ spec
    requires self.wf(),
    ensures final(v)@.len() == old(v)@.len(), forall|k: int| 0 <= k < old(v)@.len() ==> (#[trigger] final(v)@[k]).v() == old(v)@[k].v() % self.value.v(),
//@ start
    let ghost v0 = v@;
//@ loop 0
    invariant
        n_0 == v0.len(), v@.len() == v0.len(), self.wf(),
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] v@[k]).v() == v0[k].v() % self.value.v(),
        forall|k: int| i_0 <= k < v0.len() ==> #[trigger] v@[k] == v0[k],
//@ end
//@ fn crates/fhe/src/bfv/parameters.rs PlaintextModulus::scalar_mul_vec
//@ ret r
//@ spec
    requires self.wf(),
    ensures final(a)@.len() == old(a)@.len(), forall|k: int| 0 <= k < old(a)@.len() ==> (#[trigger] final(a)@[k]).v() == (old(a)@[k].v() * b.v()) % self.value.v(),
//@ start
    let ghost v0 = a@;
//@ loop 0
    invariant
        n_0 == v0.len(), a@.len() == v0.len(), self.wf(),
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] a@[k]).v() == (v0[k].v() * b.v()) % self.value.v(),
        forall|k: int| i_0 <= k < v0.len() ==> #[trigger] a@[k] == v0[k],
//@ end
//@ fn crates/fhe/src/bfv/parameters.rs PlaintextModulus::ntt_operator
//@ ret r
//@ spec
    requires self.wf(), degree >= 8, is_pow2(degree as int),
    ensures r is Some <==> self.t() <= u64::MAX && self.t() % (2 * degree) == 1 && prime(self.t()),
        r matches Some(op) ==> op.p.p == self.t() && op.size == degree && op.wfx() && op.rooted(),
//@ end
//@ fn crates/fhe/src/bfv/parameters.rs PlaintextModulus::upper_half_threshold
//@ ret r
//@ spec
    ensures r.v() as int == (self.t() + 1) / 2,
//@ start
    proof { lemma2_to64(); }
//@ end
//@ struct crates/fhe/src/bfv/parameters.rs BfvParametersBuilder
//@ const crates/fhe/src/bfv/parameters.rs BfvParametersBuilder::MIN_DEGREE
//@ const crates/fhe/src/bfv/parameters.rs BfvParametersBuilder::MAX_DEGREE
//@ const crates/fhe/src/bfv/parameters.rs BfvParametersBuilder::MIN_VARIANCE
//@ const crates/fhe/src/bfv/parameters.rs BfvParametersBuilder::MAX_VARIANCE
pub proof fn lemma_gcd_step(a: int, b: int)
    requires a >= 0, b > 0,
    ensures coprime(a, b) <==> coprime(b, a % b),
{
    reveal(coprime);
    lemma_fundamental_div_mod(a, b);
    let q = a / b; let r = a % b;
    if coprime(a, b) {
        let (u, v) = choose|u: int, v: int| #[trigger] bez(a, b, u, v);
        assert((v + u * q) * b + u * r == u * a + v * b) by (nonlinear_arith) requires a == b * q + r;
        assert(bez(b, r, v + u * q, u));
    }
    if coprime(b, r) {
        let (u, v) = choose|u: int, v: int| #[trigger] bez(b, r, u, v);
        assert(v * a + (u - v * q) * b == u * b + v * r) by (nonlinear_arith) requires a == b * q + r;
        assert(bez(a, b, v, u - v * q));
    }
}
pub proof fn lemma_gcd_zero(a: int)
    requires a >= 0,
    ensures coprime(a, 0) <==> a == 1,
{
    reveal(coprime);
    if a == 1 { assert(bez(1, 0, 1, 0)); }
    if coprime(a, 0) {
        let (u, v) = choose|u: int, v: int| #[trigger] bez(a, 0, u, v);
        assert(u * a == 1);
        assert(a <= 1) by (nonlinear_arith) requires u * a == 1, a >= 0;
        assert(a != 0) by (nonlinear_arith) requires u * a == 1;
    }
}
//@ fn crates/fhe/src/bfv/parameters.rs BfvParametersBuilder::gcd
//@ ret r
//@ spec
    ensures r == 1 <==> coprime(a as int, b as int),
//@ start
    let ghost (a0, b0) = (a as int, b as int);
//@ loop 0
    invariant coprime(a as int, b as int) <==> coprime(a0, b0),
    decreases b,
//@ loop-start 0
    proof { lemma_gcd_step(a as int, b as int); }
//@ loop-after 0
    proof { lemma_gcd_zero(a as int); }
//@ end
/// degrees and variances the builder accepts
pub open spec fn degree_ok(d: int) -> bool { 8 <= d <= 65536 && is_pow2(d) }
//@ fn crates/fhe/src/bfv/parameters.rs BfvParametersBuilder::validate_configuration
//@ ret r
//@ spec
    ensures r is Ok <==> degree_ok(self.degree as int) && 1 <= self.variance <= 32
        && (self.ciphertext_moduli@.len() == 0 <==> self.ciphertext_moduli_sizes@.len() != 0),
//@ end
/// an integer that a prime does not divide is coprime to it
pub proof fn lemma_prime_cop(a: int, p: int)
    requires prime(p), a % p != 0,
    ensures coprime(a, p),
{
    let r = a % p;
    axiom_fermat(p, r);
    lemma_pow_adds(r, 1, (p - 2) as nat);
    lemma_pow1(r);
    let x = pow(r, (p - 2) as nat);
    lemma_fundamental_div_mod(r * x, p);
    lemma_fundamental_div_mod(a, p);
    let k = (r * x) / p; let m = a / p;
    assert(x * a + (-k - m * x) * p == 1) by (nonlinear_arith) requires r * x == p * k + 1, a == p * m + r;
    reveal(coprime);
    assert(bez(a, p, x, -k - m * x));
}
/// ... and only then
pub proof fn lemma_cop_ndiv(a: int, p: int)
    requires p >= 2, coprime(a, p),
    ensures a % p != 0,
{
    lemma_cop_inv(a, p);
    let x = choose|x: int| #[trigger] is_inv(a, x, p);
    if a % p == 0 { lemma_mul_mod_noop_left(a, x, p); assert(0 * x == 0); lemma_small_mod(0, p as nat); }
}
/// different primes are coprime
pub proof fn lemma_primes_cop(a: int, p: int)
    requires prime(p), prime(a), a != p,
    ensures coprime(a, p),
{
    if a % p == 0 {
        lemma_fundamental_div_mod(a, p);
        assert(a >= p) by (nonlinear_arith) requires a == p * (a / p), a >= 2, p >= 2;
        assert(divides(p, a));
    }
    lemma_prime_cop(a, p);
}
/// what the ciphertext moduli must satisfy
pub open spec fn mods_ok(m: Seq<u64>, d: int) -> bool {
    &&& inrange(m) && m.no_duplicates()
    &&& forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]) as int % (2 * d) == 1 && prime(m[i] as int)
}
pub open spec fn t_cop(m: Seq<u64>, t: int) -> bool { forall|i: int| 0 <= i < m.len() ==> t % ((#[trigger] m[i]) as int) != 0 }
pub proof fn lemma_mods_pairwise(m: Seq<u64>, d: int)
    requires mods_ok(m, d),
    ensures pairwise(m),
{
    assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && i != j implies coprime(#[trigger] m[i] as int, #[trigger] m[j] as int) by { lemma_primes_cop(m[i] as int, m[j] as int); }
}
//@ fn crates/fhe/src/bfv/parameters.rs BfvParametersBuilder::validate_moduli
//@ ret r
//@ subst let ciphertext_modulus = => let ciphertext_modulus: BigUint =
//@ subst if plaintext >= &ciphertext_modulus => if *plaintext >= ciphertext_modulus
//@ spec
    requires degree_ok(self.degree as int),
    ensures r is Ok <==> mods_ok(moduli@, self.degree as int) && plaintext.v() < prodm(moduli@) && t_cop(moduli@, plaintext.v() as int),
//@ start
    let ghost m = moduli@;
    let ghost d = self.degree as int;
    proof { assert(m.take(0) =~= Seq::<u64>::empty()); }
//@ loop 0
    invariant
        m == moduli@,
        forall|k: int| 0 <= k < i_0 ==> 2 <= #[trigger] m[k] < 0x4000_0000_0000_0000,
        forall|k: int, j: int| 0 <= k < i_0 && 0 <= j < m.len() && k != j ==> #[trigger] m[k] != #[trigger] m[j],
//@ loop 1
    invariant
        m == moduli@, 0 <= i_0 < m.len(), modulus == m[i_0 as int],
        out_1@.len() <= i_1,
        i_1 > i_0 ==> out_1@.len() >= 1,
        i_1 <= i_0 && out_1@.len() > 0 ==> exists|j: int| 0 <= j < i_1 && #[trigger] m[j] == modulus,
        out_1@.len() > 1 ==> exists|j: int| 0 <= j < m.len() && j != i_0 && #[trigger] m[j] == modulus,
        out_1@.len() <= 1 ==> forall|j: int| 0 <= j < i_1 && j != i_0 && #[trigger] m[j] == modulus ==> i_1 <= i_0 && out_1@.len() == 1,
//@ loop 2
    invariant
        m == moduli@, inrange(m), m.no_duplicates(),
//@ loop 3
    invariant
        m == moduli@, inrange(m), m.no_duplicates(), 0 <= i_2 < m.len(), i == i_2, modulus1 == m[i_2 as int],
//@ loop-start 3
    proof { if mods_ok(m, d) { lemma_primes_cop(m[i_2 as int] as int, m[i_2 + 1 + i_3] as int); } }
//@ loop 4
    invariant
        m == moduli@, inrange(m), m.no_duplicates(), d == self.degree, degree_ok(d),
        forall|i: int| 0 <= i < i_4 ==> (#[trigger] m[i]) as int % (2 * d) == 1 && prime(m[i] as int),
//@ loop 5
    invariant
        m == moduli@, acc_5.v() == prodm(m.take(i_5 as int)),
//@ loop-end 5
    proof { lemma_prodm_push(m, i_5 as int); }
//@ loop-after 5
    proof { assert(m.take(m.len() as int) =~= m); }
//@ loop 6
    invariant
        m == moduli@, mods_ok(m, d), plaintext.v() < prodm(m),
        forall|i: int| 0 <= i < i_6 ==> plaintext.v() as int % ((#[trigger] m[i]) as int) != 0,
//@ loop-start 6
    proof {
        let (t, p) = (plaintext.v() as int, m[i_6 as int] as int);
        lemma_mod_bound(t, p);
        lemma_small_mod((t % p) as nat, p as nat);
        if t % p != 0 { lemma_prime_cop(t % p, p); } else if coprime(t % p, p) { lemma_cop_ndiv(t % p, p); }
    }
//@ end
/// HashMap and counts are used for the text of an error only
use vstd::std_specs::cmp::*;
pub struct HashMap { pub g: Ghost<int> }
impl HashMap {
    #[verifier::external_body] pub fn new() -> (r: HashMap) { unimplemented!() }
    #[verifier::external_body] pub fn vget(&self, k: &usize) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] pub fn vbump(&mut self, k: usize) { unimplemented!() }
    #[verifier::external_body] pub fn vcounts(s: &[usize]) -> (r: HashMap) { unimplemented!() }
}
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(x);
pub open spec fn sized(p: int, s: int) -> bool { 10 <= s <= 62 && pow2((s - 1) as nat) <= p < pow2(s as nat) }
/// moduli of the requested sizes
pub open spec fn gen_ok(m: Seq<u64>, s: Seq<usize>, d: int) -> bool {
    m.len() == s.len() && m.no_duplicates() && forall|i: int| 0 <= i < m.len() ==> sized((#[trigger] m[i]) as int, s[i] as int) && m[i] as int % (2 * d) == 1 && prime(m[i] as int)
}
//@ fn crates/fhe/src/bfv/parameters.rs BfvParametersBuilder::generate_moduli
//@ ret r
//@ attrs
#[verifier::allow_complex_invariants]
//@ subst moduli_sizes.iter().copied().counts() => HashMap::vcounts(moduli_sizes)
//@ subst HashMap<usize, usize> => HashMap
//@ subst *required_counts .get(&moduli_sizes[i_0]) .unwrap_or(&0) => required_counts.vget(&moduli_sizes[i_0])
//@ subst *generated_counts .get(&moduli_sizes[i_0]) .unwrap_or(&0) => generated_counts.vget(&moduli_sizes[i_0])
//@ subst *generated_counts.entry(moduli_sizes[i_0]).or_insert(0) += 1 => generated_counts.vbump(moduli_sizes[i_0])
//@ subst let mut moduli = vec![] => let mut moduli: Vec<u64> = vec![]
//@ subst let mut upper_bound = 1 << => let mut upper_bound: u64 = 1u64 <<
//@ spec
    requires degree_ok(degree as int),
    ensures r matches Ok(m) ==> gen_ok(m@, moduli_sizes@, degree as int),
        (exists|i: int| 0 <= i < moduli_sizes@.len() && !(10 <= #[trigger] moduli_sizes@[i] <= 62)) ==> r is Err,
//@ loop 0
    invariant
        degree_ok(degree as int), gen_ok(moduli@, moduli_sizes@.take(i_0 as int), degree as int),
        forall|i: int| 0 <= i < i_0 ==> 10 <= #[trigger] moduli_sizes@[i] <= 62,
//@ loop-before 1
    proof {
        let b = moduli_sizes[i_0 as int] as u64;
        lemma2_to64(); lemma2_to64_rest();
        lemma_pow2_strictly_increases(b as nat, 64);
        vstd::bits::lemma_u64_shl_is_mul(1, b);
        assert((1u64 << moduli_sizes[i_0 as int]) == (1u64 << b));
    }
    let ghost m0 = moduli@;
    let ghost sz = moduli_sizes@[i_0 as int];
//@ loop 1
    invariant_except_break
        moduli@ == m0, upper_bound <= pow2(sz as nat),
    invariant
        0 <= i_0 < moduli_sizes@.len(), sz == moduli_sizes@[i_0 as int], degree_ok(degree as int), 10 <= sz <= 62,
        gen_ok(m0, moduli_sizes@.take(i_0 as int), degree as int),
    ensures
        gen_ok(moduli@, moduli_sizes@.take(i_0 as int).push(sz), degree as int),
    decreases upper_bound,
//@ loop-after 1
    proof { assert(moduli_sizes@.take(i_0 as int).push(sz) =~= moduli_sizes@.take(i_0 + 1)); assert(gen_ok(moduli@, moduli_sizes@.take(i_0 + 1), degree as int)); }
//@ loop-after 0
    proof { assert(moduli_sizes@.take(moduli_sizes@.len() as int) =~= moduli_sizes@); }
//@ end
/// generated moduli are admissible
pub proof fn lemma_gen_mods(m: Seq<u64>, s: Seq<usize>, d: int)
    requires gen_ok(m, s, d),
    ensures mods_ok(m, d),
{
    assert forall|i: int| 0 <= i < m.len() implies 2 <= #[trigger] m[i] < 0x4000_0000_0000_0000 by {
        assert(sized(m[i] as int, s[i] as int));
        lemma2_to64(); lemma2_to64_rest();
        let b = s[i] as nat;
        if b < 62 { lemma_pow2_strictly_increases(b, 62); }
        lemma_pow2_strictly_increases(1, (b - 1) as nat);
    }
}
