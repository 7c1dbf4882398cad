//@ import common
//@ import numth
use vstd::std_specs::bits::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;

/// candidates: b-bit numbers that are 1 modulo m
pub open spec fn cand(q: int, b: nat, m: int) -> bool { pow2((b - 1) as nat) <= q < pow2(b) && q % m == 1 }

/// x has exactly b significant bits
pub proof fn lemma_size(x: u64, b: nat)
    requires 10 <= b <= 62, x < pow2(b),
    ensures (u64_leading_zeros(x) == 64 - b) == (pow2((b - 1) as nat) <= x),
{
    axiom_u64_leading_zeros(x);
    let bb = b as u64;
    lemma2_to64(); lemma2_to64_rest();
    lemma_pow2_strictly_increases(b, 64);
    lemma_pow2_strictly_increases((b - 1) as nat, 64);
    vstd::bits::lemma_u64_shl_is_mul(1, bb);
    vstd::bits::lemma_u64_shl_is_mul(1, (bb - 1) as u64);
    assert(x < 1u64 << bb);
    let lz = u64_leading_zeros(x) as u64;
    assert(lz == (64 - bb) as u64 || lz != (64 - bb) as u64);
    if lz == 64 {
        assert(x == 0);
        lemma_pow2_pos((b - 1) as nat);
    } else {
        let k = sub(63, lz);
        assert(k == (63 - lz) as u64);
        assert((x >> k) & 1 != 0);
        if lz > 0 { assert(sub(64, lz) == (64 - lz) as u64); }
        assert(lz == 0 || x >> sub(64, lz) == 0);
        assert((lz == sub(64, bb)) == ((1u64 << sub(bb, 1)) <= x)) by(bit_vector)
            requires 10 <= bb <= 62, lz < 64, x < 1u64 << bb, k == sub(63, lz), (x >> k) & 1 != 0, lz == 0 || x >> sub(64, lz) == 0;
    }
}
/// between t - m and t no number is congruent to t
pub proof fn lemma_gap(t: int, q: int, m: int)
    requires m >= 2, t % m == 1, q % m == 1, q < t,
    ensures q <= t - m,
{
    lemma_fundamental_div_mod(t, m);
    lemma_fundamental_div_mod(q, m);
    let a = t / m; let b = q / m;
    assert(a >= b + 1) by(nonlinear_arith) requires m * b + 1 < m * a + 1, m >= 2;
    assert(m * a >= m * b + m) by(nonlinear_arith) requires a >= b + 1, m >= 2;
}

//@ fn crates/fhe-math/src/zq/primes.rs generate_prime
//@ ret r
//@ spec
    requires modulo >= 2, 10 <= num_bits <= 62 ==> upper_bound <= pow2(num_bits as nat),
    ensures
        !(10 <= num_bits <= 62) ==> r is None,
        r matches Some(p) ==> prime(p as int) && cand(p as int, num_bits as nat, modulo as int) && p < upper_bound
            && forall|q: int| p < q < upper_bound && #[trigger] cand(q, num_bits as nat, modulo as int) ==> !prime(q),
        r is None && 10 <= num_bits <= 62 ==> forall|q: int| q < upper_bound && #[trigger] cand(q, num_bits as nat, modulo as int) ==> !prime(q),
//@ start
    let ghost b = num_bits as nat;
    let ghost m = modulo as int;
    proof {
        if 10 <= num_bits <= 62 {
            lemma2_to64(); lemma2_to64_rest();
            lemma_pow2_strictly_increases(b, 64);
            vstd::bits::lemma_u64_shl_is_mul(1, num_bits as u64);
            assert((1u64 << num_bits) == (1u64 << (num_bits as u64)));
            lemma_pow2_pos((b - 1) as nat);
            lemma_pow2_strictly_increases(3, (b - 1) as nat);
            assert forall|x: u64| x < pow2(b) implies (#[trigger] u64_leading_zeros(x) == 64 - b) == (pow2((b - 1) as nat) <= x) by { lemma_size(x, b); }
        }
    }
//@ loop 0
    invariant
        10 <= num_bits <= 62, b == num_bits, m == modulo, modulo >= 2, upper_bound <= pow2(b), leading_zeros == 64 - b, tentative_prime < upper_bound,
        forall|x: u64| x < pow2(b) ==> (#[trigger] u64_leading_zeros(x) == 64 - b) == (pow2((b - 1) as nat) <= x),
        8 < pow2((b - 1) as nat),
        forall|q: int| tentative_prime < q < upper_bound && #[trigger] cand(q, b, m) ==> !prime(q),
    decreases tentative_prime,
//@ loop 1
    invariant
        10 <= num_bits <= 62, b == num_bits, m == modulo, modulo >= 2, upper_bound <= pow2(b), leading_zeros == 64 - b, tentative_prime < upper_bound,
        forall|x: u64| x < pow2(b) ==> (#[trigger] u64_leading_zeros(x) == 64 - b) == (pow2((b - 1) as nat) <= x),
        8 < pow2((b - 1) as nat),
        u64_leading_zeros(tentative_prime) == 64 - b ==> (tentative_prime as int) % m == 1,
        forall|q: int| tentative_prime < q < upper_bound && #[trigger] cand(q, b, m) ==> !prime(q),
    decreases tentative_prime,
//@ loop-start 1
    proof {
        assert((tentative_prime as int) % m == 1);
        lemma_mod_sub_multiples_vanish(tentative_prime as int, m);
        assert forall|q: int| tentative_prime - m < q < upper_bound && #[trigger] cand(q, b, m) implies !prime(q) by {
            if q < tentative_prime { lemma_gap(tentative_prime as int, q, m); }
        }
    }
//@ loop-after 1
    proof {
        if u64_leading_zeros(tentative_prime) == 64 - b && tentative_prime < modulo { lemma_small_mod(tentative_prime as nat, modulo as nat); }
    }
//@ end
