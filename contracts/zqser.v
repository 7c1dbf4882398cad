//@ import zqs
//@ import tcode
//@ import zqv
// ---------------------------------------------------------------------------
// Modulus::serialization_length / serialize_vec / deserialize_vec
// ---------------------------------------------------------------------------
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::bits::*;

/// number of bits of a residue modulo p: the bit length of p - 1
pub open spec fn nbits_of(p: int) -> nat
    recommends p >= 2
{ (64 - u64_leading_zeros((p - 1) as u64)) as nat }

/// it really is the least width that holds every residue
pub proof fn lemma_nbits(p: u64)
    requires 2 <= p < 0x4000_0000_0000_0000,
    ensures 1 <= nbits_of(p as int) <= 62, p <= pow2(nbits_of(p as int)), p > pow2((nbits_of(p as int) - 1) as nat),
{
    let x = (p - 1) as u64;
    axiom_u64_leading_zeros(x);
    let lz = u64_leading_zeros(x);
    let n = nbits_of(p as int);
    lemma2_to64(); lemma2_to64_rest();
    if lz == 64 {
        let z = 0u64;
        vstd::bits::lemma_u64_shr_is_div(x, 0);
        assert(x >> (64 - lz) as u64 == 0);
        assert(x / 1 == x);
        assert(x >> 0u64 == x) by(bit_vector);
        assert(false);
    }
    let k = (63 - lz) as u64;
    vstd::bits::lemma_u64_shr_is_div(x, k);
    lemma_pow2_pos(k as nat);
    let y = x >> k;
    assert(y != 0) by { if y == 0 { assert(0u64 & 1 == 0) by(bit_vector); } }
    lemma_fundamental_div_mod(x as int, pow2(k as nat) as int);
    lemma_mod_bound(x as int, pow2(k as nat) as int);
    assert(x as int >= pow2(k as nat)) by(nonlinear_arith)
        requires x as int == pow2(k as nat) * y + x as int % (pow2(k as nat) as int), y >= 1, x as int % (pow2(k as nat) as int) >= 0, pow2(k as nat) >= 0;
    if n < 64 {
        let j = (64 - lz) as u64;
        vstd::bits::lemma_u64_shr_is_div(x, j);
        lemma_pow2_pos(j as nat);
        lemma_fundamental_div_mod(x as int, pow2(j as nat) as int);
        lemma_mod_bound(x as int, pow2(j as nat) as int);
        assert(x >> j == 0);
        let z = pow2(j as nat) as int * 0;
    }
    if n > 62 { if k as nat > 62 { lemma_pow2_strictly_increases(62, k as nat); } }
}
pub proof fn lemma_canon_digits(a: Seq<u64>, p: u64)
    requires 2 <= p < 0x4000_0000_0000_0000, canon(a, p as int),
    ensures digits(d64(a), nbits_of(p as int)),
{
    lemma_nbits(p);
    assert forall|i: int| 0 <= i < d64(a).len() implies (#[trigger] d64(a)[i]) < pow2(nbits_of(p as int)) by { assert(a[i] < p); }
}

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::serialization_length
//@ ret r
//@ spec
    requires self.wf(), size % 8 == 0, size * 64 <= usize::MAX,
    ensures r == ceil_div((size * nbits_of(self.p as int)) as int, 8), r * 8 == size * nbits_of(self.p as int),
//@ start
    proof {
        lemma_nbits(self.p);
        let n = nbits_of(self.p as int) as int;
        assert(n * size <= 64 * size) by(nonlinear_arith) requires n <= 64, size >= 0;
        let q = size as int / 8;
        assert(n * size == 8 * (n * q)) by(nonlinear_arith) requires size == 8 * q;
        assert(size * n == n * size) by(nonlinear_arith);
    }
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::serialize_vec
//@ ret r
//@ spec
    requires self.wf(), canon(a@, self.p as int), a@.len() * 64 + 64 <= usize::MAX,
    ensures packed(d64(a@), nbits_of(self.p as int), d8(r@), 8),
//@ start
    proof {
        lemma_nbits(self.p); lemma_canon_digits(a@, self.p);
        let n = nbits_of(self.p as int) as int;
        assert(a@.len() * n <= a@.len() * 64) by(nonlinear_arith) requires n <= 64;
    }
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::deserialize_vec
//@ ret r
//@ spec
    requires self.wf(), b@.len() * 8 + 64 <= usize::MAX,
    ensures packed(d8(b@), 8, d64(r@), nbits_of(self.p as int)),
//@ start
    proof { lemma_nbits(self.p); }
//@ end

/// Round trip: deserialising a serialised vector returns it, with no padding when the length is a multiple of 8.
pub proof fn lemma_serialize_round_trip(m: &Modulus, a: Seq<u64>, bytes: Seq<u8>, c: Seq<u64>)
    requires m.wf(), canon(a, m.p as int),
        packed(d64(a), nbits_of(m.p as int), d8(bytes), 8), packed(d8(bytes), 8, d64(c), nbits_of(m.p as int)),
    ensures c.len() >= a.len(), c.take(a.len() as int) =~= a,
        forall|i: int| a.len() <= i < c.len() ==> c[i] == 0,
        a.len() % 8 == 0 ==> c =~= a,
{
    let n = nbits_of(m.p as int);
    lemma_nbits(m.p); lemma_canon_digits(a, m.p);
    lemma2_to64();
    lemma_round_trip(d64(a), n, d8(bytes), 8, d64(c));
    assert forall|i: int| 0 <= i < c.len() implies c[i] == if i < a.len() { a[i] } else { 0u64 } by {
        assert(d64(c)[i] == c[i]);
        if i < a.len() { assert(d64(a)[i] == a[i]); }
    }
    if a.len() % 8 == 0 {
        let l = a.len() as int;
        let q = l / 8;
        assert(l * n == (q * n) * 8) by(nonlinear_arith) requires l == 8 * q;
        lemma_fundamental_div_mod_converse(l * n + 7, 8, q * n, 7);
        assert(bytes.len() == q * n);
        assert((q * n) * 8 == l * n);
        lemma_fundamental_div_mod_converse(l * n + n - 1, n as int, l, n as int - 1);
    }
}
