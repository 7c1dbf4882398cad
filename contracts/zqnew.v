//@ import numth
//@ import zqs
// ---------------------------------------------------------------------------
// constructors, primality-dependent functions, prime generation
// ---------------------------------------------------------------------------
use vstd::std_specs::bits::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;

pub mod primes { }

/// Fermat's little theorem (assumed; not proved here).
pub axiom fn axiom_fermat(p: int, a: int)
    requires prime(p), 0 < a < p,
    ensures pow(a, (p - 1) as nat) % p == 1;

//@ fn crates/fhe-math/src/zq/primes.rs supports_opt
//@ ret r
//@ spec
    requires p != 0,
    ensures r == (u64_leading_zeros(p) >= 1 && opt_ok(p as int, u64_leading_zeros(p) as nat)),
//@ start
    proof {
        axiom_u64_leading_zeros(p);
        let lz = u64_leading_zeros(p) as nat;
        lemma2_to64();
        lemma2_to64_rest();
        if 1 <= lz < 64 {
            lemma_pow2_strictly_increases(lz, 64);
            vstd::bits::lemma_u64_shl_is_mul(1, lz as u64);
            assert((1u64 << (lz as u32)) == (1u64 << (lz as u64)));
        }
        if lz >= 1 && p != 0 {
            assert((pow2(3 * lz) * (pow2(lz) + 1)) * p == pow2(3 * lz) * (pow2(lz) + 1) * p);
        }
    }
//@ end

pub proof fn lemma_lz_ok(p: u64)
    requires 2 <= p < 0x4000_0000_0000_0000,
    ensures lz_ok(p as int, u64_leading_zeros(p) as nat), 2 <= u64_leading_zeros(p) <= 62,
{
    lemma_top_bit(p);
    let lz = u64_leading_zeros(p) as u64;
    let k = (63 - lz) as u64;
    vstd::bits::lemma_u64_shr_is_div(p, k);
    lemma_pow2_pos(k as nat);
    lemma_fundamental_div_mod(p as int, pow2(k as nat) as int);
    lemma_pow2_unfold((k + 1) as nat);
    let m = pow2(k as nat) as int;
    assert(p as int / m == 1);
    lemma_mod_bound(p as int, m);
    assert((64 - u64_leading_zeros(p)) as nat == k + 1);
}

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::new
//@ ret r
//@ subst primes::supports_opt => supports_opt
//@ spec
    ensures
        (2 <= p < 0x4000_0000_0000_0000) <==> r is Ok,
        r matches Ok(m) ==> m.wf() && m.p == p,
        r matches Ok(m) ==> m.supports_opt == opt_ok(p as int, u64_leading_zeros(p) as nat),
//@ start
    broadcast use bits64;
    proof {
        assert((p >> 62u64) != 0 <==> p >= 0x4000_0000_0000_0000u64) by(bit_vector);
        lemma2_to64(); lemma2_to64_rest();
        lemma_pow2_adds(64, 64);
        assert(pow2(128) == two128());
        if 2 <= p < 0x4000_0000_0000_0000 {
            lemma_lz_ok(p);
            lemma_fundamental_div_mod(two128(), p as int);
            lemma_div_pos_is_pos(two128(), p as int);
            let b = two128() / p as int;
            assert(b < two128()) by(nonlinear_arith)
                requires two128() == p * b + two128() % p as int, two128() % p as int >= 0, p >= 2, b >= 0;
            lemma_fundamental_div_mod(b, two64());
            lemma_div_pos_is_pos(b, two64());
            let bh = b / two64();
            assert(bh < two64()) by(nonlinear_arith) requires b == two64() * bh + b % two64(), b % two64() >= 0, b < two64() * two64(), bh >= 0;
            lemma_small_mod(bh as nat, two64() as nat);
            assert(bh * two64() == two64() * bh) by(nonlinear_arith);
        }
    }
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::inv
//@ ret r
//@ spec
    requires self.wf(), a < self.p,
    ensures
        r is Some <==> prime(self.p as int) && a != 0,
        r matches Some(x) ==> x < self.p && (a * x) % (self.p as int) == 1,
//@ start
    proof {
        let p = self.p as int;
        if prime(p) && a != 0 {
            axiom_fermat(p, a as int);
            lemma_pow_adds(a as int, 1, (p - 2) as nat);
            lemma_pow1(a as int);
            lemma_mul_mod_noop_right(a as int, pow(a as int, (p - 2) as nat), p);
        }
    }
//@ end
