//@ import common
//@ import bigint
// ---------------------------------------------------------------------------
// fhe-math/src/zq/mod.rs : struct Modulus, scalar operations
// ---------------------------------------------------------------------------
use vstd::std_specs::bits::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;

// shims for the fields that carry no arithmetic
pub struct Arch { }
impl Arch { #[verifier::external_body] pub fn new() -> Arch { Arch {} } }
#[verifier::reject_recursive_types(T)]
pub struct Uniform<T> { pub lo: T, pub hi: T }
impl Uniform<u64> {
    #[verifier::external_body]
    pub fn new(lo: u64, hi: u64) -> (r: core::result::Result<Uniform<u64>, ()>)
        ensures lo < hi ==> r == core::result::Result::<Uniform<u64>, ()>::Ok(Uniform { lo, hi }),
    { unimplemented!() }
}
pub enum Error { InvalidModulus(u64), Other }
pub type Result<T> = core::result::Result<T, Error>;

//@ struct crates/fhe-math/src/zq/mod.rs Modulus

/// floor(2^128/p) as a 128-bit number split in two words
pub open spec fn barrett_ok(p: int, hi: int, lo: int) -> bool {
    0 <= hi && 0 <= lo < two64()
    && p * (hi * two64() + lo) <= two128() < p * (hi * two64() + lo) + p
}
pub open spec fn opt_ok(p: int, lz: nat) -> bool {
    (pow2(3 * lz) + 1) * two64() < pow2(3 * lz) * (pow2(lz) + 1) * p
}
pub open spec fn lz_ok(p: int, lz: nat) -> bool {
    1 <= lz <= 63 && p < pow2((64 - lz) as nat) && pow2((63 - lz) as nat) <= p
}
impl Modulus {
    /// representation invariant of `Modulus`
    pub open spec fn wf(&self) -> bool {
        &&& 2 <= self.p < 0x4000_0000_0000_0000
        &&& barrett_ok(self.p as int, self.barrett_hi as int, self.barrett_lo as int)
        &&& self.leading_zeros == u64_leading_zeros(self.p)
        &&& lz_ok(self.p as int, self.leading_zeros as nat)
        &&& self.supports_opt ==> opt_ok(self.p as int, self.leading_zeros as nat)
        &&& self.distribution.lo == 0 && self.distribution.hi == self.p
    }
    pub open spec fn opt_ready(&self) -> bool { self.wf() && self.supports_opt }
}
pub open spec fn shoup_of(b: int, p: int) -> int { (b * two64()) / p }

// ---- bit-level facts, as broadcastable lemmas -----------------------------
pub broadcast proof fn b_shr64(x: u128)
    ensures #[trigger] (x >> 64u128) == x / 0x1_0000_0000_0000_0000u128,
{ assert(x >> 64u128 == x / 0x1_0000_0000_0000_0000u128) by(bit_vector); }
pub broadcast proof fn b_trunc64(x: u128)
    ensures (#[trigger] (x as u64)) as int == x as int % two64(),
{
    assert((x as u64) as u128 == x % 0x1_0000_0000_0000_0000u128) by(bit_vector);
}
pub broadcast proof fn b_shl64(x: u64)
    ensures #[trigger] ((x as u128) << 64u128) == x * two64(),
{
    assert((x as u128) << 64u128 == (x as u128) * 0x1_0000_0000_0000_0000u128) by(bit_vector);
}
pub broadcast group bits64 { b_shr64, b_trunc64, b_shl64 }

// ---- arithmetic lemmas ----------------------------------------------------
pub proof fn lemma_mod_unique(a: int, q: int, r: int, p: int)
    requires 0 < p, 0 <= r < p, a == q * p + r,
    ensures a % p == r, a / p == q,
{
    lemma_fundamental_div_mod_converse(a, p, q, r);
}
pub proof fn lemma_mod_shift(a: int, q: int, p: int)
    requires 0 < p,
    ensures (a - q * p) % p == a % p, (a + q * p) % p == a % p, (a + p) % p == a % p, (a - p) % p == a % p,
{
    lemma_mod_multiples_vanish(q, a, p);
    lemma_mod_multiples_vanish(-q, a, p);
    lemma_mod_multiples_vanish(1, a, p);
    lemma_mod_multiples_vanish(-1, a, p);
    assert(p * q == q * p) by(nonlinear_arith);
    assert(p * (-q) == -(q * p)) by(nonlinear_arith);
}

pub proof fn lemma_barrett(p: int, hi: int, lo: int, ah: int, al: int)
    requires
        2 <= p < 0x4000_0000_0000_0000, barrett_ok(p, hi, lo),
        0 <= ah < two64(), 0 <= al < two64(),
    ensures ({
        let a = ah * two64() + al;
        let t = (al * lo) / two64();
        let s = al * hi + ah * lo + t;
        let q = s / two64() + ah * hi;
        &&& 0 <= al * lo < two128() && 0 <= al * hi < two128() && 0 <= ah * lo < two128() && 0 <= ah * hi < two128()
        &&& 0 <= t < two64()
        &&& 0 <= al * hi + ah * lo && 0 <= s < two128()
        &&& 0 <= q && 0 <= q * p <= a && a - q * p < 2 * p && q < two128()
        &&& (a - q * p) % p == a % p
    }),
{
    let w = two64();
    let b = hi * w + lo;
    let a = ah * w + al;
    let t = (al * lo) / w;
    let s = al * hi + ah * lo + t;
    let q = s / w + ah * hi;
    assert(w * w == two128());
    // hi < w
    assert(hi < w) by(nonlinear_arith)
        requires 2 <= p, p * (hi * w + lo) <= w * w, 0 <= lo < w, 0 < w, 0 <= hi;
    assert(0 <= al * lo <= (w - 1) * (w - 1) && 0 <= ah * lo <= (w - 1) * (w - 1)
        && 0 <= al * hi <= (w - 1) * hi && 0 <= ah * hi <= (w - 1) * hi) by(nonlinear_arith)
        requires 0 <= al <= w - 1, 0 <= lo <= w - 1, 0 <= ah <= w - 1, 0 <= hi;
    lemma_fundamental_div_mod(al * lo, w);
    let tr = (al * lo) % w;
    assert(al * lo == w * t + tr && 0 <= tr < w);
    assert(0 <= t < w) by(nonlinear_arith)
        requires al * lo == w * t + tr, 0 <= tr < w, 0 <= al * lo <= (w - 1) * (w - 1), 0 < w;
    // hi + lo < w
    assert(hi + lo < w) by {
        if hi + lo >= w {
            assert(p * (hi + 1) > w) by(nonlinear_arith)
                requires p * (hi * w + lo) + p > w * w, lo <= w - 1, p > 0, 0 < w;
            assert(p * (hi * w + w - hi) <= w * w) by(nonlinear_arith)
                requires p * (hi * w + lo) <= w * w, lo >= w - hi, p > 0;
            assert(p * hi <= w) by(nonlinear_arith)
                requires p * (hi * w + lo) <= w * w, lo >= 0, p > 0, w > 0;
            assert(p * (hi * w + w - hi) == p * (hi + 1) * w - p * hi) by(nonlinear_arith);
            assert(p * (hi + 1) * w >= (w + 1) * w) by(nonlinear_arith) requires p * (hi + 1) >= w + 1, w > 0;
            assert((w + 1) * w == w * w + w) by(nonlinear_arith);
            assert(p * hi == w);
            // then lo == 0
            assert(p * (hi * w + lo) == (p * hi) * w + p * lo) by(nonlinear_arith);
            assert(p * lo <= 0);
            assert(lo == 0) by(nonlinear_arith) requires p * lo <= 0, p > 0, lo >= 0;
            assert(false);
        }
    }
    assert(al * hi + ah * lo <= (w - 1) * (w - 1)) by(nonlinear_arith)
        requires 0 <= al <= w - 1, 0 <= ah <= w - 1, 0 <= hi, 0 <= lo, hi + lo <= w - 1;
    assert((w - 1) * (w - 1) + w < two128()) by(nonlinear_arith) requires w == two64(), w * w == two128();
    lemma_fundamental_div_mod(s, w);
    let sr = s % w;
    let sq = s / w;
    // a*b = q*w^2 + (sr*w + tr)
    assert(a * b == (ah * w) * (hi * w) + (ah * w) * lo + al * (hi * w) + al * lo) by {
        lemma_mul_is_distributive_add_other_way(b, ah * w, al);
        lemma_mul_is_distributive_add(ah * w, hi * w, lo);
        lemma_mul_is_distributive_add(al, hi * w, lo);
    }
    assert((ah * w) * (hi * w) == ah * hi * (w * w)) by(nonlinear_arith);
    assert((ah * w) * lo == (ah * lo) * w) by(nonlinear_arith);
    assert(al * (hi * w) == (al * hi) * w) by(nonlinear_arith);
    assert((al * hi + ah * lo) * w == (al * hi) * w + (ah * lo) * w) by(nonlinear_arith);
    assert((al * hi + ah * lo) * w + al * lo == s * w + tr) by(nonlinear_arith)
        requires al * lo == w * t + tr, s == al * hi + ah * lo + t;
    assert(s * w == sq * (w * w) + sr * w) by(nonlinear_arith) requires s == w * sq + sr;
    assert(q * (w * w) == ah * hi * (w * w) + sq * (w * w)) by(nonlinear_arith) requires q == sq + ah * hi;
    let rho = sr * w + tr;
    assert(a * b == q * two128() + rho);
    assert(0 <= rho < two128()) by(nonlinear_arith)
        requires rho == sr * w + tr, 0 <= sr < w, 0 <= tr < w, w * w == two128();
    assert(sq >= 0) by { lemma_div_pos_is_pos(s, w); }
    assert(q >= 0);
    // q*p <= a
    let d = two128();
    assert(0 <= a < d) by(nonlinear_arith) requires a == ah * w + al, 0 <= ah < w, 0 <= al < w, d == w * w;
    assert(a * b * p <= a * d) by(nonlinear_arith) requires p * b <= d, a >= 0;
    assert((q * p) * d <= a * b * p) by(nonlinear_arith)
        requires a * b == q * d + rho, rho >= 0, p > 0;
    assert(q * p <= a) by(nonlinear_arith) requires (q * p) * d <= a * d, d > 0;
    assert(a * b * p >= a * d - a * p) by(nonlinear_arith) requires p * b + p > d, a >= 0;
    assert(a * b * p < (q + 1) * p * d) by(nonlinear_arith)
        requires a * b == q * d + rho, rho < d, p > 0;
    assert(a * p < p * d) by(nonlinear_arith) requires a < d, p > 0;
    assert((a - (q + 1) * p) * d < p * d) by(nonlinear_arith)
        requires a * d - a * p < (q + 1) * p * d, a * p < p * d;
    assert(a - (q + 1) * p < p) by(nonlinear_arith) requires (a - (q + 1) * p) * d < p * d, d > 0;
    assert((q + 1) * p == q * p + p) by(nonlinear_arith);
    assert(q * p >= 0) by(nonlinear_arith) requires q >= 0, p >= 0;
    assert(q <= q * p) by(nonlinear_arith) requires q >= 0, p >= 1;
    lemma_mod_shift(a, q, p);
}

/// Shoup multiplication
pub proof fn lemma_shoup(a: int, b: int, bs: int, p: int)
    requires 0 < p < 0x4000_0000_0000_0000, 0 <= a < two64(), 0 <= b < p, bs == shoup_of(b, p),
    ensures ({
        let q = (a * bs) / two64();
        &&& 0 <= bs < two64() && 0 <= a * bs < two128() && 0 <= q < two64()
        &&& 0 <= a * b < two128() && 0 <= q * p <= a * b && a * b - q * p < 2 * p
        &&& (a * b - q * p) % p == (a * b) % p
    }),
{
    let w = two64();
    let q = (a * bs) / w;
    lemma_fundamental_div_mod(b * w, p);
    let br = (b * w) % p;
    assert(b * w == p * bs + br && 0 <= br < p);
    assert(bs >= 0) by { assert(b * w >= 0) by(nonlinear_arith) requires b >= 0, w > 0; lemma_div_pos_is_pos(b * w, p); }
    assert(bs < w) by(nonlinear_arith) requires b * w == p * bs + br, br >= 0, b < p, p > 0, w > 0;
    lemma_fundamental_div_mod(a * bs, w);
    let ar = (a * bs) % w;
    assert(0 <= a * bs <= (w - 1) * (w - 1)) by(nonlinear_arith) requires 0 <= a <= w - 1, 0 <= bs <= w - 1;
    assert((w - 1) * (w - 1) < two128()) by(nonlinear_arith) requires w == two64();
    assert(q >= 0) by { lemma_div_pos_is_pos(a * bs, w); }
    assert(q < w) by(nonlinear_arith) requires a * bs == w * q + ar, ar >= 0, a * bs <= (w - 1) * (w - 1), w > 0;
    assert(0 <= a * b < two128()) by(nonlinear_arith) requires 0 <= a < w, 0 <= b < p, p < w, w * w == two128();
    // q*w <= a*bs; q*w*p <= a*bs*p = a*(b*w - br) <= a*b*w
    assert((q * p) * w <= (a * b) * w) by(nonlinear_arith)
        requires a * bs == w * q + ar, ar >= 0, b * w == p * bs + br, br >= 0, a >= 0, p > 0;
    assert(q * p <= a * b) by(nonlinear_arith) requires (q * p) * w <= (a * b) * w, w > 0;
    assert((a * b - q * p) * w == a * br + p * ar) by(nonlinear_arith)
        requires a * bs == w * q + ar, b * w == p * bs + br;
    assert(a * br + p * ar < 2 * p * w) by(nonlinear_arith)
        requires 0 <= a < w, 0 <= br < p, 0 <= ar < w, p > 0;
    assert(a * b - q * p < 2 * p) by(nonlinear_arith) requires (a * b - q * p) * w < 2 * p * w, w > 0;
    assert(q * p >= 0) by(nonlinear_arith) requires q >= 0, p > 0;
    lemma_mod_shift(a * b, q, p);
}

pub proof fn lemma_shoup_bound(b: int, p: int)
    requires 0 < p, 0 <= b < p,
    ensures 0 <= shoup_of(b, p) < two64(), 0 <= b * two64(),
{
    let w = two64();
    lemma_fundamental_div_mod(b * w, p);
    assert(b * w >= 0) by(nonlinear_arith) requires b >= 0, w > 0;
    lemma_div_pos_is_pos(b * w, p);
    let bs = shoup_of(b, p);
    let br = (b * w) % p;
    assert(bs < w) by(nonlinear_arith) requires b * w == p * bs + br, br >= 0, b < p, p > 0, w > 0;
}

pub proof fn lemma_mul_bound(a: int, b: int, p: int)
    requires 0 <= a < p, 0 <= b < p, 0 < p < 0x4000_0000_0000_0000,
    ensures 0 <= a * b < p * p, p * p < two128(), a * b < two128(),
{
    assert(0 <= a * b < p * p) by(nonlinear_arith) requires 0 <= a < p, 0 <= b < p;
    assert(p * p < 0x4000_0000_0000_0000 * 0x4000_0000_0000_0000) by(nonlinear_arith)
        requires 0 < p < 0x4000_0000_0000_0000;
}

// ---------------------------------------------------------------------------
//@ fn crates/fhe-math/src/zq/mod.rs const_time_cond_select
//@ ret r
//@ spec
    ensures r == if cond { on_true } else { on_false },
//@ start
    assert(((on_true ^ on_false) & 0xffff_ffff_ffff_ffffu64) ^ on_false == on_true) by(bit_vector);
    assert(((on_true ^ on_false) & 0u64) ^ on_false == on_false) by(bit_vector);
    assert((-1i64) as u64 == 0xffff_ffff_ffff_ffffu64) by(bit_vector);
    assert(0i64 as u64 == 0u64) by(bit_vector);
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce1
//@ ret r
//@ spec
    requires p < 0x8000_0000_0000_0000, 0 < p, x < 2 * p,
    ensures r == x as int % p as int, r < p, r == if x >= p { x - p } else { x as int },
//@ start
    assert(p >> 63u64 == 0u64) by(bit_vector) requires p < 0x8000_0000_0000_0000u64;
    proof {
        if x < p { lemma_small_mod(x as nat, p as nat); }
        else { lemma_mod_unique(x as int, 1, x - p, p as int); }
    }
//@ end

// the two cfg variants of reduce1_vt (both are checked; see also reduce1_vt__nosimd)
//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce1_vt cfg=target_feature=avx2
//@ ret r
//@ spec
    requires p < 0x8000_0000_0000_0000, 0 < p, x < 2 * p,
    ensures r == x as int % p as int, r < p, r == if x >= p { x - p } else { x as int },
//@ start
    assert(p >> 63u64 == 0u64) by(bit_vector) requires p < 0x8000_0000_0000_0000u64;
    proof {
        if x < p { lemma_small_mod(x as nat, p as nat); }
        else { lemma_mod_unique(x as int, 1, x - p, p as int); }
    }
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce1_vt as=Modulus::reduce1_vt__nosimd
//@ ret r
//@ spec
    requires p < 0x8000_0000_0000_0000, 0 < p, x < 2 * p,
    ensures r == x as int % p as int, r < p, r == if x >= p { x - p } else { x as int },
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::lazy_reduce_u128
//@ ret r
//@ spec
    requires self.wf(),
    ensures r < 2 * self.p, r as int % self.p as int == a as int % self.p as int,
//@ start
    broadcast use bits64;
    proof {
        lemma_barrett(self.p as int, self.barrett_hi as int, self.barrett_lo as int, a as int / two64(), a as int % two64());
        lemma_fundamental_div_mod(a as int, two64());
        lemma_mod_twice(a as int, self.p as int);
        lemma_mod_bound(a as int, self.p as int);
    }
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::lazy_reduce
//@ ret r
//@ spec
    requires self.wf(),
    ensures r < 2 * self.p, r as int % self.p as int == a as int % self.p as int,
//@ start
    broadcast use bits64;
    proof {
        lemma_barrett(self.p as int, self.barrett_hi as int, self.barrett_lo as int, 0, a as int);
    }
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::add
//@ ret r
//@ spec
    requires self.wf(), a < self.p, b < self.p,
    ensures r == (a + b) % (self.p as int), r < self.p,
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::add_vt
//@ ret r
//@ spec
    requires self.wf(), a < self.p, b < self.p,
    ensures r == (a + b) % (self.p as int), r < self.p,
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::sub
//@ ret r
//@ spec
    requires self.wf(), a < self.p, b < self.p,
    ensures r == (a - b) % (self.p as int), r < self.p,
//@ start
    proof { lemma_mod_shift(a - b, 1, self.p as int); }
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::mul
//@ ret r
//@ spec
    requires self.wf(), a < self.p, b < self.p,
    ensures r == (a * b) % (self.p as int), r < self.p,
//@ start
    proof { lemma_mul_bound(a as int, b as int, self.p as int); }
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::mul_vt
//@ ret r
//@ spec
    requires self.wf(), a < self.p, b < self.p,
    ensures r == (a * b) % (self.p as int), r < self.p,
//@ start
    proof { lemma_mul_bound(a as int, b as int, self.p as int); }
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::neg
//@ ret r
//@ spec
    requires self.wf(), a < self.p,
    ensures r == (-a) % (self.p as int), r < self.p,
//@ start
    proof { lemma_mod_shift(-a, 1, self.p as int); }
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::neg_vt
//@ ret r
//@ spec
    requires self.wf(), a < self.p,
    ensures r == (-a) % (self.p as int), r < self.p,
//@ start
    proof { lemma_mod_shift(-a, 1, self.p as int); }
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::shoup
//@ ret r
//@ spec
    requires self.wf(), a < self.p,
    ensures r == shoup_of(a as int, self.p as int),
//@ start
    broadcast use bits64;
    proof { lemma_shoup_bound(a as int, self.p as int); lemma_small_mod(shoup_of(a as int, self.p as int) as nat, two64() as nat); }
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::lazy_mul_shoup
//@ ret r
//@ spec
    requires self.wf(), b < self.p, b_shoup == shoup_of(b as int, self.p as int),
    ensures r < 2 * self.p, r as int % self.p as int == (a * b) % (self.p as int),
//@ start
    broadcast use bits64;
    proof { lemma_shoup(a as int, b as int, b_shoup as int, self.p as int);
        let q = (a * b_shoup) / two64();
        lemma_small_mod((a * b - q * self.p) as nat, two64() as nat);
    }
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::mul_shoup
//@ ret r
//@ spec
    requires self.wf(), b < self.p, b_shoup == shoup_of(b as int, self.p as int),
    ensures r == (a * b) % (self.p as int), r < self.p,
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::mul_shoup_vt
//@ ret r
//@ spec
    requires self.wf(), b < self.p, b_shoup == shoup_of(b as int, self.p as int),
    ensures r == (a * b) % (self.p as int), r < self.p,
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce_u128
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == a as int % self.p as int, r < self.p,
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce_u128_vt
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == a as int % self.p as int, r < self.p,
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == a as int % self.p as int, r < self.p,
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce_vt
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == a as int % self.p as int, r < self.p,
//@ end

// ---- "opt" primes ---------------------------------------------------------
/// For p with `opt_ok`, barrett_hi == 2^lz and barrett_lo leaves enough slack.
pub proof fn lemma_opt(p: int, lz: nat, hi: int, lo: int)
    requires 2 <= p < 0x4000_0000_0000_0000, barrett_ok(p, hi, lo), lz_ok(p, lz), opt_ok(p, lz),
    ensures hi == pow2(lz), lz >= 2,
        (two64() - lo) * pow2(2 * lz) >= two64(),
        pow2(lz) * pow2((64 - lz) as nat) == two64(),
        p * pow2(lz) < two64(),
{
    let w = two64();
    let e = pow2(lz) as int;
    lemma_pow2_pos(lz);
    lemma_pow2_adds(lz, lz);
    lemma_pow2_adds(lz, 2 * lz);
    lemma_pow2_adds(lz, (64 - lz) as nat);
    lemma_pow2_adds(lz, (63 - lz) as nat);
    lemma2_to64();
    lemma2_to64_rest();
    let e2 = pow2(2 * lz) as int;
    let e3 = pow2(3 * lz) as int;
    assert(e2 == e * e);
    assert(e3 == e * e2);
    assert(pow2(64) as int == w);
    if lz < 2 {
        assert(lz == 1);
        assert(pow2(62) == 0x4000_0000_0000_0000);
        assert(false);
    }
    // 2^lz * p < 2^64 hence hi >= 2^lz
    assert(e * p < w) by(nonlinear_arith) requires p < pow2((64 - lz) as nat), e > 0, e * pow2((64 - lz) as nat) == w;
    let b = hi * w + lo;
    assert(hi >= e) by {
        if hi <= e - 1 {
            assert(b <= e * w - 1) by(nonlinear_arith) requires b == hi * w + lo, lo < w, hi <= e - 1, w > 0;
            assert(p * b + p <= (p * e) * w) by(nonlinear_arith) requires b <= e * w - 1, p > 0;
            assert((p * e) * w <= w * w) by(nonlinear_arith) requires e * p < w, w > 0;
            assert(w * w == two128());
            assert(false);
        }
    }
    // p * b <= w^2 and (e3+1) * w < e3 (e+1) p  =>  (e3+1) b < e3 (e+1) w
    assert((e3 + 1) * b < e3 * (e + 1) * w) by {
        assert(w * w == two128());
        assert(e3 > 0) by { lemma_pow2_pos(3 * lz); }
        assert(b >= 0) by(nonlinear_arith) requires b == hi * w + lo, hi >= 0, lo >= 0, w > 0;
        let k = e3 * (e + 1);
        assert(k > 0) by(nonlinear_arith) requires k == e3 * (e + 1), e3 > 0, e > 0;
        if (e3 + 1) * b >= k * w {
            assert(((e3 + 1) * b) * p >= (k * w) * p) by(nonlinear_arith) requires (e3 + 1) * b >= k * w, p > 0;
            assert(((e3 + 1) * b) * p == (e3 + 1) * (p * b)) by(nonlinear_arith);
            assert((e3 + 1) * (p * b) <= (e3 + 1) * (w * w)) by(nonlinear_arith) requires p * b <= w * w, e3 > 0;
            assert((k * w) * p == (k * p) * w) by(nonlinear_arith);
            assert((k * p) * w > ((e3 + 1) * w) * w) by(nonlinear_arith) requires k * p > (e3 + 1) * w, w > 0;
            assert(((e3 + 1) * w) * w == (e3 + 1) * (w * w)) by(nonlinear_arith);
            assert(false);
        }
    }
    assert(e3 >= e) by(nonlinear_arith) requires e3 == e * e2, e2 == e * e, e >= 1;
    assert(hi == e) by {
        if hi >= e + 1 {
            assert(b >= (e + 1) * w) by(nonlinear_arith) requires b == hi * w + lo, lo >= 0, hi >= e + 1, w > 0;
            assert((e3 + 1) * b >= (e3 + 1) * ((e + 1) * w)) by(nonlinear_arith) requires b >= (e + 1) * w, e3 > 0;
            assert((e3 + 1) * ((e + 1) * w) == e3 * (e + 1) * w + (e + 1) * w) by(nonlinear_arith);
            assert((e + 1) * w > 0) by(nonlinear_arith) requires e > 0, w > 0;
            assert(false);
        }
    }
    // (e3+1)(e w + lo) < e3 (e+1) w   =>   (e3+1) (w - lo) > (e + 1) w
    let d = w - lo;
    assert((e3 + 1) * d > (e + 1) * w) by(nonlinear_arith)
        requires (e3 + 1) * b < e3 * (e + 1) * w, b == hi * w + lo, hi == e, d == w - lo;
    assert(d * e2 >= w) by {
        if d * e2 <= w - 1 {
            // (e3+1) d = e e2 d + d <= e (w-1) + w
            assert((e3 + 1) * d == e * (d * e2) + d) by(nonlinear_arith) requires e3 == e * e2;
            assert(e * (d * e2) <= e * (w - 1)) by(nonlinear_arith) requires d * e2 <= w - 1, e > 0;
            assert(e * (w - 1) + w <= (e + 1) * w) by(nonlinear_arith) requires e > 0;
            assert(false);
        }
    }
}

pub proof fn lemma_lazy_opt_u128(p: int, lz: nat, lo: int, hi: int, a: int)
    requires 2 <= p < 0x4000_0000_0000_0000, barrett_ok(p, hi, lo), lz_ok(p, lz), opt_ok(p, lz), 0 <= a < p * p,
    ensures ({
        let s = lo * (a / two64()) + a * pow2(lz);
        let q = s / two64();
        &&& 0 <= a / two64() < two64() && 0 <= lo * (a / two64()) < two128()
        &&& 0 <= a * pow2(lz) < two128()
        &&& 0 <= s < two128() && 0 <= q && 0 <= q * p <= a && a - q * p < 2 * p && q < two128()
        &&& (a - q * p) % p == a % p
    }),
{
    let w = two64();
    let e = pow2(lz) as int;
    lemma_opt(p, lz, hi, lo);
    lemma_pow2_pos(lz);
    lemma_pow2_pos(2 * lz);
    lemma_pow2_adds(lz, lz);
    let e2 = pow2(2 * lz) as int;
    let ah = a / w;
    let al = a % w;
    lemma_fundamental_div_mod(a, w);
    assert(p * p < 0x4000_0000_0000_0000 * 0x4000_0000_0000_0000) by(nonlinear_arith)
        requires 0 < p < 0x4000_0000_0000_0000;
    lemma_div_pos_is_pos(a, w);
    assert(ah < w) by(nonlinear_arith) requires a == w * ah + al, al >= 0, a < w * w, w > 0;
    assert(0 <= lo * ah <= w * ah) by(nonlinear_arith) requires 0 <= lo < w, ah >= 0;
    assert(e >= 1);
    // a * e < p * (p * e) < p * w
    assert(0 <= a * e <= (p * e) * p) by(nonlinear_arith) requires 0 <= a < p * p, e >= 1;
    assert((p * e) * p <= w * p) by(nonlinear_arith) requires p * e < w, p > 0;
    assert(w * p < w * 0x4000_0000_0000_0000) by(nonlinear_arith) requires p < 0x4000_0000_0000_0000, w > 0;
    let s = lo * ah + a * e;
    let q = s / w;
    assert(w * ah <= a);
    assert(s < two128()) by { assert(w * w == two128()); }
    lemma_fundamental_div_mod(s, w);
    let sr = s % w;
    lemma_div_pos_is_pos(s, w);
    let b = e * w + lo;
    assert(w * w == two128());
    // s * w = a * b - lo * al
    assert(s * w == a * b - lo * al) by {
        assert(s * w == (lo * ah) * w + (a * e) * w) by(nonlinear_arith) requires s == lo * ah + a * e;
        assert((lo * ah) * w == lo * (a - al)) by(nonlinear_arith) requires a == w * ah + al;
        assert(a * b == (a * e) * w + a * lo) by(nonlinear_arith) requires b == e * w + lo;
        assert(lo * (a - al) == a * lo - lo * al) by(nonlinear_arith);
    }
    let d = w * w;
    // q * d = s*w - sr*w = a*b - (lo*al + sr*w)
    let rho = lo * al + sr * w;
    assert(q * d == a * b - rho) by(nonlinear_arith) requires s * w == a * b - lo * al, s == w * q + sr, d == w * w, rho == lo * al + sr * w;
    assert(rho >= 0) by(nonlinear_arith) requires rho == lo * al + sr * w, lo >= 0, al >= 0, sr >= 0, w > 0;
    assert(p * b <= d);
    assert(a * b * p <= a * d) by(nonlinear_arith) requires p * b <= d, a >= 0;
    assert((q * p) * d <= a * d) by(nonlinear_arith) requires q * d == a * b - rho, rho >= 0, p > 0, a * b * p <= a * d;
    assert(q * p <= a) by(nonlinear_arith) requires (q * p) * d <= a * d, d > 0;
    assert(q * p >= 0) by(nonlinear_arith) requires q >= 0, p > 0;
    assert(q <= q * p) by(nonlinear_arith) requires q >= 0, p >= 1;
    // (a - q p) d = a (d - p b) + rho p < a p + rho p
    assert((a - q * p) * d == a * (d - p * b) + rho * p) by(nonlinear_arith) requires q * d == a * b - rho;
    assert(a * (d - p * b) <= a * p) by(nonlinear_arith) requires d - p * b < p, a >= 0;
    // rho <= lo * (w-1) + (w-1) * w ;  a < p*p
    assert(rho <= lo * w + (w - 1) * w) by(nonlinear_arith) requires rho == lo * al + sr * w, 0 <= al < w, 0 <= sr < w, lo >= 0;
    // a < p*p and p*e < w  =>  a * e2 < w*w
    assert(a * e2 < d) by(nonlinear_arith) requires 0 <= a < p * p, e2 == e * e, p * e < w, e >= 1, p > 0, d == w * w;
    // (w - lo) * e2 >= w
    // want a + rho < 2 d ; a + lo*w < d : since a*e2 < w*w <= (w-lo)*e2*w
    assert(a < (w - lo) * w) by {
        assert(((w - lo) * e2) * w >= w * w) by(nonlinear_arith) requires (w - lo) * e2 >= w, w > 0;
        assert(((w - lo) * e2) * w == ((w - lo) * w) * e2) by(nonlinear_arith);
        if a >= (w - lo) * w {
            assert(a * e2 >= ((w - lo) * w) * e2) by(nonlinear_arith) requires a >= (w - lo) * w, e2 > 0;
            assert(false);
        }
    }
    assert((w - lo) * w == w * w - lo * w) by(nonlinear_arith);
    assert((w - 1) * w == w * w - w) by(nonlinear_arith);
    assert(a + rho < 2 * d);
    assert(a * p + rho * p == (a + rho) * p) by(nonlinear_arith);
    assert((a + rho) * p < (2 * d) * p) by(nonlinear_arith) requires a + rho < 2 * d, p > 0;
    assert((2 * d) * p == (2 * p) * d) by(nonlinear_arith);
    assert(a - q * p < 2 * p) by(nonlinear_arith) requires (a - q * p) * d < (2 * p) * d, d > 0;
    lemma_mod_shift(a, q, p);
}

pub proof fn lemma_lazy_opt(p: int, lz: nat, lo: int, hi: int, a: int)
    requires 2 <= p < 0x4000_0000_0000_0000, barrett_ok(p, hi, lo), lz_ok(p, lz), opt_ok(p, lz), 0 <= a < two64(),
    ensures ({
        let q = a / pow2((64 - lz) as nat) as int;
        &&& 0 <= q < two64() && 0 <= q * p <= a && a - q * p < 2 * p
        &&& (a - q * p) % p == a % p
    }),
{
    let w = two64();
    let e = pow2(lz) as int;
    let f = pow2((64 - lz) as nat) as int;
    lemma_opt(p, lz, hi, lo);
    lemma_pow2_pos(lz);
    lemma_pow2_pos((64 - lz) as nat);
    lemma_pow2_pos(2 * lz);
    lemma_pow2_adds(lz, lz);
    let e2 = pow2(2 * lz) as int;
    let q = a / f;
    let ar = a % f;
    lemma_fundamental_div_mod(a, f);
    lemma_div_pos_is_pos(a, f);
    assert(q * p <= a) by(nonlinear_arith) requires a == f * q + ar, ar >= 0, p <= f, q >= 0;
    assert(q * p >= 0) by(nonlinear_arith) requires q >= 0, p > 0;
    assert(q <= q * p) by(nonlinear_arith) requires q >= 0, p >= 1;
    assert(q < e) by(nonlinear_arith) requires a == f * q + ar, ar >= 0, a < w, e * f == w, f > 0;
    // a - q p = q (f - p) + ar,  ar < f ; need q (f-p) + (f - 1) < 2p  i.e. (q + 1)(f - p) <= p
    assert(a - q * p == q * (f - p) + ar) by(nonlinear_arith) requires a == f * q + ar;
    // e*w + lo = b, p*b > w*w - p
    // (e (f - p)) = w - e p ; w*w - p < p*(e*w+lo) => (w - e p) * w < p * (lo + 1)
    assert((w - e * p) * w < p * (lo + 1)) by(nonlinear_arith) requires p * (e * w + lo) + p > w * w;
    assert(lo + 1 <= w);
    assert(p * (lo + 1) <= p * w) by(nonlinear_arith) requires lo + 1 <= w, p > 0;
    assert(w - e * p < p) by(nonlinear_arith) requires (w - e * p) * w < p * w, w > 0;
    assert(e * (f - p) == w - e * p) by(nonlinear_arith) requires e * f == w;
    assert((q + 1) * (f - p) <= e * (f - p)) by(nonlinear_arith) requires q + 1 <= e, f >= p;
    assert((q + 1) * (f - p) == q * (f - p) + (f - p)) by(nonlinear_arith);
    lemma_mod_shift(a, q, p);
}

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::lazy_reduce_opt_u128
//@ ret r
//@ spec
    requires self.opt_ready(), a < self.p * self.p,
    ensures r < 2 * self.p, r as int % self.p as int == a as int % self.p as int,
//@ start
    broadcast use bits64;
    proof {
        let p = self.p as int; let lz = self.leading_zeros as nat;
        lemma_lazy_opt_u128(p, lz, self.barrett_lo as int, self.barrett_hi as int, a as int);
        lemma_u128_shl(a, self.leading_zeros);
        lemma_opt(p, lz, self.barrett_hi as int, self.barrett_lo as int);
        assert(p * p < two128()) by(nonlinear_arith) requires 0 < p < 0x4000_0000_0000_0000;
        let q = (self.barrett_lo as int * (a as int / two64()) + a * pow2(lz)) / two64();
        lemma_small_mod((a - q * p) as nat, two64() as nat);
        lemma_mod_twice(a as int, p);
        lemma_mod_bound(a as int, p);
        lemma_small_mod((a as int % p) as nat, two64() as nat);
    }
//@ end

pub proof fn lemma_u128_shl(a: u128, n: u32)
    requires n < 64, a * pow2(n as nat) < two128(),
    ensures (a << n) == a * pow2(n as nat),
    decreases n,
{
    lemma_pow2_pos(n as nat);
    if n > 0 { lemma_pow2_unfold(n as nat); }
    if n == 0 {
        assert(a << 0u32 == a) by(bit_vector);
        lemma2_to64();
    } else {
        let m = (n - 1) as u32;
        assert(pow2(n as nat) == 2 * pow2(m as nat));
        lemma_pow2_pos(m as nat);
        assert(a * pow2(n as nat) == 2 * (a * pow2(m as nat))) by(nonlinear_arith) requires pow2(n as nat) == 2 * pow2(m as nat);
        lemma_u128_shl(a, m);
        let x = a << m;
        assert(a << n == mul(2u128, a << m)) by(bit_vector) requires m == sub(n, 1u32), 0 < n < 64;
    }
}

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::lazy_reduce_opt
//@ ret r
//@ spec
    requires self.opt_ready(),
    ensures r < 2 * self.p, r as int % self.p as int == a as int % self.p as int,
//@ start
    broadcast use bits64;
    proof {
        let p = self.p as int; let lz = self.leading_zeros as nat;
        lemma_lazy_opt(p, lz, self.barrett_lo as int, self.barrett_hi as int, a as int);
        vstd::bits::lemma_u64_shr_is_div(a, (64 - self.leading_zeros) as u64);
        assert((a >> ((64 - self.leading_zeros) as u32)) == (a >> ((64 - self.leading_zeros) as u64)));
        let q = a as int / pow2((64 - lz) as nat) as int;
        lemma_small_mod((a - q * p) as nat, two64() as nat);
    }
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce_opt_u128
//@ ret r
//@ spec
    requires self.opt_ready(), a < self.p * self.p,
    ensures r == a as int % self.p as int, r < self.p,
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce_opt_u128_vt
//@ ret r
//@ spec
    requires self.opt_ready(), a < self.p * self.p,
    ensures r == a as int % self.p as int, r < self.p,
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce_opt
//@ ret r
//@ spec
    requires self.opt_ready(),
    ensures r == a as int % self.p as int, r < self.p,
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce_opt_vt
//@ ret r
//@ spec
    requires self.opt_ready(),
    ensures r == a as int % self.p as int, r < self.p,
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::mul_opt
//@ ret r
//@ spec
    requires self.opt_ready(), a < self.p, b < self.p,
    ensures r == (a * b) % (self.p as int), r < self.p,
//@ start
    proof { lemma_mul_bound(a as int, b as int, self.p as int); }
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::mul_opt_vt
//@ ret r
//@ spec
    requires self.opt_ready(), a < self.p, b < self.p,
    ensures r == (a * b) % (self.p as int), r < self.p,
//@ start
    proof { lemma_mul_bound(a as int, b as int, self.p as int); }
//@ end

/// balanced representative used by the library: [-ceil(p/2), p/2)
pub open spec fn center_of(a: int, p: int) -> int { if a >= p / 2 { a - p } else { a } }

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::center
//@ ret r
//@ spec
    requires self.wf(), a < self.p,
    ensures r == center_of(a as int, self.p as int), (r - a) % (self.p as int) == 0,
        -(self.p as int) <= 2 * r + 1, 2 * r < self.p as int,
//@ start
    proof {
        let p = self.p;
        assert(p >> 1u64 == p / 2) by(bit_vector);
        lemma_mod_shift(0, 1, p as int);
        lemma_small_mod(0, p as nat);
        assert(a as i64 == a) by(bit_vector) requires a < 0x4000_0000_0000_0000u64;
        let d = sub(a as i64, p as i64);
        assert((sub(a as i64, p as i64) as u64) as i64 == sub(a as i64, p as i64)) by(bit_vector);
    }
//@ end

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce_i64
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == a as int % self.p as int, r < self.p,
//@ start
    proof { lemma_reduce_i64(self.p, a); }
//@ end

pub proof fn lemma_reduce_i64(p: u64, a: i64)
    requires 2 <= p < 0x4000_0000_0000_0000,
    ensures ((p as i128) << 64u32) == p * two64(), ((p as i128) << 64i32) == p * two64(),
        0 <= p * two64() + a < 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffff,
        (p * two64() + a) % p as int == a as int % p as int,
{
    assert((p as i128) << 64u32 == mul(p as i128, 0x1_0000_0000_0000_0000i128)) by(bit_vector) requires p < 0x4000_0000_0000_0000u64;
    assert((p as i128) << 64i32 == mul(p as i128, 0x1_0000_0000_0000_0000i128)) by(bit_vector) requires p < 0x4000_0000_0000_0000u64;
    assert(p * two64() < 0x4000_0000_0000_0000 * two64()) by(nonlinear_arith) requires p < 0x4000_0000_0000_0000;
    assert(p * two64() >= 2 * two64()) by(nonlinear_arith) requires p >= 2;
    lemma_mod_shift(a as int, two64(), p as int);
    assert(two64() * p == p * two64()) by(nonlinear_arith);
}

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::reduce_i64_vt
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == a as int % self.p as int, r < self.p,
//@ start
    proof { lemma_reduce_i64(self.p, a); }
//@ end

// ---- exponentiation and inversion ----------------------------------------
use vstd::arithmetic::power::*;
pub open spec fn powm(a: int, n: nat, p: int) -> int { pow(a, n) % p }

pub proof fn lemma_powm_step(a: int, m: nat, p: int, r: int)
    requires 0 < p, r == powm(a, m, p),
    ensures (r * r) % p == powm(a, 2 * m, p),
        ((r * r) % p * a) % p == powm(a, 2 * m + 1, p),
{
    lemma_pow_adds(a, m, m);
    lemma_mul_mod_noop(pow(a, m), pow(a, m), p);
    lemma_pow_adds(a, 2 * m, 1);
    lemma_pow1(a);
    lemma_mul_mod_noop_left(pow(a, 2 * m), a, p);
}

//@ fn crates/fhe-math/src/zq/mod.rs Modulus::pow
//@ ret r
//@ spec
    requires self.wf(), a < self.p, n < self.p,
    ensures r == powm(a as int, n as nat, self.p as int), r < self.p,
//@ start
    proof {
        lemma_pow0(a as int);
        lemma_pow1(a as int);
        lemma_small_mod(1, self.p as nat);
        lemma_small_mod(a as nat, self.p as nat);
        axiom_u64_leading_zeros(n);
        let lz = u64_leading_zeros(n) as u64;
        if n >= 2 {
            lemma_top_bit(n);
        }
    }
//@ loop 0
    invariant
        -1 <= i <= 61, n >= 2,
        r == powm(a as int, (n >> ((i + 1) as u64)) as nat, self.p as int), r < self.p,
    decreases i + 1,
//@ loop-start 0
    proof {
        let m = n >> ((i + 1) as u64);
        let c = n >> (i as u64);
        let iu = i as u64;
        lemma_powm_step(a as int, m as nat, self.p as int, r as int);
        assert(c == mul(2, n >> add(iu, 1)) + (c & 1) && (c & 1 == 0 || c & 1 == 1)) by(bit_vector)
            requires c == n >> iu, iu <= 61;
        assert(m <= 0x7fff_ffff_ffff_ffff) by(bit_vector) requires m == n >> add(iu, 1), iu <= 61;
        assert(n >> (i as isize) == n >> iu);
    }
//@ loop-after 0
    assert(n >> 0u64 == n) by(bit_vector);
//@ end

pub proof fn lemma_top_bit(n: u64)
    requires 2 <= n < 0x4000_0000_0000_0000,
    ensures 2 <= u64_leading_zeros(n) <= 62, n >> ((63 - u64_leading_zeros(n)) as u64) == 1u64,
{
    axiom_u64_leading_zeros(n);
    let lz = u64_leading_zeros(n) as u64;
    assert(lz <= 62 ) by {
        if lz > 62 {
            if lz == 64 { } else {
                assert(n >> 1u64 != 0) by(bit_vector) requires n >= 2;
            }
        }
    }
    let k = sub(63, lz);
    assert(k == 63 - u64_leading_zeros(n));
    assert(k == (63 - u64_leading_zeros(n)) as u64);
    if lz > 0 { assert(sub(64, lz) == (64 - u64_leading_zeros(n)) as u64); }
    assert((n >> k) & 1 != 0);
    assert(lz >= 2) by(bit_vector) requires n < 0x4000_0000_0000_0000u64, (n >> k) & 1 != 0, k == sub(63, lz), lz <= 62;
    assert(lz == 0 || n >> sub(64, lz) == 0);
    assert(n >> k == 1) by(bit_vector) requires k == sub(63, lz), lz <= 62, (n >> k) & 1 != 0, lz == 0 || n >> sub(64, lz) == 0;
}
