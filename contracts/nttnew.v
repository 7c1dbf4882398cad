//@ import ntt
//@ import numth
//@ import modclone
// ---------------------------------------------------------------------------
// Construction of the NTT operator
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::power2::*;
use vstd::std_specs::bits::*;

pub open spec fn is_pow2(n: int) -> bool { exists|k: nat| n == #[trigger] pow2(k) }
// Assumed contracts of std
pub assume_specification [usize::is_power_of_two] (n: usize) -> (r: bool)
    ensures r == is_pow2(n as int);
/// the low l bits of x in reverse order
pub open spec fn brev(x: int, l: nat) -> int
    decreases l,
{
    if l == 0 { 0 } else { (x % 2) * pow2((l - 1) as nat) + brev(x / 2, (l - 1) as nat) }
}
pub assume_specification [usize::reverse_bits] (n: usize) -> (r: usize)
    ensures r == brev(n as int, 64);
/// rand_chacha::ChaCha8Rng: `rng.random_range(0..p)` is assumed to return numbers below p
pub struct ChaCha8Rng { pub g: Ghost<(int, nat)> }
pub uninterp spec fn draw(seed: int, i: nat, p: int) -> int;
impl ChaCha8Rng {
    #[verifier::external_body]
    pub fn seed_from_u64(s: u64) -> (r: ChaCha8Rng)
        ensures r.g@ == (s as int, 0nat),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn random_range(&mut self, r: core::ops::Range<u64>) -> (x: u64)
        requires r.start == 0, r.end > 0,
        ensures x < r.end, final(self).g@ == (old(self).g@.0, old(self).g@.1 + 1),
            x == draw(old(self).g@.0, old(self).g@.1, r.end as int),
    { unimplemented!() }
}
pub open spec fn prim(w: int, n: int, p: int) -> bool {
    pow(w, (2 * n) as nat) % p == 1 && pow(w, n as nat) % p != 1
}
/// Assumption about the generator: one of the first 100 draws of the seed-0
/// stream below p gives a primitive 2n-th root (each does with probability 1/2).
pub axiom fn axiom_draws(p: int, n: int)
    requires prime(p), n >= 8, is_pow2(n), p % (2 * n) == 1,
    ensures exists|i: nat| i < 100 && prim(#[trigger] draw_root(i, p, n), n, p);
pub open spec fn draw_root(i: nat, p: int, n: int) -> int { powm(draw(0, i, p), ((p - 1) / (2 * n)) as nat, p) }

//@ fn crates/fhe-math/src/ntt/mod.rs supports_ntt
//@ ret r
//@ spec
    requires n >= 8, is_pow2(n as int),
    ensures r == (p as int % (2 * n) == 1 && prime(p as int)),
//@ start
    proof {
        let m = n as u128;
        assert(m << 1u128 == 2 * m) by(bit_vector) requires m <= 0xffff_ffff_ffff_ffffu128;
        assert(m << 1 == 2 * m) by(bit_vector) requires m <= 0xffff_ffff_ffff_ffffu128;
    }
//@ end

//@ fn crates/fhe-math/src/ntt/native.rs NttOperator::is_primitive_root
//@ ret r
//@ subst super::supports_ntt => supports_ntt
//@ spec
    requires p.wf(), a < p.p, n >= 16, n % 2 == 0, is_pow2(n as int / 2), n <= 0x4000_0000_0000_0000,
        prime(p.p as int), p.p as int % (n as int) == 1,
    ensures r == prim(a as int, n as int / 2, p.p as int),
//@ start
    proof {
        lemma_half(n);
        lemma_fundamental_div_mod(p.p as int, n as int);
        let q = p.p as int / n as int;
        assert(p.p > n) by(nonlinear_arith) requires p.p as int == n * q + 1, p.p >= 2, n >= 1;
    }
//@ end

//@ fn crates/fhe-math/src/ntt/native.rs NttOperator::primitive_root
//@ ret r
//@ subst super::supports_ntt => supports_ntt
//@ subst SeedableRng::seed_from_u64 => ChaCha8Rng::seed_from_u64
//@ spec
    requires p.wf(), n >= 8, is_pow2(n as int), n <= 0x2000_0000_0000_0000, prime(p.p as int), p.p as int % (2 * n) == 1,
    ensures 0 < r < p.p, prim(r as int, n as int, p.p as int),
//@ start
    proof {
        axiom_draws(p.p as int, n as int);
        assert(!prim(0, n as int, p.p as int)) by {
            assert(pow(0, (2 * n) as nat) == 0 * pow(0, (2 * n - 1) as nat)) by { reveal(pow); }
            lemma_small_mod(0, p.p as nat);
        }
        lemma_fundamental_div_mod(p.p as int - 1, 2 * n as int);
        lemma_div_pos_is_pos(p.p as int - 1, 2 * n as int);
        assert((p.p - 1) / (2 * n as int) < p.p) by { lemma_div_is_ordered_by_denominator(p.p as int - 1, 1, 2 * n as int); lemma_div_basics(p.p as int - 1); }
    }
//@ loop 0
    invariant
        0 <= i_0 <= 100, n_0 == 100, rng.g@ == (0int, i_0 as nat),
        forall|i: nat| i < i_0 ==> !prim(#[trigger] draw_root(i, p.p as int, n as int), n as int, p.p as int),
    decreases n_0 - i_0,
//@ end

pub proof fn lemma_brev_ext(x: int, l: nat, t: nat)
    requires 0 <= x < pow2(l),
    ensures brev(x, l + t) == brev(x, l) * pow2(t), 0 <= brev(x, l) < pow2(l),
    decreases l,
{
    if l == 0 {
        lemma2_to64();
        assert(x == 0);
        lemma_brev0(t);
        assert(0 * pow2(t) == 0);
    } else {
        let q = (l - 1) as nat;
        lemma_pow2_unfold(l);
        lemma_brev_ext(x / 2, q, t);
        lemma_pow2_adds(q, t);
        let a = x % 2;
        let (b, c) = (brev(x / 2, q), pow2(t) as int);
        assert(brev(x, l + t) == a * pow2((q + t) as nat) + brev(x / 2, (q + t) as nat)) by { assert((l + t - 1) as nat == q + t); }
        assert(a * (pow2(q) * c) + b * c == (a * pow2(q) + b) * c) by(nonlinear_arith);
        assert(a == 0 || a == 1);
        assert(0 * pow2(q) == 0 && 1 * pow2(q) == pow2(q));
    }
}
proof fn lemma_brev0(t: nat)
    ensures brev(0, t) == 0,
    decreases t,
{
    if t > 0 { lemma_brev0((t - 1) as nat); assert(0 * pow2((t - 1) as nat) == 0); }
}
/// facts about the bit reversal used by the twiddle tables
pub proof fn lemma_brev_tree(k: int, l: nat)
    requires l >= 1, 0 <= 2 * k < pow2(l),
    ensures
        brev(2 * k, l) * 2 == brev(k, l),
        brev(2 * k + 1, l) * 2 == brev(k, l) + pow2(l),
{
    let q = (l - 1) as nat;
    lemma_pow2_unfold(l);
    assert((2 * k) % 2 == 0 && (2 * k) / 2 == k && (2 * k + 1) % 2 == 1 && (2 * k + 1) / 2 == k);
    assert(0 * pow2(q) == 0 && 1 * pow2(q) == pow2(q));
    lemma_brev_ext(k, q, 1);
    lemma2_to64();
}
pub proof fn lemma_brev_inv(e: nat, i: int, l: nat)
    requires e < l, 0 <= i < pow2(e),
    ensures
        brev(pow2(e) + i, l) == brev(pow2(l) - 2 * pow2(e) + i, l) + 1,
        0 <= pow2(l) - 2 * pow2(e) + i,
    decreases e,
{
    let q = (l - 1) as nat;
    lemma_pow2_unfold(l);
    lemma2_to64();
    if e == 0 {
        // i == 0:  brev(1, l) = 2^(l-1),  brev(2^l - 2, l) = 2^(l-1) - 1
        assert(1int % 2 == 1 && 1int / 2 == 0);
        lemma_brev0(q);
        assert(1 * pow2(q) == pow2(q));
        lemma_pow2_pos(q);
        let y = pow2(l) - 2;
        assert(y % 2 == 0 && y / 2 == pow2(q) - 1);
        lemma_brev_ones(q);
        assert(0 * pow2(q) == 0);
    } else {
        let f = (e - 1) as nat;
        lemma_pow2_unfold(e);
        lemma_brev_inv(f, i / 2, q);
        let x = pow2(e) + i;
        let y = pow2(l) - 2 * pow2(e) + i;
        assert(x % 2 == i % 2 && x / 2 == pow2(f) + i / 2);
        assert(y % 2 == i % 2 && y / 2 == pow2(q) - 2 * pow2(f) + i / 2);
    }
}
proof fn lemma_brev_ones(l: nat)
    ensures brev(pow2(l) - 1, l) == pow2(l) - 1,
    decreases l,
{
    lemma2_to64();
    if l > 0 {
        let q = (l - 1) as nat;
        lemma_pow2_unfold(l);
        lemma_brev_ones(q);
        lemma_pow2_pos(q);
        assert((pow2(l) - 1) % 2 == 1 && (pow2(l) - 1) / 2 == pow2(q) - 1);
        assert(1 * pow2(q) == pow2(q));
    }
}
/// a 2n-th root that is not an n-th root satisfies w^n = -1
pub proof fn lemma_minus_one(w: int, n: nat, p: int)
    requires prime(p), prim(w, n as int, p), 
    ensures eqm(pow(w, n), -1, p),
{
    lemma_pow_adds(w, n, n);
    let x = pow(w, n);
    assert(2 * n == n + n);
    lemma_small_mod(1, p as nat);
    eqm_get(x * x, 1, p);
    eqm_get(x, 1, p);
    let y = (x - 1) % p;
    lemma_mod_bound(x - 1, p);
    eqm_self(x - 1, p);
    lemma_eqm_iff(x, 1, p);
    assert(y != 0);
    axiom_fermat(p, y);
    let z = pow(y, (p - 2) as nat);
    lemma_pow_adds(y, 1, (p - 2) as nat);
    lemma_pow1(y);
    assert(1 + (p - 2) as nat == (p - 1) as nat);
    eqm_get(y * z, 1, p);
    // (x-1)(x+1) == 0
    eqm_refl(1, p);
    eqm_add(x * x, 1, 1, 1, p);
    assert((x - 1) * (x + 1) == x * x - 1) by(nonlinear_arith);
    eqm_mulc(y, x - 1, x + 1, p);
    eqm_trans(y * (x + 1), (x - 1) * (x + 1), 0, p);
    eqm_mulc(y * (x + 1), 0, z, p);
    assert(0 * z == 0);
    assert((y * (x + 1)) * z == (y * z) * (x + 1)) by(nonlinear_arith);
    eqm_mulc(y * z, 1, x + 1, p);
    assert(1 * (x + 1) == x + 1);
    eqm_sym((y * z) * (x + 1), x + 1, p);
    eqm_trans(x + 1, (y * z) * (x + 1), 0, p);
    eqm_add(x + 1, 0, 1, 1, p);
}
pub open spec fn tw(om: Seq<u64>, w: int, lg: nat, n: int, p: int) -> bool {
    om.len() == n && forall|k: int| 0 <= k < n ==> eqm(#[trigger] om[k] as int, pow(w, brev(k, lg) as nat), p)
}
pub open spec fn twi(z: Seq<u64>, wi: int, lg: nat, n: int, p: int) -> bool {
    z.len() == n && forall|k: int| 0 <= k < n ==> eqm(#[trigger] z[k] as int, pow(wi, (brev(k, lg) + 1) as nat), p)
}
pub proof fn lemma_tree(om: Seq<u64>, w: int, lg: nat, n: int, p: int)
    requires prime(p), lg >= 1, n == pow2(lg), prim(w, n, p), tw(om, w, lg, n, p),
    ensures tree_ok(om, n, p),
{
    lemma_minus_one(w, n as nat, p);
    lemma2_to64();
    lemma_pow2_unfold(lg);
    assert forall|k: int| 1 <= k < n implies eqm((#[trigger] om[k]) as int * om[k] as int, cst(om, k), p) by {
        lemma_brev_ext(k, lg, 0);
        let b = brev(k, lg) as nat;
        let x = pow(w, b);
        eqm_mul(om[k] as int, x, om[k] as int, x, p);
        lemma_pow_adds(w, b, b);
        let s = pow(w, b + b);
        let h = k / 2;
        assert(k == 2 * h || k == 2 * h + 1);
        lemma_brev_tree(h, lg);
        lemma_brev_ext(h, lg, 0);
        let bh = brev(h, lg) as nat;
        if k == 1 {
            lemma_brev0(lg);
            assert(b + b == n);
            eqm_trans(om[k] as int * om[k] as int, s, -1, p);
        } else if k == 2 * h {
            assert(b + b == bh);
            eqm_sym(om[h] as int, pow(w, bh), p);
            eqm_trans(om[k] as int * om[k] as int, s, om[h] as int, p);
            assert(k % 2 == 0);
        } else {
            assert(b + b == bh + n);
            lemma_pow_adds(w, bh, n as nat);
            eqm_sym(om[h] as int, pow(w, bh), p);
            eqm_mul(pow(w, bh), om[h] as int, pow(w, n as nat), -1, p);
            assert(om[h] * (-1) == -(om[h] as int));
            eqm_trans(om[k] as int * om[k] as int, s, -(om[h] as int), p);
            assert(k % 2 == 1);
        }
    }
}
proof fn lemma_pow_mul(a: int, b: int, k: nat)
    ensures pow(a, k) * pow(b, k) == pow(a * b, k),
    decreases k,
{
    lemma_pow0(a); lemma_pow0(b); lemma_pow0(a * b);
    if k > 0 {
        let q = (k - 1) as nat;
        lemma_pow_mul(a, b, q);
        assert(pow(a, k) == a * pow(a, q) && pow(b, k) == b * pow(b, q) && pow(a * b, k) == (a * b) * pow(a * b, q)) by { reveal(pow); }
        let (x, y) = (pow(a, q), pow(b, q));
        assert((a * x) * (b * y) == (a * b) * (x * y)) by(nonlinear_arith);
    }
}
pub proof fn lemma_zetas(om: Seq<u64>, z: Seq<u64>, w: int, wi: int, lg: nat, n: int, p: int)
    requires p >= 2, n == pow2(lg), eqm(w * wi, 1, p), tw(om, w, lg, n, p), twi(z, wi, lg, n, p),
    ensures forall|e: nat| e < lg ==> #[trigger] zlvl(z, om, n, e, p),
{
    assert forall|e: nat| e < lg implies #[trigger] zlvl(z, om, n, e, p) by {
        let m = pow2(e) as int;
        let k = n - 2 * m;
        lemma_pow2_unfold(e + 1);
        assert(2 * m <= n) by { if e + 1 < lg { lemma_pow2_strictly_increases(e + 1, lg); } }
        assert forall|b: int| 0 <= b < m implies eqm(z[k + b] * #[trigger] om[m + b], 1, p) by {
            lemma_brev_inv(e, b, lg);
            lemma_brev_ext(k + b, lg, 0);
            lemma_brev_ext(m + b, lg, 0);
            let t = brev(m + b, lg) as nat;
            assert((brev(k + b, lg) + 1) as nat == t);
            eqm_mul(z[k + b] as int, pow(wi, t), om[m + b] as int, pow(w, t), p);
            lemma_pow_mul(wi, w, t);
            assert(wi * w == w * wi) by(nonlinear_arith);
            eqm_pow(w * wi, 1, t, p);
            lemma1_pow(t);
            eqm_trans(z[k + b] * om[m + b], pow(w * wi, t), 1, p);
        }
    }
}

pub proof fn lemma_pow2_big(n: int)
    requires is_pow2(n), n > 0x1000_0000_0000_0000,
    ensures n >= 0x2000_0000_0000_0000,
{
    lemma2_to64(); lemma2_to64_rest();
    let k = choose|k: nat| n == #[trigger] pow2(k);
    if k < 61 { if k < 60 { lemma_pow2_strictly_increases(k, 60); } }
    if k > 61 { lemma_pow2_strictly_increases(61, k); }
}
pub proof fn lemma_lgs(size: usize, lg: nat)
    requires size == pow2(lg), 8 <= size <= 0x1000_0000_0000_0000,
    ensures 3 <= lg <= 60, u64_leading_zeros(size as u64) == 63 - lg,
{
    lemma2_to64(); lemma2_to64_rest();
    if lg < 3 { lemma_pow2_strictly_increases(lg, 3); }
    if lg > 60 { lemma_pow2_strictly_increases(60, lg); }
    axiom_u64_leading_zeros(size as u64);
    let b = lg as u64;
    let x = size as u64;
    vstd::bits::lemma_u64_shl_is_mul(1, b);
    assert(x == 1u64 << b);
    let lz = u64_leading_zeros(x) as u64;
    let k = sub(63, lz);
    assert(lz != 64);
    assert(k == (63 - lz) as u64);
    assert((x >> k) & 1 != 0);
    if lz > 0 { assert(sub(64, lz) == (64 - lz) as u64); }
    assert(lz == 0 || x >> sub(64, lz) == 0);
    assert(lz == sub(63, b)) by(bit_vector)
        requires 3 <= b <= 60, lz < 64, x == 1u64 << b, k == sub(63, lz), (x >> k) & 1 != 0, lz == 0 || x >> sub(64, lz) == 0;
}
proof fn lemma_new(p: int, n: int)
    requires 2 <= p, n >= 8, p % (2 * n) == 1,
    ensures n < p, n % p == n, n % p != 0,
{
    lemma_fundamental_div_mod(p, 2 * n);
    let q = p / (2 * n);
    assert(p > 2 * n) by(nonlinear_arith) requires p == (2 * n) * q + 1, p >= 2, n >= 1;
    lemma_small_mod(n as nat, p as nat);
}
pub proof fn lemma_rev_shift(size: usize, i: usize, lg: nat)
    requires size == pow2(lg), 3 <= lg <= 60, i < size,
    ensures
        forall|r: usize| r == brev(i as int, 64) ==> #[trigger] (r >> ((63 - lg + 1) as u32)) == brev(i as int, lg),
        0 <= brev(i as int, lg) < size,
{
    lemma_brev_ext(i as int, lg, (64 - lg) as nat);
    lemma_pow2_pos((64 - lg) as nat);
    assert(lg + (64 - lg) as nat == 64);
    assert forall|r: usize| r == brev(i as int, 64) implies #[trigger] (r >> ((63 - lg + 1) as u32)) == brev(i as int, lg) by {
        let t = (64 - lg) as nat;
        vstd::bits::lemma_u64_shr_is_div(r as u64, t as u64);
        let b = brev(i as int, lg);
        lemma_div_multiples_vanish(b, pow2(t) as int);
        assert(b * pow2(t) == pow2(t) * b) by(nonlinear_arith);
        let (ru, tu) = (r as u64, t as u64);
        let s32 = (63 - lg + 1) as u32;
        assert(s32 == tu);
        assert(r >> s32 == (ru >> tu) as usize) by(bit_vector) requires ru == r as u64, s32 as u64 == tu;
    }
}

impl NttOperator {
    /// the twiddle table is that of some primitive 2n-th root
    pub open spec fn rooted(&self) -> bool { isrooted(self.omegas@, self.size as int, self.p.p as int) }
}
#[verifier::opaque]
pub open spec fn isrooted(om: Seq<u64>, n: int, p: int) -> bool { exists|w: int| #[trigger] hroot(w, om, n, p) }
pub open spec fn hroot(w: int, om: Seq<u64>, n: int, p: int) -> bool { 0 < w < p && prim(w, n, p) && tw(om, w, lgc(n), n, p) }
//@ fn crates/fhe-math/src/ntt/native.rs NttOperator::new
//@ ret r
//@ subst super::supports_ntt => supports_ntt
//@ subst size.leading_zeros() => (size as u64).leading_zeros()
//@ spec
    requires p.wf(), size >= 8, is_pow2(size as int),
    ensures
        r is Some <==> p.p as int % (2 * size) == 1 && prime(p.p as int),
        r matches Some(op) ==> op.p == *p && op.size == size && op.wfx() && op.rooted(),
//@ start
    let ghost lg = lgc(size as int);
    let ghost n = size as int;
    let ghost pp = p.p as int;
    proof {
        if pp % (2 * n) == 1 && size > 0x1000_0000_0000_0000 {
            lemma_pow2_big(n);
            lemma_small_mod(pp as nat, (2 * n) as nat);
        }
    }
    proof { if size <= 0x1000_0000_0000_0000 { lemma_lgs(size, lg); } if pp % (2 * n) == 1 { lemma_new(pp, n); lemma_small_mod(1, pp as nat); } reveal(eqm); }
//@ vec 0 u64
//@ vec 1 u64
//@ loop 0
    invariant
        i_0 <= n_0, n_0 == size, out_0@.len() == i_0, next_0 < pp, next_0 == powm(omega as int, i_0 as nat, pp),
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] out_0@[k]) == powm(omega as int, k as nat, pp) && out_0@[k] < pp,
//@ loop-before 0
    proof { lemma_pow0(omega as int); lemma_small_mod(1, pp as nat); }
//@ loop-start 0
    proof {
        lemma_pow_adds(omega as int, i_0 as nat, 1); lemma_pow1(omega as int);
        lemma_mul_mod_noop_left(pow(omega as int, i_0 as nat), omega as int, pp);
    }
//@ loop 1
    invariant
        i_1 <= n_1, n_1 == size, out_1@.len() == i_1, next_1 < pp, next_1 == powm(omega_inv as int, (i_1 + 1) as nat, pp),
        forall|k: int| 0 <= k < i_1 ==> (#[trigger] out_1@[k]) == powm(omega_inv as int, (k + 1) as nat, pp) && out_1@[k] < pp,
//@ loop-before 1
    proof { lemma_pow1(omega_inv as int); lemma_small_mod(omega_inv as nat, pp as nat); }
//@ loop-start 1
    proof {
        lemma_pow_adds(omega_inv as int, (i_1 + 1) as nat, 1); lemma_pow1(omega_inv as int);
        lemma_mul_mod_noop_left(pow(omega_inv as int, (i_1 + 1) as nat), omega_inv as int, pp);
    }
//@ loop 2
    invariant
        i_2 <= n_2, n_2 == size, outa_2@.len() == i_2, outb_2@.len() == i_2,
        canon(outa_2@, pp), canon(outb_2@, pp),
        forall|k: int| 0 <= k < i_2 ==> (#[trigger] outa_2@[k]) == powm(omega as int, brev(k, lg) as nat, pp),
        forall|k: int| 0 <= k < i_2 ==> (#[trigger] outb_2@[k]) == powm(omega_inv as int, (brev(k, lg) + 1) as nat, pp),
//@ loop-start 2
    proof { lemma_rev_shift(size, i_2, lg); }
//@ loop-after 2
    proof {
        reveal(eqm);
        assert forall|k: int| 0 <= k < n implies eqm(#[trigger] outa_2@[k] as int, pow(omega as int, brev(k, lg) as nat), pp) by {
            eqm_self(pow(omega as int, brev(k, lg) as nat), pp);
        }
        assert forall|k: int| 0 <= k < n implies eqm(#[trigger] outb_2@[k] as int, pow(omega_inv as int, (brev(k, lg) + 1) as nat), pp) by {
            eqm_self(pow(omega_inv as int, (brev(k, lg) + 1) as nat), pp);
        }
        lemma_tree(outa_2@, omega as int, lg, n, pp);
        lemma_zetas(outa_2@, outb_2@, omega as int, omega_inv as int, lg, n, pp);
        assert(hroot(omega as int, outa_2@, n, pp));
        reveal(isrooted);
        assert(isrooted(outa_2@, n, pp));
    }
//@ end
