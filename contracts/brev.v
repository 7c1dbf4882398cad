//@ import nttnew
//@ import rns
// ---------------------------------------------------------------------------
// Bit reversal is an involution; masks and powers of two; odd multiples
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power2::{pow2, lemma2_to64, lemma2_to64_rest, lemma_pow2_unfold, lemma_pow2_pos, lemma_pow2_strictly_increases, lemma_pow2_adds};

pub proof fn lemma_brev_hi(y: int, t: int, l: nat)
    requires l >= 1, 0 <= y < pow2((l - 1) as nat), t == 0 || t == 1,
    ensures brev(t * pow2((l - 1) as nat) + y, l) == 2 * brev(y, (l - 1) as nat) + t,
    decreases l,
{
    lemma2_to64();
    let q = (l - 1) as nat;
    let x = t * pow2(q) + y;
    if l == 1 {
        assert(x == t);
        assert(brev(x, 1) == (x % 2) * pow2(0) + brev(x / 2, 0));
        assert(brev(y, 0) == 0);
    } else {
        let s = (q - 1) as nat;
        lemma_pow2_unfold(q);
        assert(x == 2 * (t * pow2(s)) + y) by (nonlinear_arith) requires x == t * pow2(q) + y, pow2(q) == 2 * pow2(s);
        assert(x % 2 == y % 2 && x / 2 == t * pow2(s) + y / 2);
        lemma_brev_hi(y / 2, t, q);
        assert(brev(x, l) == (x % 2) * pow2(q) + brev(x / 2, q));
        assert(brev(y, q) == (y % 2) * pow2(s) + brev(y / 2, s));
        let b = y % 2;
        assert(b * pow2(q) == 2 * (b * pow2(s))) by (nonlinear_arith) requires pow2(q) == 2 * pow2(s);
    }
}
/// reversing twice gives back the index
pub proof fn lemma_brev_invol(x: int, l: nat)
    requires 0 <= x < pow2(l),
    ensures brev(brev(x, l), l) == x, 0 <= brev(x, l) < pow2(l),
    decreases l,
{
    lemma2_to64();
    lemma_brev_ext(x, l, 0);
    if l > 0 {
        let q = (l - 1) as nat;
        lemma_pow2_unfold(l);
        lemma_brev_ext(x / 2, q, 0);
        lemma_brev_hi(brev(x / 2, q), x % 2, l);
        lemma_brev_invol(x / 2, q);
    }
}
/// ... so it hits every index once
pub proof fn lemma_brev_inj(x: int, y: int, l: nat)
    requires 0 <= x < pow2(l), 0 <= y < pow2(l), brev(x, l) == brev(y, l),
    ensures x == y,
{ lemma_brev_invol(x, l); lemma_brev_invol(y, l); }

/// masks of a power of two
pub proof fn lemma_mask(x: usize, d: usize)
    requires is_pow2(d as int), d <= 0x1000_0000_0000_0000,
    ensures (x & (d - 1) as usize) == x % d, (x & d) == 0 <==> (x / d) % 2 == 0, (x & d) == 0 <==> (x as int) % (2 * d) < d, x % d < d,
{
    let l = choose|k: nat| d == #[trigger] pow2(k);
    lemma2_to64(); lemma2_to64_rest();
    if l > 60 { lemma_pow2_strictly_increases(60, l); }
    let b = l as u64; let y = x as u64; let e = d as u64;
    if l > 0 { lemma_pow2_strictly_increases(l, 61); } 
    vstd::bits::lemma_u64_shl_is_mul(1, b);
    assert(e == 1u64 << b);
    vstd::bits::lemma_u64_shr_is_div(y, b);
    let q = y >> b;
    assert(q == x as int / d as int);
    assert((y & e) == 0 <==> (q & 1) == 0) by(bit_vector) requires e == 1u64 << b, q == y >> b, b <= 60;
    assert((q & 1) == q % 2) by(bit_vector);
    let m = (e - 1) as u64;
    let r = (y & m);
    let qs = q << b;
    assert(r == sub(y, qs) && r < e && qs <= y) by(bit_vector) requires e == 1u64 << b, q == y >> b, b <= 60, m == sub(e, 1), r == (y & m), qs == q << b;
    lemma_fundamental_div_mod(x as int, d as int);
    assert(q * e <= x) by (nonlinear_arith) requires q == x as int / d as int, e == d, x == d * (x as int / d as int) + x as int % d as int, 0 <= x as int % d as int;
    vstd::bits::lemma_u64_shl_is_mul(q, b);
    assert(qs == q * e);
    assert(qs + r == y);
    assert(r == x as int % d as int) by (nonlinear_arith) requires y as int == q * e + r, y == x, e == d, q == x as int / d as int, x == d * (x as int / d as int) + x as int % d as int;
    assert((x & (d - 1) as usize) == (y & m) as usize) by(bit_vector) requires y == x as u64, m == ((d - 1) as usize) as u64;
    assert((x & d) == (y & e) as usize) by(bit_vector) requires y == x as u64, e == d as u64;
    let h = q as int / 2;
    let u = q as int % 2;
    assert(x == (2 * d) * h + (u * d + r)) by (nonlinear_arith) requires x == q * d + r, q == 2 * h + u;
    assert(0 <= u * d + r < 2 * d) by (nonlinear_arith) requires 0 <= u <= 1, 0 <= r < d;
    lemma_fundamental_div_mod_converse(x as int, 2 * d as int, h, u * d + r);
    assert(u == 0 ==> u * d == 0);
    assert(u == 1 ==> u * d == d);
}
/// odd numbers are invertible modulo powers of two
pub proof fn lemma_odd_cop(e: int, l: nat)
    requires e % 2 == 1,
    ensures coprime(e, pow2(l) as int),
    decreases l,
{
    lemma2_to64();
    if l == 0 { lemma_cop_one(e); lemma_cop_sym(1, e); }
    else {
        lemma_odd_cop(e, (l - 1) as nat);
        lemma_pow2_unfold(l);
        reveal(coprime);
        assert(bez(2, e, -(e / 2), 1));
        assert(coprime(2, e));
        lemma_cop_sym(e, pow2((l - 1) as nat) as int);
        lemma_cop_mul(2, pow2((l - 1) as nat) as int, e);
        lemma_cop_sym(pow2(l) as int, e);
    }
}
/// an inverse of an odd e modulo d
pub open spec fn oinv(e: int, d: int) -> int { choose|x: int| #[trigger] is_inv(e, x, d) }
pub proof fn lemma_oinv(e: int, d: int)
    requires e % 2 == 1, is_pow2(d), d >= 2,
    ensures is_inv(e, oinv(e, d), d),
{
    let l = choose|k: nat| d == #[trigger] pow2(k);
    lemma_odd_cop(e, l);
    lemma_cop_inv(e, d);
}
pub proof fn lemma_oinv_mul(j: int, e: int, d: int)
    requires e % 2 == 1, is_pow2(d), d >= 2, 0 <= j < d,
    ensures (((j * e) % d) * oinv(e, d)) % d == j, (((j * oinv(e, d)) % d) * e) % d == j,
{
    lemma_oinv(e, d);
    let x = oinv(e, d);
    lemma_mul_mod_noop_left(j * e, x, d);
    assert((j * e) * x == j * (e * x)) by (nonlinear_arith);
    lemma_mul_mod_noop_right(j, e * x, d);
    lemma_mul_mod_noop_left(j * x, e, d);
    assert((j * x) * e == j * (e * x)) by (nonlinear_arith);
    lemma_small_mod(j as nat, d as nat);
    assert(j * 1 == j);
}
pub proof fn lemma_odd_inj(j: int, k: int, e: int, d: int)
    requires e % 2 == 1, is_pow2(d), d >= 2, 0 <= j < d, 0 <= k < d, (j * e) % d == (k * e) % d,
    ensures j == k,
{ lemma_oinv_mul(j, e, d); lemma_oinv_mul(k, e, d); }
