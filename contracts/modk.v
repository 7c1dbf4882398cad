//@ import common
// ---------------------------------------------------------------------------
// Congruences modulo p over the mathematical integers
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power::*;

#[verifier::opaque]
pub open spec fn eqm(a: int, b: int, p: int) -> bool { a % p == b % p }

pub proof fn lemma_eqm_iff(a: int, b: int, p: int)
    requires 0 < p,
    ensures eqm(a, b, p) <==> (a - b) % p == 0,
{
    reveal(eqm);
    lemma_fundamental_div_mod(a, p);
    lemma_fundamental_div_mod(b, p);
    if eqm(a, b, p) {
        assert(a - b == p * (a / p - b / p)) by(nonlinear_arith)
            requires a == p * (a / p) + a % p, b == p * (b / p) + b % p, a % p == b % p;
        lemma_mod_multiples_basic(a / p - b / p, p);
        assert(p * (a / p - b / p) == (a / p - b / p) * p) by(nonlinear_arith);
    }
    if (a - b) % p == 0 {
        lemma_fundamental_div_mod(a - b, p);
        let k = (a - b) / p;
        assert(a == p * k + b);
        lemma_mod_multiples_vanish(k, b, p);
    }
}
pub proof fn eqm_of(a: int, b: int, k: int, p: int)
    requires 0 < p, a == b + k * p,
    ensures eqm(a, b, p),
{
    reveal(eqm);
    lemma_mod_multiples_vanish(k, b, p);
    assert(p * k == k * p) by(nonlinear_arith);
}
pub proof fn eqm_wit(a: int, b: int, p: int) -> (k: int)
    requires 0 < p, eqm(a, b, p),
    ensures a == b + k * p,
{
    reveal(eqm);
    lemma_fundamental_div_mod(a, p);
    lemma_fundamental_div_mod(b, p);
    let k = a / p - b / p;
    assert(a == b + k * p) by(nonlinear_arith)
        requires a == p * (a / p) + a % p, b == p * (b / p) + b % p, a % p == b % p, k == a / p - b / p;
    k
}
pub proof fn eqm_add(a: int, b: int, c: int, d: int, p: int)
    requires 0 < p, eqm(a, b, p), eqm(c, d, p),
    ensures eqm(a + c, b + d, p), eqm(a - c, b - d, p),
{
    let x = eqm_wit(a, b, p);
    let y = eqm_wit(c, d, p);
    assert(a + c == (b + d) + (x + y) * p) by(nonlinear_arith) requires a == b + x * p, c == d + y * p;
    assert(a - c == (b - d) + (x - y) * p) by(nonlinear_arith) requires a == b + x * p, c == d + y * p;
    eqm_of(a + c, b + d, x + y, p);
    eqm_of(a - c, b - d, x - y, p);
}
pub proof fn eqm_mul(a: int, b: int, c: int, d: int, p: int)
    requires 0 < p, eqm(a, b, p), eqm(c, d, p),
    ensures eqm(a * c, b * d, p),
{
    let x = eqm_wit(a, b, p);
    let y = eqm_wit(c, d, p);
    assert((x * p) * c == (x * c) * p) by(nonlinear_arith);
    assert((b + x * p) * c == b * c + (x * p) * c) by(nonlinear_arith);
    assert(b * (y * p) == (y * b) * p) by(nonlinear_arith);
    assert(b * (d + y * p) == b * d + b * (y * p)) by(nonlinear_arith);
    assert((x * c + y * b) * p == (x * c) * p + (y * b) * p) by(nonlinear_arith);
    eqm_of(a * c, b * d, x * c + y * b, p);
}
pub proof fn eqm_self(a: int, p: int)
    requires 0 < p,
    ensures eqm(a % p, a, p),
{
    reveal(eqm);
    lemma_mod_twice(a, p);
}
pub proof fn eqm_pow(a: int, b: int, k: nat, p: int)
    requires 0 < p, eqm(a, b, p),
    ensures eqm(pow(a, k), pow(b, k), p),
    decreases k,
{
    if k == 0 {
        lemma_pow0(a);
        lemma_pow0(b);
        eqm_refl(1, p);
    } else {
        eqm_pow(a, b, (k - 1) as nat, p);
        assert(pow(a, k) == a * pow(a, (k - 1) as nat)) by { reveal(pow); }
        assert(pow(b, k) == b * pow(b, (k - 1) as nat)) by { reveal(pow); }
        eqm_mul(a, b, pow(a, (k - 1) as nat), pow(b, (k - 1) as nat), p);
    }
}
pub proof fn eqm_small(a: int, b: int, p: int)
    requires 0 <= a < p, 0 <= b < p, eqm(a, b, p),
    ensures a == b,
{
    reveal(eqm);
    lemma_small_mod(a as nat, p as nat);
    lemma_small_mod(b as nat, p as nat);
}
pub proof fn eqm_get(a: int, b: int, p: int)
    ensures eqm(a, b, p) <==> a % p == b % p,
{
    reveal(eqm);
}
pub proof fn eqm_refl(a: int, p: int)
    ensures eqm(a, a, p),
{
    reveal(eqm);
}
pub proof fn eqm_sym(a: int, b: int, p: int)
    requires eqm(a, b, p),
    ensures eqm(b, a, p),
{
    reveal(eqm);
}
pub proof fn eqm_trans(a: int, b: int, c: int, p: int)
    requires eqm(a, b, p), eqm(b, c, p),
    ensures eqm(a, c, p),
{
    reveal(eqm);
}
/// equality is an equivalence
pub broadcast proof fn eqm_eqv(a: int, b: int, p: int)
    ensures #[trigger] eqm(a, b, p) ==> eqm(b, a, p),
{
    reveal(eqm);
}
pub proof fn eqm_mulc(a: int, b: int, k: int, p: int)
    requires 0 < p, eqm(a, b, p),
    ensures eqm(a * k, b * k, p), eqm(k * a, k * b, p),
{
    eqm_refl(k, p);
    eqm_mul(a, b, k, k, p);
    assert(k * a == a * k && k * b == b * k) by(nonlinear_arith);
}
pub proof fn eqm_eq2(a: int, b: int, c: int, d: int, p: int)
    requires 0 < p, eqm(b, c, p), eqm(d, c, p),
    ensures eqm(a, b, p) ==> eqm(a, d, p),
{
    reveal(eqm);
}
