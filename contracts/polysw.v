//@ import poly
// ---------------------------------------------------------------------------
// fhe-math/src/rq/mod.rs : dropping moduli with rounding
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use std::sync::Arc;
use crate::ctx::at;
pub trait Zeroize { fn zeroize(&mut self); }
impl Zeroize for [u64] {
    /// zeroize: overwrites the values
    #[verifier::external_body]
    fn zeroize(&mut self)
        ensures final(self)@.len() == old(self)@.len(),
    { unimplemented!() }
}
impl<R: RepresentationTag> Poly<R> {
    /// coefficient j is the integer x modulo every modulus
    pub open spec fn is_int(&self, j: int, x: int) -> bool {
        forall|i: int| 0 <= i < self.n() ==> (#[trigger] self.rows()[i])@[j] as int == x % self.p(i)
    }
}
/// x / q rounded to the nearest integer (halves up)
pub open spec fn rnd(x: int, q: int) -> int { (x + q / 2) / q }
/// rounding through the last k moduli in turn
pub open spec fn rnds(x: int, m: Seq<u64>, k: nat) -> int
    decreases k,
{ if k == 0 || m.len() < 2 { x } else { rnds(rnd(x, m.last() as int), m.drop_last(), (k - 1) as nat) } }
/// one more step
pub proof fn lemma_rnds(x: int, m: Seq<u64>, k: nat)
    requires k + 1 < m.len(),
    ensures rnds(x, m, k + 1) == rnd(rnds(x, m, k), m.take(m.len() - k).last() as int),
    decreases k,
{
    let y = rnd(x, m.last() as int);
    if k == 0 {
        assert(m.take(m.len() as int) =~= m);
        assert(rnds(y, m.drop_last(), 0) == y);
        assert(rnds(x, m, 1) == rnds(y, m.drop_last(), 0));
    } else {
        lemma_rnds(y, m.drop_last(), (k - 1) as nat);
        assert(m.drop_last().take(m.len() - 1 - (k - 1)) =~= m.take(m.len() - k));
    }
}
/// the residue computed for one coefficient
#[verifier::opaque]
pub open spec fn swv(xi: int, xl: int, q: int, p: int, inv: int) -> int { ((xi + q / 2 - (xl + q / 2) % q) * inv) % p }
/// two integers with the same residue
proof fn lemma_congr(a: int, b: int, k: int, inv: int, p: int)
    requires p > 0, a - b == k * p,
    ensures (a * inv) % p == (b * inv) % p,
{
    assert(a * inv == (k * inv) * p + b * inv) by (nonlinear_arith) requires a - b == k * p;
    lemma_mod_multiples_vanish(k * inv, b * inv, p);
}
pub proof fn lemma_swv_step(c: int, lz: int, y: int, h: int, xi: int, p: int, inv: int)
    requires p > 0, lz % p == y % p, c == xi + (3 * p - (lz + (p - h % p))),
    ensures (c * inv) % p == ((xi + h - y) * inv) % p,
{
    lemma_fundamental_div_mod(lz, p); lemma_fundamental_div_mod(y, p); lemma_fundamental_div_mod(h, p);
    let k = 2 + y / p - lz / p - h / p;
    assert(c - (xi + h - y) == k * p) by (nonlinear_arith)
        requires k == 2 + y / p - lz / p - h / p, c == xi + (3 * p - (lz + (p - h % p))),
            lz == p * (lz / p) + lz % p, y == p * (y / p) + y % p, h == p * (h / p) + h % p, lz % p == y % p;
    lemma_congr(c, xi + h - y, k, inv, p);
}
pub proof fn lemma_swv(x: int, xi: int, xl: int, q: int, p: int, inv: int)
    requires p > 1, q > 1, xi == x % p, xl == x % q, is_inv(q, inv, p),
    ensures swv(xi, xl, q, p, inv) == rnd(x, q) % p,
{
    reveal(swv);
    let h = q / 2;
    let t = (x + h) / q;
    lemma_add_mod_noop(xl, h, q); lemma_add_mod_noop(x, h, q); lemma_mod_twice(x, q);
    let y = (xl + h) % q;
    assert(y == (x + h) % q);
    lemma_fundamental_div_mod(x + h, q);
    assert(x + h - y == q * t);
    lemma_fundamental_div_mod(x, p);
    let a = xi + h - y;
    assert(q * t - a == (x / p) * p) by (nonlinear_arith) requires x + h - y == q * t, a == xi + h - y, x == p * (x / p) + x % p, xi == x % p;
    lemma_congr(q * t, a, x / p, inv, p);
    assert((q * t) * inv == (q * inv) * t) by (nonlinear_arith);
    lemma_mul_mod_noop_left(q * inv, t, p);
    lemma_small_mod(1, p as nat);
    assert(1 * t == t);
}
//@ fn crates/fhe-math/src/rq/mod.rs Poly<PowerBasis>::switch_down
//@ ret r
//@ pderefs q_last qi
//@ spec
    requires old(self).wf(),
    ensures
        r is Ok <==> old(self).n() >= 2,
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> {
            &&& final(self).wf() && old(self).ctx.next_context == Some(final(self).ctx)
            &&& final(self).allow_variable_time_computations == old(self).allow_variable_time_computations
            &&& forall|j: int, x: int| 0 <= j < old(self).d() && #[trigger] old(self).is_int(j, x) ==> final(self).is_int(j, rnd(x, old(self).ctx.moduli@.last() as int))
        },
//@ loop 0
    invariant
        v_k1 == self.n() - 1,
        *self == (Poly::<PowerBasis> { coefficients: self.coefficients, ..*old(self) }), dims(self.coefficients.rows@, self.n(), self.d()), n_0 == self.d(),
        forall|i: int| 0 <= i < v_k1 ==> (#[trigger] self.rows()[i]) == old(self).rows()[i],
        forall|j: int| i_0 <= j < self.d() ==> self.rows()[v_k1 as int]@[j] == old(self).rows()[v_k1 as int]@[j],
        forall|j: int| 0 <= j < i_0 ==> (#[trigger] self.rows()[v_k1 as int]@[j]) == (old(self).rows()[v_k1 as int]@[j] + q / 2) % q,
//@ loop-start 0
    proof { assert(canon(old(self).rows()[v_k1 as int]@, old(self).p(v_k1 as int))); }
//@ start
    let ghost q = old(self).ctx.moduli@.last() as int;
    let ghost mut rows1 = old(self).rows();
    proof { assert(old(self).ctx.wf_i(old(self).n() - 1)); }
//@ loop-before 1
    let ghost rl = self.rows()[v_k1 as int];
//@ loop 1
    invariant
        v_k1 == self.n() - 1, n_1 == v_k1, old(self).wf(), q_last_div_2 == q / 2, q >= 2,
        *self == (Poly::<PowerBasis> { coefficients: self.coefficients, ..*old(self) }), dims(self.coefficients.rows@, self.n(), self.d()),
        self.rows()[v_k1 as int] == rl,
        forall|j: int| 0 <= j < self.d() ==> (#[trigger] rl@[j]) == (old(self).rows()[v_k1 as int]@[j] + q / 2) % q,
        forall|i: int| i_1 <= i < v_k1 ==> (#[trigger] self.rows()[i]) == old(self).rows()[i],
        forall|i: int, j: int| 0 <= i < i_1 && 0 <= j < self.d() ==> (#[trigger] self.rows()[i]@[j]) == swv(old(self).rows()[i]@[j] as int, old(self).rows()[v_k1 as int]@[j] as int, q, self.p(i), self.ctx.inv_last_qi_mod_qj@[i] as int),
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
//@ loop-start 1
    proof { assert(self.ctx.wf_i(i_1 as int)); assert(self.ctx.inv_i(i_1 as int)); }
    let ghost pi = self.p(i_1 as int);
    let ghost iv = self.ctx.inv_last_qi_mod_qj@[i_1 as int] as int;
//@ loop 2
    invariant
        v_k1 == self.n() - 1, i_1 < v_k1, n_2 == self.d(), old(self).wf(), q_last_div_2 == q / 2, q >= 2,
        pi == self.p(i_1 as int), iv == self.ctx.inv_last_qi_mod_qj@[i_1 as int], self.ctx.wf_i(i_1 as int), self.ctx.inv_i(i_1 as int),
        q_last_div_2_mod_qi == pi - (q / 2) % pi,
        *self == (Poly::<PowerBasis> { coefficients: self.coefficients, ..*old(self) }), dims(self.coefficients.rows@, self.n(), self.d()),
        self.rows()[v_k1 as int] == rl,
        forall|j: int| 0 <= j < self.d() ==> (#[trigger] rl@[j]) == (old(self).rows()[v_k1 as int]@[j] + q / 2) % q,
        forall|i: int| i_1 < i < v_k1 ==> (#[trigger] self.rows()[i]) == old(self).rows()[i],
        forall|i: int, j: int| 0 <= i < i_1 && 0 <= j < self.d() ==> (#[trigger] self.rows()[i]@[j]) == swv(old(self).rows()[i]@[j] as int, old(self).rows()[v_k1 as int]@[j] as int, q, self.p(i), self.ctx.inv_last_qi_mod_qj@[i] as int),
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|j: int| i_2 <= j < self.d() ==> self.rows()[i_1 as int]@[j] == old(self).rows()[i_1 as int]@[j],
        forall|j: int| 0 <= j < i_2 ==> (#[trigger] self.rows()[i_1 as int]@[j]) == swv(old(self).rows()[i_1 as int]@[j] as int, old(self).rows()[v_k1 as int]@[j] as int, q, pi, iv),
        forall|j: int| 0 <= j < i_2 ==> (#[trigger] self.rows()[i_1 as int]@[j]) < pi,
//@ loop-start 2
    proof {
        assert(canon(old(self).rows()[i_1 as int]@, old(self).p(i_1 as int)));
        assert(old(self).rows()[i_1 as int]@[i_2 as int] < pi);
        assert(0 <= (q / 2) % pi < pi);
    }
//@ loop-end 2
    proof {
        reveal(swv);
        let xi = old(self).rows()[i_1 as int]@[i_2 as int] as int;
        let y = rl@[i_2 as int] as int;
        lemma_swv_step(xi + (3 * pi - tmp), tmp - (pi - (q / 2) % pi), y, q / 2, xi, pi, iv);
    }
//@ loop-after 1
    proof { rows1 = self.rows(); }
//@ ret-hint
    proof { if r_ is Ok {
        let (a, b) = (old(self), &*self);
        let nx: Context = *a.ctx.next_context->Some_0;
        assert(nx.wf() && nx.moduli@ == a.ctx.moduli@.drop_last());
        assert forall|i: int| 0 <= i < b.n() implies (#[trigger] b.rows()[i]) == rows1[i] && b.p(i) == a.p(i) by {}
        assert forall|i: int| 0 <= i < b.n() implies canon((#[trigger] b.rows()[i])@, b.p(i)) by { assert(rows1[i] == b.rows()[i]); }
        assert forall|j: int, x: int| 0 <= j < a.d() && #[trigger] a.is_int(j, x) implies b.is_int(j, rnd(x, q)) by {
            assert forall|i: int| 0 <= i < b.n() implies (#[trigger] b.rows()[i])@[j] as int == rnd(x, q) % b.p(i) by {
                assert(a.ctx.wf_i(i) && a.ctx.inv_i(i));
                assert(rows1[i]@[j] == swv(a.rows()[i]@[j] as int, a.rows()[a.n() - 1]@[j] as int, q, a.p(i), a.ctx.inv_last_qi_mod_qj@[i] as int));
                assert(a.rows()[a.n() - 1]@[j] as int == x % a.p(a.n() - 1));
                lemma_swv(x, a.rows()[i]@[j] as int, a.rows()[a.n() - 1]@[j] as int, q, a.p(i), a.ctx.inv_last_qi_mod_qj@[i] as int);
            }
        }
    } }
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<PowerBasis>::switch_down_to
//@ ret r
//@ spec
    requires old(self).wf(), context.wf(),
    ensures
        r is Ok <==> below_ctx(&*old(self).ctx, &**context),
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> {
            &&& final(self).wf() && same(&*final(self).ctx, &**context)
            &&& final(self).allow_variable_time_computations == old(self).allow_variable_time_computations
            &&& forall|j: int, x: int| 0 <= j < old(self).d() && #[trigger] old(self).is_int(j, x) ==> final(self).is_int(j, rnds(x, old(self).ctx.moduli@, (old(self).n() - context.n()) as nat))
        },
//@ loop 0
    invariant
        l_0 == 0, n_0 == niterations, old(self).wf(), context.wf(), self.wf(), niterations == old(self).n() - context.n(), below_ctx(&*old(self).ctx, &**context),
        *self.ctx == at(*old(self).ctx, i_0 as nat),
        self.allow_variable_time_computations == old(self).allow_variable_time_computations,
        i_0 == 0 ==> *self == *old(self), self.d() == old(self).d(),
        forall|j: int, x: int| 0 <= j < old(self).d() && #[trigger] old(self).is_int(j, x) ==> self.is_int(j, rnds(x, old(self).ctx.moduli@, i_0 as nat)),
//@ loop-start 0
    proof {
        let c = *old(self).ctx; let k = i_0 as nat;
        lemma_at(c, k); lemma_at(c, k + 1); lemma_at_next(c, k);
        assert forall|x: int| rnds(x, c.moduli@, k + 1) == rnd(#[trigger] rnds(x, c.moduli@, k), self.ctx.moduli@.last() as int) by { lemma_rnds(x, c.moduli@, k); }
    }
//@ loop-after 0
    proof { let c: Context = *old(self).ctx; lemma_at(c, niterations as nat); }
//@ loop-before 0
    proof { assert(at(*old(self).ctx, 0) == *old(self).ctx); }
//@ end
