//@ import linop
//@ import ctsw
// ---------------------------------------------------------------------------
// Dropping moduli from a pair (a0, a1): the phase is divided, up to a small error
// (no code; over the contracts of polysw.v)
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use std::sync::Arc;
use crate::modk::*;
use crate::nttm::*;
use crate::ringmul::*;
use crate::rns::*;
broadcast use group_poly;
/// the polynomial x in NTT form (it can be built: any canonical rows make a polynomial)
pub uninterp spec fn ntt_form(c: Arc<Context>, x: Seq<int>) -> Poly<Ntt>;
pub axiom fn axiom_ntt_form(c: Arc<Context>, x: Seq<int>)
    requires c.wf(), x.len() == c.d(),
    ensures ntt_form(c, x).wf(), ntt_form(c, x).ctx == c, ntt_form(c, x).isx(x);
/// product of the last k moduli
pub open spec fn prodl(m: Seq<u64>, k: nat) -> int
    decreases k,
{ if k == 0 || m.len() < 2 { 1 } else { m.last() * prodl(m.drop_last(), (k - 1) as nat) } }
pub proof fn lemma_rnds_err(x: int, m: Seq<u64>, k: nat)
    requires forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] >= 2,
    ensures prodl(m, k) >= 1, -prodl(m, k) < prodl(m, k) * rnds(x, m, k) - x < prodl(m, k),
    decreases k,
{
    if k == 0 || m.len() < 2 { }
    else {
        let q = m.last() as int; let y = rnd(x, q); let n = m.drop_last();
        lemma_rnds_err(y, n, (k - 1) as nat);
        let (p1, r) = (prodl(n, (k - 1) as nat), rnds(x, m, k));
        assert(r == rnds(y, n, (k - 1) as nat));
        let h = q / 2;
        lemma_fundamental_div_mod(x + h, q); lemma_mod_bound(x + h, q);
        let e = q * y - x;
        assert(-h <= e <= h && 2 * h <= q);
        let p = q * p1; let u = p1 * r - y;
        assert(p * r - x == q * u + e) by (nonlinear_arith) requires p == q * p1, u == p1 * r - y, e == q * y - x;
        assert(-(q * (p1 - 1)) <= q * u <= q * (p1 - 1)) by (nonlinear_arith) requires -(p1 - 1) <= u <= p1 - 1, q > 0;
        assert(q * (p1 - 1) == p - q) by (nonlinear_arith) requires p == q * p1;
        assert(p >= 1) by (nonlinear_arith) requires p == q * p1, q >= 2, p1 >= 1;
    }
}
/// a + b is z and b is y: a is z - y
pub proof fn lemma_isx_cancel(a: &Poly<Ntt>, b: &Poly<Ntt>, z: Seq<int>, y: Seq<int>)
    requires a.like(b), padd(*a, *b).isx(z), b.isx(y),
    ensures a.isx(xsub(z, y)),
{
    let u = padd(*a, *b); lemma_like(a, b); assert(u.like(b));
    lemma_isx_sub(u, *b, z, y);
    let v = psub(u, *b);
    assert(v.like(a));
    assert forall|i: int, j: int| 0 <= i < v.n() && 0 <= j < v.d() implies #[trigger] ent(&v, i, j) == ent(a, i, j) by {
        let p = a.p(i); assert(a.ctx.wf_i(i) && b.ctx.wf_i(i)); assert(p == u.p(i) && p == b.p(i));
        assert(canon(a.rows()[i]@, p) && canon(b.rows()[i]@, p));
        assert(radd(u.rows()[i]@, a.rows()[i]@, b.rows()[i]@, p)); assert(rsub(v.rows()[i]@, u.rows()[i]@, b.rows()[i]@, p));
        let (x, w) = (ent(a, i, j), ent(b, i, j));
        assert(ent(&u, i, j) == (x + w) % p); assert(ent(&v, i, j) == ((x + w) % p - w) % p);
        assert(x == ((x + w) % p - w) % p) by { lemma_sub_mod_noop_right((x + w) % p, w, p); lemma_sub_mod_noop(x + w, w, p); lemma_sub_mod_noop((x + w) % p, w, p); lemma_mod_twice(x + w, p); assert(x + w - w == x); lemma_small_mod(x as nat, p as nat); }
    }
    lemma_veq_isx(&v, a, xsub(z, y));
}
/// b is a with the last k moduli dropped
pub open spec fn drops(a: &Poly<Ntt>, b: &Poly<Ntt>, k: nat) -> bool { forall|x: Seq<int>| #[trigger] a.isx(x) ==> b.isx(xrnds(x, a.ctx.moduli@, k)) }
/// dropping k moduli divides the phase by their product P, up to 1 + n |s|
pub proof fn lemma_drop_pair(a0: &Poly<Ntt>, a1: &Poly<Ntt>, sa: &Poly<Ntt>, b0: &Poly<Ntt>, b1: &Poly<Ntt>, sb: &Poly<Ntt>, k: nat, s: Seq<int>, bs: int, z: Seq<int>, x1: Seq<int>) -> (z2: Seq<int>)
    requires a0.like(a1), a1.like(sa), a0.like(sa), b0.like(b1), b1.like(sb), sa.isx(s), sb.isx(s), smallx(s, bs), 0 <= bs, a1.isx(x1), padd(*a0, pmul(*a1, *sa)).isx(z), drops(a0, b0, k), drops(a1, b1, k), b0.d() == a0.d(), a0.ctx.moduli@ == a1.ctx.moduli@,
    ensures padd(*b0, pmul(*b1, *sb)).isx(z2), z2.len() == z.len() == a0.d(), prodl(a0.ctx.moduli@, k) >= 1, forall|j: int| 0 <= j < z.len() ==> -(prodl(a0.ctx.moduli@, k) * (1 + a0.d() * bs)) <= prodl(a0.ctx.moduli@, k) * #[trigger] z2[j] - z[j] <= prodl(a0.ctx.moduli@, k) * (1 + a0.d() * bs),
{
    let m = a0.ctx.moduli@; let P = prodl(m, k); let n = a0.d();
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] >= 2 by { assert(a0.ctx.wf_i(i)); }
    lemma_like(a0, a1); lemma_like(a1, sa); lemma_like(b0, b1); lemma_like(b1, sb);
    let ma = pmul(*a1, *sa); let mb = pmul(*b1, *sb);
    assert(a0.like(&ma) && b0.like(&mb));
    lemma_isx_mul(*a1, *sa, x1, s); lemma_negamul_len(x1, s);
    let y = negamul(x1, s);
    lemma_isx_cancel(a0, &ma, z, y);
    let x0 = xsub(z, y);
    let (r0, r1) = (xrnds(x0, m, k), xrnds(x1, m, k));
    assert(b0.isx(r0) && b1.isx(r1));
    lemma_isx_mul(*b1, *sb, r1, s); lemma_negamul_len(r1, s);
    let w = negamul(r1, s);
    lemma_isx_add(*b0, mb, r0, w);
    let z2 = xadd(r0, w);
    let d1 = comb(P, r1, -1, x1);
    lemma_rnds_err(0, m, k);
    assert forall|j: int| 0 <= j < d1.len() implies -P <= #[trigger] d1[j] <= P by { lemma_rnds_err(x1[j], m, k); }
    lemma_negamul_bound(d1, s, P, bs);
    lemma_psum_lin(P, r1, -1, x1, s, x1.len());
    assert forall|j: int| 0 <= j < z.len() implies -(P * (1 + n * bs)) <= P * #[trigger] z2[j] - z[j] <= P * (1 + n * bs) by {
        lemma_rnds_err(x0[j], m, k);
        let nd = negamul(d1, s)[j];
        assert(nd == P * w[j] + (-1) * y[j]);
        assert(-(n * (P * bs)) <= nd <= n * (P * bs));
        assert(n * (P * bs) == P * (n * bs)) by (nonlinear_arith);
        let (rj, wj) = (r0[j], w[j]);
        assert(P * (1 * rj + 1 * wj) == P * rj + P * wj) by (nonlinear_arith);
        assert(P * (1 + n * bs) == P + P * (n * bs)) by (nonlinear_arith);
        assert(P * z2[j] - z[j] == (P * rj - x0[j]) + nd);
    }
    z2
}
