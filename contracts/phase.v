//@ import ptenc
//@ import ctops
// ---------------------------------------------------------------------------
// What a ciphertext hides: its phase c0 + c1 s + c2 s^2 + ..., and the plaintext in it
// (no code; lemmas over the contracts of fhe-math and of the ciphertext operators)
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power::*;
use crate::modk::*;
use crate::ringmul::*;
broadcast use group_poly;
/// entry j of row i
pub open spec fn ent<R: RepresentationTag>(p: &Poly<R>, i: int, j: int) -> int { p.rows()[i]@[j] as int }
/// sum of c_l t^l over l < k, at one point
pub open spec fn hsum(c: Seq<Poly<Ntt>>, t: int, i: int, j: int, k: nat) -> int
    decreases k,
{ if k == 0 { 0 } else { hsum(c, t, i, j, (k - 1) as nat) + ent(&c[k - 1], i, j) * pow(t, (k - 1) as nat) } }
/// p is c0 + c1 s + c2 s^2 + ...
#[verifier::opaque]
pub open spec fn is_phase(p: &Poly<Ntt>, c: Seq<Poly<Ntt>>, s: &Poly<Ntt>) -> bool {
    &&& p.like(s) && forall|l: int| 0 <= l < c.len() ==> (#[trigger] c[l]).like(p)
    &&& forall|i: int, j: int| 0 <= i < p.n() && 0 <= j < p.d() ==> eqm(#[trigger] ent(p, i, j), hsum(c, ent(s, i, j), i, j, c.len()), p.p(i))
}
/// equal residues
pub open spec fn veq<R: RepresentationTag, S: RepresentationTag>(a: &Poly<R>, b: &Poly<S>) -> bool { same(&*a.ctx, &*b.ctx) && forall|i: int, j: int| 0 <= i < a.n() && 0 <= j < a.d() ==> #[trigger] ent(a, i, j) == ent(b, i, j) }
pub proof fn lemma_like(a: &Poly<Ntt>, b: &Poly<Ntt>)
    requires a.like(b),
    ensures a.n() == b.n(), a.d() == b.d(), forall|i: int| 0 <= i < a.n() ==> #[trigger] a.p(i) == b.p(i) && a.p(i) > 1, b.like(a),
{ assert forall|i: int| 0 <= i < a.n() implies #[trigger] a.p(i) == b.p(i) && a.p(i) > 1 by { assert(a.ctx.wf_i(i)); assert(b.ctx.wf_i(i)); } }
/// combinations of the parts combine the sums
pub proof fn lemma_hsum_lin(r: Seq<Poly<Ntt>>, a: Seq<Poly<Ntt>>, b: Seq<Poly<Ntt>>, f: int, g: int, t: int, i: int, j: int, k: nat, p: int)
    requires 0 < p, forall|l: int| 0 <= l < k ==> eqm(ent(&#[trigger] r[l], i, j), f * ent(&a[l], i, j) + g * ent(&b[l], i, j), p),
    ensures eqm(hsum(r, t, i, j, k), f * hsum(a, t, i, j, k) + g * hsum(b, t, i, j, k), p),
    decreases k,
{
    if k == 0 { assert(f * 0 + g * 0 == 0) by (nonlinear_arith); eqm_refl(0, p); }
    else {
        let d = (k - 1) as nat;
        lemma_hsum_lin(r, a, b, f, g, t, i, j, d, p);
        let (x, y, z, w) = (ent(&r[d as int], i, j), ent(&a[d as int], i, j), ent(&b[d as int], i, j), pow(t, d));
        let (u, v) = (hsum(a, t, i, j, d), hsum(b, t, i, j, d));
        assert(eqm(x, f * y + g * z, p));
        eqm_mulc(x, f * y + g * z, w, p);
        eqm_add(hsum(r, t, i, j, d), f * u + g * v, x * w, (f * y + g * z) * w, p);
        assert((f * u + g * v) + (f * y + g * z) * w == f * (u + y * w) + g * (v + z * w)) by (nonlinear_arith);
    }
}
/// products of the parts with m
pub proof fn lemma_hsum_mul(r: Seq<Poly<Ntt>>, a: Seq<Poly<Ntt>>, m: int, t: int, i: int, j: int, k: nat, p: int)
    requires 0 < p, forall|l: int| 0 <= l < k ==> eqm(ent(&#[trigger] r[l], i, j), m * ent(&a[l], i, j), p),
    ensures eqm(hsum(r, t, i, j, k), m * hsum(a, t, i, j, k), p),
{
    assert forall|l: int| 0 <= l < k implies eqm(ent(&#[trigger] r[l], i, j), m * ent(&a[l], i, j) + 0 * ent(&a[l], i, j), p) by {}
    lemma_hsum_lin(r, a, a, m, 0, t, i, j, k, p);
}
pub proof fn lemma_phase_at(p: &Poly<Ntt>, c: Seq<Poly<Ntt>>, s: &Poly<Ntt>, i: int, j: int)
    requires is_phase(p, c, s), 0 <= i < p.n(), 0 <= j < p.d(),
    ensures eqm(ent(p, i, j), hsum(c, ent(s, i, j), i, j, c.len()), p.p(i)),
{ reveal(is_phase); }
pub proof fn lemma_entry_add(a: Poly<Ntt>, b: Poly<Ntt>, i: int, j: int)
    requires a.like(&b), 0 <= i < a.n(), 0 <= j < a.d(),
    ensures eqm(ent(&padd(a, b), i, j), 1 * ent(&a, i, j) + 1 * ent(&b, i, j), a.p(i)), eqm(ent(&psub(a, b), i, j), 1 * ent(&a, i, j) + (-1) * ent(&b, i, j), a.p(i)),
        eqm(ent(&pmul(a, b), i, j), ent(&b, i, j) * ent(&a, i, j), a.p(i)),
{
    lemma_like(&a, &b);
    let (x, y) = (ent(&a, i, j), ent(&b, i, j));
    let p = a.p(i);
    assert(a.ctx.wf_i(i) && b.ctx.wf_i(i));
    assert(canon(a.rows()[i]@, p) && canon(b.rows()[i]@, p));
    let (u, v, w) = (padd(a, b), psub(a, b), pmul(a, b));
    assert(radd(u.rows()[i]@, a.rows()[i]@, b.rows()[i]@, p));
    assert(rsub(v.rows()[i]@, a.rows()[i]@, b.rows()[i]@, p));
    assert(rmul(w.rows()[i]@, a.rows()[i]@, b.rows()[i]@, p));
    assert(ent(&u, i, j) == (x + y) % p); assert(ent(&v, i, j) == (x - y) % p); assert(ent(&w, i, j) == (x * y) % p);
    assert(y * x == x * y) by (nonlinear_arith);
    eqm_self(x + y, p); eqm_self(x - y, p); eqm_self(x * y, p);
}
pub proof fn lemma_entry_neg(a: Poly<Ntt>, i: int, j: int)
    requires a.wf(), 0 <= i < a.n(), 0 <= j < a.d(),
    ensures eqm(ent(&pneg(a), i, j), (-1) * ent(&a, i, j), a.p(i)),
{
    assert(a.ctx.wf_i(i));
    let v = pneg(a);
    assert(rneg(v.rows()[i]@, a.rows()[i]@, a.p(i)));
    eqm_self(-ent(&a, i, j), a.p(i));
}
/// phases add up
pub proof fn lemma_phase_add(p: Poly<Ntt>, q: Poly<Ntt>, a: Seq<Poly<Ntt>>, b: Seq<Poly<Ntt>>, s: &Poly<Ntt>)
    requires is_phase(&p, a, s), is_phase(&q, b, s), a.len() == b.len(),
    ensures is_phase(&padd(p, q), Seq::new(a.len(), |k: int| padd(a[k], b[k])), s), is_phase(&psub(p, q), Seq::new(a.len(), |k: int| psub(a[k], b[k])), s),
{
    assert(p.like(s) && q.like(s) && p.like(&q)) by { reveal(is_phase); lemma_like(&p, s); lemma_like(&q, s); }
    lemma_like(&p, s); lemma_like(&p, &q);
    assert forall|l: int| 0 <= l < a.len() implies (#[trigger] a[l]).like(&p) && b[l].like(&q) && a[l].like(&b[l]) by { reveal(is_phase); assert(b[l].like(&q)); }
    let n = a.len();
    let (u, v) = (padd(p, q), psub(p, q));
    let (cu, cv) = (Seq::new(n, |k: int| padd(a[k], b[k])), Seq::new(n, |k: int| psub(a[k], b[k])));
    assert forall|l: int| 0 <= l < n implies (#[trigger] cu[l]).like(&u) by { lemma_like(&a[l], &b[l]); }
    assert forall|l: int| 0 <= l < n implies (#[trigger] cv[l]).like(&v) by { lemma_like(&a[l], &b[l]); }
    assert forall|i: int, j: int| 0 <= i < p.n() && 0 <= j < p.d() implies eqm(#[trigger] ent(&u, i, j), hsum(cu, ent(s, i, j), i, j, n), p.p(i)) && eqm(ent(&v, i, j), hsum(cv, ent(s, i, j), i, j, n), p.p(i)) by {
        let m = p.p(i); let t = ent(s, i, j);
        assert(m > 1 && m == q.p(i));
        lemma_phase_at(&p, a, s, i, j); lemma_phase_at(&q, b, s, i, j);
        let (x, y, hx, hy) = (ent(&p, i, j), ent(&q, i, j), hsum(a, t, i, j, n), hsum(b, t, i, j, n));
        assert forall|l: int| 0 <= l < n implies eqm(ent(&#[trigger] cu[l], i, j), 1 * ent(&a[l], i, j) + 1 * ent(&b[l], i, j), m) by { lemma_like(&a[l], &p); lemma_entry_add(a[l], b[l], i, j); }
        assert forall|l: int| 0 <= l < n implies eqm(ent(&#[trigger] cv[l], i, j), 1 * ent(&a[l], i, j) + (-1) * ent(&b[l], i, j), m) by { lemma_like(&a[l], &p); lemma_entry_add(a[l], b[l], i, j); }
        lemma_hsum_lin(cu, a, b, 1, 1, t, i, j, n, m); lemma_hsum_lin(cv, a, b, 1, -1, t, i, j, n, m);
        lemma_entry_add(p, q, i, j);
        eqm_add(x, hx, y, hy, m);
        assert(1 * x + (-1) * y == x - y && 1 * hx + (-1) * hy == hx - hy) by (nonlinear_arith);
        assert(1 * x + 1 * y == x + y && 1 * hx + 1 * hy == hx + hy) by (nonlinear_arith);
        eqm_trans(ent(&u, i, j), x + y, hx + hy, m); eqm_sym(hsum(cu, t, i, j, n), hx + hy, m); eqm_trans(ent(&u, i, j), hx + hy, hsum(cu, t, i, j, n), m);
        eqm_trans(ent(&v, i, j), x - y, hx - hy, m); eqm_sym(hsum(cv, t, i, j, n), hx - hy, m); eqm_trans(ent(&v, i, j), hx - hy, hsum(cv, t, i, j, n), m);
    }
    assert(u.like(s) && v.like(s));
    assert forall|i: int, j: int| 0 <= i < p.n() && 0 <= j < p.d() implies eqm(#[trigger] ent(&v, i, j), hsum(cv, ent(s, i, j), i, j, n), p.p(i)) by { let _ = ent(&u, i, j); }
    reveal(is_phase);
}
pub proof fn lemma_phase_neg(p: Poly<Ntt>, a: Seq<Poly<Ntt>>, s: &Poly<Ntt>)
    requires is_phase(&p, a, s),
    ensures is_phase(&pneg(p), cneg(a), s),
{
    assert(p.like(s)) by { reveal(is_phase); }
    lemma_like(&p, s);
    assert forall|l: int| 0 <= l < a.len() implies (#[trigger] a[l]).like(&p) by { reveal(is_phase); }
    let u = pneg(p); let c = cneg(a); let n = a.len();
    assert forall|l: int| 0 <= l < n implies (#[trigger] c[l]).like(&u) by { lemma_like(&a[l], &p); }
    assert forall|i: int, j: int| 0 <= i < p.n() && 0 <= j < p.d() implies eqm(#[trigger] ent(&u, i, j), hsum(c, ent(s, i, j), i, j, n), p.p(i)) by {
        let m = p.p(i); let t = ent(s, i, j);
        lemma_phase_at(&p, a, s, i, j);
        assert forall|l: int| 0 <= l < n implies eqm(ent(&#[trigger] c[l], i, j), (-1) * ent(&a[l], i, j), m) by { lemma_like(&a[l], &p); lemma_entry_neg(a[l], i, j); }
        lemma_hsum_mul(c, a, -1, t, i, j, n, m);
        lemma_entry_neg(p, i, j);
        let (x, h) = (ent(&p, i, j), hsum(a, t, i, j, n));
        eqm_mulc(x, h, -1, m);
        assert((-1) * x == x * -1 && (-1) * h == h * -1) by (nonlinear_arith);
        eqm_trans(ent(&u, i, j), (-1) * x, (-1) * h, m); eqm_sym(hsum(c, t, i, j, n), (-1) * h, m); eqm_trans(ent(&u, i, j), (-1) * h, hsum(c, t, i, j, n), m);
    }
    assert(u.like(s));
    reveal(is_phase);
}
/// multiplying every part multiplies the phase
pub proof fn lemma_phase_mulp(p: Poly<Ntt>, a: Seq<Poly<Ntt>>, s: &Poly<Ntt>, f: Poly<Ntt>)
    requires is_phase(&p, a, s), p.like(&f),
    ensures is_phase(&pmul(p, f), cmulp(a, f), s),
{
    assert(p.like(s)) by { reveal(is_phase); }
    lemma_like(&p, s); lemma_like(&p, &f);
    assert forall|l: int| 0 <= l < a.len() implies (#[trigger] a[l]).like(&p) && a[l].like(&f) by { reveal(is_phase); assert(a[l].like(&p)); }
    let u = pmul(p, f); let c = cmulp(a, f); let n = a.len();
    assert forall|l: int| 0 <= l < n implies (#[trigger] c[l]).like(&u) by { lemma_like(&a[l], &p); }
    assert forall|i: int, j: int| 0 <= i < p.n() && 0 <= j < p.d() implies eqm(#[trigger] ent(&u, i, j), hsum(c, ent(s, i, j), i, j, n), p.p(i)) by {
        let m = p.p(i); let t = ent(s, i, j); let e = ent(&f, i, j);
        lemma_phase_at(&p, a, s, i, j);
        assert forall|l: int| 0 <= l < n implies eqm(ent(&#[trigger] c[l], i, j), e * ent(&a[l], i, j), m) by { lemma_like(&a[l], &p); lemma_entry_add(a[l], f, i, j); }
        lemma_hsum_mul(c, a, e, t, i, j, n, m);
        lemma_entry_add(p, f, i, j);
        let (x, h) = (ent(&p, i, j), hsum(a, t, i, j, n));
        eqm_mulc(x, h, e, m);
        assert(e * x == x * e && e * h == h * e) by (nonlinear_arith);
        eqm_trans(ent(&u, i, j), e * x, e * h, m); eqm_sym(hsum(c, t, i, j, n), e * h, m); eqm_trans(ent(&u, i, j), e * h, hsum(c, t, i, j, n), m);
    }
    assert(u.like(s));
    reveal(is_phase);
}
pub proof fn lemma_hsum_set0(r: Seq<Poly<Ntt>>, a: Seq<Poly<Ntt>>, y: int, t: int, i: int, j: int, k: nat, p: int)
    requires 0 < p, 1 <= k <= a.len(), a.len() == r.len(), eqm(ent(&r[0], i, j), ent(&a[0], i, j) + y, p), forall|l: int| 1 <= l < k ==> r[l] == a[l],
    ensures eqm(hsum(r, t, i, j, k), hsum(a, t, i, j, k) + y, p),
    decreases k,
{
    let d = (k - 1) as nat;
    if k == 1 {
        reveal_with_fuel(hsum, 2); assert(pow(t, 0) == 1) by { reveal(pow); }
        assert(ent(&r[0], i, j) * 1 == ent(&r[0], i, j) && ent(&a[0], i, j) * 1 == ent(&a[0], i, j));
    } else {
        lemma_hsum_set0(r, a, y, t, i, j, d, p);
        let z = ent(&a[d as int], i, j) * pow(t, d);
        eqm_refl(z, p);
        eqm_add(hsum(r, t, i, j, d), hsum(a, t, i, j, d) + y, z, z, p);
    }
}
/// changing the first part changes the phase by as much
pub proof fn lemma_phase_set0(p: Poly<Ntt>, a: Seq<Poly<Ntt>>, s: &Poly<Ntt>, f: Poly<Ntt>)
    requires is_phase(&p, a, s), p.like(&f), a.len() > 0,
    ensures is_phase(&padd(p, f), cset0(a, padd(a[0], f)), s), is_phase(&psub(p, f), cset0(a, psub(a[0], f)), s),
{
    assert(p.like(s)) by { reveal(is_phase); }
    lemma_like(&p, s); lemma_like(&p, &f);
    assert forall|l: int| 0 <= l < a.len() implies (#[trigger] a[l]).like(&p) && a[l].like(&f) by { reveal(is_phase); assert(a[l].like(&p)); }
    let (u, v) = (padd(p, f), psub(p, f)); let (cu, cv) = (cset0(a, padd(a[0], f)), cset0(a, psub(a[0], f))); let n = a.len();
    assert forall|l: int| 0 <= l < n implies (#[trigger] cu[l]).like(&u) && cv[l].like(&v) by { lemma_like(&a[l], &p); lemma_like(&a[0], &p); }
    assert forall|i: int, j: int| 0 <= i < p.n() && 0 <= j < p.d() implies eqm(#[trigger] ent(&u, i, j), hsum(cu, ent(s, i, j), i, j, n), p.p(i)) && eqm(ent(&v, i, j), hsum(cv, ent(s, i, j), i, j, n), p.p(i)) by {
        let m = p.p(i); let t = ent(s, i, j); let e = ent(&f, i, j);
        lemma_phase_at(&p, a, s, i, j);
        lemma_like(&a[0], &p); lemma_entry_add(a[0], f, i, j); lemma_entry_add(p, f, i, j);
        let x0 = ent(&a[0], i, j);
        assert(1 * x0 + 1 * e == x0 + e && 1 * x0 + (-1) * e == x0 + -e) by (nonlinear_arith);
        lemma_hsum_set0(cu, a, e, t, i, j, n, m); lemma_hsum_set0(cv, a, -e, t, i, j, n, m);
        let (x, h) = (ent(&p, i, j), hsum(a, t, i, j, n));
        assert(1 * x + 1 * e == x + e && 1 * x + (-1) * e == x + -e) by (nonlinear_arith);
        eqm_refl(e, m); eqm_refl(-e, m);
        eqm_add(x, h, e, e, m); eqm_add(x, h, -e, -e, m);
        eqm_trans(ent(&u, i, j), x + e, h + e, m); eqm_sym(hsum(cu, t, i, j, n), h + e, m); eqm_trans(ent(&u, i, j), h + e, hsum(cu, t, i, j, n), m);
        eqm_trans(ent(&v, i, j), x + -e, h + -e, m); eqm_sym(hsum(cv, t, i, j, n), h + -e, m); eqm_trans(ent(&v, i, j), h + -e, hsum(cv, t, i, j, n), m);
    }
    assert(u.like(s) && v.like(s));
    assert forall|i: int, j: int| 0 <= i < p.n() && 0 <= j < p.d() implies eqm(#[trigger] ent(&v, i, j), hsum(cv, ent(s, i, j), i, j, n), p.p(i)) by { let _ = ent(&u, i, j); }
    reveal(is_phase);
}
// ---------------------------------------------------------------------------
/// p is Q/t w, up to b/t (Q: the modulus of p)
#[verifier::opaque]
pub open spec fn noisy(p: &Poly<Ntt>, t: int, w: Seq<int>, b: int) -> bool {
    exists|z: Seq<int>| #[trigger] p.isx(z) && z.len() == w.len() && forall|j: int| 0 <= j < z.len() ==> -b <= #[trigger] (t * z[j]) - p.ctx.rns.q() * w[j] <= b
}
pub proof fn noisy_get(p: &Poly<Ntt>, t: int, w: Seq<int>, b: int) -> (z: Seq<int>)
    requires noisy(p, t, w, b),
    ensures p.isx(z), z.len() == w.len() == p.d(), forall|j: int| 0 <= j < z.len() ==> -b <= #[trigger] (t * z[j]) - p.ctx.rns.q() * w[j] <= b,
{ reveal(noisy); choose|z: Seq<int>| #[trigger] p.isx(z) && z.len() == w.len() && forall|j: int| 0 <= j < z.len() ==> -b <= #[trigger] (t * z[j]) - p.ctx.rns.q() * w[j] <= b }
pub proof fn noisy_of(p: &Poly<Ntt>, t: int, w: Seq<int>, b: int, z: Seq<int>)
    requires p.isx(z), z.len() == w.len(), forall|j: int| 0 <= j < z.len() ==> -b <= #[trigger] (t * z[j]) - p.ctx.rns.q() * w[j] <= b,
    ensures noisy(p, t, w, b),
{ reveal(noisy); }
pub proof fn noisy_le(p: &Poly<Ntt>, t: int, w: Seq<int>, b: int, c: int)
    requires noisy(p, t, w, b), b <= c,
    ensures noisy(p, t, w, c),
{ let z = noisy_get(p, t, w, b); noisy_of(p, t, w, c, z); }
pub proof fn noisy_add(p: Poly<Ntt>, q: Poly<Ntt>, t: int, w: Seq<int>, b: int, v: Seq<int>, c: int)
    requires p.like(&q), noisy(&p, t, w, b), noisy(&q, t, v, c),
    ensures noisy(&padd(p, q), t, xadd(w, v), b + c), noisy(&psub(p, q), t, xsub(w, v), b + c),
{
    let (x, y) = (noisy_get(&p, t, w, b), noisy_get(&q, t, v, c));
    lemma_like(&p, &q); lemma_same_q(&*p.ctx, &*q.ctx);
    lemma_isx_add(p, q, x, y); lemma_isx_sub(p, q, x, y);
    let Q = p.ctx.rns.q();
    assert forall|j: int| 0 <= j < x.len() implies -(b + c) <= #[trigger] (t * xadd(x, y)[j]) - Q * xadd(w, v)[j] <= b + c by {
        let (a1, a2, b1, b2) = (x[j], y[j], w[j], v[j]);
        assert(t * (1 * a1 + 1 * a2) == t * a1 + t * a2) by (nonlinear_arith);
        assert(Q * (1 * b1 + 1 * b2) == Q * b1 + Q * b2) by (nonlinear_arith);
        assert(-b <= t * x[j] - Q * w[j] <= b); assert(-c <= t * y[j] - Q * v[j] <= c);
    }
    noisy_of(&padd(p, q), t, xadd(w, v), b + c, xadd(x, y));
    assert forall|j: int| 0 <= j < x.len() implies -(b + c) <= #[trigger] (t * xsub(x, y)[j]) - Q * xsub(w, v)[j] <= b + c by {
        let (a1, a2, b1, b2) = (x[j], y[j], w[j], v[j]);
        assert(t * (1 * a1 + (-1) * a2) == t * a1 - t * a2) by (nonlinear_arith);
        assert(Q * (1 * b1 + (-1) * b2) == Q * b1 - Q * b2) by (nonlinear_arith);
        assert(-b <= t * x[j] - Q * w[j] <= b); assert(-c <= t * y[j] - Q * v[j] <= c);
    }
    noisy_of(&psub(p, q), t, xsub(w, v), b + c, xsub(x, y));
}
pub proof fn noisy_neg(p: Poly<Ntt>, t: int, w: Seq<int>, b: int)
    requires p.wf(), noisy(&p, t, w, b),
    ensures noisy(&pneg(p), t, xneg(w), b),
{
    let x = noisy_get(&p, t, w, b);
    lemma_isx_neg(p, x);
    let Q = p.ctx.rns.q();
    assert forall|j: int| 0 <= j < x.len() implies -b <= #[trigger] (t * xneg(x)[j]) - Q * xneg(w)[j] <= b by {
        let (a1, b1) = (x[j], w[j]);
        assert(t * ((-1) * a1 + 0 * a1) == -(t * a1)) by (nonlinear_arith);
        assert(Q * ((-1) * b1 + 0 * b1) == -(Q * b1)) by (nonlinear_arith);
        assert(-b <= t * x[j] - Q * w[j] <= b);
    }
    noisy_of(&pneg(p), t, xneg(w), b, xneg(x));
}
/// multiplication by the polynomial m is linear
pub proof fn lemma_psum_lin(f: int, a: Seq<int>, g: int, b: Seq<int>, m: Seq<int>, k: nat)
    requires a.len() == b.len(), k <= a.len(),
    ensures psum(comb(f, a, g, b), m, k) =~= comb(f, psum(a, m, k), g, psum(b, m, k)),
    decreases k,
{
    let c = comb(f, a, g, b);
    if k == 0 { assert(f * 0 + g * 0 == 0) by (nonlinear_arith); }
    else {
        let d = (k - 1) as nat;
        lemma_psum_lin(f, a, g, b, m, d);
        let e = m[d as int];
        assert forall|j: int| 0 <= j < a.len() implies psum(c, m, k)[j] == comb(f, psum(a, m, k), g, psum(b, m, k))[j] by {
            let (x, y, u, v) = (mono(a, d as int)[j], mono(b, d as int)[j], psum(a, m, d)[j], psum(b, m, d)[j]);
            let xc = mono(c, d as int)[j];
            assert(xc == f * x + g * y) by {
                if j < d { let (x1, y1) = (a[a.len() + j - d], b[a.len() + j - d]); assert(-(f * x1 + g * y1) == f * (-x1) + g * (-y1)) by (nonlinear_arith); }
            }
            assert((f * u + g * v) + e * (f * x + g * y) == f * (u + e * x) + g * (v + e * y)) by (nonlinear_arith);
        }
    }
}
/// and grows the coefficients by at most a factor n |m|
pub proof fn lemma_psum_bound(a: Seq<int>, m: Seq<int>, k: nat, x: int, y: int)
    requires k <= a.len(), k <= m.len(), 0 <= x, 0 <= y, forall|j: int| 0 <= j < a.len() ==> -x <= #[trigger] a[j] <= x, forall|j: int| 0 <= j < m.len() ==> -y <= #[trigger] m[j] <= y,
    ensures psum(a, m, k).len() == a.len(), forall|j: int| 0 <= j < a.len() ==> -(k * (x * y)) <= #[trigger] psum(a, m, k)[j] <= k * (x * y),
    decreases k,
{
    if k > 0 {
        let d = (k - 1) as nat;
        lemma_psum_bound(a, m, d, x, y);
        assert forall|j: int| 0 <= j < a.len() implies -(k * (x * y)) <= #[trigger] psum(a, m, k)[j] <= k * (x * y) by {
            let (u, v, e) = (psum(a, m, d)[j], mono(a, d as int)[j], m[d as int]);
            assert(-x <= v <= x) by { if j >= d { assert(-x <= a[j - d] <= x); } else { assert(-x <= a[a.len() + j - d] <= x); } }
            lemma_prod_bound(v, e, x, y);
            assert(k * (x * y) == d * (x * y) + x * y) by (nonlinear_arith) requires k == d + 1;
            assert(e * v == v * e) by (nonlinear_arith);
        }
    }
}
pub proof fn lemma_prod_bound(v: int, e: int, x: int, y: int)
    requires -x <= v <= x, -y <= e <= y,
    ensures -(x * y) <= v * e <= x * y,
{
    assert(v * e <= x * y && v * e >= -(x * y)) by (nonlinear_arith) requires -x <= v <= x, -y <= e <= y;
}
pub proof fn lemma_negamul_bound(a: Seq<int>, m: Seq<int>, x: int, y: int)
    requires a.len() == m.len(), 0 <= x, 0 <= y, forall|j: int| 0 <= j < a.len() ==> -x <= #[trigger] a[j] <= x, forall|j: int| 0 <= j < m.len() ==> -y <= #[trigger] m[j] <= y,
    ensures negamul(a, m).len() == a.len(), forall|j: int| 0 <= j < a.len() ==> -(a.len() * (x * y)) <= #[trigger] negamul(a, m)[j] <= a.len() * (x * y),
{ lemma_psum_bound(a, m, a.len(), x, y); }
pub proof fn noisy_mul(p: Poly<Ntt>, f: Poly<Ntt>, t: int, w: Seq<int>, b: int, m: Seq<int>, y: int)
    requires p.like(&f), noisy(&p, t, w, b), f.isx(m), 0 <= b, 0 <= y, forall|j: int| 0 <= j < m.len() ==> -y <= #[trigger] m[j] <= y,
    ensures noisy(&pmul(p, f), t, negamul(w, m), p.d() * (b * y)),
{
    let x = noisy_get(&p, t, w, b);
    lemma_like(&p, &f);
    lemma_isx_mul(p, f, x, m);
    let Q = p.ctx.rns.q();
    let e = comb(t, x, -Q, w);
    assert forall|j: int| 0 <= j < e.len() implies -b <= #[trigger] e[j] <= b by { let wj = w[j]; assert(-b <= t * x[j] - Q * w[j] <= b); assert((-Q) * wj == -(Q * wj)) by (nonlinear_arith); }
    lemma_negamul_bound(e, m, b, y);
    lemma_psum_lin(t, x, -Q, w, m, x.len());
    let (z, v) = (negamul(x, m), negamul(w, m));
    lemma_negamul_len(x, m); lemma_negamul_len(w, m);
    assert forall|j: int| 0 <= j < z.len() implies -(p.d() * (b * y)) <= #[trigger] (t * z[j]) - Q * v[j] <= p.d() * (b * y) by {
        assert(negamul(e, m)[j] == t * z[j] + (-Q) * v[j]);
        let vj = v[j]; assert((-Q) * vj == -(Q * vj)) by (nonlinear_arith);
    }
    noisy_of(&pmul(p, f), t, v, p.d() * (b * y), z);
}
// ---------------------------------------------------------------------------
impl Ciphertext {
    /// under the key s, the phase is p
    pub open spec fn hides(&self, s: Seq<int>, p: Poly<Ntt>) -> bool { exists|k: Poly<Ntt>| #[trigger] k.isx(s) && is_phase(&p, self.c@, &k) }
    /// under the key s, it is an encryption of w with noise at most b/t
    pub open spec fn enc(&self, s: Seq<int>, w: Seq<int>, b: int) -> bool { exists|p: Poly<Ntt>| #[trigger] self.hides(s, p) && noisy(&p, self.par.t(), w, b) }
}
/// a polynomial has one NTT form
pub proof fn lemma_one_form(a: &Poly<Ntt>, b: &Poly<Ntt>, s: Seq<int>)
    requires a.like(b), a.isx(s), b.isx(s),
    ensures veq(a, b),
{
    lemma_like(a, b);
    assert forall|i: int, j: int| 0 <= i < a.n() && 0 <= j < a.d() implies #[trigger] ent(a, i, j) == ent(b, i, j) by {
        assert(a.ctx.wf_i(i) && b.ctx.wf_i(i));
        assert(a.ctx.ops@[i].is_fwd(a.rows()[i]@, s)); assert(b.ctx.ops@[i].is_fwd(b.rows()[i]@, s));
        lemma_same_ops(&*a.ctx, &*b.ctx, i, b.rows()[i]@, s);
        assert(canon(a.rows()[i]@, a.p(i)) && canon(b.rows()[i]@, b.p(i)));
        lemma_fwd_unique(&a.ctx.ops@[i], a.rows()[i]@, b.rows()[i]@, s);
    }
}
pub proof fn lemma_veq_isx(a: &Poly<Ntt>, b: &Poly<Ntt>, x: Seq<int>)
    requires a.like(b), veq(a, b), a.isx(x),
    ensures b.isx(x),
{
    lemma_like(a, b);
    assert forall|i: int| 0 <= i < b.n() implies b.ctx.ops@[i].is_fwd((#[trigger] b.rows()[i])@, x) by {
        assert(a.ctx.wf_i(i) && b.ctx.wf_i(i));
        assert(canon(a.rows()[i]@, a.p(i)) && canon(b.rows()[i]@, b.p(i)));
        assert(a.rows()[i]@ =~= b.rows()[i]@) by { assert forall|j: int| 0 <= j < b.d() implies a.rows()[i]@[j] == b.rows()[i]@[j] by { assert(ent(a, i, j) == ent(b, i, j)); } }
        assert(a.ctx.ops@[i].is_fwd(a.rows()[i]@, x));
        lemma_same_ops(&*b.ctx, &*a.ctx, i, b.rows()[i]@, x);
    }
}
/// and a ciphertext one phase
pub proof fn lemma_one_phase(p: &Poly<Ntt>, q: &Poly<Ntt>, c: Seq<Poly<Ntt>>, s: &Poly<Ntt>, k: &Poly<Ntt>, x: Seq<int>)
    requires is_phase(p, c, s), is_phase(q, c, k), s.isx(x), k.isx(x), c.len() > 0,
    ensures veq(p, q), p.like(q), veq(s, k),
{
    assert(c[0].like(p) && c[0].like(q) && p.like(s) && q.like(k)) by { reveal(is_phase); let d = c[0]; assert(d.like(p)); assert(d.like(q)); }
    lemma_like(&c[0], p); lemma_like(&c[0], q); lemma_like(p, s); lemma_like(q, k); lemma_like(p, q);
    lemma_one_form(s, k, x);
    assert forall|i: int, j: int| 0 <= i < p.n() && 0 <= j < p.d() implies #[trigger] ent(p, i, j) == ent(q, i, j) by {
        let m = p.p(i); assert(m > 1 && m == q.p(i));
        assert(ent(s, i, j) == ent(k, i, j));
        lemma_phase_at(p, c, s, i, j); lemma_phase_at(q, c, k, i, j);
        let h = hsum(c, ent(s, i, j), i, j, c.len());
        eqm_sym(ent(q, i, j), h, m); eqm_trans(ent(p, i, j), h, ent(q, i, j), m);
        assert(p.ctx.wf_i(i) && q.ctx.wf_i(i)); assert(canon(p.rows()[i]@, m) && canon(q.rows()[i]@, m));
        lemma_eqm_small(ent(p, i, j), ent(q, i, j), m);
    }
}
/// equal residues, equal phase
pub proof fn lemma_phase_veq(p: &Poly<Ntt>, c: Seq<Poly<Ntt>>, d: Seq<Poly<Ntt>>, s: &Poly<Ntt>)
    requires is_phase(p, c, s), c.len() == d.len(), forall|l: int| 0 <= l < d.len() ==> (#[trigger] d[l]).like(p) && veq(&c[l], &d[l]),
    ensures is_phase(p, d, s),
{
    assert(p.like(s)) by { reveal(is_phase); }
    lemma_like(p, s);
    assert forall|i: int, j: int| 0 <= i < p.n() && 0 <= j < p.d() implies eqm(#[trigger] ent(p, i, j), hsum(d, ent(s, i, j), i, j, d.len()), p.p(i)) by {
        lemma_phase_at(p, c, s, i, j);
        let (t, m, n) = (ent(s, i, j), p.p(i), c.len());
        assert forall|l: int| 0 <= l < n implies eqm(ent(&#[trigger] d[l], i, j), 1 * ent(&c[l], i, j), m) by { assert(c[l].like(p)) by { reveal(is_phase); } lemma_like(&c[l], p); assert(ent(&c[l], i, j) == ent(&d[l], i, j)); eqm_refl(ent(&d[l], i, j), m); }
        lemma_hsum_mul(d, c, 1, t, i, j, n, m);
        eqm_sym(hsum(d, t, i, j, n), hsum(c, t, i, j, n), m); eqm_trans(ent(p, i, j), hsum(c, t, i, j, n), hsum(d, t, i, j, n), m);
    }
    reveal(is_phase);
}
// the decoder's rounding -----------------------------------------------------
pub open spec fn modt(w: Seq<int>, t: int) -> Seq<int> { Seq::new(w.len(), |j: int| w[j] % t) }
/// noise small enough for the decoder
pub open spec fn low_noise(b: int, q: int) -> bool { b * 0x2000000000000 < q * 0xfffffffffffe }
pub proof fn lemma_decode(z: int, w: int, b: int, y: int, t: int, q: int)
    requires t >= 2, q > 0, rounds(z, q, t, q, y), -b <= t * z - q * w <= b, low_noise(b, q),
    ensures 0 <= y + t < 2 * t, (y + t) % t == w % t,
{
    let k = choose|k: int| cent(#[trigger] (z + k * q), q) && near(t * (z + k * q), q, y);
    let x = z + k * q;
    let d = y - w - t * k;
    assert(q * d == (q * y - t * x) + (t * z - q * w)) by (nonlinear_arith) requires d == y - w - t * k, x == z + k * q;
    let e = q * d;
    assert(-(q * 0x2000000000000) < e * 0x2000000000000 < q * 0x2000000000000);
    assert(-q < e < q);
    assert(-1 < d < 1) by (nonlinear_arith) requires e == q * d, -q < e < q, q > 0;
    assert(y + t == w + t * (k + 1)) by (nonlinear_arith) requires y - w - t * k == 0;
    lemma_mod_multiples_vanish(k + 1, w, t);
    assert(t * (k + 1) + w == y + t);
    // range
    let c: int = 0x1000000000002; let g: int = 0x2000000000000;
    assert(-(t * (q * c)) <= t * (x * g) <= t * (q * c)) by (nonlinear_arith) requires t >= 2, -(q * c) <= x * g <= q * c;
    assert((q * y) * g == t * (x * g) + (q * y - t * x) * g) by (nonlinear_arith);
    assert(-((t + 1) * (q * c)) <= (q * y) * g <= (t + 1) * (q * c)) by (nonlinear_arith) requires -(t * (q * c)) <= t * (x * g) <= t * (q * c), (q * y) * g == t * (x * g) + (q * y - t * x) * g, -(q * c) <= (q * y - t * x) * g <= q * c;
    assert((t + 1) * (q * c) == q * ((t + 1) * c)) by (nonlinear_arith);
    assert((q * y) * g == q * (y * g)) by (nonlinear_arith);
    let (u, v) = (y * g, (t + 1) * c);
    assert(-v <= u <= v) by (nonlinear_arith) requires q > 0, -(q * v) <= q * u <= q * v;
}
