//@ import linop
// ---------------------------------------------------------------------------
// fhe/src/mbfv : shares and their aggregation
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use std::sync::Arc;
use crate::poly::fhe_traits::*;
use crate::modk::*;
use crate::ringmul::*;
broadcast use group_poly;
/// the operators on polynomials that may come from different contexts: they return only when the
/// contexts are equal (proved in polyref.v)
impl Poly<Ntt> {
    #[verifier::external_body]
    pub fn vadd_assign(&mut self, p: &Poly<Ntt>)
        requires old(self).wf(), p.wf(),
        ensures old(self).like(p), *final(self) == padd(*old(self), *p),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vmul_assign(&mut self, p: &Poly<Ntt>)
        requires old(self).wf(), p.wf(),
        ensures old(self).like(p), *final(self) == pmul(*old(self), *p),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vadd_any(&self, p: &Poly<Ntt>) -> (r: Poly<Ntt>)
        requires self.wf(), p.wf(),
        ensures self.like(p), r == padd(*self, *p),
    { unimplemented!() }
}
/// derived: equal parameters are equal values
impl PartialEq for BfvParameters { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for BfvParameters {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
/// the next item of an iterator over a list
pub fn vnext<T>(v: &mut Vec<T>) -> (r: Option<T>)
    ensures r matches Some(x) ==> old(v)@.len() > 0 && x == old(v)@[0] && final(v)@ == old(v)@.subrange(1, old(v)@.len() as int), r is None <==> old(v)@.len() == 0,
{
    if v.len() == 0 { None } else { let x = v.remove(0); proof { assert(v@ =~= old(v)@.subrange(1, old(v)@.len() as int)); } Some(x) }
}
// ---------------------------------------------------------------------------
/// h = c x + (small error)
#[verifier::opaque]
pub open spec fn lin(h: &Poly<Ntt>, c: &Poly<Ntt>, x: Seq<int>, b: int) -> bool {
    exists|e: Poly<Ntt>, k: Poly<Ntt>| lin_at(h, c, &e, &k) && small_poly(&e, b) && #[trigger] lin_key(&e, &k, x)
}
pub open spec fn lin_key(e: &Poly<Ntt>, k: &Poly<Ntt>, x: Seq<int>) -> bool { k.isx(x) }
pub open spec fn lin_at(h: &Poly<Ntt>, c: &Poly<Ntt>, e: &Poly<Ntt>, k: &Poly<Ntt>) -> bool {
    &&& h.like(c) && h.like(e) && h.like(k)
    &&& forall|i: int, j: int| 0 <= i < h.n() && 0 <= j < h.d() ==> eqm(#[trigger] ent(h, i, j), ent(c, i, j) * ent(k, i, j) + ent(e, i, j), h.p(i))
}
pub proof fn lemma_lin_get(h: &Poly<Ntt>, c: &Poly<Ntt>, x: Seq<int>, b: int) -> (r: (Poly<Ntt>, Poly<Ntt>))
    requires lin(h, c, x, b),
    ensures lin_at(h, c, &r.0, &r.1), small_poly(&r.0, b), r.1.isx(x),
{ reveal(lin); let (e, k) = choose|e: Poly<Ntt>, k: Poly<Ntt>| lin_at(h, c, &e, &k) && small_poly(&e, b) && #[trigger] lin_key(&e, &k, x); (e, k) }
pub proof fn lemma_lin_of(h: &Poly<Ntt>, c: &Poly<Ntt>, e: &Poly<Ntt>, k: &Poly<Ntt>, x: Seq<int>, b: int)
    requires lin_at(h, c, e, k), small_poly(e, b), k.isx(x),
    ensures lin(h, c, x, b),
{ reveal(lin); assert(lin_key(e, k, x)); }
/// small polynomials add up
pub proof fn lemma_small_add(a: Poly<Ntt>, b: Poly<Ntt>, x: int, y: int)
    requires a.like(&b), small_poly(&a, x), small_poly(&b, y),
    ensures small_poly(&padd(a, b), x + y),
{
    let u = choose|e: Seq<int>| #[trigger] a.isx(e) && smallx(e, x);
    let v = choose|e: Seq<int>| #[trigger] b.isx(e) && smallx(e, y);
    lemma_isx_add(a, b, u, v);
    lemma_like(&a, &b);
    let w = xadd(u, v);
    assert forall|j: int| 0 <= j < w.len() implies -(x + y) <= #[trigger] w[j] <= x + y by { let (p, q) = (u[j], v[j]); assert(1 * p + 1 * q == p + q) by (nonlinear_arith); }
    assert(padd(a, b).isx(w) && smallx(w, x + y));
}
/// and so do combinations
pub proof fn lemma_lin_add(h: Poly<Ntt>, g: Poly<Ntt>, c: Poly<Ntt>, x: Seq<int>, y: Seq<int>, b: int, d: int)
    requires lin(&h, &c, x, b), lin(&g, &c, y, d),
    ensures h.like(&g), lin(&padd(h, g), &c, xadd(x, y), b + d),
{
    let (e, k) = lemma_lin_get(&h, &c, x, b);
    let (f, l) = lemma_lin_get(&g, &c, y, d);
    lemma_like(&h, &c); lemma_like(&h, &e); lemma_like(&h, &k); lemma_like(&g, &c); lemma_like(&g, &f); lemma_like(&g, &l);
    assert(h.like(&g) && e.like(&f) && k.like(&l));
    lemma_like(&h, &g);
    let (r, er, kr) = (padd(h, g), padd(e, f), padd(k, l));
    lemma_small_add(e, f, b, d);
    lemma_isx_add(k, l, x, y);
    assert forall|i: int, j: int| 0 <= i < r.n() && 0 <= j < r.d() implies eqm(#[trigger] ent(&r, i, j), ent(&c, i, j) * ent(&kr, i, j) + ent(&er, i, j), r.p(i)) by {
        let m = r.p(i); assert(m > 1 && m == h.p(i) && m == g.p(i) && m == e.p(i) && m == k.p(i));
        let (xh, xg, xc, xe, xf, xk, xl) = (ent(&h, i, j), ent(&g, i, j), ent(&c, i, j), ent(&e, i, j), ent(&f, i, j), ent(&k, i, j), ent(&l, i, j));
        assert(eqm(xh, xc * xk + xe, m)); assert(eqm(xg, xc * xl + xf, m));
        lemma_entry_add(h, g, i, j); lemma_entry_add(e, f, i, j); lemma_entry_add(k, l, i, j);
        lemma_lin_arith(xh, xg, xc, xe, xf, xk, xl, ent(&r, i, j), ent(&er, i, j), ent(&kr, i, j), m);
    }
    lemma_lin_of(&r, &c, &er, &kr, xadd(x, y), b + d);
}
pub proof fn lemma_lin_arith(h: int, g: int, c: int, e: int, f: int, k: int, l: int, r: int, er: int, kr: int, m: int)
    requires 0 < m, eqm(h, c * k + e, m), eqm(g, c * l + f, m), eqm(r, 1 * h + 1 * g, m), eqm(er, 1 * e + 1 * f, m), eqm(kr, 1 * k + 1 * l, m),
    ensures eqm(r, c * kr + er, m),
{
    eqm_add(h, c * k + e, g, c * l + f, m);
    eqm_trans(r, h + g, (c * k + e) + (c * l + f), m);
    eqm_mulc(kr, k + l, c, m);
    eqm_add(kr * c, (k + l) * c, er, e + f, m);
    assert((k + l) * c + (e + f) == (c * k + e) + (c * l + f)) by (nonlinear_arith);
    assert(kr * c == c * kr) by (nonlinear_arith);
    eqm_sym(c * kr + er, (k + l) * c + (e + f), m);
    eqm_trans(r, (c * k + e) + (c * l + f), c * kr + er, m);
}
/// the sum of the first k polynomials
pub open spec fn pfold(h: Seq<Poly<Ntt>>, k: nat) -> Poly<Ntt>
    decreases k,
{ if k <= 1 { h[0] } else { padd(pfold(h, (k - 1) as nat), h[k - 1]) } }
pub open spec fn xfold(x: Seq<Seq<int>>, k: nat) -> Seq<int>
    decreases k,
{ if k <= 1 { x[0] } else { xadd(xfold(x, (k - 1) as nat), x[k - 1]) } }
pub open spec fn lins(h: Seq<Poly<Ntt>>, c: &Poly<Ntt>, x: Seq<Seq<int>>, b: int) -> bool {
    h.len() == x.len() && forall|i: int| 0 <= i < h.len() ==> lin(#[trigger] &h[i], c, x[i], b)
}
pub proof fn lemma_lin_fold(h: Seq<Poly<Ntt>>, c: Poly<Ntt>, x: Seq<Seq<int>>, b: int, k: nat)
    requires lins(h, &c, x, b), 1 <= k <= h.len(),
    ensures lin(&pfold(h, k), &c, xfold(x, k), k * b),
    decreases k,
{
    if k == 1 { assert(lin(&h[0], &c, x[0], b)); assert(1 * b == b); }
    else {
        let d = (k - 1) as nat;
        lemma_lin_fold(h, c, x, b, d);
        assert(lin(&h[d as int], &c, x[d as int], b));
        lemma_lin_add(pfold(h, d), h[d as int], c, xfold(x, d), x[d as int], d * b, b);
        assert(d * b + b == k * b) by (nonlinear_arith) requires k == d + 1;
    }
}
/// equal residues
pub proof fn lemma_lin_veq(h: &Poly<Ntt>, c: &Poly<Ntt>, g: &Poly<Ntt>, d: &Poly<Ntt>, x: Seq<int>, b: int)
    requires lin(h, c, x, b), g.like(h), veq(h, g), d.like(c), veq(c, d),
    ensures lin(g, d, x, b),
{
    let (e, k) = lemma_lin_get(h, c, x, b);
    lemma_like(h, c); lemma_like(h, &e); lemma_like(h, &k); lemma_like(g, h); lemma_like(d, c);
    assert forall|i: int, j: int| 0 <= i < g.n() && 0 <= j < g.d() implies eqm(#[trigger] ent(g, i, j), ent(d, i, j) * ent(&k, i, j) + ent(&e, i, j), g.p(i)) by {
        assert(g.p(i) == h.p(i));
        assert(ent(h, i, j) == ent(g, i, j)); assert(ent(c, i, j) == ent(d, i, j));
    }
    lemma_lin_of(g, d, &e, &k, x, b);
}
/// h = c k + e
pub proof fn lemma_lin_new(c: Poly<Ntt>, k: Poly<Ntt>, e: Poly<Ntt>, x: Seq<int>, b: int)
    requires c.like(&k), c.like(&e), k.isx(x), small_poly(&e, b),
    ensures lin(&padd(pmul(c, k), e), &c, x, b), lin(&padd(pmul(k, c), e), &c, x, b),
{
    lemma_like(&c, &k); lemma_like(&c, &e);
    let (f, g) = (pmul(c, k), pmul(k, c)); let (h, h2) = (padd(f, e), padd(g, e));
    assert forall|i: int, j: int| 0 <= i < h.n() && 0 <= j < h.d() implies eqm(#[trigger] ent(&h, i, j), ent(&c, i, j) * ent(&k, i, j) + ent(&e, i, j), h.p(i)) && eqm(ent(&h2, i, j), ent(&c, i, j) * ent(&k, i, j) + ent(&e, i, j), h.p(i)) by {
        let m = h.p(i); assert(m > 1 && m == c.p(i) && m == k.p(i));
        let (xc, xk, xe) = (ent(&c, i, j), ent(&k, i, j), ent(&e, i, j));
        lemma_entry_add(c, k, i, j); lemma_entry_add(k, c, i, j); lemma_entry_add(f, e, i, j); lemma_entry_add(g, e, i, j);
        assert(xk * xc == xc * xk) by (nonlinear_arith);
        eqm_refl(xe, m);
        eqm_add(ent(&f, i, j), xc * xk, xe, xe, m); eqm_trans(ent(&h, i, j), ent(&f, i, j) + xe, xc * xk + xe, m);
        eqm_add(ent(&g, i, j), xc * xk, xe, xe, m); eqm_trans(ent(&h2, i, j), ent(&g, i, j) + xe, xc * xk + xe, m);
    }
    assert forall|i: int, j: int| 0 <= i < h2.n() && 0 <= j < h2.d() implies eqm(#[trigger] ent(&h2, i, j), ent(&c, i, j) * ent(&k, i, j) + ent(&e, i, j), h2.p(i)) by { let _ = ent(&h, i, j); }
    lemma_lin_of(&h, &c, &e, &k, x, b); lemma_lin_of(&h2, &c, &e, &k, x, b);
}
// public keys ----------------------------------------------------------------
/// [p0, a] with p0 = -a s + e encrypts zero
pub proof fn lemma_lin_pk(ct: &Ciphertext, s: Seq<int>, b: int)
    requires ct.wf(), ct.c@.len() == 2, lin(&ct.c@[0], &pneg(ct.c@[1]), s, b), ct.par.t() >= 0,
    ensures ct.enc(s, zeros(ct.par.deg()), ct.par.t() * b),
{
    let (p0, a) = (ct.c@[0], ct.c@[1]); let na = pneg(a);
    let (e, k) = lemma_lin_get(&p0, &na, s, b);
    lemma_like(&p0, &na); lemma_like(&p0, &e); lemma_like(&p0, &k);
    lemma_parts_like(ct, ct, 0, 1); lemma_like(&p0, &a);
    assert forall|i: int, j: int| 0 <= i < e.n() && 0 <= j < e.d() implies eqm(#[trigger] ent(&e, i, j), hsum(ct.c@, ent(&k, i, j), i, j, 2), e.p(i)) by {
        let m = e.p(i); assert(m > 1 && m == p0.p(i) && m == a.p(i));
        let (x0, x1, xn, xe, t) = (ent(&p0, i, j), ent(&a, i, j), ent(&na, i, j), ent(&e, i, j), ent(&k, i, j));
        lemma_h2(ct.c@, t, i, j); lemma_entry_neg(a, i, j);
        assert(eqm(x0, xn * t + xe, m));
        let y = x1 * t;
        eqm_mulc(xn, (-1) * x1, t, m); assert(((-1) * x1) * t == -(x1 * t)) by (nonlinear_arith);
        eqm_refl(xe, m); eqm_refl(y, m);
        eqm_add(xn * t, -y, xe, xe, m); eqm_trans(x0, xn * t + xe, -y + xe, m);
        eqm_add(x0, -y + xe, y, y, m);
        eqm_sym(x0 + y, xe, m);
    }
    assert(is_phase(&e, ct.c@, &k)) by {
        assert forall|l: int| 0 <= l < ct.c@.len() implies (#[trigger] ct.c@[l]).like(&e) by { if l == 0 { } else { assert(l == 1); } }
        reveal(is_phase);
    }
    assert(ct.hides(s, e));
    lemma_small_noisy(&e, ct.par.t(), b);
    assert(ct.par.wf_l(ct.level as int));
}
//@ struct crates/fhe/src/mbfv/crp.rs CommonRandomPoly
//@ struct crates/fhe/src/mbfv/public_key_gen.rs PublicKeyShare
impl PublicKeyShare {
    /// what new() makes, for the key share s
    pub open spec fn ok(&self, s: Seq<int>, b: int) -> bool {
        &&& self.par.wf() && self.p0_share.wf() && self.crp.poly.wf() && same(&*self.p0_share.ctx, &self.par.ctx(0)) && same(&*self.crp.poly.ctx, &self.par.ctx(0))
        &&& lin(&self.p0_share, &pneg(self.crp.poly), s, b)
    }
}
/// one share per secret, all for one common random polynomial
pub open spec fn pk_shares(sh: Seq<PublicKeyShare>, s: Seq<Seq<int>>, b: int) -> bool {
    s.len() == sh.len() && forall|i: int| 0 <= i < sh.len() ==> #[trigger] sh[i].ok(s[i], b) && sh[i].crp == sh[0].crp
}
//@ fn crates/fhe/src/mbfv/public_key_gen.rs PublicKeyShare::new
//@ ret r
//@ subst p0_share *= &s; => proof { fp = p0_share; sp = s; } p0_share.vmul_assign(&s);
//@ subst p0_share += &e; => p0_share.vadd_assign(&e); proof { ep = e; hp = p0_share; }
//@ subst sk_share.coeffs.as_ref() => &*sk_share.coeffs
//@ sig
    pub fn new(sk_share: &SecretKey, crp: CommonRandomPoly, rng: &mut VRng) -> (r: Result<Self>)
//@ spec
    requires sk_share.wf(), crp.poly.wf(),
    ensures r matches Ok(x) ==> x.par == sk_share.par && x.crp == crp && x.ok(sk_share.s(), 2 * sk_share.par.variance),
        r is Err ==> !(1 <= sk_share.par.variance <= 32) || sk_share.par.lv() == 0,
//@ start
    broadcast use lemma_fwd_auto;
    let ghost mut sp: Poly<Ntt> = arbitrary();
    let ghost mut ep: Poly<Ntt> = arbitrary();
    let ghost mut fp: Poly<Ntt> = arbitrary();
    let ghost mut hp: Poly<Ntt> = arbitrary();
    let ghost b = 2 * sk_share.par.variance;
    proof { if sk_share.par.lv() > 0 { assert(sk_share.par.wf_l(0)); } }
//@ after-let s
    proof { assert(sk_share.par.wf_l(0)); assert(pad(sk_share.s(), s.d()) =~= sk_share.s()); assert(s.isx(sk_share.s())); }
//@ after-let e
    proof { lemma_small_of(&e, b as int); }
//@ ret-hint
    proof {
        if r_ is Ok {
            let x = r_->Ok_0; let c = pneg(crp.poly);
            lemma_lin_new(fp, sp, ep, sk_share.s(), b as int);
            assert(hp == padd(pmul(fp, sp), ep));
            lemma_lin_veq(&hp, &fp, &x.p0_share, &c, sk_share.s(), b as int);
        }
    }
//@ end
//@ fn crates/fhe/src/mbfv/public_key_gen.rs Aggregate<PublicKeyShare>@PublicKey::from_shares as=PublicKey::from_shares_pk
//@ ret r
//@ refs sh
//@ subst let mut shares = iter.into_iter(); => let mut shares = iter;
//@ subst shares.next() => vnext(&mut shares)
//@ subst p0 += &shares[i_0].p0_share; => p0.vadd_assign(&shares[i_0].p0_share);
//@ sig
    pub fn from_shares_pk(iter: Vec<PublicKeyShare>) -> (r: Result<PublicKey>)
//@ spec
    requires forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).par.wf() && iter@[i].p0_share.wf() && iter@[i].crp.poly.wf(),
    ensures iter@.len() == 0 ==> r is Err,
        r matches Ok(x) ==> x.par == iter@[0].par && x.c.wf() && x.c.par == x.par && x.c.c@.len() == 2,
        // the shares all belong to one context
        r is Ok ==> forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).p0_share.like(&iter@[0].p0_share),
        // the key of the sum of the secrets
        r matches Ok(x) ==> forall|s: Seq<Seq<int>>, b: int| #[trigger] pk_shares(iter@, s, b)
            ==> x.c.enc(xfold(s, s.len()), zeros(x.par.deg()), x.par.t() * (s.len() * b)),
//@ start
    let ghost hs = Seq::new(iter@.len(), |i: int| iter@[i].p0_share);
    let ghost mut px: Poly<Ntt> = arbitrary();
//@ loop 0
    invariant
        iter@.len() == n_0 + 1, shares@.len() == n_0, forall|i: int| 0 <= i < n_0 ==> shares@[i] == iter@[i + 1], hs.len() == iter@.len(), forall|i: int| 0 <= i < hs.len() ==> #[trigger] hs[i] == iter@[i].p0_share,
        forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).p0_share.wf(),
        p0 == pfold(hs, (i_0 + 1) as nat), p0.like(&hs[0]), forall|i: int| 0 <= i <= i_0 ==> (#[trigger] hs[i]).like(&hs[0]),
//@ loop-start 0
    let ghost p1 = p0;
    proof { assert(shares@[i_0 as int] == iter@[i_0 + 1]); assert(hs[i_0 + 1] == iter@[i_0 + 1].p0_share); }
//@ loop-end 0
    proof { lemma_like(&p1, &hs[i_0 + 1]); assert(p0 == padd(pfold(hs, (i_0 + 1) as nat), hs[i_0 + 1])); assert(hs[i_0 + 1].like(&hs[0])); }
//@ loop-after 0
    proof { px = p0; assert forall|i: int| 0 <= i < iter@.len() implies (#[trigger] iter@[i]).p0_share.like(&iter@[0].p0_share) by { assert(hs[i].like(&hs[0])); } }
//@ ret-hint
    proof {
        if r_ is Ok {
            let x = r_->Ok_0; let a = iter@[0].crp.poly;
            assert(x.c.c@[0] == px && x.c.c@[1] == a);
            assert forall|s: Seq<Seq<int>>, b: int| #[trigger] pk_shares(iter@, s, b)
                implies x.c.enc(xfold(s, s.len()), zeros(x.par.deg()), x.par.t() * (s.len() * b)) by {
                let na = pneg(a);
                assert forall|i: int| 0 <= i < hs.len() implies lin(#[trigger] &hs[i], &na, s[i], b) by { assert(iter@[i].ok(s[i], b)); assert(hs[i] == iter@[i].p0_share); assert(iter@[i].crp == iter@[0].crp); }
                assert(lins(hs, &na, s, b));
                lemma_lin_fold(hs, na, s, b, s.len());
                assert(x.par.t() >= 2) by { reveal(BfvParameters::wf_pt); }
                lemma_lin_pk(&x.c, xfold(s, s.len()), s.len() * b);
            }
        }
    }
//@ end
// key switching ---------------------------------------------------------------
pub open spec fn all_len(x: Seq<Seq<int>>, d: int) -> bool { forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]).len() == d }
pub open spec fn xdiffs(x: Seq<Seq<int>>, y: Seq<Seq<int>>) -> Seq<Seq<int>> { Seq::new(x.len(), |i: int| xsub(x[i], y[i])) }
pub proof fn lemma_xfold_len(x: Seq<Seq<int>>, d: int, k: nat)
    requires all_len(x, d), 1 <= k <= x.len(),
    ensures xfold(x, k).len() == d,
    decreases k,
{ if k > 1 { lemma_xfold_len(x, d, (k - 1) as nat); } else { assert(x[0].len() == d); } }
pub proof fn lemma_xfold_sub(x: Seq<Seq<int>>, y: Seq<Seq<int>>, d: int, k: nat)
    requires all_len(x, d), all_len(y, d), x.len() == y.len(), 1 <= k <= x.len(),
    ensures xfold(xdiffs(x, y), k) =~= xsub(xfold(x, k), xfold(y, k)),
    decreases k,
{
    let z = xdiffs(x, y);
    if k > 1 {
        let e = (k - 1) as nat;
        lemma_xfold_sub(x, y, d, e); lemma_xfold_len(x, d, e); lemma_xfold_len(y, d, e);
        assert(x[e as int].len() == d && y[e as int].len() == d);
        let (u, v) = (xfold(z, k), xsub(xfold(x, k), xfold(y, k)));
        assert(u.len() == d && v.len() == d);
        assert forall|j: int| 0 <= j < d implies #[trigger] u[j] == v[j] by {
            let (a, b, f, g) = (xfold(x, e)[j], xfold(y, e)[j], x[e as int][j], y[e as int][j]);
            assert(1 * (1 * a + (-1) * b) + 1 * (1 * f + (-1) * g) == 1 * (1 * a + 1 * f) + (-1) * (1 * b + 1 * g)) by (nonlinear_arith);
        }
    }
}
/// c0 + c1 (in) + e is the phase of [c0 + h, c1] under the output key
pub proof fn lemma_lin_switch(ct: &Ciphertext, r: &Ciphertext, h: Poly<Ntt>, x: Seq<int>, y: Seq<int>, w: Seq<int>, b0: int, b: int)
    requires ct.wf(), r.par == ct.par, ct.c@.len() == 2, r.c@.len() == 2, ct.enc(x, w, b0), lin(&h, &ct.c@[1], xsub(x, y), b), x.len() == y.len(), ct.par.t() >= 0,
        r.c@[0] == padd(ct.c@[0], h), r.c@[1] == ct.c@[1],
    ensures r.enc(y, w, b0 + ct.par.t() * b),
{
    let t = ct.par.t();
    let p = choose|p: Poly<Ntt>| #[trigger] ct.hides(x, p) && noisy(&p, t, w, b0);
    let kx = choose|k: Poly<Ntt>| #[trigger] k.isx(x) && is_phase(&p, ct.c@, &k);
    let (c0, c1) = (ct.c@[0], ct.c@[1]);
    let (e, kd) = lemma_lin_get(&h, &c1, xsub(x, y), b);
    assert(c0.like(&p) && c1.like(&p) && p.like(&kx)) by { reveal(is_phase); }
    lemma_like(&c0, &p); lemma_like(&c1, &p); lemma_like(&p, &kx); lemma_like(&h, &c1); lemma_like(&h, &e); lemma_like(&h, &kd);
    assert(p.like(&e) && kx.like(&kd) && c0.like(&h));
    let ky = psub(kx, kd);
    lemma_isx_sub(kx, kd, x, xsub(x, y));
    assert(xsub(x, xsub(x, y)) =~= y) by { assert forall|j: int| 0 <= j < y.len() implies xsub(x, xsub(x, y))[j] == y[j] by { let (a, c) = (x[j], y[j]); assert(1 * a + (-1) * (1 * a + (-1) * c) == c) by (nonlinear_arith); } }
    let q = padd(p, e);
    assert forall|i: int, j: int| 0 <= i < q.n() && 0 <= j < q.d() implies eqm(#[trigger] ent(&q, i, j), hsum(r.c@, ent(&ky, i, j), i, j, 2), q.p(i)) by {
        let m = q.p(i); assert(m > 1 && m == p.p(i) && m == c0.p(i) && m == kx.p(i) && m == h.p(i));
        let (tx, td, ty) = (ent(&kx, i, j), ent(&kd, i, j), ent(&ky, i, j));
        let (x0, x1, xh, xe, xp) = (ent(&c0, i, j), ent(&c1, i, j), ent(&h, i, j), ent(&e, i, j), ent(&p, i, j));
        lemma_phase_at(&p, ct.c@, &kx, i, j); lemma_h2(ct.c@, tx, i, j); lemma_h2(r.c@, ty, i, j);
        lemma_entry_add(c0, h, i, j); lemma_entry_add(p, e, i, j); lemma_entry_add(kx, kd, i, j);
        assert(eqm(xh, x1 * td + xe, m));
        lemma_switch_arith(x0, x1, xh, xe, xp, tx, td, ty, ent(&r.c@[0], i, j), ent(&q, i, j), m);
    }
    assert(is_phase(&q, r.c@, &ky)) by {
        lemma_like(&c0, &h);
        assert forall|l: int| 0 <= l < r.c@.len() implies (#[trigger] r.c@[l]).like(&q) by { if l == 0 { } else { assert(l == 1); } }
        reveal(is_phase);
    }
    assert(r.hides(y, q));
    lemma_small_noisy(&e, t, b);
    noisy_add(p, e, t, w, b0, zeros(e.d()), t * b);
    let z = noisy_get(&p, t, w, b0);
    assert(xadd(w, zeros(e.d())) =~= w) by { assert forall|j: int| 0 <= j < w.len() implies xadd(w, zeros(e.d()))[j] == w[j] by { let a = w[j]; assert(1 * a + 1 * 0 == a) by (nonlinear_arith); } }
}
pub proof fn lemma_switch_arith(x0: int, x1: int, xh: int, xe: int, xp: int, tx: int, td: int, ty: int, r0: int, q: int, m: int)
    requires 0 < m, eqm(xp, x0 + x1 * tx, m), eqm(xh, x1 * td + xe, m), eqm(ty, 1 * tx + (-1) * td, m), eqm(r0, 1 * x0 + 1 * xh, m), eqm(q, 1 * xp + 1 * xe, m),
    ensures eqm(q, r0 + x1 * ty, m),
{
    eqm_refl(xe, m); eqm_refl(x0, m);
    eqm_add(xp, x0 + x1 * tx, xe, xe, m); eqm_trans(q, xp + xe, x0 + x1 * tx + xe, m);
    eqm_add(x0, x0, xh, x1 * td + xe, m); eqm_trans(r0, x0 + xh, x0 + (x1 * td + xe), m);
    eqm_mulc(ty, tx - td, x1, m);
    eqm_add(r0, x0 + (x1 * td + xe), ty * x1, (tx - td) * x1, m);
    assert(x0 + (x1 * td + xe) + (tx - td) * x1 == x0 + x1 * tx + xe) by (nonlinear_arith);
    assert(ty * x1 == x1 * ty) by (nonlinear_arith);
    eqm_sym(r0 + x1 * ty, x0 + x1 * tx + xe, m); eqm_trans(q, x0 + x1 * tx + xe, r0 + x1 * ty, m);
}
//@ struct crates/fhe/src/mbfv/secret_key_switch.rs SecretKeySwitchShare
//@ struct crates/fhe/src/mbfv/secret_key_switch.rs DecryptionShare
impl SecretKeySwitchShare {
    pub open spec fn swf(&self) -> bool { self.par.wf() && self.ct.wf() && self.ct.par == self.par && self.ct.c@.len() == 2 && self.h_share.wf() }
    /// what new() makes, for the input key share x and the output key share y
    pub open spec fn ok(&self, x: Seq<int>, y: Seq<int>, b: int) -> bool { self.swf() && x.len() == y.len() == self.par.deg() && lin(&self.h_share, &self.ct.c@[1], xsub(x, y), b) }
}
/// one share per input and output key share, all for one ciphertext
pub open spec fn sk_shares(sh: Seq<SecretKeySwitchShare>, s: Seq<Seq<int>>, o: Seq<Seq<int>>, b: int) -> bool {
    s.len() == sh.len() && o.len() == sh.len() && forall|i: int| 0 <= i < sh.len() ==> #[trigger] sh[i].ok(s[i], o[i], b) && sh[i].ct == sh[0].ct
}
pub proof fn lemma_sk_shares(sh: Seq<SecretKeySwitchShare>, hs: Seq<Poly<Ntt>>, s: Seq<Seq<int>>, o: Seq<Seq<int>>, b: int)
    requires sh.len() > 0, hs.len() == sh.len(), forall|i: int| 0 <= i < hs.len() ==> #[trigger] hs[i] == sh[i].h_share, sk_shares(sh, s, o, b),
    ensures lin(&pfold(hs, sh.len()), &sh[0].ct.c@[1], xsub(xfold(s, s.len()), xfold(o, o.len())), sh.len() * b), xfold(s, s.len()).len() == xfold(o, o.len()).len() == sh[0].par.deg(),
{
    let x = xdiffs(s, o); let d = sh[0].par.deg(); let n = sh.len();
    assert(sh[0].ok(s[0], o[0], b));
    assert forall|i: int| 0 <= i < n implies (#[trigger] s[i]).len() == d && o[i].len() == d by { assert(sh[i].ok(s[i], o[i], b)); assert(sh[i].ct == sh[0].ct); }
    assert forall|i: int| 0 <= i < n implies (#[trigger] o[i]).len() == d by { let _ = s[i]; }
    assert forall|i: int| 0 <= i < n implies lin(#[trigger] &hs[i], &sh[0].ct.c@[1], x[i], b) by { assert(sh[i].ok(s[i], o[i], b)); assert(hs[i] == sh[i].h_share); assert(sh[i].ct == sh[0].ct); }
    assert(lins(hs, &sh[0].ct.c@[1], x, b));
    lemma_lin_fold(hs, sh[0].ct.c@[1], x, b, n);
    lemma_xfold_sub(s, o, d, n); lemma_xfold_len(s, d, n); lemma_xfold_len(o, d, n);
}
//@ fn crates/fhe/src/mbfv/secret_key_switch.rs SecretKeySwitchShare::new
//@ ret r
//@ derefs ct
//@ subst sk_input_share.coeffs.as_ref() => &*sk_input_share.coeffs
//@ subst sk_output_share.coeffs.as_ref() => &*sk_output_share.coeffs
//@ subst sk_input_share.par != sk_output_share.par => *sk_input_share.par != *sk_output_share.par
//@ subst sk_output_share.par != ct.par => *sk_output_share.par != *ct.par
//@ subst &s_in - &s_out => s_in.vsub(&s_out)
//@ subst h_share *= &ct.c[1]; => proof { fp = h_share; } h_share.vmul_assign(&ct.c[1]);
//@ subst h_share += &e; => h_share.vadd_assign(&e); proof { ep = e; hp = h_share; }
//@ sig
    pub fn new(sk_input_share: &SecretKey, sk_output_share: &SecretKey, ct: Arc<Ciphertext>, rng: &mut VRng) -> (r: Result<Self>)
//@ spec
    requires sk_input_share.wf(), sk_output_share.wf(), ct.wf(),
    ensures r matches Ok(x) ==> sk_input_share.par == ct.par && sk_output_share.par == ct.par && ct.c@.len() == 2
            && x.par == ct.par && x.ct == ct && x.ok(sk_input_share.s(), sk_output_share.s(), 2 * ct.par.variance),
//@ start
    broadcast use lemma_fwd_auto;
    let ghost mut ep: Poly<Ntt> = arbitrary();
    let ghost mut fp: Poly<Ntt> = arbitrary();
    let ghost mut hp: Poly<Ntt> = arbitrary();
    let ghost mut kp: Poly<Ntt> = arbitrary();
    let ghost b = 2 * ct.par.variance;
    let ghost (x, y) = (sk_input_share.s(), sk_output_share.s());
    proof { assert(ct.par.wf_l(ct.level as int)); }
//@ after-let s_in
    proof { assert(s_in.d() == ct.par.deg()); assert(pad(x, s_in.d()) =~= x); assert(s_in.isx(x)); }
//@ after-let s_out
    proof { assert(pad(y, s_out.d()) =~= y); assert(s_out.isx(y)); }
//@ after-let e
    proof { lemma_small_of(&e, b as int); kp = psub(s_in, s_out); lemma_isx_sub(s_in, s_out, x, y); }
//@ ret-hint
    proof {
        if r_ is Ok {
            let z = r_->Ok_0; let c = ct.c@[1];
            lemma_like(&fp, &c); lemma_like(&fp, &kp);
            lemma_veq_isx(&kp, &fp, xsub(x, y));
            lemma_lin_new(c, fp, ep, xsub(x, y), b as int);
            assert(hp == padd(pmul(fp, c), ep));
        }
    }
//@ end
//@ fn crates/fhe/src/mbfv/secret_key_switch.rs Aggregate<SecretKeySwitchShare>@Ciphertext::from_shares as=Ciphertext::from_shares_sk
//@ ret r
//@ refs sh
//@ subst let mut shares = iter.into_iter(); => let mut shares = iter;
//@ subst shares.next() => vnext(&mut shares)
//@ subst h += &shares[i_0].h_share; => h.vadd_assign(&shares[i_0].h_share);
//@ subst &share.ct[0] + &h => share.ct.c[0].vadd_any(&h)
//@ subst share.ct[1] => share.ct.c[1]
//@ sig
    pub fn from_shares_sk(iter: Vec<SecretKeySwitchShare>) -> (r: Result<Ciphertext>)
//@ spec
    requires forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).swf(),
    ensures iter@.len() == 0 ==> r is Err,
        r matches Ok(x) ==> x.par == iter@[0].par && x.wf() && x.c@.len() == 2 && x.level == iter@[0].ct.level,
        r is Ok ==> forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).h_share.like(&iter@[0].h_share),
        // the same plaintext under the sum of the output keys
        r matches Ok(x) ==> forall|s: Seq<Seq<int>>, o: Seq<Seq<int>>, w: Seq<int>, b0: int, b: int| #[trigger] sk_shares(iter@, s, o, b) && #[trigger] iter@[0].ct.enc(xfold(s, s.len()), w, b0) ==> x.enc(xfold(o, o.len()), w, b0 + x.par.t() * (s.len() * b)),
//@ start
    let ghost hs = Seq::new(iter@.len(), |i: int| iter@[i].h_share);
    let ghost mut hx: Poly<Ntt> = arbitrary();
//@ loop 0
    invariant
        iter@.len() == n_0 + 1, shares@.len() == n_0, forall|i: int| 0 <= i < n_0 ==> shares@[i] == iter@[i + 1], hs.len() == iter@.len(), forall|i: int| 0 <= i < hs.len() ==> #[trigger] hs[i] == iter@[i].h_share,
        forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).swf(),
        h == pfold(hs, (i_0 + 1) as nat), h.like(&hs[0]), forall|i: int| 0 <= i <= i_0 ==> (#[trigger] hs[i]).like(&hs[0]),
//@ loop-start 0
    let ghost h1 = h;
    proof { assert(shares@[i_0 as int] == iter@[i_0 + 1]); assert(hs[i_0 + 1] == iter@[i_0 + 1].h_share); assert(iter@[i_0 + 1].swf()); }
//@ loop-end 0
    proof { lemma_like(&h1, &hs[i_0 + 1]); assert(h == padd(pfold(hs, (i_0 + 1) as nat), hs[i_0 + 1])); assert(hs[i_0 + 1].like(&hs[0])); }
//@ loop-after 0
    proof { hx = h; assert forall|i: int| 0 <= i < iter@.len() implies (#[trigger] iter@[i]).h_share.like(&iter@[0].h_share) by { assert(hs[i].like(&hs[0])); } assert(iter@[0].swf()); }
//@ ret-hint
    proof {
        if r_ is Ok {
            let x = r_->Ok_0; let ct = *iter@[0].ct; let n = iter@.len();
            assert(iter@[0].swf());
            lemma_like(&ct.c@[0], &hx);
            assert(x.c@[0] == padd(ct.c@[0], hx) && x.c@[1] == ct.c@[1]);
            assert(x.level == ct.level) by { let k = ct.c@[0]; assert(same(&*x.c@[0].ctx, &x.par.ctx(x.level as int))); assert(same(&*k.ctx, &x.par.ctx(ct.level as int))); lemma_level_unique(&*x.par, x.level as int, ct.level as int); }
            assert forall|s: Seq<Seq<int>>, o: Seq<Seq<int>>, w: Seq<int>, b0: int, b: int| #[trigger] sk_shares(iter@, s, o, b) && #[trigger] iter@[0].ct.enc(xfold(s, s.len()), w, b0) implies x.enc(xfold(o, o.len()), w, b0 + x.par.t() * (s.len() * b)) by {
                lemma_sk_shares(iter@, hs, s, o, b);
                assert(x.par.t() >= 2) by { reveal(BfvParameters::wf_pt); }
                lemma_lin_switch(&ct, &x, hx, xfold(s, n), xfold(o, n), w, b0, n * b);
            }
        }
    }
//@ end
// decryption ------------------------------------------------------------------
/// under the zero key, the phase is the first part
pub proof fn lemma_zero_phase(ct: &Ciphertext, w: Seq<int>, b: int, c: &Poly<Ntt>) -> (k: Poly<Ntt>)
    requires ct.wf(), ct.c@.len() == 2, ct.enc(zeros(ct.par.deg()), w, b), c.like(&ct.c@[0]), veq(c, &ct.c@[0]),
    ensures k.isx(zeros(ct.par.deg())), is_phase(c, ct.c@, &k),
{
    let z = zeros(ct.par.deg());
    let p = choose|p: Poly<Ntt>| #[trigger] ct.hides(z, p) && noisy(&p, ct.par.t(), w, b);
    let k = choose|k: Poly<Ntt>| #[trigger] k.isx(z) && is_phase(&p, ct.c@, &k);
    let (c0, c1) = (ct.c@[0], ct.c@[1]);
    assert(c0.like(&p) && c1.like(&p) && p.like(&k)) by { reveal(is_phase); }
    lemma_like(&c0, &p); lemma_like(&c1, &p); lemma_like(&p, &k); lemma_like(c, &c0);
    let o = psub(k, k);
    assert forall|i: int, j: int| 0 <= i < o.n() && 0 <= j < o.d() implies (#[trigger] o.rows()[i]@[j]) == 0 by { assert(k.ctx.wf_i(i)); let (x, kr) = (o.rows()[i]@, k.rows()[i]@); assert(rsub(x, kr, kr, k.p(i))); assert(kr.len() == k.d()); assert(x[j] == (kr[j] - kr[j]) % k.p(i)); assert(kr[j] - kr[j] == 0); lemma_small_mod(0, k.p(i) as nat); }
    assert(k.d() == z.len());
    lemma_isx_zero(&o, z);
    lemma_one_form(&k, &o, z);
    assert forall|i: int, j: int| 0 <= i < c.n() && 0 <= j < c.d() implies eqm(#[trigger] ent(c, i, j), hsum(ct.c@, ent(&k, i, j), i, j, 2), c.p(i)) by {
        assert(ent(&k, i, j) == ent(&o, i, j)); assert(o.rows()[i]@[j] == 0);
        lemma_h2(ct.c@, 0, i, j);
        let y = ent(&c1, i, j); assert(y * 0 == 0);
        assert(ent(c, i, j) == ent(&c0, i, j)); assert(c.p(i) == c0.p(i) && c0.p(i) > 1);
        eqm_refl(ent(c, i, j), c.p(i));
    }
    assert(is_phase(c, ct.c@, &k)) by {
        assert forall|l: int| 0 <= l < ct.c@.len() implies (#[trigger] ct.c@[l]).like(c) by { if l == 0 { } else { assert(l == 1); } }
        reveal(is_phase);
    }
    k
}
impl DecryptionShare {
    /// what new() makes, for the key share x
    pub open spec fn ok(&self, x: Seq<int>, b: int) -> bool { self.sks_share.ok(x, zeros(self.sks_share.par.deg()), b) }
}
pub open spec fn inner(sh: Seq<DecryptionShare>) -> Seq<SecretKeySwitchShare> { Seq::new(sh.len(), |i: int| sh[i].sks_share) }
/// iter.into_iter().map(|s| s.sks_share)
pub fn vinner(v: Vec<DecryptionShare>) -> (r: Vec<SecretKeySwitchShare>)
    ensures r@ == inner(v@),
{
    let mut v = v;
    let mut r: Vec<SecretKeySwitchShare> = Vec::new();
    let ghost v0 = v@;
    while v.len() > 0
        invariant v@.len() + r@.len() == v0.len(), v@ == v0.subrange(r@.len() as int, v0.len() as int), r@ == inner(v0).subrange(0, r@.len() as int),
        decreases v@.len(),
    {
        let ghost (r1, v1) = (r@, v@);
        let x = v.remove(0);
        proof { assert(x == v0[r1.len() as int]); assert(v@ =~= v0.subrange(r1.len() as int + 1, v0.len() as int)); }
        r.push(x.sks_share);
        proof { assert(r@ =~= inner(v0).subrange(0, r1.len() as int + 1)); }
    }
    proof { assert(r@ =~= inner(v0)); }
    r
}
/// one share per secret, all for one ciphertext
pub open spec fn d_shares(sh: Seq<DecryptionShare>, s: Seq<Seq<int>>, b: int) -> bool {
    s.len() == sh.len() && forall|i: int| 0 <= i < sh.len() ==> #[trigger] sh[i].ok(s[i], b) && sh[i].sks_share.ct == sh[0].sks_share.ct
}
pub proof fn lemma_xfold_zeros(d: int, n: nat, k: nat)
    requires 1 <= k <= n,
    ensures xfold(Seq::new(n, |i: int| zeros(d)), k) =~= zeros(d),
    decreases k,
{ if k > 1 { lemma_xfold_zeros(d, n, (k - 1) as nat); lemma_zero_add(zeros(d), zeros(d).len() as int); assert(zeros(d) =~= zeros(zeros(d).len() as int)); } }
/// vec![0i64; n]
pub fn vzeros(n: usize) -> (r: Vec<i64>)
    ensures r@.len() == n, ivals(r@) =~= zeros(n as int),
{
    let mut r: Vec<i64> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, r@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == 0,
        decreases n - i,
    { r.push(0i64); i += 1; }
    proof { assert(ivals(r@) =~= zeros(n as int)); }
    r
}
//@ fn crates/fhe/src/mbfv/secret_key_switch.rs DecryptionShare::new
//@ ret r
//@ subst vec![0; par.degree()] => vzeros(par.degree())
//@ sig
    pub fn new(sk_input_share: &SecretKey, ct: &Arc<Ciphertext>, rng: &mut VRng) -> (r: Result<Self>)
//@ spec
    requires sk_input_share.wf(), ct.wf(),
    ensures r matches Ok(x) ==> sk_input_share.par == ct.par && ct.c@.len() == 2 && x.sks_share.par == ct.par && x.sks_share.ct == *ct && x.ok(sk_input_share.s(), 2 * ct.par.variance),
//@ after-let zero
    proof { assert(zero.s() =~= zeros(sk_input_share.par.deg())); }
//@ end
//@ fn crates/fhe/src/mbfv/secret_key_switch.rs Aggregate<DecryptionShare>@Plaintext::from_shares as=Plaintext::from_shares
//@ ret r
//@ derefs ct
//@ subst let sks_shares = iter.into_iter().map(|s| s.sks_share); => let sks_shares = vinner(iter);
//@ subst Ciphertext::from_shares( => Ciphertext::from_shares_sk(
//@ subst Vec::<BigUint>::from( => Poly::<PowerBasis>::to_big(
//@ subst v_s1[i_0] + ct.par.plaintext_big() => v_s1[i_0].clone() + ct.par.plaintext_big()
//@ subst w[i_1] %= q_poly => let v_x = w[i_1].clone() % q_poly; w.set(i_1, v_x)
//@ vec 0 BigUint
//@ subst ct.par.plaintext.reduce_vec(&mut w); => let ghost w1 = w@; ct.par.plaintext.reduce_vec(&mut w); proof { u = bvals(w@); if ct.par.roomy(lv) { assert forall|j: int| 0 <= j < u.len() implies #[trigger] u[j] == ((gs[j] + t) % dp.ctx.rns.q()) % t by { assert(w1[j].v() == (gs[j] + t) % dp.ctx.rns.q()); assert(w@[j].v() == w1[j].v() % ct.par.plaintext.value.v()); } lemma_unshift_big(u, gs, &dp, t); } assert(pad(u, ct.c@[0].d()) =~= u); }
//@ sig
    pub fn from_shares(iter: Vec<DecryptionShare>) -> (r: Result<Plaintext>)
//@ spec
    requires forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).sks_share.swf(),
    ensures iter@.len() == 0 ==> r is Err,
        r is Ok ==> forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).sks_share.h_share.like(&iter@[0].sks_share.h_share),
        // the plaintext, while the noise is below the threshold
        r matches Ok(pt) ==> pt.par == iter@[0].sks_share.par && pt.encoding is None && forall|s: Seq<Seq<int>>, w: Seq<int>, b0: int, b: int| #[trigger] d_shares(iter@, s, b) && #[trigger] iter@[0].sks_share.ct.enc(xfold(s, s.len()), w, b0)
            && low_noise(b0 + pt.par.t() * (s.len() * b), pt.par.ctx(iter@[0].sks_share.ct.level as int).rns.q()) && pt.par.roomy(iter@[0].sks_share.ct.level as int) ==> pt.holds(modt(w, pt.par.t())),
//@ start
    let ghost sh0 = iter@;
    let ghost mut ctg: Ciphertext = arbitrary();
    let ghost mut cp: Poly<Ntt> = arbitrary();
    let ghost mut cb: Poly<PowerBasis> = arbitrary();
    let ghost mut dp: Poly<PowerBasis> = arbitrary();
    let ghost mut kp: Poly<Ntt> = arbitrary();
    let ghost mut u: Seq<int> = arbitrary();
    let ghost mut gs: Seq<int> = arbitrary();
    let ghost mut t: int = 0;
    let ghost mut lv: int = 0;
    broadcast use lemma_fwd_auto, crate::scl::lemma_scaled_pb;
//@ after-let sks_shares
    proof { assert forall|i: int| 0 <= i < sks_shares@.len() implies (#[trigger] sks_shares@[i]).swf() by { assert(sks_shares@[i] == sh0[i].sks_share); } }
//@ after-let ct
    proof { ctg = ct; t = ct.par.t(); lv = ct.level as int; reveal(BfvParameters::wf_pt); assert(sks_shares@[0] == sh0[0].sks_share); assert(ct.par.wf_l(lv)); }
//@ after-let c_inner
    proof { cp = c_inner; lemma_like(&cp, &ct.c@[0]); }
//@ after-let ctx_lvl
    proof { cb = c; assert(ct.par.wf_cp(lv)); lemma_same_q(&*c.ctx, &ct.par.ctx(lv)); assert forall|x: Seq<int>| cp.isx(x) implies #[trigger] cb.coefs(x) by { lemma_back_of(&cp, &cb, x); } }
//@ after-let d
    proof { dp = d; assert(d.d() == ct.par.deg()); }
//@ loop-before 0
    proof { gs = bvals(v_s1@); lemma_q_pos(&*dp.ctx); }
//@ loop 0
    invariant
        n_0 == v_s1@.len(), gs == bvals(v_s1@), out_0@.len() == i_0, ct.par.wf(), t == ct.par.t(), forall|k: int| 0 <= k < i_0 ==> (#[trigger] out_0@[k]).v() == gs[k] + t,
//@ loop 1
    invariant
        n_1 == w@.len(), n_1 == gs.len(), q_poly.v() == dp.ctx.rns.q(), dp.ctx.rns.q() > 0, forall|k: int| 0 <= k < i_1 ==> (#[trigger] w@[k]).v() == (gs[k] + t) % dp.ctx.rns.q(), forall|k: int| i_1 <= k < n_1 ==> (#[trigger] w@[k]).v() == gs[k] + t,
//@ ret-hint
    proof {
        if r_ is Ok {
            let pt = r_->Ok_0;
            assert(pt.poly_ntt.isx(u) && (ctg.par.roomy(lv) ==> unshift(u, &dp, t)));
            let n = sh0.len();
            assert forall|i: int| 0 <= i < n implies (#[trigger] sh0[i]).sks_share.h_share.like(&sh0[0].sks_share.h_share) by { assert(inner(sh0)[i] == sh0[i].sks_share); assert(inner(sh0)[0] == sh0[0].sks_share); }
            assert forall|s: Seq<Seq<int>>, w: Seq<int>, b0: int, b: int| #[trigger] d_shares(sh0, s, b) && #[trigger] sh0[0].sks_share.ct.enc(xfold(s, s.len()), w, b0)
                && low_noise(b0 + pt.par.t() * (s.len() * b), pt.par.ctx(sh0[0].sks_share.ct.level as int).rns.q()) && pt.par.roomy(sh0[0].sks_share.ct.level as int) implies pt.holds(modt(w, pt.par.t())) by {
                let d = sh0[0].sks_share.par.deg(); let o = Seq::new(n, |i: int| zeros(d)); let sh = inner(sh0);
                assert(sh0[0].sks_share.swf());
                assert forall|i: int| 0 <= i < n implies #[trigger] sh[i].ok(s[i], o[i], b) && sh[i].ct == sh[0].ct by { assert(sh0[i].ok(s[i], b)); assert(sh0[i].sks_share == sh[i]); assert(sh0[0].sks_share == sh[0]); assert(sh0[i].sks_share.swf()); }
                assert(sk_shares(sh, s, o, b));
                lemma_xfold_zeros(d, n, n);
                assert(sh[0].ct.enc(xfold(s, s.len()), w, b0));
                let kp = lemma_zero_phase(&ctg, w, b0 + t * (s.len() * b), &cp);
                lemma_decrypts(&ctg, zeros(d), &kp, &cp, &cb, &dp, u, w, b0 + t * (s.len() * b));
            }
        }
    }
//@ end
