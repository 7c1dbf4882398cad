//@ import phase
//@ import rqsamp
//@ import ctsw
// ---------------------------------------------------------------------------
// fhe/src/bfv/keys/secret_key.rs, public_key.rs : encryption and decryption
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power::*;
use std::sync::Arc;
use crate::poly::fhe_traits::*;
use crate::modk::*;
use crate::ringmul::*;
use vstd::std_specs::ops::*;
broadcast use group_poly;
/// rand::rng().fill(&mut seed)
#[verifier::external_body]
pub fn vseedfill(seed: &mut [u8; 32]) { unimplemented!() }
/// std::mem::replace
pub assume_specification<T> [core::mem::replace::<T>] (a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;
#[verifier::external]
impl core::fmt::Debug for Ciphertext { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
#[verifier::external]
impl core::fmt::Debug for Plaintext { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
//@ struct crates/fhe/src/bfv/keys/secret_key.rs SecretKey
//@ struct crates/fhe/src/bfv/keys/public_key.rs PublicKey
pub open spec fn zeros(d: int) -> Seq<int> { Seq::new(d as nat, |j: int| 0) }
impl SecretKey {
    pub open spec fn s(&self) -> Seq<int> { ivals(self.coeffs@) }
    pub open spec fn wf(&self) -> bool { self.par.wf() && self.coeffs@.len() == self.par.deg() }
}
impl Ciphertext {
    /// under the key s, the phase is x plus a small error
    pub open spec fn masks(&self, s: Seq<int>, x: Poly<Ntt>, b: int) -> bool {
        exists|e: Poly<Ntt>| #[trigger] e.like(&x) && small_poly(&e, b) && self.hides(s, padd(e, x))
    }
}
/// the polynomial has small coefficients
pub open spec fn small_poly(p: &Poly<Ntt>, b: int) -> bool { exists|e: Seq<int>| #[trigger] p.isx(e) && smallx(e, b) }
/// [(e - a s) + p, a] has phase e + p
pub proof fn lemma_mask(e: Poly<Ntt>, p: Poly<Ntt>, a: Poly<Ntt>, s: &Poly<Ntt>, c: Seq<Poly<Ntt>>)
    requires e.like(&p), a.like(&p), s.like(&p), c.len() == 2, c[0].like(&p), c[1].like(&p), veq(&c[1], &a), veq(&c[0], &padd(psub(e, pmul(a, *s)), p)),
    ensures is_phase(&padd(e, p), c, s),
{
    let q = padd(e, p); let f = pmul(a, *s); let g = psub(e, f); let h = padd(g, p);
    lemma_like(&e, &p); lemma_like(&a, &p); lemma_like(s, &p); lemma_like(&c[0], &p); lemma_like(&c[1], &p);
    assert(a.like(s) && e.like(&f) && g.like(&p));
    assert forall|i: int, j: int| 0 <= i < q.n() && 0 <= j < q.d() implies eqm(#[trigger] ent(&q, i, j), hsum(c, ent(s, i, j), i, j, 2), q.p(i)) by {
        let m = q.p(i); let t = ent(s, i, j);
        assert(m > 1 && m == e.p(i) && m == a.p(i) && m == g.p(i));
        let (xe, xp, xa) = (ent(&e, i, j), ent(&p, i, j), ent(&a, i, j));
        lemma_entry_add(e, p, i, j); lemma_entry_add(a, *s, i, j); lemma_entry_add(e, f, i, j); lemma_entry_add(g, p, i, j);
        let (x0, x1) = (ent(&c[0], i, j), ent(&c[1], i, j));
        assert(x1 == xa && x0 == ent(&h, i, j));
        assert(hsum(c, t, i, j, 2) == x0 + x1 * t) by {
            reveal_with_fuel(hsum, 3); assert(pow(t, 0) == 1) by { reveal(pow); } lemma_pow1(t); assert(x0 * 1 == x0);
        }
        // x0 = (xe - xa t) + xp
        let (fe, ge) = (ent(&f, i, j), ent(&g, i, j));
        assert(1 * xe + 1 * xp == xe + xp && 1 * xe + (-1) * fe == xe - fe && 1 * ge + 1 * xp == ge + xp) by (nonlinear_arith);
        let y = xa * t; assert(t * xa == y) by (nonlinear_arith) requires y == xa * t;
        eqm_refl(xe, m); eqm_refl(xp, m); eqm_refl(y, m);
        eqm_add(xe, xe, fe, y, m); eqm_trans(ge, xe - fe, xe - y, m);
        eqm_add(ge, xe - y, xp, xp, m); eqm_trans(x0, ge + xp, (xe - y) + xp, m);
        eqm_add(x0, (xe - y) + xp, y, y, m);
        assert((xe - y) + xp + y == xe + xp);
        eqm_sym(x0 + y, xe + xp, m); eqm_trans(ent(&q, i, j), xe + xp, x0 + y, m);
    }
    assert(q.like(s));
    assert forall|l: int| 0 <= l < c.len() implies (#[trigger] c[l]).like(&q) by { if l == 0 { } else { assert(l == 1); } }
    reveal(is_phase);
}
/// [u k0 + e1 + m, u k1 + e2] has phase u (k0 + k1 s) + (e1 + e2 s) + m
pub proof fn lemma_pk(u: Poly<Ntt>, e1: Poly<Ntt>, e2: Poly<Ntt>, m: Poly<Ntt>, k: Seq<Poly<Ntt>>, s: &Poly<Ntt>, p0: Poly<Ntt>, c: Seq<Poly<Ntt>>)
    requires is_phase(&p0, k, s), k.len() == 2, u.like(&p0), e1.like(&p0), e2.like(&p0), m.like(&p0), c.len() == 2, c[0].like(&p0), c[1].like(&p0),
        veq(&c[0], &padd(padd(pmul(u, k[0]), e1), m)), veq(&c[1], &padd(pmul(u, k[1]), e2)),
    ensures is_phase(&padd(padd(pmul(p0, u), padd(e1, pmul(e2, *s))), m), c, s),
{
    assert(p0.like(s) && k[0].like(&p0) && k[1].like(&p0)) by { reveal(is_phase); }
    lemma_like(&u, &p0); lemma_like(&e1, &p0); lemma_like(&e2, &p0); lemma_like(&m, &p0); lemma_like(&p0, s); lemma_like(&k[0], &p0); lemma_like(&k[1], &p0); lemma_like(&c[0], &p0); lemma_like(&c[1], &p0);
    let (a0, a1) = (pmul(u, k[0]), pmul(u, k[1]));
    let b0 = padd(a0, e1);
    let (r1, r2) = (pmul(p0, u), pmul(e2, *s));
    let r3 = padd(e1, r2); let r4 = padd(r1, r3); let q = padd(r4, m);
    assert(e2.like(s) && e1.like(&r2) && r1.like(&r3) && r4.like(&m) && u.like(&k[0]) && u.like(&k[1]) && a0.like(&e1) && b0.like(&m) && a1.like(&e2));
    assert forall|i: int, j: int| 0 <= i < q.n() && 0 <= j < q.d() implies eqm(#[trigger] ent(&q, i, j), hsum(c, ent(s, i, j), i, j, 2), q.p(i)) by {
        let md = q.p(i); let t = ent(s, i, j);
        assert(md > 1 && md == p0.p(i) && md == u.p(i));
        let (xu, x1, x2, xm, k0, k1, xp) = (ent(&u, i, j), ent(&e1, i, j), ent(&e2, i, j), ent(&m, i, j), ent(&k[0], i, j), ent(&k[1], i, j), ent(&p0, i, j));
        lemma_phase_at(&p0, k, s, i, j);
        lemma_h2(k, t, i, j); lemma_h2(c, t, i, j);
        lemma_entry_add(u, k[0], i, j); lemma_entry_add(u, k[1], i, j); lemma_entry_add(a0, e1, i, j); lemma_entry_add(b0, m, i, j); lemma_entry_add(a1, e2, i, j);
        lemma_entry_add(p0, u, i, j); lemma_entry_add(e2, *s, i, j); lemma_entry_add(e1, r2, i, j); lemma_entry_add(r1, r3, i, j); lemma_entry_add(r4, m, i, j);
        let (c0, c1) = (ent(&c[0], i, j), ent(&c[1], i, j));
        lemma_pk_arith(xu, x1, x2, xm, k0, k1, xp, t, c0, c1, ent(&a0, i, j), ent(&a1, i, j), ent(&b0, i, j), ent(&r1, i, j), ent(&r2, i, j), ent(&r3, i, j), ent(&r4, i, j), ent(&q, i, j), md);
    }
    assert(q.like(s));
    assert forall|l: int| 0 <= l < c.len() implies (#[trigger] c[l]).like(&q) by { if l == 0 { } else { assert(l == 1); } }
    reveal(is_phase);
}
pub proof fn lemma_h2(c: Seq<Poly<Ntt>>, t: int, i: int, j: int)
    ensures hsum(c, t, i, j, 2) == ent(&c[0], i, j) + ent(&c[1], i, j) * t,
{ reveal_with_fuel(hsum, 3); assert(pow(t, 0) == 1) by { reveal(pow); } lemma_pow1(t); assert(ent(&c[0], i, j) * 1 == ent(&c[0], i, j)); }
/// x = y + k p, from a congruence
pub proof fn lemma_pk_arith(u: int, x1: int, x2: int, m: int, k0: int, k1: int, xp: int, t: int, c0: int, c1: int, a0: int, a1: int, b0: int, r1: int, r2: int, r3: int, r4: int, q: int, p: int)
    requires 0 < p, eqm(xp, k0 + k1 * t, p), eqm(a0, k0 * u, p), eqm(a1, k1 * u, p), eqm(b0, 1 * a0 + 1 * x1, p), eqm(c0, 1 * b0 + 1 * m, p), eqm(c1, 1 * a1 + 1 * x2, p),
        eqm(r1, u * xp, p), eqm(r2, t * x2, p), eqm(r3, 1 * x1 + 1 * r2, p), eqm(r4, 1 * r1 + 1 * r3, p), eqm(q, 1 * r4 + 1 * m, p),
    ensures eqm(q, c0 + c1 * t, p),
{
    let h = k0 + k1 * t;
    eqm_refl(x1, p); eqm_refl(x2, p); eqm_refl(m, p);
    // c0 = k0 u + x1 + m, c1 = k1 u + x2
    eqm_add(a0, k0 * u, x1, x1, p); eqm_trans(b0, a0 + x1, k0 * u + x1, p);
    eqm_add(b0, k0 * u + x1, m, m, p); eqm_trans(c0, b0 + m, k0 * u + x1 + m, p);
    eqm_add(a1, k1 * u, x2, x2, p); eqm_trans(c1, a1 + x2, k1 * u + x2, p);
    eqm_mulc(c1, k1 * u + x2, t, p);
    eqm_add(c0, k0 * u + x1 + m, c1 * t, (k1 * u + x2) * t, p);
    // q = h u + x1 + t x2 + m
    eqm_mulc(xp, h, u, p); assert(u * xp == xp * u) by (nonlinear_arith);
    eqm_trans(r1, xp * u, h * u, p);
    eqm_add(x1, x1, r2, t * x2, p); eqm_trans(r3, x1 + r2, x1 + t * x2, p);
    eqm_add(r1, h * u, r3, x1 + t * x2, p); eqm_trans(r4, r1 + r3, h * u + (x1 + t * x2), p);
    eqm_add(r4, h * u + (x1 + t * x2), m, m, p); eqm_trans(q, r4 + m, h * u + (x1 + t * x2) + m, p);
    assert(k0 * u + x1 + m + (k1 * u + x2) * t == (k0 + k1 * t) * u + (x1 + t * x2) + m) by (nonlinear_arith);
    let v = h * u + (x1 + t * x2) + m;
    eqm_sym(c0 + c1 * t, v, p); eqm_trans(q, v, c0 + c1 * t, p);
}
// decryption: the loop -----------------------------------------------------------
/// p is the sum of the first k terms of the phase
#[verifier::opaque]
pub open spec fn part_phase(p: &Poly<Ntt>, c: Seq<Poly<Ntt>>, s: &Poly<Ntt>, k: nat) -> bool {
    p.like(s) && forall|i: int, j: int| 0 <= i < p.n() && 0 <= j < p.d() ==> eqm(#[trigger] ent(p, i, j), hsum(c, ent(s, i, j), i, j, k), p.p(i))
}
/// p is s^k
#[verifier::opaque]
pub open spec fn is_pow(p: &Poly<Ntt>, s: &Poly<Ntt>, k: nat) -> bool {
    p.like(s) && forall|i: int, j: int| 0 <= i < p.n() && 0 <= j < p.d() ==> eqm(#[trigger] ent(p, i, j), pow(ent(s, i, j), k), p.p(i))
}
pub proof fn lemma_pp_start(p: &Poly<Ntt>, c: Seq<Poly<Ntt>>, s: &Poly<Ntt>)
    requires c.len() >= 1, p.like(s), veq(&c[0], p), c[0].like(p),
    ensures part_phase(p, c, s, 1), is_pow(s, s, 1),
{
    lemma_like(p, s); lemma_like(&c[0], p);
    assert forall|i: int, j: int| 0 <= i < p.n() && 0 <= j < p.d() implies eqm(#[trigger] ent(p, i, j), hsum(c, ent(s, i, j), i, j, 1), p.p(i)) by {
        let t = ent(s, i, j);
        reveal_with_fuel(hsum, 2); assert(pow(t, 0) == 1) by { reveal(pow); }
        assert(ent(&c[0], i, j) == ent(p, i, j)); assert(ent(p, i, j) * 1 == ent(p, i, j));
        eqm_refl(ent(p, i, j), p.p(i));
    }
    assert forall|i: int, j: int| 0 <= i < s.n() && 0 <= j < s.d() implies eqm(#[trigger] ent(s, i, j), pow(ent(s, i, j), 1), s.p(i)) by { lemma_pow1(ent(s, i, j)); assert(s.p(i) > 1) by { assert(s.ctx.wf_i(i)); } eqm_refl(ent(s, i, j), s.p(i)); }
    reveal(part_phase); reveal(is_pow);
}
pub proof fn lemma_pp_step(p: Poly<Ntt>, x: Poly<Ntt>, w: Poly<Ntt>, c: Seq<Poly<Ntt>>, s: &Poly<Ntt>, k: nat)
    requires part_phase(&p, c, s, k), is_pow(&w, s, k), k < c.len(), x.like(&p), veq(&c[k as int], &x), c[k as int].like(&p),
    ensures x.like(&w), p.like(&pmul(x, w)), part_phase(&padd(p, pmul(x, w)), c, s, k + 1), padd(p, pmul(x, w)).like(s),
{
    assert(p.like(s) && w.like(s)) by { reveal(part_phase); reveal(is_pow); }
    lemma_like(&p, s); lemma_like(&w, s); lemma_like(&x, &p); lemma_like(&c[k as int], &p);
    assert(x.like(&w));
    let y = pmul(x, w); assert(p.like(&y)); let r = padd(p, y);
    assert forall|i: int, j: int| 0 <= i < r.n() && 0 <= j < r.d() implies eqm(#[trigger] ent(&r, i, j), hsum(c, ent(s, i, j), i, j, k + 1), r.p(i)) by {
        let (t, m) = (ent(s, i, j), r.p(i)); assert(m > 1 && m == p.p(i) && m == x.p(i) && m == w.p(i));
        reveal(part_phase); reveal(is_pow);
        let (xp, xx, xw) = (ent(&p, i, j), ent(&x, i, j), ent(&w, i, j));
        assert(eqm(xp, hsum(c, t, i, j, k), m)); assert(eqm(xw, pow(t, k), m));
        assert(ent(&c[k as int], i, j) == xx);
        lemma_entry_add(x, w, i, j); lemma_entry_add(p, y, i, j);
        let z = pow(t, k);
        eqm_mulc(xw, z, xx, m); assert(z * xx == xx * z) by (nonlinear_arith);
        eqm_trans(ent(&y, i, j), xw * xx, xx * z, m);
        let hk = hsum(c, t, i, j, k);
        eqm_add(xp, hk, ent(&y, i, j), xx * z, m);
        assert(1 * xp + 1 * ent(&y, i, j) == xp + ent(&y, i, j)) by (nonlinear_arith);
        eqm_trans(ent(&r, i, j), xp + ent(&y, i, j), hk + xx * z, m);
    }
    assert(r.like(s));
    reveal(part_phase);
}
pub proof fn lemma_pow_step(w: Poly<Ntt>, s: &Poly<Ntt>, k: nat)
    requires is_pow(&w, s, k),
    ensures w.like(s), is_pow(&pmul(w, *s), s, k + 1),
{
    assert(w.like(s)) by { reveal(is_pow); }
    lemma_like(&w, s);
    let r = pmul(w, *s);
    assert forall|i: int, j: int| 0 <= i < r.n() && 0 <= j < r.d() implies eqm(#[trigger] ent(&r, i, j), pow(ent(s, i, j), k + 1), r.p(i)) by {
        let (t, m) = (ent(s, i, j), r.p(i)); assert(m > 1 && m == w.p(i));
        reveal(is_pow);
        lemma_entry_add(w, *s, i, j);
        let (x, z) = (ent(&w, i, j), pow(t, k));
        assert(eqm(x, z, m));
        eqm_mulc(x, z, t, m);
        assert(t * x == x * t && t * z == z * t) by (nonlinear_arith);
        assert(pow(t, k + 1) == t * z) by { reveal(pow); }
        eqm_trans(ent(&r, i, j), x * t, z * t, m);
    }
    assert(r.like(s));
    reveal(is_pow);
}
pub proof fn lemma_pp_end(p: &Poly<Ntt>, c: Seq<Poly<Ntt>>, s: &Poly<Ntt>)
    requires part_phase(p, c, s, c.len()), forall|l: int| 0 <= l < c.len() ==> (#[trigger] c[l]).like(p),
    ensures is_phase(p, c, s),
{ reveal(part_phase); reveal(is_phase); }
/// a small polynomial is a noisy zero
pub proof fn lemma_small_noisy(e: &Poly<Ntt>, t: int, b: int)
    requires e.wf(), small_poly(e, b), t >= 0,
    ensures noisy(e, t, zeros(e.d()), t * b),
{
    let z = choose|z: Seq<int>| #[trigger] e.isx(z) && smallx(z, b);
    let w = zeros(e.d()); let q = e.ctx.rns.q();
    assert forall|j: int| 0 <= j < z.len() implies -(t * b) <= #[trigger] (t * z[j]) - q * w[j] <= t * b by {
        let x = z[j]; assert(q * w[j] == 0) by (nonlinear_arith) requires w[j] == 0;
        assert(-(t * b) <= t * x <= t * b) by (nonlinear_arith) requires -b <= x <= b, t >= 0;
    }
    noisy_of(e, t, w, t * b, z);
}
/// a plaintext scaled up
pub proof fn lemma_scaled_noisy(pt: &Plaintext, p: &Poly<Ntt>, m: Seq<int>)
    requires pt.wf(), pt.is_scaled(p), pt.holds(m),
    ensures noisy(p, pt.par.t(), m, pt.par.t()),
{
    let t = pt.par.t(); let q = p.ctx.rns.q(); let z = pt.scaled(m);
    assert(pt.par.wf_l(pt.lvl()));
    lemma_same_q(&*p.ctx, &pt.par.ctx(pt.lvl())); lemma_same_q(&*pt.poly_ntt.ctx, &pt.par.ctx(pt.lvl()));
    assert(p.isx(z)); assert(t >= 2) by { reveal(BfvParameters::wf_pt); }
    assert forall|j: int| 0 <= j < z.len() implies -t <= #[trigger] (t * z[j]) - q * m[j] <= t by {
        let x = q * m[j];
        assert(z[j] == x / t);
        lemma_fundamental_div_mod(x, t); lemma_mod_bound(x, t);
    }
    noisy_of(p, t, m, t, z);
}
/// a masked plaintext is an encryption of it
pub proof fn lemma_masks_enc(c: &Ciphertext, s: Seq<int>, pt: &Plaintext, p: Poly<Ntt>, b: int, m: Seq<int>)
    requires c.par == pt.par, c.masks(s, p, b), pt.wf(), pt.is_scaled(&p), pt.holds(m), b >= 0,
    ensures c.enc(s, m, pt.par.t() * b + pt.par.t()),
{
    let t = pt.par.t();
    let e = choose|e: Poly<Ntt>| #[trigger] e.like(&p) && small_poly(&e, b) && c.hides(s, padd(e, p));
    assert(t >= 2) by { reveal(BfvParameters::wf_pt); }
    lemma_small_noisy(&e, t, b); lemma_scaled_noisy(pt, &p, m);
    noisy_add(e, p, t, zeros(e.d()), t * b, m, t);
    lemma_like(&e, &p); assert(p.isx(pt.scaled(m)));
    assert(xadd(zeros(e.d()), m) =~= m) by { assert forall|j: int| 0 <= j < m.len() implies xadd(zeros(e.d()), m)[j] == m[j] by { let x = m[j]; assert(1 * 0 + 1 * x == x) by (nonlinear_arith); } }
    assert(c.hides(s, padd(e, p)));
}
//@ fn crates/fhe/src/bfv/keys/secret_key.rs SecretKey::new
//@ ret r
//@ subst par.to_owned() => par.clone()
//@ spec
    ensures r.par == *par, r.coeffs@ == coeffs@,
//@ end
//@ fn crates/fhe/src/bfv/keys/secret_key.rs SecretKey::random
//@ ret r
//@ sig
    pub fn random(par: &Arc<BfvParameters>, rng: &mut VRng) -> (r: Self)
//@ spec
    requires 1 <= par.variance <= 32,
    ensures r.par == *par, r.coeffs@.len() == par.deg(), smallx(r.s(), 2 * par.variance),
//@ end
//@ fn crates/fhe/src/bfv/keys/secret_key.rs SecretKey::encrypt_poly
//@ ret r
//@ subst <ChaCha8Rng as SeedableRng>::Seed::default() => [0u8; 32]
//@ subst rand::rng().fill(&mut seed) => vseedfill(&mut seed)
//@ subst self.coeffs.as_ref() => &*self.coeffs
//@ subst &a * &s => a.vmul(&s)
//@ sig
    pub fn encrypt_poly(&self, p: &Poly<Ntt>, rng: &mut VRng) -> (r: Result<Ciphertext>)
//@ spec
    requires self.wf(), p.wf(),
    ensures
        r is Ok <==> 1 <= self.par.variance <= 32 && exists|l: int| 0 <= l < self.par.lv() && same(&#[trigger] self.par.ctx(l), &*p.ctx),
        r matches Ok(c) ==> {
            &&& c.wf() && c.par == self.par && c.c@.len() == 2 && same(&self.par.ctx(c.level as int), &*p.ctx)
            &&& c.masks(self.s(), *p, 2 * self.par.variance)
            &&& c.seed matches Some(sd) && veq(&c.c@[1], &seeded(*p.ctx, sd))
            &&& c.c@[0].vt() && c.c@[1].vt()
        },
//@ start
    let ghost mut sp: Poly<Ntt> = arbitrary();
    let ghost mut ap: Poly<Ntt> = arbitrary();
    let ghost mut ep: Poly<Ntt> = arbitrary();
    let ghost mut bp: Poly<Ntt> = arbitrary();
    broadcast use lemma_fwd_auto;
    proof { assert forall|l: int| 0 <= l < self.par.lv() && same(&#[trigger] self.par.ctx(l), &*p.ctx) implies self.s().len() == p.d() by { assert(self.par.wf_l(l)); } }
//@ after-let s
    proof { sp = s; assert(pad(self.s(), p.d()) =~= self.s()); assert(s.isx(self.s())); }
//@ after-let a_s
    proof { ap = a; }
//@ after-let b
    proof { ep = b; let e = choose|e: Seq<int>| smallx(e, 2 * self.par.variance) && #[trigger] b.isv(e); assert(b.isx(e)); assert(small_poly(&ep, 2 * self.par.variance)); }
//@ after-let variable_time
    proof { bp = b; }
//@ ret-hint
    proof {
        if r_ is Ok {
            let c = r_->Ok_0;
            let k = c.c@;
            assert(k.len() == 2);
            assert(ep.like(p) && ap.like(p) && sp.like(p) && ap.like(&sp));
            let as_ = pmul(ap, sp); assert(ep.like(&as_)); let e_ = psub(ep, as_); assert(e_.like(p));
            let bq = padd(e_, *p);
            assert(k[0].like(p) && k[1].like(p));
            assert(veq(&k[1], &ap));
            assert(veq(&k[0], &bq));
            lemma_mask(ep, *p, ap, &sp, k);
            assert(c.hides(self.s(), padd(ep, *p)));
            assert(c.masks(self.s(), *p, 2 * self.par.variance));
            assert(polys_ok(k, &self.par.ctx(c.level as int)));
        }
    }
//@ end
//@ fn crates/fhe/src/bfv/keys/secret_key.rs FheEncrypter<Plaintext,Ciphertext>@SecretKey::try_encrypt as=SecretKey::try_encrypt
//@ ret r
//@ sig
    pub fn try_encrypt(&self, pt: &Plaintext, rng: &mut VRng) -> (r: Result<Ciphertext>)
//@ spec
    requires self.wf(), pt.wf(),
    ensures r matches Ok(c) ==> pt.par == self.par && c.wf() && c.par == self.par && c.level == pt.lvl() && c.c@.len() == 2
        && forall|m: Seq<int>| pt.holds(m) ==> #[trigger] c.enc(self.s(), m, self.par.t() * (2 * self.par.variance) + self.par.t()),
//@ start
    let ghost mut mp: Poly<Ntt> = arbitrary();
//@ after-let m
    proof { mp = m; }
//@ ret-hint
    proof {
        if r_ is Ok {
            let c = r_->Ok_0;
            assert(c.level == pt.lvl()) by { assert(same(&self.par.ctx(c.level as int), &*mp.ctx)); lemma_level_unique(&*self.par, c.level as int, pt.lvl()); }
            assert forall|m: Seq<int>| pt.holds(m) implies #[trigger] c.enc(self.s(), m, self.par.t() * (2 * self.par.variance) + self.par.t()) by { lemma_masks_enc(&c, self.s(), pt, mp, 2 * self.par.variance, m); }
        }
    }
//@ end
pub proof fn lemma_q_pos(c: &Context)
    requires c.wf(),
    ensures c.rns.q() >= 1,
{ assert(c.rns.wf()); lemma_prod_pos(c.rns.moduli_u64@); }
pub proof fn lemma_reshaped_small(d: &Poly<PowerBasis>, v: Seq<u64>)
    requires d.wf(), reshaped(v, d.rows(), d.n(), d.d()),
    ensures forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] < 0x4000000000000000,
{
    let m = d.d();
    assert forall|k: int| 0 <= k < v.len() implies #[trigger] v[k] < 0x4000000000000000 by {
        assert(m >= 1) by (nonlinear_arith) requires v.len() == d.n() * m, v.len() > 0, m >= 0, d.n() >= 0;
        let (i, j) = (k / m, k % m);
        lemma_fundamental_div_mod(k, m); lemma_mod_bound(k, m);
        assert(0 <= i < d.n()) by (nonlinear_arith) requires k == m * i + j, 0 <= j < m, 0 <= k < d.n() * m;
        assert(d.rows()[i]@[j] == v[i * m + j]); assert(i * m == m * i) by (nonlinear_arith);
        assert(d.ctx.wf_i(i)); assert(canon(d.rows()[i]@, d.p(i)));
    }
}
/// u is what the decoder makes of d: (y + t) mod t, for coefficients y of d in [-t, t)
#[verifier::opaque]
pub open spec fn unshift(u: Seq<int>, d: &Poly<PowerBasis>, t: int) -> bool {
    u.len() == d.d() && (forall|j: int| 0 <= j < u.len() ==> 0 <= #[trigger] u[j] < t)
    && forall|y: Seq<int>, j: int| #[trigger] d.coefs(y) && 0 <= j < u.len() && 0 <= y[j] + t < 2 * t ==> #[trigger] u[j] == (y[j] + t) % t
}
/// from the first residues
pub proof fn lemma_unshift_small(u: Seq<int>, d: &Poly<PowerBasis>, t: int)
    requires d.wf(), d.n() >= 1, 2 <= t, 2 * t <= d.p(0), u.len() == d.d(), forall|j: int| 0 <= j < u.len() ==> #[trigger] u[j] == ((ent(d, 0, j) + t) % d.p(0)) % t,
    ensures unshift(u, d, t),
{
    let p = d.p(0);
    assert forall|j: int| 0 <= j < u.len() implies 0 <= #[trigger] u[j] < t by { lemma_mod_bound((ent(d, 0, j) + t) % p, t); }
    assert forall|y: Seq<int>, j: int| #[trigger] d.coefs(y) && 0 <= j < u.len() && 0 <= y[j] + t < 2 * t implies #[trigger] u[j] == (y[j] + t) % t by {
        let x = y[j]; assert(d.is_int(j, y[j]));
        assert(d.rows()[0]@[j] as int == x % p);
        lemma_add_mod_noop(x, t, p); lemma_add_mod_noop(x % p, t, p); lemma_mod_twice(x, p);
        assert((x % p + t) % p == (x + t) % p);
        lemma_small_mod((x + t) as nat, p as nat);
    }
    reveal(unshift);
}
/// from the lifted values
pub proof fn lemma_unshift_big(u: Seq<int>, g: Seq<int>, d: &Poly<PowerBasis>, t: int)
    requires d.wf(), 2 <= t, 2 * t <= d.ctx.rns.q(), u.len() == d.d(), g.len() == d.d(),
        forall|j: int| 0 <= j < u.len() ==> 0 <= #[trigger] g[j] < d.ctx.rns.q() && d.is_int(j, g[j]),
        forall|j: int| 0 <= j < u.len() ==> #[trigger] u[j] == ((g[j] + t) % d.ctx.rns.q()) % t,
    ensures unshift(u, d, t),
{
    let q = d.ctx.rns.q();
    assert forall|j: int| 0 <= j < u.len() implies 0 <= #[trigger] u[j] < t by { lemma_mod_bound((g[j] + t) % q, t); }
    assert forall|y: Seq<int>, j: int| #[trigger] d.coefs(y) && 0 <= j < u.len() && 0 <= y[j] + t < 2 * t implies #[trigger] u[j] == (y[j] + t) % t by {
        let x = y[j]; assert(d.is_int(j, y[j]));
        // g = x mod q
        let r = x % q; lemma_mod_bound(x, q);
        assert(d.is_int(j, r)) by {
            assert(d.ctx.wf() && d.ctx.rns.wf());
            assert forall|i: int| 0 <= i < d.n() implies (#[trigger] d.rows()[i])@[j] as int == r % d.p(i) by {
                let p = d.p(i); assert(d.ctx.wf_i(i)); assert(d.ctx.rns.m(i) == p);
                lemma_div_prodm(d.ctx.rns.moduli_u64@, i);
                let k = q / p; 
                lemma_fundamental_div_mod(x, q); lemma_fundamental_div_mod(q, p);
                assert(q == p * k); let h = x / q;
                assert(x == p * (k * h) + r) by (nonlinear_arith) requires x == q * h + r, q == p * k;
                lemma_mod_multiples_vanish(k * h, r, p);
            }
        }
        assert(0 <= g[j] < q && d.is_int(j, g[j]));
        lemma_int_unique(d, j, r, g[j]);
        lemma_add_mod_noop(x, t, q); lemma_add_mod_noop(x % q, t, q); lemma_mod_twice(x, q);
        lemma_small_mod((x + t) as nat, q as nat);
    }
    reveal(unshift);
}
/// small values convert to themselves
pub proof fn lemma_conv_small(t: int, m: Seq<u64>, c: &Arc<Context>, vt: bool, r: Result<Poly<PowerBasis>>)
    requires c.wf(), m.len() == c.d(), t <= c.p(0), forall|j: int| 0 <= j < m.len() ==> #[trigger] m[j] < t, conv_vec(m, c, vt, r),
    ensures r matches Ok(p) && p.wf() && fresh(&p, c, vt) && p.coefs(vals(m)),
{
    assert(c.wf_i(0));
    lemma_ctx_fits(&**c);
    let p = r->Ok_0; let d = c.d();
    if full(m, &**c) {
        assert(c.n() == 1) by (nonlinear_arith) requires c.n() * d == d, d >= 1, c.n() >= 1;
        assert forall|i: int, j: int| 0 <= i < c.n() && 0 <= j < d implies #[trigger] m[i * d + j] < c.p(i) by { assert(i == 0); assert(i * d + j == j); assert(m[j] < t); }
        assert(full_ok(m, &**c));
        assert forall|j: int| 0 <= j < p.d() implies p.is_int(j, #[trigger] vals(m)[j]) by {
            assert(p.rows()[0]@[j] == m[0 * d + j]); assert(m[j] < t); lemma_small_mod(m[j] as nat, c.p(0) as nat);
        }
    } else { assert(pad(vals(m), d) =~= vals(m)); }
}
/// decryption recovers the plaintext from a low noise phase
pub proof fn lemma_decrypts(ct: &Ciphertext, s: Seq<int>, k: &Poly<Ntt>, c: &Poly<Ntt>, cb: &Poly<PowerBasis>, d: &Poly<PowerBasis>, u: Seq<int>, w: Seq<int>, b: int)
    requires ct.wf(), ct.c@.len() >= 1, k.isx(s), is_phase(c, ct.c@, k), ct.enc(s, w, b), low_noise(b, c.ctx.rns.q()), ct.par.t() >= 2,
        forall|x: Seq<int>| c.isx(x) ==> #[trigger] cb.coefs(x), d.d() == c.d(), c.wf(),
        forall|x: Seq<int>| #[trigger] cb.coefs(x) ==> exists|y: Seq<int>| #[trigger] d.coefs(y) && resc(x, c.ctx.rns.q(), ct.par.t(), c.ctx.rns.q(), y),
        unshift(u, d, ct.par.t()),
    ensures u =~= modt(w, ct.par.t()),
{
    let (t, q) = (ct.par.t(), c.ctx.rns.q());
    let p = choose|p: Poly<Ntt>| #[trigger] ct.hides(s, p) && noisy(&p, t, w, b);
    let k2 = choose|k2: Poly<Ntt>| #[trigger] k2.isx(s) && is_phase(&p, ct.c@, &k2);
    lemma_one_phase(&p, c, ct.c@, &k2, k, s);
    let z = noisy_get(&p, t, w, b);
    lemma_veq_isx(&p, c, z); lemma_like(&p, c);
    lemma_same_q(&*p.ctx, &*c.ctx);
    assert(cb.coefs(z));
    let y = choose|y: Seq<int>| #[trigger] d.coefs(y) && resc(z, q, t, q, y);
    lemma_q_pos(&*c.ctx);
    reveal(unshift);
    assert forall|j: int| 0 <= j < w.len() implies u[j] == modt(w, t)[j] by {
        assert(rounds(z[j], q, t, q, y[j]));
        assert(-b <= t * z[j] - q * w[j] <= b);
        lemma_decode(z[j], w[j], b, y[j], t, q);
        assert(d.coefs(y));
        let _ = u[j];
    }
}
//@ fn crates/fhe/src/bfv/keys/secret_key.rs FheDecrypter<Plaintext,Ciphertext>@SecretKey::try_decrypt as=SecretKey::try_decrypt
//@ ret r
//@ derefs ct
//@ subst self.coeffs.as_ref() => &*self.coeffs
//@ subst Vec::<u64>::try_from( => Poly::<PowerBasis>::to_u64s(
//@ subst Vec::<BigUint>::from( => Poly::<PowerBasis>::to_big(
//@ subst **plaintext_modulus => plaintext_modulus.p
//@ subst v_s1[i_2] + self.par.plaintext_big() => v_s1[i_2].clone() + self.par.plaintext_big()
//@ subst w[i_3] %= q_poly => let v_x = w[i_3].clone() % q_poly; w.set(i_3, v_x)
//@ vec 2 BigUint
//@ subst cis.disallow_variable_time_computations(); => cis.disallow_variable_time_computations(); proof { x0 = cis; }
//@ subst q.reduce_vec(&mut w); => let ghost w0 = w@; q.reduce_vec(&mut w); let ghost w1 = w@;
//@ subst plaintext_modulus.reduce_vec(&mut w); => plaintext_modulus.reduce_vec(&mut w); proof { u = vals(w@); assert forall|j: int| 0 <= j < u.len() implies #[trigger] u[j] == ((ent(&dp, 0, j) + t) % dp.p(0)) % t by { assert(w0[j] == v@[j]); assert(v@[j] == v0[j] + t); assert(w1[j] == w0[j] as int % dp.p(0)); assert(w@[j] == w1[j] as int % t); } assert(2 * t <= dp.p(0)); lemma_unshift_small(u, &dp, t); assert forall|j: int| 0 <= j < w@.len() implies #[trigger] w@[j] < t by { assert(u[j] == w@[j]); reveal(unshift); } let cc = ct.c@[0].ctx; assert(t <= cc.p(0)); assert forall|r: Result<Poly<PowerBasis>>| #[trigger] conv_vec(w@, &cc, false, r) implies (r matches Ok(p) && p.wf() && fresh(&p, &cc, false) && p.coefs(u)) by { lemma_conv_small(t, w@, &cc, false, r); } }
//@ subst self.par.plaintext.reduce_vec(&mut w); => let ghost w1 = w@; self.par.plaintext.reduce_vec(&mut w); proof { u = bvals(w@); if self.par.roomy(lv) { assert forall|j: int| 0 <= j < u.len() implies #[trigger] u[j] == ((gs[j] + t) % dp.ctx.rns.q()) % t by { assert(w1[j].v() == (gs[j] + t) % dp.ctx.rns.q()); assert(w@[j].v() == w1[j].v() % self.par.plaintext.value.v()); } lemma_unshift_big(u, gs, &dp, t); } assert(pad(u, ct.c@[0].d()) =~= u); }
//@ spec
    requires self.wf(), ct.polys_wf(), ct.par.wf(),
    ensures r matches Ok(pt) ==> ct.par == self.par && pt.par == self.par && pt.encoding is None && pt.poly_ntt.wf() && same(&*pt.poly_ntt.ctx, &self.par.ctx(ct.level as int))
        && forall|w: Seq<int>, b: int| #[trigger] ct.enc(self.s(), w, b) && low_noise(b, self.par.ctx(ct.level as int).rns.q()) && self.par.roomy(ct.level as int) ==> pt.holds(modt(w, self.par.t())),
//@ start
    let ghost mut sp: Poly<Ntt> = arbitrary();
    let ghost mut cp: Poly<Ntt> = arbitrary();
    let ghost mut cb: Poly<PowerBasis> = arbitrary();
    let ghost mut dp: Poly<PowerBasis> = arbitrary();
    let ghost mut x0: Poly<Ntt> = arbitrary();
    let ghost mut u: Seq<int> = arbitrary();
    let ghost mut gs: Seq<int> = arbitrary();
    let ghost mut v0: Seq<u64> = arbitrary();
    let ghost t = self.par.t();
    let ghost lv = ct.level as int;
    broadcast use lemma_fwd_auto, crate::scl::lemma_scaled_pb;
    proof { reveal(BfvParameters::wf_pt); }
//@ after-let s
    proof { sp = s; assert(self.par.wf_l(lv)); assert(pad(self.s(), s.d()) =~= self.s()); assert(s.isx(self.s())); }
//@ loop-before 0
    proof { assert(c.like(&s)); assert(veq(&ct.c@[0], &c)); lemma_pp_start(&c, ct.c@, &s); assert(veq(&si, &s)); }
//@ loop 0
    invariant
        n_0 == ct.c@.len(), ct.wf(), s.wf(), s == sp, part_phase(&c, ct.c@, &s, i_0 as nat), is_pow(&si, &s, if i_0 < n_0 { i_0 as nat } else { (i_0 - 1) as nat }),
        forall|l: int| 0 <= l < ct.c@.len() ==> (#[trigger] ct.c@[l]).like(&s),
//@ loop-start 0
    let ghost (c0, w0) = (c, si);
    proof {
        assert(c.like(&s) && si.like(&s)) by { reveal(part_phase); reveal(is_pow); }
        lemma_like(&c, &s); lemma_like(&si, &s);
        let y = ct.c@[i_0 as int]; assert(y.like(&s)); lemma_like(&y, &s);
    }
//@ loop-end 0
    proof {
        lemma_pp_step(c0, x0, w0, ct.c@, &s, i_0 as nat);
        if i_0 + 1 < n_0 { lemma_pow_step(w0, &s, i_0 as nat); }
    }
//@ loop-after 0
    proof { assert(part_phase(&c, ct.c@, &s, ct.c@.len())); assert(c.like(&s)) by { reveal(part_phase); } lemma_pp_end(&c, ct.c@, &s); cp = c; }
//@ after-let ctx_lvl
    proof { assert(self.par.wf_cp(lv)); lemma_same_q(&*c.ctx, &self.par.ctx(lv)); }
//@ after-let c_pb
    proof { cb = c_pb; assert forall|x: Seq<int>| cp.isx(x) implies #[trigger] cb.coefs(x) by { lemma_back_of(&cp, &cb, x); } }
//@ after-let d
    proof { dp = d; assert(d.d() == self.par.deg()); }
//@ loop-before 1
    proof { v0 = v@; lemma_reshaped_small(&dp, v0); assert(dp.ctx.wf_i(0)); assert(v@.len() >= dp.d()) by { assert(dp.n() * dp.d() >= dp.d()) by (nonlinear_arith) requires dp.n() >= 1, dp.d() >= 0; } }
//@ loop 1
    invariant
        n_1 == v@.len(), n_1 == v0.len(), plaintext_modulus.p == t, forall|k: int| 0 <= k < n_1 ==> v0[k] < 0x4000000000000000, t < 0x4000000000000000,
        forall|k: int| 0 <= k < i_1 ==> #[trigger] v@[k] == v0[k] + t, forall|k: int| i_1 <= k < n_1 ==> #[trigger] v@[k] == v0[k],
//@ loop-before 2
    proof { gs = bvals(v_s1@); lemma_q_pos(&*dp.ctx); }
//@ loop 2
    invariant
        n_2 == v_s1@.len(), gs == bvals(v_s1@), out_2@.len() == i_2, self.par.wf(), forall|k: int| 0 <= k < i_2 ==> (#[trigger] out_2@[k]).v() == gs[k] + t,
//@ loop 3
    invariant
        n_3 == w@.len(), n_3 == gs.len(), q_poly.v() == dp.ctx.rns.q(), dp.ctx.rns.q() > 0, forall|k: int| 0 <= k < i_3 ==> (#[trigger] w@[k]).v() == (gs[k] + t) % dp.ctx.rns.q(), forall|k: int| i_3 <= k < n_3 ==> (#[trigger] w@[k]).v() == gs[k] + t,
//@ ret-hint
    proof {
        if r_ is Ok {
            let pt = r_->Ok_0;
            assert(pt.poly_ntt.isx(u) && (self.par.roomy(lv) ==> unshift(u, &dp, t)));
            assert forall|w: Seq<int>, b: int| #[trigger] ct.enc(self.s(), w, b) && low_noise(b, self.par.ctx(ct.level as int).rns.q()) && self.par.roomy(ct.level as int) implies pt.holds(modt(w, t)) by {
                lemma_decrypts(ct, self.s(), &sp, &cp, &cb, &dp, u, w, b);
            }
        }
    }
//@ end
impl BfvParameters {
    /// the plaintext context can hold two plaintext moduli
    pub open spec fn roomy(&self, l: int) -> bool { 2 * self.t() <= self.context_levels@[l].cipher_plain_context.plaintext_context.rns.q() }
}
/// `unwrap` of an operation that fails only when its operands do not share one parameter object
/// (Arc::ptr_eq, which is not a function of values): an abort that never returns
#[verifier::external_body]
pub fn vsame_par<T>(r: Result<T>) -> (x: T)
    ensures r == Ok::<T, Error>(x),
{ unimplemented!() }
pub proof fn lemma_enc_veq(c: &Ciphertext, d: &Ciphertext, s: Seq<int>, w: Seq<int>, b: int)
    requires c.enc(s, w, b), c.wf(), d.par == c.par, d.c@.len() == c.c@.len(), c.c@.len() > 0, forall|k: int| 0 <= k < d.c@.len() ==> (#[trigger] d.c@[k]).like(&c.c@[k]) && veq(&c.c@[k], &d.c@[k]),
    ensures d.enc(s, w, b),
{
    let t = c.par.t();
    let p = choose|p: Poly<Ntt>| #[trigger] c.hides(s, p) && noisy(&p, t, w, b);
    let k = choose|k: Poly<Ntt>| #[trigger] k.isx(s) && is_phase(&p, c.c@, &k);
    assert forall|l: int| 0 <= l < d.c@.len() implies (#[trigger] d.c@[l]).like(&p) && veq(&c.c@[l], &d.c@[l]) by { assert(c.c@[l].like(&p)) by { reveal(is_phase); } }
    lemma_phase_veq(&p, c.c@, d.c@, &k);
    assert(d.hides(s, p));
}
impl BfvParameters {
    /// noise (times t) of an encryption under a public key whose own noise is b0/t, for a secret key bounded by h
    pub open spec fn pk_noise(&self, b0: int, h: int) -> int {
        let (t, d, v) = (self.t(), self.deg(), 2 * self.variance as int);
        d * (b0 * v) + (t * v + d * ((t * v) * h)) + t
    }
}
pub proof fn lemma_small_of(e: &Poly<Ntt>, b: int)
    requires exists|x: Seq<int>| smallx(x, b) && #[trigger] e.isv(x),
    ensures small_poly(e, b),
{ let x = choose|x: Seq<int>| smallx(x, b) && #[trigger] e.isv(x); assert(e.isx(x)); }
pub proof fn lemma_pk_enc(pk: &Ciphertext, c: &Ciphertext, pt: &Plaintext, u: Poly<Ntt>, e1: Poly<Ntt>, e2: Poly<Ntt>, mp: Poly<Ntt>, m: Seq<int>, s: Seq<int>, b0: int, h: int)
    requires pk.wf(), pk.par == c.par, c.par == pt.par, pt.wf(), pt.is_scaled(&mp), pt.holds(m), pk.c@.len() == 2, c.c@.len() == 2, smallx(s, h), b0 >= 0, h >= 0,
        pk.enc(s, zeros(c.par.deg()), b0), u.like(&pk.c@[0]), e1.like(&pk.c@[0]), e2.like(&pk.c@[0]), mp.like(&pk.c@[0]), c.c@[0].like(&pk.c@[0]), c.c@[1].like(&pk.c@[0]),
        small_poly(&u, 2 * c.par.variance), small_poly(&e1, 2 * c.par.variance), small_poly(&e2, 2 * c.par.variance),
        veq(&c.c@[0], &padd(padd(pmul(u, pk.c@[0]), e1), mp)), veq(&c.c@[1], &padd(pmul(u, pk.c@[1]), e2)),
    ensures c.enc(s, m, c.par.pk_noise(b0, h)),
{
    let (t, d, v) = (c.par.t(), c.par.deg(), 2 * c.par.variance as int);
    let w0 = zeros(d);
    assert(t >= 2) by { reveal(BfvParameters::wf_pt); }
    let p = choose|p: Poly<Ntt>| #[trigger] pk.hides(s, p) && noisy(&p, t, w0, b0);
    let k = choose|k: Poly<Ntt>| #[trigger] k.isx(s) && is_phase(&p, pk.c@, &k);
    let f = pk.c@[0];
    assert(f.like(&p) && p.like(&k)) by { reveal(is_phase); }
    lemma_like(&f, &p); lemma_like(&p, &k); lemma_like(&u, &f); lemma_like(&e1, &f); lemma_like(&e2, &f); lemma_like(&mp, &f); lemma_like(&c.c@[0], &f); lemma_like(&c.c@[1], &f);
    assert(c.par.wf_l(pk.level as int)); assert(p.d() == d);
    lemma_pk(u, e1, e2, mp, pk.c@, &k, p, c.c@);
    // the noise
    let (ux) = choose|x: Seq<int>| #[trigger] u.isx(x) && smallx(x, v);
    assert(p.like(&u));
    noisy_mul(p, u, t, w0, b0, ux, v);
    lemma_zero_mul(w0, ux); 
    let r1 = pmul(p, u); assert(noisy(&r1, t, w0, d * (b0 * v)));
    lemma_small_noisy(&e1, t, v); lemma_small_noisy(&e2, t, v);
    assert(e2.like(&k));
    assert(t * v >= 0) by (nonlinear_arith) requires t >= 0, v >= 0;
    noisy_mul(e2, k, t, w0, t * v, s, h);
    lemma_zero_mul(w0, s);
    let r2 = pmul(e2, k); assert(e1.like(&r2));
    noisy_add(e1, r2, t, w0, t * v, w0, d * ((t * v) * h));
    let r3 = padd(e1, r2); lemma_zero_add(w0, d);
    assert(r1.like(&r3));
    noisy_add(r1, r3, t, w0, d * (b0 * v), w0, t * v + d * ((t * v) * h));
    let r4 = padd(r1, r3);
    lemma_scaled_noisy(pt, &mp, m);
    assert(r4.like(&mp));
    noisy_add(r4, mp, t, w0, d * (b0 * v) + (t * v + d * ((t * v) * h)), m, t);
    lemma_zero_add(m, d);
    assert(c.hides(s, padd(r4, mp)));
}
pub proof fn lemma_zero_add(m: Seq<int>, d: int)
    requires m.len() == d,
    ensures xadd(zeros(d), m) =~= m,
{ assert forall|j: int| 0 <= j < m.len() implies xadd(zeros(d), m)[j] == m[j] by { let x = m[j]; assert(1 * 0 + 1 * x == x) by (nonlinear_arith); } }
pub proof fn lemma_zero_psum(w: Seq<int>, m: Seq<int>, k: nat)
    requires k <= w.len(), forall|j: int| 0 <= j < w.len() ==> #[trigger] w[j] == 0,
    ensures psum(w, m, k).len() == w.len(), forall|j: int| 0 <= j < w.len() ==> #[trigger] psum(w, m, k)[j] == 0,
    decreases k,
{
    if k > 0 {
        let d = (k - 1) as nat;
        lemma_zero_psum(w, m, d);
        assert forall|j: int| 0 <= j < w.len() implies #[trigger] psum(w, m, k)[j] == 0 by {
            let x = mono(w, d as int)[j]; assert(x == 0) by { if j >= d { assert(w[j - d] == 0); } else { assert(w[w.len() + j - d] == 0); } }
            let e = m[d as int]; assert(e * x == 0) by (nonlinear_arith) requires x == 0;
            assert(psum(w, m, d)[j] == 0);
        }
    }
}
pub proof fn lemma_zero_mul(w: Seq<int>, m: Seq<int>)
    requires w =~= zeros(w.len() as int),
    ensures negamul(w, m) =~= w,
{ lemma_zero_psum(w, m, w.len()); assert forall|j: int| 0 <= j < w.len() implies negamul(w, m)[j] == w[j] by { assert(psum(w, m, w.len())[j] == 0); } }
//@ fn crates/fhe/src/bfv/keys/public_key.rs PublicKey::new
//@ ret r
//@ subst sk.try_encrypt(&zero, rng).unwrap() => vsame_par(sk.try_encrypt(&zero, rng))
//@ sig
    pub fn new(sk: &SecretKey, rng: &mut VRng) -> (r: Self)
//@ spec
    requires sk.wf(), 1 <= sk.par.variance <= 32, sk.par.t() <= sk.par.ctx(0).rns.q(),
    ensures r.par == sk.par && r.c.wf() && r.c.par == sk.par && r.c.level == 0 && r.c.c@.len() == 2,
        r.c.enc(sk.s(), zeros(sk.par.deg()), sk.par.t() * (2 * sk.par.variance) + sk.par.t()),
        forall|k: int| 0 <= k < r.c.c@.len() ==> !(#[trigger] r.c.c@[k]).vt(),
//@ loop-before 0
    let ghost c0 = c;
    let ghost m = zeros(sk.par.deg());
    let ghost b = sk.par.t() * (2 * sk.par.variance) + sk.par.t();
    proof {
        assert(pad(Seq::empty(), sk.par.deg()) =~= m); assert(zero.holds(m)); assert(c.enc(sk.s(), m, b));
        assert forall|l: int| 0 <= l < c.c@.len() implies veq(&c0.c@[l], &(#[trigger] c.c@[l])) by {}
    }
//@ loop 0
    invariant
        c0.wf(), c0.par == sk.par, c0.level == 0, c0.c@.len() == 2, c.par == c0.par, c.level == 0, c.c@.len() == 2, n_0 == 2,
        forall|k: int| 0 <= k < i_0 ==> !(#[trigger] c.c@[k]).vt(),
        forall|k: int| 0 <= k < 2 ==> (#[trigger] c.c@[k]).wf() && c.c@[k].ctx == c0.c@[k].ctx && veq(&c0.c@[k], &c.c@[k]),
//@ loop-after 0
    proof {
        assert(polys_ok(c.c@, &c.par.ctx(0)));
        lemma_enc_veq(&c0, &c, sk.s(), m, b);
    }
//@ end
//@ fn crates/fhe/src/bfv/keys/public_key.rs FheEncrypter<Plaintext,Ciphertext>@PublicKey::try_encrypt as=PublicKey::try_encrypt
//@ ret r
//@ subst Cow<'_, Ciphertext> => Ciphertext
//@ subst Cow::Owned(owned) => owned
//@ subst Cow::Borrowed(&self.c) => self.c.clone()
//@ derefs ct
//@ subst &u * &ct.c[0] => u.vmul(&ct.c[0])
//@ subst &u * &ct.c[1] => u.vmul(&ct.c[1])
//@ sig
    pub fn try_encrypt(&self, pt: &Plaintext, rng: &mut VRng) -> (r: Result<Ciphertext>)
//@ spec
    requires self.c.polys_wf(), self.c.par.wf(), self.par.wf(), pt.wf(),
    ensures
        r matches Ok(c) ==> pt.par == self.par && c.wf() && c.par == self.par && c.level == pt.lvl() && c.c@.len() == 2 && self.c.level <= pt.lvl(),
        r matches Ok(c) ==> c.c@[0].vt() && c.c@[1].vt(),
        r matches Ok(c) ==> c.level == self.c.level ==> self.c.c@.len() == 2 ==> forall|m: Seq<int>, s: Seq<int>, b0: int, h: int| #![trigger pt.holds(m), self.c.enc(s, zeros(self.par.deg()), b0), smallx(s, h)]
            pt.holds(m) && self.c.enc(s, zeros(self.par.deg()), b0) && smallx(s, h) && b0 >= 0 && h >= 0 ==> c.enc(s, m, self.par.pk_noise(b0, h)),
//@ loop 0
    invariant
        self.c.wf(), self.c.par == self.par, pt.wf(), pt.par == self.par, owned.wf(), owned.par == self.par, self.c.level <= owned.level <= plaintext_level, plaintext_level == pt.lvl(), owned.c@.len() == self.c.c@.len(),
        owned.c@.len() >= 2, owned.level == self.c.level ==> owned == self.c,
    decreases plaintext_level - owned.level,
//@ start
    let ghost mut up: Poly<Ntt> = arbitrary();
    let ghost mut e1p: Poly<Ntt> = arbitrary();
    let ghost mut e2p: Poly<Ntt> = arbitrary();
    let ghost mut mp: Poly<Ntt> = arbitrary();
    let ghost mut ctp: Ciphertext = arbitrary();
//@ after-let ct
    proof { ctp = ct; assert(ct.c@[0].wf() && ct.c@[1].wf()); }
//@ after-let u
    proof { up = u; lemma_small_of(&u, 2 * self.par.variance); }
//@ after-let e1
    proof { e1p = e1; lemma_small_of(&e1, 2 * self.par.variance); }
//@ after-let e2
    proof { e2p = e2; lemma_small_of(&e2, 2 * self.par.variance); }
//@ after-let m
    proof { mp = m; }
//@ ret-hint
    proof {
        if r_ is Ok {
            let c = r_->Ok_0; let k = c.c@;
            let x = self.par.ctx(ctp.level as int);
            let (k0, k1) = (ctp.c@[0], ctp.c@[1]);
            assert(same(&*k0.ctx, &x) && same(&*k1.ctx, &x));
            assert(up.like(&k0) && up.like(&k1));
            let (a0, a1) = (pmul(up, k0), pmul(up, k1));
            assert(a0.like(&e1p) && a1.like(&e2p));
            let b = padd(a0, e1p); assert(b.like(&mp));
            assert(veq(&k[0], &padd(b, mp))); assert(veq(&k[1], &padd(a1, e2p)));
            assert(k.len() == 2); assert(polys_ok(k, &x));
            if self.c.level == c.level && self.c.c@.len() == 2 {
                assert(ctp.c@ == self.c.c@);
                assert forall|m: Seq<int>, s: Seq<int>, b0: int, h: int| #![trigger pt.holds(m), self.c.enc(s, zeros(self.par.deg()), b0), smallx(s, h)]
                    pt.holds(m) && self.c.enc(s, zeros(self.par.deg()), b0) && smallx(s, h) && b0 >= 0 && h >= 0 implies c.enc(s, m, self.par.pk_noise(b0, h)) by {
                    lemma_pk_enc(&self.c, &c, pt, up, e1p, e2p, mp, m, s, b0, h);
                }
            }
        }
    }
//@ end
