//@ import galm
// ---------------------------------------------------------------------------
// Modulus switching keeps what a ciphertext encrypts
// (no code; over the contracts of Ciphertext::switch_down / switch_to_level)
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use std::sync::Arc;
use crate::ringmul::*;
use crate::rns::*;
broadcast use group_poly;
/// noise (times t) after dropping moduli of product p
pub open spec fn switch_noise(t: int, n: int, bs: int, p: int, b: int) -> int { t * (1 + n * bs) + b / p }
pub proof fn lemma_switch_enc(a: &Ciphertext, o: &Ciphertext, k: nat, s: Seq<int>, bs: int, w: Seq<int>, b: int)
    requires a.wf(), o.wf(), o.par == a.par, o.level == a.level + k, a.c@.len() == 2, o.c@.len() == 2, swpolys(a.c@[0], o.c@[0], k), swpolys(a.c@[1], o.c@[1], k),
        a.enc(s, w, b), smallx(s, bs), s.len() == a.par.deg(), 0 <= bs, 0 <= b, 0 < k,
    ensures o.enc(s, w, switch_noise(a.par.t(), a.par.deg(), bs, prodl(a.par.ctx(a.level as int).moduli@, k), b)),
{
    let t = a.par.t(); let l = a.level as int; let c = a.c@;
    assert(a.par.wf_l(l) && a.par.wf_l(l + k));
    assert(c[0].wf() && c[1].wf() && o.c@[0].wf() && o.c@[1].wf());
    assert(c[0].like(&c[1]) && o.c@[0].like(&o.c@[1]));
    let p = choose|p: Poly<Ntt>| #[trigger] a.hides(s, p) && noisy(&p, t, w, b);
    let kp = choose|kp: Poly<Ntt>| #[trigger] kp.isx(s) && is_phase(&p, c, &kp);
    let z = noisy_get(&p, t, w, b);
    assert(c[0].like(&p) && c[1].like(&p) && p.like(&kp)) by { reveal(is_phase); let _ = c[0]; let _ = c[1]; }
    assert(c[1].like(&kp) && c[0].like(&kp));
    lemma_phase2(c, &kp);
    let m = pmul(c[1], kp); assert(c[0].like(&m));
    let r = padd(c[0], m);
    lemma_one_phase(&p, &r, c, &kp, &kp, s);
    lemma_veq_isx(&p, &r, z);
    let sb = ntt_form(o.c@[1].ctx, s); axiom_ntt_form(o.c@[1].ctx, s);
    assert(o.c@[1].like(&sb) && o.c@[0].like(&sb));
    reveal(swpolys);
    let x1 = choose|x: Seq<int>| #[trigger] c[1].isx(x);
    lemma_like(&c[0], &p); 
    let z2 = lemma_drop_pair(&c[0], &c[1], &kp, &o.c@[0], &o.c@[1], &sb, k, s, bs, z, x1);
    let mb = pmul(o.c@[1], sb); assert(o.c@[0].like(&mb));
    lemma_phase2(o.c@, &sb);
    let ph = padd(o.c@[0], mb);
    assert(o.hides(s, ph));
    let ms = a.par.ctx(l).moduli@; let P = prodl(ms, k); let n = a.par.deg();
    lemma_same_q(&*p.ctx, &a.par.ctx(l)); lemma_same_q(&*ph.ctx, &a.par.ctx(l + k));
    let (Q, q) = (p.ctx.rns.q(), ph.ctx.rns.q());
    lemma_prodl(ms, k);
    assert(ms.take(ms.len() - k) =~= a.par.ctx(l + k).moduli@);
    assert(Q == P * q) by { let (c0, c1) = (a.par.ctx(l), a.par.ctx(l + k)); assert(c0.rns.q() == prodm(c0.moduli@) && c1.rns.q() == prodm(c1.moduli@)); assert(q * P == P * q) by (nonlinear_arith); }
    let N = switch_noise(t, n, bs, P, b); let v = 1 + n * bs; let tv = t * v;
    assert(t >= 0) by { reveal(BfvParameters::wf_pt); }
    assert forall|j: int| 0 <= j < z2.len() implies -N <= #[trigger] (t * z2[j]) - q * w[j] <= N by {
        assert(-(P * v) <= P * z2[j] - z[j] <= P * v);
        assert(-b <= t * z[j] - Q * w[j] <= b);
        let (x, y, u) = (z2[j], z[j], w[j]); let d = P * x - y;
        let e = t * x - q * u;
        assert(P * e == (t * y - Q * u) + t * d) by (nonlinear_arith) requires e == t * x - q * u, d == P * x - y, Q == P * q;
        assert(-(P * tv) <= t * d <= P * tv) by (nonlinear_arith) requires -(P * v) <= d <= P * v, t >= 0, tv == t * v;
        lemma_bound_div(P, e, tv, b);
        assert(P * (-e) == -(P * e)) by (nonlinear_arith);
        lemma_bound_div(P, -e, tv, b);
    }
    noisy_of(&ph, t, w, N, z2);
}
/// one step: the last modulus
pub proof fn lemma_switch_enc1(a: &Ciphertext, o: &Ciphertext, s: Seq<int>, bs: int, w: Seq<int>, b: int)
    requires a.wf(), o.wf(), o.par == a.par, o.level == a.level + 1, a.c@.len() == 2, o.c@.len() == 2, swpoly(a.c@[0], o.c@[0]), swpoly(a.c@[1], o.c@[1]),
        a.enc(s, w, b), smallx(s, bs), s.len() == a.par.deg(), 0 <= bs, 0 <= b,
    ensures o.enc(s, w, switch_noise(a.par.t(), a.par.deg(), bs, a.par.ctx(a.level as int).moduli@.last() as int, b)),
{
    let l = a.level as int; let m = a.par.ctx(l).moduli@;
    assert(a.par.wf_l(l) && a.par.wf_l(l + 1));
    assert forall|i: int| 0 <= i < 2 implies swpolys(#[trigger] a.c@[i], o.c@[i], 1) by {
        let (c, d) = (a.c@[i], o.c@[i]); assert(c.wf());
        assert(swpoly(c, d)) by { if i != 0 { assert(i == 1); } }
        reveal(swpoly); reveal(swpolys);
        assert(c.ctx.moduli@ =~= m);
        assert forall|x: Seq<int>| #[trigger] c.isx(x) implies d.isx(xrnds(x, c.ctx.moduli@, 1)) by {
            assert forall|j: int| 0 <= j < x.len() implies xrnd(x, m.last() as int)[j] == #[trigger] xrnds(x, m, 1)[j] by { reveal_with_fuel(rnds, 2); }
            assert(xrnd(x, m.last() as int) =~= xrnds(x, m, 1));
        }
    }
    lemma_switch_enc(a, o, 1, s, bs, w, b);
    reveal_with_fuel(prodl, 2);
    assert(prodl(m, 1) == m.last()) by { let q = m.last() as int; assert(q * 1 == q); }
}
