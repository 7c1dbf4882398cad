//@ import kskid
//@ import swn
//@ import galois
// ---------------------------------------------------------------------------
// What a rotated, key-switched ciphertext encrypts
// (no code; over the contracts of polysub.v, ksk.v, kskgen.v and polysw.v)
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use std::sync::Arc;
use vstd::arithmetic::power2::pow2;
use crate::modk::*;
use crate::nttm::*;
use crate::ringmul::*;
use crate::rns::*;
use crate::brev::*;
broadcast use group_poly;
pub open spec fn xmul(f: int, a: Seq<int>) -> Seq<int> { Seq::new(a.len(), |j: int| f * a[j]) }
pub proof fn lemma_negamul_scale(a: Seq<int>, b: Seq<int>, f: int, k: nat)
    requires a.len() == b.len(), k <= a.len(),
    ensures psum(a, xmul(f, b), k) =~= xmul(f, psum(a, b, k)),
    decreases k,
{
    if k == 0 { assert(f * 0 == 0) by (nonlinear_arith); }
    else {
        let d = (k - 1) as nat;
        lemma_negamul_scale(a, b, f, d);
        assert forall|j: int| 0 <= j < a.len() implies psum(a, xmul(f, b), k)[j] == xmul(f, psum(a, b, k))[j] by {
            let (x, u, e) = (mono(a, d as int)[j], psum(a, b, d)[j], b[d as int]);
            assert(f * u + (f * e) * x == f * (u + e * x)) by (nonlinear_arith);
        }
    }
}
pub proof fn lemma_prodl(m: Seq<u64>, k: nat)
    requires k < m.len() || k == 0,
    ensures prodm(m) == prodm(m.take(m.len() - k)) * prodl(m, k), prodl(m, k) >= 0,
    decreases k,
{
    if k == 0 { assert(m.take(m.len() as int) =~= m); }
    else {
        let n = m.drop_last(); let d = (k - 1) as nat;
        lemma_prodl(n, d);
        assert(n.take(n.len() - d) =~= m.take(m.len() - k));
        let (x, y, q) = (prodm(n.take(n.len() - d)) as int, prodl(n, d), m.last() as int);
        assert((x * y) * q == x * (q * y)) by (nonlinear_arith);
        assert(q * y >= 0) by (nonlinear_arith) requires q >= 0, y >= 0;
    }
}
pub proof fn lemma_prodl_dvd(m: Seq<u64>, k: nat, i: int)
    requires k < m.len(), m.len() - k <= i < m.len(), m[i] > 0,
    ensures prodl(m, k) % (m[i] as int) == 0,
    decreases k,
{
    let n = m.drop_last(); let d = (k - 1) as nat; let q = m.last() as int;
    if i == m.len() - 1 { lemma_mod_multiples_basic(prodl(n, d), q); assert(q * prodl(n, d) == prodl(n, d) * q) by (nonlinear_arith); }
    else {
        lemma_prodl_dvd(n, d, i);
        let p = m[i] as int;
        lemma_mul_mod_noop_right(q, prodl(n, d), p);
        assert(q * 0 == 0); assert(0int % p == 0) by { lemma_small_mod(0, p as nat); }
    }
}
/// the number of moduli of the key that are not in the ciphertext, and their product
pub open spec fn extra(k: &KeySwitchingKey) -> nat { if k.ctx_ksk.n() > k.ctx_ciphertext.n() { (k.ctx_ksk.n() - k.ctx_ciphertext.n()) as nat } else { 0 } }
pub open spec fn xprod(k: &KeySwitchingKey) -> int { prodl(k.ctx_ksk.moduli@, extra(k)) }
pub proof fn lemma_key_ctx(k: &KeySwitchingKey)
    requires k.wf(),
    ensures k.ctx_ksk.wf(), k.ctx_ciphertext.wf(), k.ctx_ksk.d() == k.ctx_ciphertext.d() == k.par.deg(), xprod(k) >= 1,
        k.ctx_ksk.n() >= k.ctx_ciphertext.n() ==> below_ctx(&*k.ctx_ksk, &*k.ctx_ciphertext) && k.ctx_ksk.rns.q() == xprod(k) * k.ctx_ciphertext.rns.q(),
        k.ctx_ksk.n() == k.ctx_ciphertext.n() <==> same(&*k.ctx_ksk, &*k.ctx_ciphertext), k.ctx_ciphertext.n() >= 1,
{
    let a: Context = *k.ctx_ksk; let b: Context = *k.ctx_ciphertext;
    assert(k.par.wf_l(k.ksk_level as int)); assert(k.par.wf_l(k.ciphertext_level as int));
    assert forall|i: int| 0 <= i < a.moduli@.len() implies #[trigger] a.moduli@[i] >= 2 by { assert(a.wf_i(i)); }
    lemma_rnds_err(0, a.moduli@, extra(k));
    assert(b.n() >= 1 && a.n() >= 1);
    if a.n() >= b.n() {
        assert(b.moduli@ =~= a.moduli@.take(b.n() as int));
        lemma_prodl(a.moduli@, extra(k));
        assert(a.moduli@.take(a.n() - extra(k)) =~= b.moduli@);
        assert(a.rns.q() == prodm(a.moduli@) && b.rns.q() == prodm(b.moduli@));
        let (x, y) = (b.rns.q(), xprod(k));
        assert(x * y == y * x) by (nonlinear_arith);
        if a.n() == b.n() { assert(a.moduli@ =~= b.moduli@); }
    }
}
pub proof fn lemma_fz(k: &KeySwitchingKey, g: Seq<int>)
    requires k.wf(), g.len() == k.ctx_ksk.d(),
    ensures fz(k, xmul(xprod(k), g)),
{
    let f = xmul(xprod(k), g); let c: Context = *k.ctx_ksk;
    assert forall|i: int, m: int| k.ctx_ciphertext.n() <= i < k.ctx_ksk.n() && 0 <= m < k.ctx_ksk.d() implies eqm(#[trigger] f[m], 0, #[trigger] k.ctx_ksk.p(i)) by {
        lemma_key_ctx(k);
        assert(c.wf_i(i)); let p = c.p(i); assert(p == c.moduli@[i]);
        lemma_prodl_dvd(c.moduli@, extra(k), i);
        let x = xprod(k);
        lemma_mul_mod_noop_left(x, g[m], p); assert(0 * g[m] == 0); lemma_small_mod(0, p as nat);
        reveal(eqm);
    }
}
/// lifting an integer polynomial to the key's context multiplies it by the product of the extra moduli
pub proof fn lemma_up(k: &KeySwitchingKey, p: &Poly<PowerBasis>, x: Seq<int>, y: Seq<int>)
    requires k.wf(), k.ctx_ksk.n() >= k.ctx_ciphertext.n(), p.wf(), same(&*p.ctx, &*k.ctx_ksk), p.coefs(y), resc(x, k.ctx_ciphertext.rns.q(), k.ctx_ksk.rns.q(), k.ctx_ciphertext.rns.q(), y),
    ensures p.coefs(xmul(xprod(k), x)),
{
    lemma_key_ctx(k);
    let (big, den, num) = (xprod(k), k.ctx_ciphertext.rns.q(), k.ctx_ksk.rns.q());
    lemma_q_pos(&*k.ctx_ciphertext);
    let f = xmul(big, x);
    assert forall|j: int| 0 <= j < p.d() implies p.is_int(j, #[trigger] f[j]) by {
        assert(p.is_int(j, y[j]));
        assert(rounds(x[j], den, num, den, y[j]));
        let m = choose|m: int| cent(#[trigger] (x[j] + m * den), den) && near(num * (x[j] + m * den), den, y[j]);
        let v = x[j] + m * den; let e = y[j] - big * v;
        assert(den * y[j] - num * v == den * e) by (nonlinear_arith) requires num == big * den, e == y[j] - big * v;
        assert(e == 0) by (nonlinear_arith) requires -(den * 0x1000000000002) <= (den * e) * 0x2000000000000 <= den * 0x1000000000002, den > 0;
        assert(big * v == f[j] + m * num) by (nonlinear_arith) requires v == x[j] + m * den, num == big * den, f[j] == big * x[j];
        assert forall|i: int| 0 <= i < p.n() implies (#[trigger] p.rows()[i])@[j] as int == f[j] % p.p(i) by {
            assert(p.ctx.wf_i(i)); assert(k.ctx_ksk.wf_i(i));
            let q = p.p(i);
            assert(q == k.ctx_ksk.moduli@[i]);
            lemma_div_prodm(k.ctx_ksk.moduli@, i);
            assert(num % q == 0);
            assert((m * num) % q == 0) by { lemma_mul_mod_noop_right(m, num, q); assert(m * 0 == 0); lemma_small_mod(0, q as nat); }
            lemma_add_mod_noop(f[j], m * num, q); lemma_mod_twice(f[j], q);
            assert((f[j] % q + 0) % q == f[j] % q);
        }
    }
}
/// the error of a key-switched part, in the ciphertext's context
pub open spec fn ksn(k: &KeySwitchingKey, b: int, bs: int) -> int { ksw_noise(k, b) / xprod(k) + 1 + k.par.deg() * bs }
/// (b0, b1) is the key-switched pair, brought to the ciphertext's context
pub open spec fn lowered(k: &KeySwitchingKey, r: (Poly<Ntt>, Poly<Ntt>), b0: &Poly<Ntt>, b1: &Poly<Ntt>) -> bool {
    &&& b0.like(b1) && same(&*b1.ctx, &*k.ctx_ciphertext)
    &&& (k.ctx_ksk.n() == k.ctx_ciphertext.n() && veq(&r.0, b0) && veq(&r.1, b1))
        || (k.ctx_ksk.n() > k.ctx_ciphertext.n() && drops(&r.0, b0, extra(k)) && drops(&r.1, b1, extra(k)) && exists|x: Seq<int>| #[trigger] r.1.isx(x))
}
pub proof fn lemma_bound_div(p: int, u: int, m: int, w: int)
    requires p >= 1, w >= 0, p * u <= p * m + w,
    ensures u <= m + w / p,
{
    lemma_fundamental_div_mod(w, p); lemma_mod_bound(w, p);
    let q = w / p;
    assert(p * (u - m - q) < p) by (nonlinear_arith) requires p * u <= p * m + w, w == p * q + w % p, w % p < p;
    assert(u - m - q < 1) by (nonlinear_arith) requires p * (u - m - q) < p, p >= 1;
}
/// equal pairs, equal phase
pub proof fn lemma_pair_veq(a0: &Poly<Ntt>, a1: &Poly<Ntt>, sa: &Poly<Ntt>, b0: &Poly<Ntt>, b1: &Poly<Ntt>, sb: &Poly<Ntt>, z: Seq<int>)
    requires a0.like(a1), a1.like(sa), a0.like(b0), b0.like(b1), b1.like(sb), veq(a0, b0), veq(a1, b1), veq(sa, sb), padd(*a0, pmul(*a1, *sa)).isx(z),
    ensures padd(*b0, pmul(*b1, *sb)).isx(z),
{
    let (ma, mb) = (pmul(*a1, *sa), pmul(*b1, *sb));
    assert(a0.like(&ma) && b0.like(&mb));
    let (u, v) = (padd(*a0, ma), padd(*b0, mb));
    assert(u.like(&v));
    lemma_like(a0, a1); lemma_like(a1, sa); lemma_like(a0, b0); lemma_like(b0, b1); lemma_like(b1, sb); lemma_like(a0, &ma); lemma_like(b0, &mb); lemma_like(&u, &v); lemma_like(a1, &ma); lemma_like(b1, &mb);
    assert forall|i: int, j: int| 0 <= i < u.n() && 0 <= j < u.d() implies #[trigger] ent(&u, i, j) == ent(&v, i, j) by {
        let p = u.p(i); assert(p > 1);
        lemma_entry_add(*a1, *sa, i, j); lemma_entry_add(*b1, *sb, i, j); lemma_entry_add(*a0, ma, i, j); lemma_entry_add(*b0, mb, i, j);
        assert(ent(a0, i, j) == ent(b0, i, j) && ent(a1, i, j) == ent(b1, i, j) && ent(sa, i, j) == ent(sb, i, j));
        let h = ent(sa, i, j) * ent(a1, i, j); let x = ent(a0, i, j);
        eqm_refl(x, p);
        eqm_add(x, x, ent(&ma, i, j), h, p); eqm_add(x, x, ent(&mb, i, j), h, p);
        eqm_trans(ent(&u, i, j), x + ent(&ma, i, j), x + h, p); eqm_trans(ent(&v, i, j), x + ent(&mb, i, j), x + h, p);
        eqm_sym(ent(&v, i, j), x + h, p); eqm_trans(ent(&u, i, j), x + h, ent(&v, i, j), p);
        assert(u.ctx.wf_i(i) && v.ctx.wf_i(i)); assert(canon(u.rows()[i]@, p) && canon(v.rows()[i]@, p));
        lemma_eqm_small(ent(&u, i, j), ent(&v, i, j), p);
    }
    lemma_veq_isx(&u, &v, z);
}
/// key switching and dropping the key's own moduli
pub proof fn lemma_ks(k: &KeySwitchingKey, p: &Poly<PowerBasis>, r: (Poly<Ntt>, Poly<Ntt>), b0: &Poly<Ntt>, b1: &Poly<Ntt>, sb: &Poly<Ntt>, s: Seq<int>, g: Seq<int>, bs: int, b: int, y: Seq<int>) -> (z2: Seq<int>)
    requires k.wf(), p.wf(), switch_ok(Ok(r), k, p, k.digits(p)), lowered(k, r, b0, b1), k.switches(s, xmul(xprod(k), g), b), p.coefs(y), g.len() == k.par.deg(), s.len() == k.par.deg(), smallx(s, bs), 0 <= b, 0 <= bs, sb.like(b1), sb.isx(s),
    ensures padd(*b0, pmul(*b1, *sb)).isx(z2), z2.len() == k.par.deg(), negamul(y, g).len() == k.par.deg(), forall|j: int| 0 <= j < z2.len() ==> -ksn(k, b, bs) <= #[trigger] z2[j] - negamul(y, g)[j] <= ksn(k, b, bs),
{
    lemma_key_ctx(k);
    let P = xprod(k); let f = xmul(P, g); let n = k.par.deg();
    lemma_fz(k, g);
    let sp = ntt_form(k.ctx_ksk, s);
    axiom_ntt_form(k.ctx_ksk, s);
    let rr: Result<(Poly<Ntt>, Poly<Ntt>)> = Ok(r);
    assert(sp.like(&r.1));
    let err = lemma_key_switch(rr, k, p, &sp, s, f, y, b);
    lemma_negamul_scale(y, g, P, y.len());
    lemma_negamul_len(y, g); lemma_negamul_len(y, f);
    let N = negamul(y, g); let z = xadd(negamul(y, f), err);
    let w = ksw_noise(k, b); let m = 1 + n * bs;
    assert(w >= 0) by { let (d, l) = (k.ctx_ksk.d() as int, k.c0@.len() as int); assert(dmax() * b >= 0) by (nonlinear_arith) requires b >= 0; assert(d * (dmax() * b) >= 0) by (nonlinear_arith) requires d >= 0, dmax() * b >= 0; assert(l * (d * (dmax() * b)) >= 0) by (nonlinear_arith) requires l >= 0, d * (dmax() * b) >= 0; }
    assert(n * bs >= 0) by (nonlinear_arith) requires n >= 0, bs >= 0;
    assert(r.0.like(&r.1) && b1.like(sb));
    if k.ctx_ksk.n() == k.ctx_ciphertext.n() && veq(&r.0, b0) && veq(&r.1, b1) {
        assert(P == 1);
        assert(sp.like(sb) && r.0.like(b0) && r.1.like(&sp));
        lemma_one_form(&sp, sb, s);
        lemma_pair_veq(&r.0, &r.1, &sp, b0, b1, sb, z);
        assert(w / 1 == w);
        assert forall|j: int| 0 <= j < z.len() implies -ksn(k, b, bs) <= #[trigger] z[j] - N[j] <= ksn(k, b, bs) by { let _ = err[j]; assert(1 * N[j] == N[j]); }
        z
    } else {
        let x1 = choose|x: Seq<int>| #[trigger] r.1.isx(x);
        assert(r.0.like(&sp) && r.1.like(&sp));
        let z2 = lemma_drop_pair(&r.0, &r.1, &sp, b0, b1, sb, extra(k), s, bs, z, x1);
        assert forall|j: int| 0 <= j < z2.len() implies -ksn(k, b, bs) <= #[trigger] z2[j] - N[j] <= ksn(k, b, bs) by {
            let d = z2[j] - N[j];
            assert(z[j] == 1 * (P * N[j]) + 1 * err[j]);
            assert(-w <= err[j] <= w);
            let (a, c) = (z2[j], N[j]);
            assert(P * d == (P * a - z[j]) + err[j]) by (nonlinear_arith) requires d == a - c, z[j] == P * c + err[j];
            assert(P * (-d) == -(P * d)) by (nonlinear_arith);
            lemma_bound_div(P, d, m, w); lemma_bound_div(P, -d, m, w);
        }
        z2
    }
}
// ---- rotations
/// the row of values, permuted
pub open spec fn perm(a: Seq<u64>, e: int, d: int) -> Seq<u64> { Seq::new(a.len(), |b: int| a[brev(pw(e, brev(b, lgc(d))) % d, lgc(d))]) }
pub open spec fn src(b: int, e: int, d: int) -> int { brev(pw(e, brev(b, lgc(d))) % d, lgc(d)) }
proof fn lemma_perm(a: Seq<u64>, e: int, d: int, p: int)
    requires a.len() == d, d == pow2(lgc(d)), d >= 2, canon(a, p),
    ensures sub_ntt(perm(a, e, d), a, e, d), canon(perm(a, e, d), p), perm(a, e, d).len() == d, forall|b: int| 0 <= b < d ==> 0 <= #[trigger] src(b, e, d) < d && perm(a, e, d)[b] == a[src(b, e, d)],
{
    let lg = lgc(d);
    assert forall|j: int| 0 <= j < d implies perm(a, e, d)[#[trigger] brev(j, lg)] == a[brev(pw(e, j) % d, lg)] by { lemma_brev_invol(j, lg); }
    assert forall|b: int| 0 <= b < d implies 0 <= #[trigger] src(b, e, d) < d && perm(a, e, d)[b] == a[src(b, e, d)] by { lemma_brev_invol(b, lg); let t = pw(e, brev(b, lg)) % d; lemma_mod_bound(pw(e, brev(b, lg)), d); lemma_brev_invol(t, lg); }
    assert forall|b: int| 0 <= b < d implies #[trigger] perm(a, e, d)[b] < p by { let _ = src(b, e, d); }
}
/// u is c with X replaced by X^e (NTT form)
pub open spec fn rotated(c: &Poly<Ntt>, u: &Poly<Ntt>, e: int) -> bool { u.wf() && u.ctx == c.ctx && forall|x: int| 0 <= x < c.n() ==> sub_ntt((#[trigger] u.rows()[x])@, c.rows()[x]@, e, c.d()) }
/// ... at one entry
proof fn lemma_rot_entry(c: Seq<Poly<Ntt>>, p: &Poly<Ntt>, kp: &Poly<Ntt>, u0: &Poly<Ntt>, u1: &Poly<Ntt>, kg: &Poly<Ntt>, e: int, i: int, b: int)
    requires c.len() == 2, is_phase(p, c, kp), c[0].wf(), c[1].wf(), rotated(&c[0], u0, e), rotated(&c[1], u1, e), kg.like(u1), 0 <= i < p.n(), 0 <= b < p.d(), c[0].like(p), c[1].like(p), p.like(kp),
        ent(kg, i, b) == ent(kp, i, src(b, e, p.d() as int)), 0 <= src(b, e, p.d() as int) < p.d(), p.d() == pow2(lgc(p.d() as int)),
    ensures ent(&padd(*u0, pmul(*u1, *kg)), i, b) == ent(p, i, src(b, e, p.d() as int)),
{
    lemma_like(&c[0], p); lemma_like(&c[1], p); lemma_like(p, kp); lemma_like(kg, u1);
    let d = p.d() as int; let lg = lgc(d); let q = p.p(i);
    let m = pmul(*u1, *kg); let r = padd(*u0, m);
    assert(u1.like(kg) && u0.like(&m));
    lemma_like(u0, &m); lemma_like(u1, &m); lemma_like(u0, &r);
    let t = src(b, e, d); let j = brev(b, lg);
    lemma_brev_invol(b, lg);
    assert(sub_ntt(u0.rows()[i]@, c[0].rows()[i]@, e, d)); assert(sub_ntt(u1.rows()[i]@, c[1].rows()[i]@, e, d));
    assert(brev(j, lg) == b);
    assert(u0.rows()[i]@[brev(j, lg)] == c[0].rows()[i]@[t]); assert(u1.rows()[i]@[brev(j, lg)] == c[1].rows()[i]@[t]);
    lemma_phase_at(p, c, kp, i, t);
    let k = ent(kp, i, t);
    lemma_h2(c, k, i, t);
    lemma_entry_add(*u1, *kg, i, b); lemma_entry_add(*u0, m, i, b);
    let (x0, x1, xm) = (ent(u0, i, b), ent(u1, i, b), ent(&m, i, b));
    assert(x0 == ent(&c[0], i, t) && x1 == ent(&c[1], i, t) && ent(kg, i, b) == k);
    eqm_refl(x0, q); eqm_add(x0, x0, xm, k * x1, q);
    assert(k * x1 == x1 * k) by (nonlinear_arith);
    eqm_trans(ent(&r, i, b), x0 + xm, x0 + x1 * k, q);
    eqm_sym(ent(p, i, t), x0 + x1 * k, q);
    eqm_trans(ent(&r, i, b), x0 + x1 * k, ent(p, i, t), q);
    assert(r.ctx.wf_i(i) && p.ctx.wf_i(i)); assert(canon(r.rows()[i]@, q) && canon(p.rows()[i]@, q));
    lemma_eqm_small(ent(&r, i, b), ent(p, i, t), q);
}
/// the phase of the rotated parts under the rotated key is the rotated phase
pub proof fn lemma_rot_phase(c: Seq<Poly<Ntt>>, p: &Poly<Ntt>, kp: &Poly<Ntt>, u0: &Poly<Ntt>, u1: &Poly<Ntt>, kg: &Poly<Ntt>, s: Seq<int>, z: Seq<int>, e: int)
    requires c.len() == 2, is_phase(p, c, kp), kp.isx(s), p.isx(z), c[0].wf(), c[1].wf(), rotated(&c[0], u0, e), rotated(&c[1], u1, e), kg.like(u1), kg.isx(galois(s, e)), e % 2 == 1, 0 < e < 2 * c[0].d(),
    ensures padd(*u0, pmul(*u1, *kg)).isx(galois(z, e)),
{
    assert(c[0].like(p) && c[1].like(p) && p.like(kp)) by { reveal(is_phase); let _ = c[0]; let _ = c[1]; }
    lemma_like(&c[0], p); lemma_like(&c[1], p); lemma_like(p, kp); lemma_like(kg, u1);
    let x = &*c[0].ctx; let d = c[0].d() as int; let lg = lgc(d);
    lemma_deg(x);
    let m = pmul(*u1, *kg); let r = padd(*u0, m); let gz = galois(z, e); let gs = galois(s, e);
    assert(u1.like(kg) && u0.like(&m));
    lemma_like(u0, &m); lemma_like(u1, &m); lemma_like(u0, &r);
    lemma_galois(z, e); lemma_galois(s, e);
    assert forall|i: int| 0 <= i < r.n() implies r.ctx.ops@[i].is_fwd((#[trigger] r.rows()[i])@, gz) by {
        let op = x.ops@[i]; let q = x.p(i);
        assert(x.wf_i(i)); assert(p.ctx.wf_i(i) && kp.ctx.wf_i(i) && kg.ctx.wf_i(i) && u0.ctx.wf_i(i) && r.ctx.wf_i(i) && u1.ctx.wf_i(i) && c[1].ctx.wf_i(i));
        let (pr, kr, gr) = (p.rows()[i]@, kp.rows()[i]@, kg.rows()[i]@);
        assert(canon(pr, q) && canon(kr, q) && canon(gr, q));
        assert(p.ctx.ops@[i].is_fwd(pr, z)); lemma_same_ops(x, &*p.ctx, i, pr, z);
        assert(kp.ctx.ops@[i].is_fwd(kr, s)); lemma_same_ops(x, &*kp.ctx, i, kr, s);
        assert(kg.ctx.ops@[i].is_fwd(gr, gs)); lemma_same_ops(x, &*kg.ctx, i, gr, gs);
        let (pp, kk) = (perm(pr, e, d), perm(kr, e, d));
        lemma_perm(pr, e, d, q); lemma_perm(kr, e, d, q);
        lemma_sub_fwd(op, pr, pp, z, e); lemma_sub_fwd(op, kr, kk, s, e);
        crate::ptenc::lemma_fwd_unique(&op, kk, gr, gs);
        let rr = r.rows()[i]@;
        assert(canon(rr, q));
        assert(u0.rows()[i]@.len() == d && u1.rows()[i]@.len() == d);
        assert forall|b: int| 0 <= b < d implies #[trigger] rr[b] == pp[b] by {
            let t = src(b, e, d);
            assert(pp[b] == pr[t] && kk[b] == kr[t]);
            lemma_rot_entry(c, p, kp, u0, u1, kg, e, i, b);
        }
        assert(rr =~= pp);
        lemma_same_ops(&*r.ctx, x, i, rr, gz);
    }
}
/// a + b + c, regrouped
pub proof fn lemma_regroup(a: &Poly<Ntt>, b: &Poly<Ntt>, c: &Poly<Ntt>, z: Seq<int>, y: Seq<int>)
    requires a.like(b), b.like(c), padd(*a, *c).isx(z), b.isx(y),
    ensures padd(padd(*a, *b), *c).isx(xadd(z, y)),
{
    lemma_like(a, b); lemma_like(b, c);
    assert(a.like(c));
    let (u, v) = (padd(*a, *c), padd(*a, *b));
    assert(u.like(b) && v.like(c));
    lemma_isx_add(u, *b, z, y);
    let (l, r) = (padd(u, *b), padd(v, *c));
    assert(l.like(&r));
    lemma_like(&l, &r); lemma_like(&u, b); lemma_like(&v, c); lemma_like(&l, a);
    assert forall|i: int, j: int| 0 <= i < l.n() && 0 <= j < l.d() implies #[trigger] ent(&l, i, j) == ent(&r, i, j) by {
        let p = l.p(i);
        assert(p > 1);
        lemma_entry_add(*a, *c, i, j); lemma_entry_add(*a, *b, i, j); lemma_entry_add(u, *b, i, j); lemma_entry_add(v, *c, i, j);
        let (x, y1, w) = (ent(a, i, j), ent(b, i, j), ent(c, i, j));
        eqm_refl(y1, p); eqm_refl(w, p);
        eqm_add(ent(&u, i, j), x + w, y1, y1, p); eqm_trans(ent(&l, i, j), ent(&u, i, j) + y1, x + w + y1, p);
        eqm_add(ent(&v, i, j), x + y1, w, w, p); eqm_trans(ent(&r, i, j), ent(&v, i, j) + w, x + w + y1, p);
        eqm_sym(ent(&r, i, j), x + w + y1, p); eqm_trans(ent(&l, i, j), x + w + y1, ent(&r, i, j), p);
        assert(l.ctx.wf_i(i) && r.ctx.wf_i(i)); assert(canon(l.rows()[i]@, p) && canon(r.rows()[i]@, p));
        lemma_eqm_small(ent(&l, i, j), ent(&r, i, j), p);
    }
    lemma_veq_isx(&l, &r, xadd(z, y));
}
/// the two-part phase
pub proof fn lemma_phase2(c: Seq<Poly<Ntt>>, s: &Poly<Ntt>)
    requires c.len() == 2, c[0].like(&c[1]), c[1].like(s),
    ensures is_phase(&padd(c[0], pmul(c[1], *s)), c, s),
{
    let m = pmul(c[1], *s); assert(c[0].like(&m));
    let q = padd(c[0], m);
    lemma_like(&c[0], &c[1]); lemma_like(&c[1], s); lemma_like(&c[0], &m); lemma_like(&c[0], &q);
    assert forall|i: int, j: int| 0 <= i < q.n() && 0 <= j < q.d() implies eqm(#[trigger] ent(&q, i, j), hsum(c, ent(s, i, j), i, j, 2), q.p(i)) by {
        let p = q.p(i); let t = ent(s, i, j);
        lemma_h2(c, t, i, j);
        lemma_entry_add(c[1], *s, i, j); lemma_entry_add(c[0], m, i, j);
        let (x0, x1, xm) = (ent(&c[0], i, j), ent(&c[1], i, j), ent(&m, i, j));
        eqm_refl(x0, p); eqm_add(x0, x0, xm, t * x1, p);
        assert(t * x1 == x1 * t) by (nonlinear_arith);
        eqm_trans(ent(&q, i, j), x0 + xm, x0 + x1 * t, p);
    }
    assert forall|l: int| 0 <= l < c.len() implies (#[trigger] c[l]).like(&q) by { if l != 0 { assert(l == 1); } }
    reveal(is_phase);
}
/// rotations permute the coefficients, up to signs
pub proof fn lemma_galois_bound(z: Seq<int>, w: Seq<int>, e: int, t: int, q: int, b: int)
    requires z.len() == w.len(), z.len() >= 2, is_pow2(z.len() as int), e % 2 == 1, forall|j: int| 0 <= j < z.len() ==> -b <= #[trigger] (t * z[j]) - q * w[j] <= b,
    ensures forall|j: int| 0 <= j < z.len() ==> -b <= #[trigger] (t * galois(z, e)[j]) - q * galois(w, e)[j] <= b, galois(z, e).len() == z.len(), galois(w, e).len() == w.len(),
{
    let d = z.len() as int;
    lemma_galois(z, e); lemma_galois(w, e);
    assert forall|k: int| 0 <= k < d implies -b <= #[trigger] (t * galois(z, e)[k]) - q * galois(w, e)[k] <= b by {
        lemma_oinv_mul(k, e, d);
        let j = (k * oinv(e, d)) % d;
        lemma_mod_bound(k * oinv(e, d), d);
        assert(tgt(e, d, j) == k);
        let (a, c) = (z[j], w[j]);
        assert(-b <= t * z[j] - q * w[j] <= b);
        assert(t * (-a) == -(t * a) && q * (-c) == -(q * c)) by (nonlinear_arith);
    }
}
/// smallness of the sum of the phase and the switching error
pub open spec fn rot_noise(k: &KeySwitchingKey, t: int, bw: int, b: int, bs: int) -> int { bw + t * ksn(k, b, bs) }
pub proof fn lemma_rot_enc(ct: &Ciphertext, out: &Ciphertext, k: &KeySwitchingKey, el: &SubstitutionExponent, p: &Poly<PowerBasis>, r: (Poly<Ntt>, Poly<Ntt>), u0: &Poly<Ntt>, u1: &Poly<Ntt>, b0: &Poly<Ntt>, b1: &Poly<Ntt>, s: Seq<int>, bs: int, w: Seq<int>, bw: int, b: int)
    requires ct.wf(), ct.par == k.par, ct.level == k.ciphertext_level, ct.c@.len() == 2, k.wf(), el.wf(), el.ctx.degree == k.par.polynomial_degree, rotated(&ct.c@[0], u0, el.exponent as int), rotated(&ct.c@[1], u1, el.exponent as int),
        p.wf(), p.ctx == u1.ctx, forall|i: int| 0 <= i < p.n() ==> p.ctx.ops@[i].is_fwd(u1.rows()[i]@, vals((#[trigger] p.rows()[i])@)), switch_ok(Ok(r), k, p, k.digits(p)), lowered(k, r, b0, b1),
        out.c@.len() == 2, out.c@[0] == padd(*b0, *u0), out.c@[1] == *b1, out.par == ct.par,
        ct.enc(s, w, bw), smallx(s, bs), s.len() == k.par.deg(), 0 <= bs, 0 <= b, k.switches(s, xmul(xprod(k), galois(s, el.exponent as int)), b),
    ensures out.enc(s, galois(w, el.exponent as int), rot_noise(k, ct.par.t(), bw, b, bs)),
{
    let e = el.exponent as int; let t = ct.par.t(); let gs = galois(s, e);
    lemma_key_ctx(k); lemma_deg(&*k.ctx_ciphertext);
    assert(ct.par.wf_l(ct.level as int));
    assert(ct.c@[0].wf() && ct.c@[1].wf());
    let p0 = choose|p0: Poly<Ntt>| #[trigger] ct.hides(s, p0) && noisy(&p0, t, w, bw);
    let kp = choose|kp: Poly<Ntt>| #[trigger] kp.isx(s) && is_phase(&p0, ct.c@, &kp);
    let z = noisy_get(&p0, t, w, bw);
    assert(ct.c@[0].like(&p0) && ct.c@[1].like(&p0)) by { reveal(is_phase); let _ = ct.c@[0]; let _ = ct.c@[1]; }
    lemma_like(&ct.c@[0], &p0);
    lemma_galois(s, e);
    let kg = ntt_form(u1.ctx, gs); axiom_ntt_form(u1.ctx, gs);
    assert(kg.like(u1));
    lemma_rot_phase(ct.c@, &p0, &kp, u0, u1, &kg, s, z, e);
    lemma_galois_bound(z, w, e, t, p0.ctx.rns.q(), bw);
    let gz = galois(z, e); let gw = galois(w, e);
    let y = lemma_coefs_ex(p); lemma_isx_of(u1, p, y);
    lemma_isx_mul(*u1, kg, y, gs); lemma_negamul_len(y, gs);
    let m = pmul(*u1, kg); let N = negamul(y, gs);
    assert(u1.like(&kg)); assert(u0.like(&m));
    lemma_isx_cancel(u0, &m, gz, N);
    let sb = ntt_form(b1.ctx, s); axiom_ntt_form(b1.ctx, s);
    assert(sb.like(b1) && b1.like(&sb));
    let z2 = lemma_ks(k, p, r, b0, b1, &sb, s, gs, bs, b, y);
    let mb = pmul(*b1, sb);
    assert(b0.like(u0) && u0.like(&mb));
    lemma_regroup(b0, u0, &mb, z2, xsub(gz, N));
    let zf = xadd(z2, xsub(gz, N));
    let o0 = padd(*b0, *u0);
    assert(o0.like(b1));
    assert(out.c@ =~= seq![o0, *b1]);
    lemma_phase2(out.c@, &sb);
    let ph = padd(o0, mb);
    assert(o0.like(&mb));
    assert(out.hides(s, ph));
    lemma_same_q(&*ph.ctx, &*p0.ctx);
    let q = p0.ctx.rns.q(); let nb = rot_noise(k, t, bw, b, bs); let kn = ksn(k, b, bs);
    assert(t >= 0) by { reveal(BfvParameters::wf_pt); }
    assert forall|j: int| 0 <= j < zf.len() implies -nb <= #[trigger] (t * zf[j]) - ph.ctx.rns.q() * gw[j] <= nb by {
        let (a, c, g) = (z2[j], N[j], gz[j]);
        let d = a - c;
        assert(-kn <= z2[j] - N[j] <= kn);
        assert(zf[j] == 1 * a + 1 * (1 * g + (-1) * c));
        assert(t * zf[j] == t * g + t * d) by (nonlinear_arith) requires zf[j] == g + d;
        assert(-(t * kn) <= t * d <= t * kn) by (nonlinear_arith) requires -kn <= d <= kn, t >= 0;
        assert(-bw <= t * gz[j] - q * gw[j] <= bw);
    }
    noisy_of(&ph, t, gw, nb, zf);
}
