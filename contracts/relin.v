//@ import galk
// ---------------------------------------------------------------------------
// fhe/src/bfv/keys/relinearization_key.rs : relinearization
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::power::*;
use std::sync::Arc;
use crate::modk::*;
use crate::nttm::*;
use crate::ringmul::*;
use crate::rns::*;
use crate::poly::fhe_traits::*;
broadcast use group_poly;
/// one entry of a polynomial, modulo its modulus
pub open spec fn at1(a: &Poly<Ntt>, i: int, j: int, x: int) -> bool { eqm(ent(a, i, j), x, a.p(i)) }
pub proof fn at_self(a: &Poly<Ntt>, i: int, j: int)
    requires a.wf(), 0 <= i < a.n(),
    ensures at1(a, i, j, ent(a, i, j)),
{ assert(a.ctx.wf_i(i)); eqm_refl(ent(a, i, j), a.p(i)); }
pub proof fn at_add(a: &Poly<Ntt>, b: &Poly<Ntt>, i: int, j: int, x: int, y: int)
    requires a.like(b), 0 <= i < a.n(), 0 <= j < a.d(), at1(a, i, j, x), at1(b, i, j, y),
    ensures at1(&padd(*a, *b), i, j, x + y), padd(*a, *b).like(a), padd(*a, *b).like(b), at1(&psub(*a, *b), i, j, x - y), psub(*a, *b).like(a), psub(*a, *b).like(b),
{
    lemma_like(a, b); lemma_entry_add(*a, *b, i, j);
    let p = a.p(i);
    eqm_add(ent(a, i, j), x, ent(b, i, j), y, p);
    eqm_trans(ent(&padd(*a, *b), i, j), ent(a, i, j) + ent(b, i, j), x + y, p);
    eqm_mulc(ent(b, i, j), y, -1, p);
    eqm_add(ent(a, i, j), x, (-1) * ent(b, i, j), (-1) * y, p);
    assert(ent(b, i, j) * (-1) == (-1) * ent(b, i, j) && y * (-1) == (-1) * y);
    eqm_trans(ent(&psub(*a, *b), i, j), ent(a, i, j) + (-1) * ent(b, i, j), x + (-1) * y, p);
}
pub proof fn at_mul(a: &Poly<Ntt>, b: &Poly<Ntt>, i: int, j: int, x: int, y: int)
    requires a.like(b), 0 <= i < a.n(), 0 <= j < a.d(), at1(a, i, j, x), at1(b, i, j, y),
    ensures at1(&pmul(*a, *b), i, j, x * y), pmul(*a, *b).like(a), pmul(*a, *b).like(b),
{
    lemma_like(a, b); lemma_entry_add(*a, *b, i, j);
    let p = a.p(i);
    eqm_mul(ent(b, i, j), y, ent(a, i, j), x, p);
    eqm_trans(ent(&pmul(*a, *b), i, j), ent(b, i, j) * ent(a, i, j), y * x, p);
    assert(y * x == x * y) by (nonlinear_arith);
}
pub proof fn at_eq(a: &Poly<Ntt>, b: &Poly<Ntt>, i: int, j: int, x: int)
    requires a.like(b), 0 <= i < a.n(), 0 <= j < a.d(), at1(a, i, j, x), at1(b, i, j, x),
    ensures ent(a, i, j) == ent(b, i, j),
{
    lemma_like(a, b);
    let p = a.p(i);
    eqm_sym(ent(b, i, j), x, p); eqm_trans(ent(a, i, j), x, ent(b, i, j), p);
    assert(a.ctx.wf_i(i) && b.ctx.wf_i(i)); assert(canon(a.rows()[i]@, p) && canon(b.rows()[i]@, p));
    lemma_eqm_small(ent(a, i, j), ent(b, i, j), p);
}
pub proof fn lemma_h3(c: Seq<Poly<Ntt>>, t: int, i: int, j: int)
    ensures hsum(c, t, i, j, 3) == ent(&c[0], i, j) + ent(&c[1], i, j) * t + ent(&c[2], i, j) * (t * t),
{ reveal_with_fuel(hsum, 4); assert(pow(t, 0) == 1) by { reveal(pow); } lemma_pow1(t); assert(pow(t, 2) == t * t) by { reveal(pow); reveal_with_fuel(pow, 3); } assert(ent(&c[0], i, j) * 1 == ent(&c[0], i, j)); }
/// relinearization: c0 + b0 + (c1 + b1) s is c0 + c1 s + c2 s^2 up to the switching error
pub proof fn lemma_relin_phase(c: Seq<Poly<Ntt>>, p: &Poly<Ntt>, kp: &Poly<Ntt>, b0: &Poly<Ntt>, b1: &Poly<Ntt>, sb: &Poly<Ntt>, s: Seq<int>, z: Seq<int>, y: Seq<int>, z2: Seq<int>)
    requires c.len() == 3, is_phase(p, c, kp), kp.isx(s), p.isx(z), c[0].like(b0), b0.like(b1), b1.like(sb), sb.isx(s), s.len() == c[0].d(), c[2].isx(y), y.len() == c[0].d(), padd(*b0, pmul(*b1, *sb)).isx(z2),
    ensures padd(padd(c[0], *b0), pmul(padd(c[1], *b1), *sb)).isx(xadd(xsub(z, negamul(y, negamul(s, s))), z2)), c[0].like(&c[1]), c[0].like(&c[2]), c[1].like(b1),
{
    assert(c[0].like(p) && c[1].like(p) && c[2].like(p) && p.like(kp)) by { reveal(is_phase); let _ = c[0]; let _ = c[1]; let _ = c[2]; }
    let (c0, c1, c2) = (c[0], c[1], c[2]);
    assert(sb.like(kp) && kp.like(sb) && c0.like(&c1) && c0.like(&c2) && c1.like(b1) && c0.like(b0) && c1.like(sb) && c2.like(sb) && p.like(&c0) && p.like(sb));
    lemma_one_form(sb, kp, s);
    lemma_like(&c0, p); lemma_like(&c0, b0); lemma_like(&c0, sb); lemma_like(sb, kp);
    let m1 = pmul(c1, *sb); let s2 = pmul(*sb, *sb); let m2 = pmul(c2, s2);
    assert(sb.like(sb)); assert(c2.like(&s2)); assert(c0.like(&m1));
    let p12 = padd(c0, m1); assert(p12.like(&m2)); let q = padd(p12, m2);
    assert(p.like(&q));
    assert forall|i: int, j: int| 0 <= i < p.n() && 0 <= j < p.d() implies #[trigger] ent(p, i, j) == ent(&q, i, j) by {
        let t = ent(sb, i, j);
        assert(t == ent(kp, i, j));
        lemma_phase_at(p, c, kp, i, j); lemma_h3(c, t, i, j);
        at_self(&c0, i, j); at_self(&c1, i, j); at_self(&c2, i, j); at_self(sb, i, j);
        let (x0, x1, x2) = (ent(&c0, i, j), ent(&c1, i, j), ent(&c2, i, j));
        at_mul(&c1, sb, i, j, x1, t); at_mul(sb, sb, i, j, t, t); at_mul(&c2, &s2, i, j, x2, t * t);
        at_add(&c0, &m1, i, j, x0, x1 * t); at_add(&p12, &m2, i, j, x0 + x1 * t, x2 * (t * t));
        at_eq(p, &q, i, j, x0 + x1 * t + x2 * (t * t));
    }
    lemma_veq_isx(p, &q, z);
    lemma_isx_mul(*sb, *sb, s, s); lemma_negamul_len(s, s);
    let g = negamul(s, s);
    lemma_isx_mul(c2, s2, y, g); lemma_negamul_len(y, g);
    let N = negamul(y, g);
    lemma_isx_cancel(&p12, &m2, z, N);
    let mb = pmul(*b1, *sb); assert(b0.like(&mb));
    let v = padd(*b0, mb);
    assert(p12.like(&v));
    lemma_isx_add(p12, v, xsub(z, N), z2);
    let l = padd(p12, v);
    let (d0, d1) = (padd(c0, *b0), padd(c1, *b1));
    assert(d1.like(sb)); let md = pmul(d1, *sb); assert(d0.like(&md));
    let r = padd(d0, md);
    assert(l.like(&r));
    lemma_like(&c0, &l);
    assert forall|i: int, j: int| 0 <= i < l.n() && 0 <= j < l.d() implies #[trigger] ent(&l, i, j) == ent(&r, i, j) by {
        at_self(&c0, i, j); at_self(&c1, i, j); at_self(b0, i, j); at_self(b1, i, j); at_self(sb, i, j);
        let (x0, x1, y0, y1, t) = (ent(&c0, i, j), ent(&c1, i, j), ent(b0, i, j), ent(b1, i, j), ent(sb, i, j));
        at_mul(&c1, sb, i, j, x1, t); at_add(&c0, &m1, i, j, x0, x1 * t); at_mul(b1, sb, i, j, y1, t); at_add(b0, &mb, i, j, y0, y1 * t); at_add(&p12, &v, i, j, x0 + x1 * t, y0 + y1 * t);
        at_add(&c0, b0, i, j, x0, y0); at_add(&c1, b1, i, j, x1, y1); at_mul(&d1, sb, i, j, x1 + y1, t); at_add(&d0, &md, i, j, x0 + y0, (x1 + y1) * t);
        assert((x0 + x1 * t) + (y0 + y1 * t) == (x0 + y0) + (x1 + y1) * t) by (nonlinear_arith);
        at_eq(&l, &r, i, j, (x0 + y0) + (x1 + y1) * t);
    }
    lemma_veq_isx(&l, &r, xadd(xsub(z, N), z2));
}
pub proof fn lemma_relin_enc(ct: &Ciphertext, out: &Ciphertext, k: &KeySwitchingKey, p: &Poly<PowerBasis>, r: (Poly<Ntt>, Poly<Ntt>), b0: &Poly<Ntt>, b1: &Poly<Ntt>, s: Seq<int>, bs: int, w: Seq<int>, bw: int, b: int)
    requires ct.wf(), ct.par == k.par, ct.level == k.ciphertext_level, ct.c@.len() == 3, k.wf(), p.wf(), p.ctx == ct.c@[2].ctx, forall|i: int| 0 <= i < p.n() ==> p.ctx.ops@[i].is_fwd(ct.c@[2].rows()[i]@, vals((#[trigger] p.rows()[i])@)), switch_ok(Ok(r), k, p, k.digits(p)), lowered(k, r, b0, b1),
        out.c@.len() == 2, out.c@[0] == padd(ct.c@[0], *b0), out.c@[1] == padd(ct.c@[1], *b1), out.par == ct.par,
        ct.enc(s, w, bw), smallx(s, bs), s.len() == k.par.deg(), 0 <= bs, 0 <= b, k.switches(s, xmul(xprod(k), negamul(s, s)), b),
    ensures out.enc(s, w, rot_noise(k, ct.par.t(), bw, b, bs)),
{
    let t = ct.par.t(); let gs = negamul(s, s);
    lemma_key_ctx(k);
    assert(ct.par.wf_l(ct.level as int));
    let p0 = choose|p0: Poly<Ntt>| #[trigger] ct.hides(s, p0) && noisy(&p0, t, w, bw);
    let kp = choose|kp: Poly<Ntt>| #[trigger] kp.isx(s) && is_phase(&p0, ct.c@, &kp);
    let z = noisy_get(&p0, t, w, bw);
    assert(ct.c@[0].wf() && ct.c@[1].wf() && ct.c@[2].wf());
    assert(ct.c@[0].like(&p0)) by { reveal(is_phase); let _ = ct.c@[0]; }
    lemma_like(&ct.c@[0], &p0);
    lemma_negamul_len(s, s);
    let y = lemma_coefs_ex(p); lemma_isx_of(&ct.c@[2], p, y);
    let sb = ntt_form(b1.ctx, s); axiom_ntt_form(b1.ctx, s);
    assert(sb.like(b1) && b1.like(&sb));
    let z2 = lemma_ks(k, p, r, b0, b1, &sb, s, gs, bs, b, y);
    let N = negamul(y, gs);
    assert(ct.c@[0].like(b0));
    lemma_relin_phase(ct.c@, &p0, &kp, b0, b1, &sb, s, z, y, z2);
    let (o0, o1) = (padd(ct.c@[0], *b0), padd(ct.c@[1], *b1));
    let zf = xadd(xsub(z, N), z2);
    assert(o0.like(&o1) && o1.like(&sb));
    assert(out.c@ =~= seq![o0, o1]);
    lemma_phase2(out.c@, &sb);
    let ph = padd(o0, pmul(o1, sb));
    assert(out.hides(s, ph));
    lemma_same_q(&*ph.ctx, &*p0.ctx);
    let q = p0.ctx.rns.q(); let nb = rot_noise(k, t, bw, b, bs); let kn = ksn(k, b, bs);
    assert(t >= 0) by { reveal(BfvParameters::wf_pt); }
    assert forall|j: int| 0 <= j < zf.len() implies -nb <= #[trigger] (t * zf[j]) - ph.ctx.rns.q() * w[j] <= nb by {
        let (a, c, g) = (z2[j], N[j], z[j]);
        let d = a - c;
        assert(-kn <= z2[j] - N[j] <= kn);
        assert(zf[j] == 1 * (1 * g + (-1) * c) + 1 * a);
        assert(t * zf[j] == t * g + t * d) by (nonlinear_arith) requires zf[j] == g + d;
        assert(-(t * kn) <= t * d <= t * kn) by (nonlinear_arith) requires -kn <= d <= kn, t >= 0;
        assert(-bw <= t * z[j] - q * w[j] <= bw);
    }
    noisy_of(&ph, t, w, nb, zf);
}
//@ struct crates/fhe/src/bfv/keys/relinearization_key.rs RelinearizationKey
impl RelinearizationKey {
    /// the key was made for the secret s
    pub open spec fn relins(&self, s: Seq<int>, b: int) -> bool { self.ksk.switches(s, xmul(xprod(&self.ksk), negamul(s, s)), b) }
}
//@ fn crates/fhe/src/bfv/keys/relinearization_key.rs RelinearizationKey::new_leveled_internal
//@ ret r
//@ subst sk.coeffs.as_ref() => &*sk.coeffs
//@ subst let s2 = (&s * &s).into_power_basis(); => let v_s2 = s.vmul(&s); proof { sn = s; sq = v_s2; } let s2 = v_s2.into_power_basis();
//@ sig
    pub fn new_leveled_internal(sk: &SecretKey, ciphertext_level: usize, key_level: usize, rng: &mut VRng) -> (r: Result<Self>)
//@ spec
    requires sk.wf(), key_level <= ciphertext_level, sk.par.lv() <= 1024,
    ensures r is Ok <==> ciphertext_level < sk.par.lv() && key_level + 1 < sk.par.lv() && 1 <= sk.par.variance <= 32,
        r matches Ok(k) ==> k.ksk.wf() && k.ksk.par == sk.par && k.ksk.ciphertext_level == ciphertext_level && k.ksk.ksk_level == key_level && k.relins(sk.s(), b0(sk)),
//@ start
    let ghost mut sn: Poly<Ntt> = arbitrary();
    let ghost mut sq: Poly<Ntt> = arbitrary();
    let ghost mut s2p: Poly<PowerBasis> = arbitrary();
    let ghost mut up: Poly<PowerBasis> = arbitrary();
    let ghost mut cg: Arc<Context> = arbitrary();
    let ghost mut cc: Arc<Context> = arbitrary();
    broadcast use lemma_fwd_auto, crate::scl::lemma_scaled_pb;
    proof { if ciphertext_level < sk.par.lv() { assert(sk.par.wf_l(ciphertext_level as int)); assert(sk.par.wf_l(key_level as int)); } }
//@ after-let s
    proof { assert(pad(sk.s(), s.d()) =~= sk.s()); assert(s.isx(sk.s())); }
//@ after-let s2
    proof { s2p = s2; cg = *ctx_relin_key; cc = *ctx_ciphertext; assert(sn.like(&sn)); lemma_isx_mul(sn, sn, sk.s(), sk.s()); lemma_negamul_len(sk.s(), sk.s()); lemma_back_of(&sq, &s2, negamul(sk.s(), sk.s())); }
//@ after-let s2_switched_up
    proof { up = s2_switched_up; }
//@ ret-hint
    proof {
        if r_ is Ok {
            let k = r_->Ok_0;
            let x = negamul(sk.s(), sk.s());
            let y = choose|y: Seq<int>| #[trigger] up.coefs(y) && resc(x, s2p.ctx.rns.q(), cg.rns.q(), cc.rns.q(), y);
            lemma_same_q(&*s2p.ctx, &*k.ksk.ctx_ciphertext); lemma_same_q(&*cg, &*k.ksk.ctx_ksk); lemma_same_q(&*cc, &*k.ksk.ctx_ciphertext);
            lemma_up(&k.ksk, &up, x, y);
        }
    }
//@ end
//@ fn crates/fhe/src/bfv/keys/relinearization_key.rs RelinearizationKey::relinearizes_poly
//@ ret r
//@ spec
    requires self.ksk.wf(), c2.wf(),
    ensures switch_ok(r, &self.ksk, c2, self.ksk.digits(c2)),
//@ end
//@ fn crates/fhe/src/bfv/keys/relinearization_key.rs RelinearizationKey::relinearizes
//@ ret r
//@ derefs ct
//@ subst let (mut c0, mut c1) = self.relinearizes_poly(&c2)?; => let (mut c0, mut c1) = self.relinearizes_poly(&c2)?; proof { rr = (c0, c1); pc = c2; }
//@ subst c0_pb.switch_down_to => proof { p0 = c0_pb; p1 = c1_pb; } c0_pb.switch_down_to
//@ subst c0 = c0_pb.into_ntt(); => proof { q0 = c0_pb; q1 = c1_pb; } c0 = c0_pb.into_ntt();
//@ subst c1 = c1_pb.into_ntt(); => c1 = c1_pb.into_ntt(); proof { let k = extra(&self.ksk); lemma_drops(&rr.0, &p0, &q0, &c0, k); lemma_drops(&rr.1, &p1, &q1, &c1, k); let x = lemma_coefs_ex(&p1); lemma_isx_of(&rr.1, &p1, x); }
//@ subst ct.c[0] += &c0; => proof { b0 = c0; b1 = c1; } ct.c[0] += &c0;
//@ subst ct.truncate(2); => ct.truncate(2); proof { let (k, o) = (&self.ksk, old(ct)); assert(lowered(k, rr, &b0, &b1)); assert(k.ctx_ksk.n() >= k.ctx_ciphertext.n()); assert forall|s: Seq<int>, bs: int, w: Seq<int>, bw: int, b: int| #[trigger] o.enc(s, w, bw) && #[trigger] smallx(s, bs) && s.len() == o.par.deg() && 0 <= bs && 0 <= b && #[trigger] self.relins(s, b) implies ct.enc(s, w, rot_noise(k, o.par.t(), bw, b, bs)) by { lemma_relin_enc(o, ct, k, &pc, rr, &b0, &b1, s, bs, w, bw, b); } }
//@ spec
    requires self.ksk.wf(), old(ct).polys_wf(), old(ct).par.wf(),
    ensures r is Ok ==> old(ct).par == self.ksk.par && old(ct).wf() && old(ct).c@.len() == 3 && old(ct).level == self.ksk.ciphertext_level && self.ksk.ksk_level <= self.ksk.ciphertext_level,
        r is Err ==> *final(ct) == *old(ct),
        r is Ok ==> final(ct).wf() && final(ct).par == old(ct).par && final(ct).level == old(ct).level && final(ct).seed is None && final(ct).c@.len() == 2,
        r is Ok ==> forall|s: Seq<int>, bs: int, w: Seq<int>, bw: int, b: int| #[trigger] old(ct).enc(s, w, bw) && #[trigger] smallx(s, bs) && s.len() == old(ct).par.deg() && 0 <= bs && 0 <= b && #[trigger] self.relins(s, b)
            ==> final(ct).enc(s, w, rot_noise(&self.ksk, old(ct).par.t(), bw, b, bs)),
//@ start
    let ghost mut rr: (Poly<Ntt>, Poly<Ntt>) = arbitrary();
    let ghost mut pc: Poly<PowerBasis> = arbitrary();
    let ghost mut p0: Poly<PowerBasis> = arbitrary();
    let ghost mut p1: Poly<PowerBasis> = arbitrary();
    let ghost mut q0: Poly<PowerBasis> = arbitrary();
    let ghost mut q1: Poly<PowerBasis> = arbitrary();
    let ghost mut b0: Poly<Ntt> = arbitrary();
    let ghost mut b1: Poly<Ntt> = arbitrary();
    proof { lemma_key_ctx(&self.ksk); assert(self.ksk.par.wf_l(self.ksk.ksk_level as int) && self.ksk.par.wf_l(self.ksk.ciphertext_level as int)); }
//@ end
