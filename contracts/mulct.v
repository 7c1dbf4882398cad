//@ import muln
//@ import swenc
// ---------------------------------------------------------------------------
// fhe/src/bfv/ops/mul.rs, ops/mod.rs : multiplication of ciphertexts
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use std::sync::Arc;
use crate::modk::*;
use crate::nttm::*;
use crate::nttm::at;
use crate::ntt::*;
use crate::ringmul::*;
use crate::rns::*;
broadcast use group_poly;
/// scaling of polynomials in NTT form, over the contract of Poly::scale
pub broadcast proof fn lemma_scaled_ntt(a: &Poly<Ntt>, b: &Poly<Ntt>, num: int, den: int)
    requires a.wf(), b.wf(), a.d() == b.d(), has_sem::<Ntt>(a),
    ensures #[trigger] scaled_to::<Ntt>(a, b, num, den) ==> scaled(a, b, num, den),
{
    if scaled_to::<Ntt>(a, b, num, den) {
        let x0 = choose|x: Seq<int>| #[trigger] rsem::<Ntt>(&*a.ctx, a.rows(), x);
        assert(a.isx(x0));
        assert forall|x: Seq<int>| #[trigger] a.isx(x) implies exists|y: Seq<int>| #[trigger] b.isx(y) && resc(x, a.ctx.rns.q(), num, den, y) by {
            assert(rsem::<Ntt>(&*a.ctx, a.rows(), x));
            let y = choose|y: Seq<int>| #[trigger] rsem::<Ntt>(&*b.ctx, b.rows(), y) && resc(x, a.ctx.rns.q(), num, den, y);
            assert(b.isx(y));
        }
    }
}
impl Clone for RelinearizationKey {
    /// derived
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
//@ struct crates/fhe/src/bfv/ops/mul.rs Multiplicator
impl Multiplicator {
    /// the scalers go between the contexts of the multiplicator
    pub open spec fn wf(&self) -> bool {
        let (x, y, z) = (&self.extender_lhs, &self.extender_rhs, &self.down_scaler);
        &&& self.par.wf() && self.level < self.par.lv() && self.base_ctx.wf() && same(&*self.base_ctx, &self.par.ctx(self.level as int)) && self.mul_ctx.wf()
        &&& x.wf() && y.wf() && z.wf() && same(&x.from(), &*self.base_ctx) && same(&y.from(), &*self.base_ctx) && x.to() == *self.mul_ctx && y.to() == *self.mul_ctx && same(&z.from(), &*self.mul_ctx) && same(&z.to(), &*self.base_ctx)
        &&& x.k() < x.to().n() && y.k() < y.to().n() && z.k() < z.to().n()
        &&& self.rk matches Some(k) ==> k.ksk.wf() && k.ksk.par == self.par && k.ksk.ciphertext_level == self.level
    }
    /// the strategy of Multiplicator::default: extend both operands, multiply, scale by t / q
    pub open spec fn standard(&self) -> bool {
        &&& self.extender_lhs.num() == 1 && self.extender_lhs.den() == 1 && self.extender_rhs.num() == 1 && self.extender_rhs.den() == 1
        &&& self.down_scaler.num() == self.par.t() && self.down_scaler.den() == self.par.ctx(self.level as int).rns.q()
    }
    pub open spec fn q(&self) -> int { self.par.ctx(self.level as int).rns.q() }
}
//@ fn crates/fhe/src/bfv/ops/mul.rs Multiplicator::enable_relinearization
//@ ret r
//@ spec
    requires old(self).wf(), rk.ksk.wf(),
    ensures r is Ok ==> final(self).wf() && *final(self) == (Multiplicator { rk: Some(*rk), ..*old(self) }), r is Err ==> *final(self) == *old(self),
//@ start
    proof { let p = &self.par; assert(p.wf_l(self.level as int)); if rk.ksk.par == self.par { assert(p.wf_l(rk.ksk.ciphertext_level as int)); if same(&p.ctx(rk.ksk.ciphertext_level as int), &p.ctx(self.level as int)) { lemma_level_unique(p, rk.ksk.ciphertext_level as int, self.level as int); } } }
//@ end
//@ fn crates/fhe/src/bfv/ops/mul.rs Multiplicator::enable_mod_switching
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures r is Ok ==> final(self).wf() && *final(self) == (Multiplicator { mod_switch: true, ..*old(self) }), r is Err ==> *final(self) == *old(self),
//@ end
/// noise (times t) of the result of Multiplicator::multiply
pub open spec fn out_noise(m: &Multiplicator, bs: int, ba: int, bb: int, b: int) -> int {
    let (t, n, q) = (m.par.t(), m.par.deg(), m.q());
    let x = mul_noise(n, bs, t, q, ba, bb);
    let y = if m.rk is Some { rot_noise(&m.rk->Some_0.ksk, t, x, b, bs) } else { x };
    if m.mod_switch { switch_noise(t, n, bs, m.par.ctx(m.level as int).moduli@.last() as int, y) } else { y }
}
/// the hypotheses on the operands, the secret key and the multiplication basis
pub open spec fn mul_hyp(m: &Multiplicator, x: &Ciphertext, y: &Ciphertext, s: Seq<int>, bs: int, wa: Seq<int>, wb: Seq<int>, ba: int, bb: int, b: int) -> bool {
    &&& x.enc(s, wa, ba) && y.enc(s, wb, bb) && smallx(s, bs) && s.len() == m.par.deg() && 0 <= bs && 0 <= ba && 0 <= bb && 0 <= b
    &&& mul_room(m.par.deg(), bs, m.q(), m.mul_ctx.rns.q())
    &&& m.rk matches Some(k) ==> k.relins(s, b)
}
pub proof fn lemma_noise_pos(n: int, bs: int, t: int, q: int, ba: int, bb: int)
    requires 0 <= n, 0 <= bs, 0 <= t, 1 <= q, 0 <= ba, 0 <= bb,
    ensures 0 <= mul_noise(n, bs, t, q, ba, bb),
{
    let v = 1 + n * bs; let u = 1 + n * bs + n * (n * (bs * bs));
    assert(v >= 1) by (nonlinear_arith) requires v == 1 + n * bs, n >= 0, bs >= 0;
    let x = n * (bs * bs);
    assert(x >= 0) by (nonlinear_arith) requires x == n * (bs * bs), n >= 0, bs >= 0;
    assert(n * x >= 0) by (nonlinear_arith) requires x >= 0, n >= 0;
    lemma_div_pos_is_pos(ba, q); lemma_div_pos_is_pos(bb, q);
    assert(t * v >= 0) by (nonlinear_arith) requires t >= 0, v >= 1;
    let (A, B) = (amp(v, t, q, ba), amp(v, t, q, bb));
    assert(n * (A * bb) >= 0) by (nonlinear_arith) requires n >= 0, A >= 0, bb >= 0;
    assert(n * (ba * B) >= 0) by (nonlinear_arith) requires n >= 0, ba >= 0, B >= 0;
    assert(n * (ba * bb) >= 0) by (nonlinear_arith) requires n >= 0, ba >= 0, bb >= 0;
    assert(t * u >= 0) by (nonlinear_arith) requires t >= 0, u >= 1;
    lemma_div_pos_is_pos(n * (ba * bb), q);
}
/// relinearized parts
pub open spec fn relined(k: &KeySwitchingKey, c: Seq<Poly<Ntt>>, d: Seq<Poly<Ntt>>) -> bool {
    exists|p: Poly<PowerBasis>, r: (Poly<Ntt>, Poly<Ntt>), b0: Poly<Ntt>, b1: Poly<Ntt>| #[trigger] relined_by(k, c, d, p, r, b0, b1)
}
pub open spec fn relined_by(k: &KeySwitchingKey, c: Seq<Poly<Ntt>>, d: Seq<Poly<Ntt>>, p: Poly<PowerBasis>, r: (Poly<Ntt>, Poly<Ntt>), b0: Poly<Ntt>, b1: Poly<Ntt>) -> bool {
    &&& c.len() == 3 && d.len() == 2 && p.wf() && p.ctx == c[2].ctx && (forall|i: int| 0 <= i < p.n() ==> p.ctx.ops@[i].is_fwd(c[2].rows()[i]@, vals((#[trigger] p.rows()[i])@)))
    &&& switch_ok(Ok(r), k, &p, k.digits(&p)) && lowered(k, r, &b0, &b1) && d[0] == padd(c[0], b0) && d[1] == padd(c[1], b1)
}
pub proof fn lemma_relined(ct: &Ciphertext, out: &Ciphertext, k: &KeySwitchingKey, s: Seq<int>, bs: int, w: Seq<int>, bw: int, b: int)
    requires ct.wf(), ct.par == k.par, ct.level == k.ciphertext_level, ct.c@.len() == 3, k.wf(), relined(k, ct.c@, out.c@), out.par == ct.par,
        ct.enc(s, w, bw), smallx(s, bs), s.len() == k.par.deg(), 0 <= bs, 0 <= b, k.switches(s, xmul(xprod(k), negamul(s, s)), b),
    ensures out.enc(s, w, rot_noise(k, ct.par.t(), bw, b, bs)),
{
    let (p, r, b0, b1) = choose|p: Poly<PowerBasis>, r: (Poly<Ntt>, Poly<Ntt>), b0: Poly<Ntt>, b1: Poly<Ntt>| #[trigger] relined_by(k, ct.c@, out.c@, p, r, b0, b1);
    lemma_relin_enc(ct, out, k, &p, r, &b0, &b1, s, bs, w, bw, b);
}
/// the parts of a product before relinearization
pub open spec fn multiplied(m: &Multiplicator, a: Seq<Poly<Ntt>>, b: Seq<Poly<Ntt>>, c: Seq<Poly<Ntt>>) -> bool {
    exists|e0: Poly<Ntt>, e1: Poly<Ntt>, f0: Poly<Ntt>, f1: Poly<Ntt>, d0: Poly<Ntt>, d1: Poly<Ntt>, d2: Poly<Ntt>| #[trigger] multiplied_by(m, a, b, c, e0, e1, f0, f1, d0, d1, d2)
}
pub open spec fn multiplied_by(m: &Multiplicator, a: Seq<Poly<Ntt>>, b: Seq<Poly<Ntt>>, c: Seq<Poly<Ntt>>, e0: Poly<Ntt>, e1: Poly<Ntt>, f0: Poly<Ntt>, f1: Poly<Ntt>, d0: Poly<Ntt>, d1: Poly<Ntt>, d2: Poly<Ntt>) -> bool {
    let (x, y, z) = (&m.extender_lhs, &m.extender_rhs, &m.down_scaler);
    &&& a.len() == 2 && b.len() == 2 && c.len() == 3 && *e0.ctx == *m.mul_ctx
    &&& scaled(&a[0], &e0, x.num(), x.den()) && scaled(&a[1], &e1, x.num(), x.den()) && scaled(&b[0], &f0, y.num(), y.den()) && scaled(&b[1], &f1, y.num(), y.den())
    &&& tensored(&e0, &e1, &f0, &f1, &d0, &d1, &d2)
    &&& scaled(&d0, &c[0], z.num(), z.den()) && scaled(&d1, &c[1], z.num(), z.den()) && scaled(&d2, &c[2], z.num(), z.den())
}
pub proof fn lemma_multiplied(m: &Multiplicator, a: &Ciphertext, b: &Ciphertext, out: &Ciphertext, s: Seq<int>, bs: int, wa: Seq<int>, wb: Seq<int>, ba: int, bb: int, bk: int)
    requires m.wf(), m.standard(), a.wf(), b.wf(), out.wf(), a.par == m.par, b.par == m.par, out.par == m.par, a.level == m.level, b.level == m.level, out.level == m.level, multiplied(m, a.c@, b.c@, out.c@),
        mul_hyp(m, a, b, s, bs, wa, wb, ba, bb, bk),
    ensures out.enc(s, negamul(wa, wb), mul_noise(m.par.deg(), bs, m.par.t(), m.q(), ba, bb)),
{
    let (e0, e1, f0, f1, d0, d1, d2) = choose|e0: Poly<Ntt>, e1: Poly<Ntt>, f0: Poly<Ntt>, f1: Poly<Ntt>, d0: Poly<Ntt>, d1: Poly<Ntt>, d2: Poly<Ntt>| #[trigger] multiplied_by(m, a.c@, b.c@, out.c@, e0, e1, f0, f1, d0, d1, d2);
    lemma_mul_enc(a, b, out, &e0, &e1, &f0, &f1, &d0, &d1, &d2, s, bs, wa, wb, ba, bb);
}
/// the whole pipeline
pub proof fn lemma_product(m: &Multiplicator, a: &Ciphertext, b: &Ciphertext, c3: &Ciphertext, c2: &Ciphertext, out: &Ciphertext, s: Seq<int>, bs: int, wa: Seq<int>, wb: Seq<int>, ba: int, bb: int, bk: int)
    requires m.wf(), m.standard(), a.wf(), b.wf(), c3.wf(), c2.wf(), out.wf(), a.par == m.par, b.par == m.par, c3.par == m.par, a.level == m.level, b.level == m.level, c3.level == m.level, multiplied(m, a.c@, b.c@, c3.c@),
        c2.par == m.par, c2.level == m.level, m.rk matches Some(k) ==> relined(&k.ksk, c3.c@, c2.c@), m.rk is None ==> c2.c@ == c3.c@,
        m.mod_switch ==> m.rk is Some && out.par == m.par && out.level == m.level + 1 && out.c@.len() == 2 && swpoly(c2.c@[0], out.c@[0]) && swpoly(c2.c@[1], out.c@[1]), !m.mod_switch ==> *out == *c2,
        mul_hyp(m, a, b, s, bs, wa, wb, ba, bb, bk),
    ensures out.enc(s, negamul(wa, wb), out_noise(m, bs, ba, bb, bk)),
{
    let (t, n, q) = (m.par.t(), m.par.deg(), m.q()); let w = negamul(wa, wb);
    let x = mul_noise(n, bs, t, q, ba, bb);
    assert(t >= 0 && n >= 0) by { reveal(BfvParameters::wf_pt); }
    assert(m.par.wf_l(m.level as int)); lemma_q_pos(&m.par.ctx(m.level as int));
    lemma_noise_pos(n, bs, t, q, ba, bb);
    lemma_multiplied(m, a, b, c3, s, bs, wa, wb, ba, bb, bk);
    if m.rk is Some {
        let k = &m.rk->Some_0.ksk;
        lemma_relined(c3, c2, k, s, bs, w, x, bk);
        let y = rot_noise(k, t, x, bk, bs);
        lemma_rot_noise_pos(k, t, x, bk, bs);
        if m.mod_switch { lemma_switch_enc1(c2, out, s, bs, w, y); }
    } else {
        let p = choose|p: Poly<Ntt>| #[trigger] c3.hides(s, p) && noisy(&p, t, w, x);
        assert(c2.hides(s, p));
    }
}
pub proof fn lemma_rot_noise_pos(k: &KeySwitchingKey, t: int, bw: int, b: int, bs: int)
    requires k.wf(), 0 <= t, 0 <= bw, 0 <= b, 0 <= bs,
    ensures 0 <= rot_noise(k, t, bw, b, bs),
{
    lemma_key_ctx(k);
    let (l, n, d, m) = (k.c0@.len() as int, k.ctx_ksk.d(), dmax(), k.par.deg());
    assert(d * b >= 0) by (nonlinear_arith) requires b >= 0, d >= 0;
    let x = d * b;
    assert(n * x >= 0) by (nonlinear_arith) requires x >= 0, n >= 0;
    let y = n * x;
    assert(l * y >= 0) by (nonlinear_arith) requires y >= 0, l >= 0;
    lemma_div_pos_is_pos(l * y, xprod(k));
    assert(m * bs >= 0) by (nonlinear_arith) requires m >= 0, bs >= 0;
    let z = ksn(k, b, bs);
    assert(t * z >= 0) by (nonlinear_arith) requires t >= 0, z >= 0;
}
//@ fn crates/fhe/src/bfv/ops/mul.rs Multiplicator::multiply
//@ ret r
//@ derefs lhs rhs
//@ subst let c0 = &c00 * &c10; => let c0 = c00.vmul(&c10);
//@ subst let mut c1 = &c00 * &c11; => let mut c1 = c00.vmul(&c11);
//@ subst c1 += &(&c01 * &c10); => let v_c1 = c01.vmul(&c10); c1 += &v_c1;
//@ subst let c2 = &c01 * &c11; => let c2 = c01.vmul(&c11); proof { e0 = c00; e1 = c01; f0 = c10; f1 = c11; d0 = c0; d1 = c1; d2 = c2; }
//@ subst let mut c = vec![c0, c1, c2]; => let mut c: Vec<Poly<Ntt>> = vec![c0, c1, c2]; proof { g3 = c@; v3 = c; }
//@ subst let (mut c0r, mut c1r) = rk.relinearizes_poly(&c2_pb)?; => let (mut c0r, mut c1r) = rk.relinearizes_poly(&c2_pb)?; proof { lemma_key_ctx(&rk.ksk); rr = (c0r, c1r); pc = c2_pb; }
//@ subst c0r_pb.switch_down_to => proof { p0 = c0r_pb; p1 = c1r_pb; } c0r_pb.switch_down_to
//@ subst c0r = c0r_pb.into_ntt(); => proof { q0 = c0r_pb; q1 = c1r_pb; } c0r = c0r_pb.into_ntt();
//@ subst c1r = c1r_pb.into_ntt(); => c1r = c1r_pb.into_ntt(); proof { let k = extra(&rk.ksk); lemma_drops(&rr.0, &p0, &q0, &c0r, k); lemma_drops(&rr.1, &p1, &q1, &c1r, k); let x = lemma_coefs_ex(&p1); lemma_isx_of(&rr.1, &p1, x); }
//@ subst c[0] += &c0r; => proof { b0 = c0r; b1 = c1r; } c[0] += &c0r;
//@ subst c.truncate(2); => c.truncate(2); proof { assert(lowered(&rk.ksk, rr, &b0, &b1)); assert(relined_by(&rk.ksk, g3, c@, pc, rr, b0, b1)); }
//@ subst if self.mod_switch { => proof { g2 = c; } if self.mod_switch {
//@ spec
    requires self.wf(), lhs.polys_wf(), rhs.polys_wf(), lhs.par.wf(), rhs.par.wf(),
    ensures r is Ok ==> lhs.par == self.par && rhs.par == self.par && lhs.level == self.level && rhs.level == self.level && lhs.c@.len() == 2 && rhs.c@.len() == 2 && lhs.wf() && rhs.wf(),
        r matches Ok(o) ==> o.wf() && o.par == self.par && o.seed is None && o.level == self.level + (if self.mod_switch { 1int } else { 0 }) && o.c@.len() == (if self.rk is Some { 2int } else { 3 }),
        r matches Ok(o) ==> self.standard() && (self.mod_switch ==> self.rk is Some) ==> forall|s: Seq<int>, bs: int, wa: Seq<int>, wb: Seq<int>, ba: int, bb: int, b: int| #[trigger] mul_hyp(self, lhs, rhs, s, bs, wa, wb, ba, bb, b) ==> o.enc(s, negamul(wa, wb), out_noise(self, bs, ba, bb, b)),
//@ start
    let ghost mut e0: Poly<Ntt> = arbitrary();
    let ghost mut e1: Poly<Ntt> = arbitrary();
    let ghost mut f0: Poly<Ntt> = arbitrary();
    let ghost mut f1: Poly<Ntt> = arbitrary();
    let ghost mut d0: Poly<Ntt> = arbitrary();
    let ghost mut d1: Poly<Ntt> = arbitrary();
    let ghost mut d2: Poly<Ntt> = arbitrary();
    let ghost mut b0: Poly<Ntt> = arbitrary();
    let ghost mut b1: Poly<Ntt> = arbitrary();
    let ghost mut g3: Seq<Poly<Ntt>> = arbitrary();
    let ghost mut g2: Ciphertext = arbitrary();
    let ghost mut rr: (Poly<Ntt>, Poly<Ntt>) = arbitrary();
    let ghost mut pc: Poly<PowerBasis> = arbitrary();
    let ghost mut p0: Poly<PowerBasis> = arbitrary();
    let ghost mut p1: Poly<PowerBasis> = arbitrary();
    let ghost mut q0: Poly<PowerBasis> = arbitrary();
    let ghost mut q1: Poly<PowerBasis> = arbitrary();
    let ghost mut v3: Vec<Poly<Ntt>> = arbitrary();
    broadcast use lemma_fwd_auto, lemma_scaled_ntt;
    proof { assert(self.par.wf_l(self.level as int)); }
//@ ret-hint
    proof {
        if r_ is Ok && self.standard() && (self.mod_switch ==> self.rk is Some) {
            let o = r_->Ok_0;
            let (x, y, z) = (&self.extender_lhs, &self.extender_rhs, &self.down_scaler);
            assert(tensored(&e0, &e1, &f0, &f1, &d0, &d1, &d2));
            assert(multiplied_by(self, lhs.c@, rhs.c@, g3, e0, e1, f0, f1, d0, d1, d2));
            let c3 = Ciphertext { par: self.par, seed: None, c: v3, level: self.level };
            assert(c3.wf()) by { assert forall|k: int| 0 <= k < 3 implies (#[trigger] c3.c@[k]).wf() && same(&*c3.c@[k].ctx, &self.par.ctx(self.level as int)) by {} }
            assert(g2.wf());
            assert forall|s: Seq<int>, bs: int, wa: Seq<int>, wb: Seq<int>, ba: int, bb: int, b: int| #[trigger] mul_hyp(self, lhs, rhs, s, bs, wa, wb, ba, bb, b) implies o.enc(s, negamul(wa, wb), out_noise(self, bs, ba, bb, b)) by {
                lemma_product(self, lhs, rhs, &c3, &g2, &o, s, bs, wa, wb, ba, bb, b);
            }
        }
    }
//@ end
