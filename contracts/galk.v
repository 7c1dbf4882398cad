//@ import galm
// ---------------------------------------------------------------------------
// fhe/src/bfv/keys/galois_key.rs, relinearization_key.rs : rotation and relinearization keys
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use std::sync::Arc;
use crate::modk::*;
use crate::nttm::*;
use crate::ringmul::*;
use crate::rns::*;
use crate::poly::fhe_traits::*;
broadcast use group_poly;
/// a, brought to coefficient form, with its last k moduli dropped, and back
pub proof fn lemma_drops(a: &Poly<Ntt>, p0: &Poly<PowerBasis>, p1: &Poly<PowerBasis>, b: &Poly<Ntt>, k: nat)
    requires a.wf(), p0.wf(), p1.wf(), b.wf(), back_of(a, p0), p0.d() == p1.d(), fwd_of(p1, b),
        forall|j: int, x: int| 0 <= j < p0.d() && #[trigger] p0.is_int(j, x) ==> p1.is_int(j, rnds(x, p0.ctx.moduli@, k)),
    ensures drops(a, b, k),
{
    assert forall|x: Seq<int>| #[trigger] a.isx(x) implies b.isx(xrnds(x, a.ctx.moduli@, k)) by {
        lemma_back_of(a, p0, x);
        let y = xrnds(x, a.ctx.moduli@, k);
        assert forall|j: int| 0 <= j < p1.d() implies p1.is_int(j, #[trigger] y[j]) by { assert(p0.is_int(j, x[j])); }
        lemma_fwd_of(p1, b, y);
    }
}
//@ struct crates/fhe/src/bfv/keys/galois_key.rs GaloisKey
impl GaloisKey {
    pub open spec fn wf(&self) -> bool { self.ksk.wf() && self.element.wf() && self.element.ctx.degree == self.ksk.par.polynomial_degree }
    pub open spec fn accepts(&self, ct: &Ciphertext) -> bool { ct.par == self.ksk.par && ct.wf() && ct.c@.len() == 2 && ct.level == self.ksk.ciphertext_level }
    /// the key was made for the secret s
    pub open spec fn rotates(&self, s: Seq<int>, b: int) -> bool { self.ksk.switches(s, xmul(xprod(&self.ksk), galois(s, self.element.exponent as int)), b) }
}
//@ fn crates/fhe/src/bfv/keys/galois_key.rs GaloisKey::validate_ciphertext
//@ derefs ct
//@ ret r
//@ spec
    requires ct.polys_wf(), ct.par.wf(),
    ensures r is Ok ==> self.accepts(ct),
//@ end
//@ fn crates/fhe/src/bfv/keys/galois_key.rs GaloisKey::new
//@ ret r
//@ subst sk.coeffs.as_ref() => &*sk.coeffs
//@ sig
    pub fn new(sk: &SecretKey, exponent: usize, ciphertext_level: usize, galois_key_level: usize, rng: &mut VRng) -> (r: Result<Self>)
//@ spec
    requires sk.wf(), galois_key_level <= ciphertext_level, sk.par.polynomial_degree <= 0x4000_0000, sk.par.lv() <= 1024,
    ensures r is Ok <==> ciphertext_level < sk.par.lv() && exponent % 2 == 1 && 1 <= sk.par.variance <= 32,
        r matches Ok(k) ==> k.wf() && k.ksk.par == sk.par && k.ksk.ciphertext_level == ciphertext_level && k.ksk.ksk_level == galois_key_level && k.element.exponent == exponent as int % (2 * sk.par.deg())
            && k.rotates(sk.s(), b0(sk)),
//@ start
    broadcast use crate::scl::lemma_scaled_pb;
    let ghost mut sp: Poly<PowerBasis> = arbitrary();
    let ghost mut ss: Poly<PowerBasis> = arbitrary();
    let ghost mut up: Poly<PowerBasis> = arbitrary();
    let ghost mut cg: Arc<Context> = arbitrary();
    let ghost mut cc: Arc<Context> = arbitrary();
    proof { if ciphertext_level < sk.par.lv() { assert(sk.par.wf_l(ciphertext_level as int)); assert(sk.par.wf_l(galois_key_level as int)); } }
//@ after-let s
    proof { assert(pad(sk.s(), s.d()) =~= sk.s()); assert(s.coefs(sk.s())); sp = s; }
//@ after-let s_sub_switched_up
    proof { up = s_sub_switched_up; }
//@ after-let s_sub
    proof { ss = s_sub; cg = *ctx_galois_key; cc = *ctx_ciphertext; lemma_coefs_sub(s, s_sub, ciphertext_exponent, sk.s()); }
//@ ret-hint
    proof {
        if r_ is Ok {
            let k = r_->Ok_0;
            let x = galois(sk.s(), k.element.exponent as int);
            let y = choose|y: Seq<int>| #[trigger] up.coefs(y) && resc(x, ss.ctx.rns.q(), cg.rns.q(), cc.rns.q(), y);
            lemma_same_q(&*ss.ctx, &*k.ksk.ctx_ciphertext); lemma_same_q(&*cg, &*k.ksk.ctx_ksk); lemma_same_q(&*cc, &*k.ksk.ctx_ciphertext);
            lemma_up(&k.ksk, &up, x, y);
        }
    }
//@ end
//@ fn crates/fhe/src/bfv/keys/galois_key.rs GaloisKey::relinearize
//@ ret r
//@ derefs ct
//@ subst let c2 = ct.c[1].substitute(&self.element)?.into_power_basis(); => let v_u1 = ct.c[1].substitute(&self.element)?; proof { u1 = v_u1; } let c2 = v_u1.into_power_basis();
//@ subst c0_pb.switch_down_to => proof { p0 = c0_pb; p1 = c1_pb; } c0_pb.switch_down_to
//@ subst c0 = c0_pb.into_ntt(); => proof { q0 = c0_pb; q1 = c1_pb; } c0 = c0_pb.into_ntt();
//@ subst c1 = c1_pb.into_ntt(); => c1 = c1_pb.into_ntt(); proof { let k = extra(&self.ksk); lemma_drops(&rr.0, &p0, &q0, &c0, k); lemma_drops(&rr.1, &p1, &q1, &c1, k); let x = lemma_coefs_ex(&p1); lemma_isx_of(&rr.1, &p1, x); }
//@ subst c0 += &ct.c[0].substitute(&self.element)?; => let v_u0 = ct.c[0].substitute(&self.element)?; proof { u0 = v_u0; b0 = c0; b1 = c1; } c0 += &v_u0;
//@ subst let (mut c0, mut c1) = self.ksk.key_switch(&c2)?; => let (mut c0, mut c1) = self.ksk.key_switch(&c2)?; proof { rr = (c0, c1); pc = c2; }
//@ spec
    requires self.wf(), ct.polys_wf(), ct.par.wf(),
    ensures r is Ok ==> self.accepts(ct) && self.ksk.ksk_level <= self.ksk.ciphertext_level,
        r matches Ok(o) ==> o.wf() && o.par == ct.par && o.level == ct.level && o.seed is None && o.c@.len() == 2,
        r matches Ok(o) ==> forall|s: Seq<int>, bs: int, w: Seq<int>, bw: int, b: int| #[trigger] ct.enc(s, w, bw) && #[trigger] smallx(s, bs) && s.len() == ct.par.deg() && 0 <= bs && 0 <= b && #[trigger] self.rotates(s, b)
            ==> o.enc(s, galois(w, self.element.exponent as int), rot_noise(&self.ksk, ct.par.t(), bw, b, bs)),
//@ start
    let ghost mut u0: Poly<Ntt> = arbitrary();
    let ghost mut u1: Poly<Ntt> = arbitrary();
    let ghost mut b0: Poly<Ntt> = arbitrary();
    let ghost mut b1: Poly<Ntt> = arbitrary();
    let ghost mut rr: (Poly<Ntt>, Poly<Ntt>) = arbitrary();
    let ghost mut pc: Poly<PowerBasis> = arbitrary();
    let ghost mut p0: Poly<PowerBasis> = arbitrary();
    let ghost mut p1: Poly<PowerBasis> = arbitrary();
    let ghost mut q0: Poly<PowerBasis> = arbitrary();
    let ghost mut q1: Poly<PowerBasis> = arbitrary();
    proof { lemma_key_ctx(&self.ksk); }
//@ ret-hint
    proof {
        if r_ is Ok {
            let out = r_->Ok_0;
            assert(lowered(&self.ksk, rr, &b0, &b1));
            assert(self.ksk.par.wf_l(self.ksk.ksk_level as int) && self.ksk.par.wf_l(self.ksk.ciphertext_level as int));
            assert(self.ksk.ctx_ksk.n() >= self.ksk.ctx_ciphertext.n());
            assert forall|s: Seq<int>, bs: int, w: Seq<int>, bw: int, b: int| #[trigger] ct.enc(s, w, bw) && #[trigger] smallx(s, bs) && s.len() == ct.par.deg() && 0 <= bs && 0 <= b && #[trigger] self.rotates(s, b)
                implies out.enc(s, galois(w, self.element.exponent as int), rot_noise(&self.ksk, ct.par.t(), bw, b, bs)) by {
                lemma_rot_enc(ct, &out, &self.ksk, &self.element, &pc, rr, &u0, &u1, &b0, &b1, s, bs, w, bw, b);
            }
        }
    }
//@ end
