//@ import ct
// ---------------------------------------------------------------------------
// fhe/src/bfv/plaintext.rs : structure and validation of plaintexts
// ---------------------------------------------------------------------------
use std::sync::Arc;
//@ struct crates/fhe/src/bfv/encoding.rs Encoding
pub enum EncodingEnum { Poly, Simd }
//@ struct crates/fhe/src/bfv/plaintext.rs Plaintext
impl Clone for Plaintext {
    /// derived
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
impl BfvParameters {
    /// v is a full vector of residues modulo t
    pub open spec fn res(&self, v: Seq<int>) -> bool { v.len() == self.deg() && forall|j: int| 0 <= j < v.len() ==> 0 <= #[trigger] v[j] < self.t() }
}
impl Plaintext {
    /// the plaintext is the polynomial m modulo t
    pub open spec fn holds(&self, m: Seq<int>) -> bool { self.par.res(m) && self.poly_ntt.isx(m) }
    /// the level's modulus is large enough for the plaintext modulus
    pub open spec fn fits(&self) -> bool { self.par.t() <= self.poly_ntt.ctx.rns.q() }
    /// floor(Q m / t)
    pub open spec fn scaled(&self, m: Seq<int>) -> Seq<int> { Seq::new(m.len(), |j: int| (self.poly_ntt.ctx.rns.q() * m[j]) / self.par.t()) }
    /// r is the plaintext scaled up to the ciphertext modulus
    pub open spec fn is_scaled(&self, r: &Poly<Ntt>) -> bool {
        &&& r.wf() && same(&*r.ctx, &self.par.ctx(self.lvl())) && !r.allow_variable_time_computations
        &&& forall|m: Seq<int>| self.holds(m) ==> #[trigger] r.isx(self.scaled(m))
    }
    /// the level its context belongs to
    pub open spec fn lvl(&self) -> int { self.par.lv() - self.poly_ntt.ctx.moduli@.len() }
    /// invariant of every plaintext built by the library, at the levels whose modulus exceeds t
    pub open spec fn wf(&self) -> bool {
        &&& self.par.wf() && self.poly_ntt.wf()
        &&& 0 <= self.lvl() < self.par.lv() && same(&*self.poly_ntt.ctx, &self.par.ctx(self.lvl()))
        &&& self.fits()
    }
}
//@ fn crates/fhe/src/bfv/plaintext.rs Plaintext::level
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == self.lvl(),
//@ end
//@ fn crates/fhe/src/bfv/plaintext.rs Plaintext::validate_context
//@ ret r
//@ spec
    requires self.wf(), expected_ctx.wf(),
    ensures r is Ok <==> self.lvl() == expected_level && same(&*self.poly_ntt.ctx, &**expected_ctx),
//@ end
//@ fn crates/fhe/src/bfv/plaintext.rs Plaintext::validate_for_context
//@ ret r
//@ spec
    requires self.wf(), expected_ctx.wf(),
    ensures r is Ok ==> self.par == *par && self.lvl() == expected_level && same(&*self.poly_ntt.ctx, &**expected_ctx),
//@ end
//@ fn crates/fhe/src/bfv/plaintext.rs Plaintext::validate_for
//@ ret r
//@ spec
    requires self.wf(),
    ensures r is Ok ==> self.par == *par,
//@ end
