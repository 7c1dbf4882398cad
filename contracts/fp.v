//@ import poly
//@ import polyops
// GENERATED by tools/mkfp.py
// ---------------------------------------------------------------------------
// The operators of fhe-math/src/rq/ops.rs as client code writes them.  padd, psub, ... name the
// (deterministic) results of the operators; what is assumed of them here is their contract,
// proved in polyops.v.
// ---------------------------------------------------------------------------
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
use std::sync::Arc;
use std::marker::PhantomData;
impl<R: RepresentationTag> Poly<R> {
    pub open spec fn vt(&self) -> bool { self.allow_variable_time_computations }
    pub open spec fn like<S: RepresentationTag>(&self, o: &Poly<S>) -> bool { self.wf() && o.wf() && same(&*self.ctx, &*o.ctx) }
}
pub uninterp spec fn padd<R: RepresentationTag>(a: Poly<R>, b: Poly<R>) -> Poly<R>;
pub broadcast axiom fn axiom_padd<R: RepresentationTag>(a: Poly<R>, b: Poly<R>)
    requires a.like(&b),
    ensures (#[trigger] padd(a, b)).wf(), padd(a, b).ctx == a.ctx, padd(a, b).vt() == (a.vt() && b.vt()),
        forall|i: int| 0 <= i < a.n() ==> radd((#[trigger] padd(a, b).rows()[i])@, a.rows()[i]@, b.rows()[i]@, a.p(i));
pub uninterp spec fn psub<R: RepresentationTag>(a: Poly<R>, b: Poly<R>) -> Poly<R>;
pub broadcast axiom fn axiom_psub<R: RepresentationTag>(a: Poly<R>, b: Poly<R>)
    requires a.like(&b),
    ensures (#[trigger] psub(a, b)).wf(), psub(a, b).ctx == a.ctx, psub(a, b).vt() == (a.vt() && b.vt()),
        forall|i: int| 0 <= i < a.n() ==> rsub((#[trigger] psub(a, b).rows()[i])@, a.rows()[i]@, b.rows()[i]@, a.p(i));
pub uninterp spec fn pmul(a: Poly<Ntt>, b: Poly<Ntt>) -> Poly<Ntt>;
pub broadcast axiom fn axiom_pmul(a: Poly<Ntt>, b: Poly<Ntt>)
    requires a.like(&b),
    ensures (#[trigger] pmul(a, b)).wf(), pmul(a, b).ctx == a.ctx, pmul(a, b).vt() == (a.vt() && b.vt()),
        forall|i: int| 0 <= i < a.n() ==> rmul((#[trigger] pmul(a, b).rows()[i])@, a.rows()[i]@, b.rows()[i]@, a.p(i));
pub uninterp spec fn pmuls(a: Poly<Ntt>, b: Poly<NttShoup>) -> Poly<Ntt>;
pub broadcast axiom fn axiom_pmuls(a: Poly<Ntt>, b: Poly<NttShoup>)
    requires a.like(&b),
    ensures (#[trigger] pmuls(a, b)).wf(), pmuls(a, b).ctx == a.ctx, pmuls(a, b).vt() == (a.vt() && b.vt()),
        forall|i: int| 0 <= i < a.n() ==> rmul((#[trigger] pmuls(a, b).rows()[i])@, a.rows()[i]@, b.rows()[i]@, a.p(i));
pub uninterp spec fn pneg<R: RepresentationTag>(a: Poly<R>) -> Poly<R>;
pub broadcast axiom fn axiom_pneg<R: RepresentationTag>(a: Poly<R>)
    requires a.wf(),
    ensures (#[trigger] pneg(a)).wf(), pneg(a).ctx == a.ctx, pneg(a).vt() == a.vt(),
        forall|i: int| 0 <= i < a.n() ==> rneg((#[trigger] pneg(a).rows()[i])@, a.rows()[i]@, a.p(i));
pub broadcast group group_poly { axiom_padd, axiom_psub, axiom_pmul, axiom_pmuls, axiom_pneg }
impl<'b> core::ops::AddAssign<&'b Poly<PowerBasis>> for Poly<PowerBasis> { #[verifier::external_body] fn add_assign(&mut self, n: &'b Poly<PowerBasis>) { unimplemented!() } }
impl<'b> AddAssignSpecImpl<&'b Poly<PowerBasis>> for Poly<PowerBasis> {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, n: &'b Poly<PowerBasis>) -> bool { self.like(n) }
    open spec fn add_assign_spec(&self, n: &'b Poly<PowerBasis>) -> &Self { &padd(*self, *n) }
}
impl<'b> core::ops::SubAssign<&'b Poly<PowerBasis>> for Poly<PowerBasis> { #[verifier::external_body] fn sub_assign(&mut self, n: &'b Poly<PowerBasis>) { unimplemented!() } }
impl<'b> SubAssignSpecImpl<&'b Poly<PowerBasis>> for Poly<PowerBasis> {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, n: &'b Poly<PowerBasis>) -> bool { self.like(n) }
    open spec fn sub_assign_spec(&self, n: &'b Poly<PowerBasis>) -> &Self { &psub(*self, *n) }
}
impl<'a> core::ops::Neg for &'a Poly<PowerBasis> { type Output = Poly<PowerBasis>; #[verifier::external_body] fn neg(self) -> (r: Poly<PowerBasis>) { unimplemented!() } }
impl<'a> NegSpecImpl for &'a Poly<PowerBasis> {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { self.wf() }
    open spec fn neg_spec(self) -> Poly<PowerBasis> { pneg(*self) }
}
impl core::ops::Neg for Poly<PowerBasis> { type Output = Poly<PowerBasis>; #[verifier::external_body] fn neg(self) -> (r: Poly<PowerBasis>) { unimplemented!() } }
impl NegSpecImpl for Poly<PowerBasis> {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { self.wf() }
    open spec fn neg_spec(self) -> Poly<PowerBasis> { pneg(self) }
}
impl core::ops::Add<Poly<PowerBasis>> for Poly<PowerBasis> { type Output = Poly<PowerBasis>; #[verifier::external_body] fn add(self, n: Poly<PowerBasis>) -> (r: Poly<PowerBasis>) { unimplemented!() } }
impl AddSpecImpl<Poly<PowerBasis>> for Poly<PowerBasis> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, n: Poly<PowerBasis>) -> bool { self.like(&n) }
    open spec fn add_spec(self, n: Poly<PowerBasis>) -> Poly<PowerBasis> { padd(n, self) }
}
impl<'b> core::ops::AddAssign<&'b Poly<Ntt>> for Poly<Ntt> { #[verifier::external_body] fn add_assign(&mut self, n: &'b Poly<Ntt>) { unimplemented!() } }
impl<'b> AddAssignSpecImpl<&'b Poly<Ntt>> for Poly<Ntt> {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, n: &'b Poly<Ntt>) -> bool { self.like(n) }
    open spec fn add_assign_spec(&self, n: &'b Poly<Ntt>) -> &Self { &padd(*self, *n) }
}
impl<'b> core::ops::SubAssign<&'b Poly<Ntt>> for Poly<Ntt> { #[verifier::external_body] fn sub_assign(&mut self, n: &'b Poly<Ntt>) { unimplemented!() } }
impl<'b> SubAssignSpecImpl<&'b Poly<Ntt>> for Poly<Ntt> {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, n: &'b Poly<Ntt>) -> bool { self.like(n) }
    open spec fn sub_assign_spec(&self, n: &'b Poly<Ntt>) -> &Self { &psub(*self, *n) }
}
impl<'a> core::ops::Neg for &'a Poly<Ntt> { type Output = Poly<Ntt>; #[verifier::external_body] fn neg(self) -> (r: Poly<Ntt>) { unimplemented!() } }
impl<'a> NegSpecImpl for &'a Poly<Ntt> {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { self.wf() }
    open spec fn neg_spec(self) -> Poly<Ntt> { pneg(*self) }
}
impl core::ops::Neg for Poly<Ntt> { type Output = Poly<Ntt>; #[verifier::external_body] fn neg(self) -> (r: Poly<Ntt>) { unimplemented!() } }
impl NegSpecImpl for Poly<Ntt> {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { self.wf() }
    open spec fn neg_spec(self) -> Poly<Ntt> { pneg(self) }
}
impl core::ops::Add<Poly<Ntt>> for Poly<Ntt> { type Output = Poly<Ntt>; #[verifier::external_body] fn add(self, n: Poly<Ntt>) -> (r: Poly<Ntt>) { unimplemented!() } }
impl AddSpecImpl<Poly<Ntt>> for Poly<Ntt> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, n: Poly<Ntt>) -> bool { self.like(&n) }
    open spec fn add_spec(self, n: Poly<Ntt>) -> Poly<Ntt> { padd(n, self) }
}
/// operators on references (Verus cannot select specifications of operator impls on references)
impl<R: RepresentationTag> Poly<R> {
    #[verifier::external_body]
    pub fn vadd(&self, n: &Poly<R>) -> (r: Poly<R>)
        requires self.like(n),
        ensures r == padd(*self, *n),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vsub(&self, n: &Poly<R>) -> (r: Poly<R>)
        requires self.like(n),
        ensures r == psub(*self, *n),
    { unimplemented!() }
}
pub trait MulRhs { spec fn can(&self, a: Poly<Ntt>) -> bool; spec fn prod(&self, a: Poly<Ntt>) -> Poly<Ntt>; }
impl MulRhs for Poly<Ntt> { open spec fn can(&self, a: Poly<Ntt>) -> bool { a.like(self) } open spec fn prod(&self, a: Poly<Ntt>) -> Poly<Ntt> { pmul(a, *self) } }
impl MulRhs for Poly<NttShoup> { open spec fn can(&self, a: Poly<Ntt>) -> bool { a.like(self) } open spec fn prod(&self, a: Poly<Ntt>) -> Poly<Ntt> { pmuls(a, *self) } }
impl Poly<Ntt> {
    #[verifier::external_body]
    pub fn vmul<T: MulRhs>(&self, n: &T) -> (r: Poly<Ntt>)
        requires n.can(*self),
        ensures r == n.prod(*self),
    { unimplemented!() }
}
impl<'b> core::ops::MulAssign<&'b Poly<Ntt>> for Poly<Ntt> { #[verifier::external_body] fn mul_assign(&mut self, n: &'b Poly<Ntt>) { unimplemented!() } }
impl<'b> MulAssignSpecImpl<&'b Poly<Ntt>> for Poly<Ntt> {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, n: &'b Poly<Ntt>) -> bool { self.like(n) }
    open spec fn mul_assign_spec(&self, n: &'b Poly<Ntt>) -> &Self { &pmul(*self, *n) }
}
impl<'b> core::ops::MulAssign<&'b Poly<NttShoup>> for Poly<Ntt> { #[verifier::external_body] fn mul_assign(&mut self, n: &'b Poly<NttShoup>) { unimplemented!() } }
impl<'b> MulAssignSpecImpl<&'b Poly<NttShoup>> for Poly<Ntt> {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, n: &'b Poly<NttShoup>) -> bool { self.like(n) }
    open spec fn mul_assign_spec(&self, n: &'b Poly<NttShoup>) -> &Self { &pmuls(*self, *n) }
}
