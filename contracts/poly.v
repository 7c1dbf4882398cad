//@ import ctx
//@ import zqv
// ---------------------------------------------------------------------------
// fhe-math/src/rq/mod.rs : polynomials in residue number system form
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power2::pow2;
use std::sync::Arc;
use std::marker::PhantomData;

/// ndarray::Array2 in standard layout: the rows
pub struct Array2<T> { pub rows: Vec<Vec<T>> }
pub trait VZero { spec fn vzero(self) -> bool; }
impl VZero for u64 { open spec fn vzero(self) -> bool { self == 0 } }
impl VZero for u128 { open spec fn vzero(self) -> bool { self == 0 } }
impl<T: VZero> Array2<T> {
    /// ndarray: an all-zero matrix of that shape
    #[verifier::external_body]
    pub fn zeros(d: (usize, usize)) -> (r: Self)
        ensures
            r.rows@.len() == d.0, forall|i: int| 0 <= i < d.0 ==> (#[trigger] r.rows@[i])@.len() == d.1,
            forall|i: int, j: int| 0 <= i < d.0 && 0 <= j < d.1 ==> (#[trigger] r.rows@[i]@[j]).vzero(),
    { unimplemented!() }
}
impl<T: Clone> Clone for Array2<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
pub struct Axis(pub usize);
impl<T> Array2<T> {
    /// ndarray: drops row i (only Axis(0) is used)
    #[verifier::external_body]
    pub fn remove_index(&mut self, a: Axis, i: usize)
        requires a.0 == 0, i < old(self).rows@.len(),
        ensures final(self).rows@ == old(self).rows@.remove(i as int),
    { unimplemented!() }
}
pub enum Representation { PowerBasis, Ntt, NttShoup }
impl PartialEq for Representation {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool)
        ensures r == (*self == *o),
    { unimplemented!() }
}
pub trait RepresentationTag { spec fn tag() -> Representation; }
pub struct PowerBasis;
pub struct Ntt;
pub struct NttShoup;
impl RepresentationTag for PowerBasis { open spec fn tag() -> Representation { Representation::PowerBasis } }
impl RepresentationTag for Ntt { open spec fn tag() -> Representation { Representation::Ntt } }
impl RepresentationTag for NttShoup { open spec fn tag() -> Representation { Representation::NttShoup } }
/// R::REPRESENTATION
#[verifier::external_body]
pub fn vrep<R: RepresentationTag>() -> (r: Representation)
    ensures r == R::tag(),
{ unimplemented!() }

pub mod fhe_traits {
    use super::*;
    /// fhe_traits tokens for public data
    pub struct PublicData;
    #[derive(Clone, Copy)]
    pub struct VariableTime;
    impl PublicData { #[verifier::external_body] pub fn assert_public() -> PublicData { unimplemented!() } }
    impl VariableTime { #[verifier::external_body] pub fn new(p: PublicData) -> VariableTime { unimplemented!() } }
}
//@ struct crates/fhe-math/src/rq/mod.rs Poly

pub open spec fn dims<T>(m: Seq<Vec<T>>, n: int, d: int) -> bool { m.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] m[i])@.len() == d }
impl<R: RepresentationTag> Poly<R> {
    pub open spec fn n(&self) -> int { self.ctx.n() }
    pub open spec fn d(&self) -> int { self.ctx.d() }
    pub open spec fn p(&self, i: int) -> int { self.ctx.p(i) }
    #[verifier::inline]
    pub open spec fn rows(&self) -> Seq<Vec<u64>> { self.coefficients.rows@ }
    /// every coefficient is a canonical residue
    pub open spec fn can(&self) -> bool { forall|i: int| 0 <= i < self.n() ==> canon((#[trigger] self.rows()[i])@, self.p(i)) }
    /// representation invariant of the coefficient matrix
    pub open spec fn wfc(&self) -> bool {
        &&& self.ctx.wf()
        &&& dims(self.coefficients.rows@, self.n(), self.d())
        &&& !self.has_lazy_coefficients
        &&& self.can()
    }
    pub open spec fn shoup_ok(&self) -> bool {
        &&& self.coefficients_shoup is Some
        &&& self.coefficients_shoup->Some_0.rows@.len() == self.n()
        &&& forall|i: int| 0 <= i < self.n() ==> shoups((#[trigger] self.rows()[i])@, self.coefficients_shoup->Some_0.rows@[i]@, self.p(i))
    }
    /// representation invariant
    pub open spec fn wf(&self) -> bool {
        &&& self.wfc()
        &&& R::tag() == Representation::NttShoup ==> self.shoup_ok()
        &&& R::tag() != Representation::NttShoup ==> self.coefficients_shoup is None
    }
}
impl NttOperator {
    /// whatever b is the transform of is, modulo p, the polynomial a
    #[verifier::opaque]
    pub open spec fn uniq(&self, b: Seq<u64>, a: Seq<u64>) -> bool {
        forall|v: Seq<int>| self.is_fwd(b, v) ==> forall|x: int| 0 <= x < self.size ==> #[trigger] eqm(a[x] as int, v[x], self.p.p as int)
    }
}
/// same ring, same coefficients
pub open spec fn sameval<R: RepresentationTag, S: RepresentationTag>(a: &Poly<R>, b: &Poly<S>) -> bool {
    a.ctx == b.ctx && a.coefficients.rows@ == b.coefficients.rows@
}
impl<R: RepresentationTag> Clone for Poly<R> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { unimplemented!() }
}
impl<R: RepresentationTag> Poly<R> {
    /// Overwrites the Shoup matrix with zeros (zeroize, option chain: trusted).
    #[verifier::external_body]
    pub fn zeroize_shoup(&mut self)
        ensures sameval(final(self), old(self)), final(self).has_lazy_coefficients == old(self).has_lazy_coefficients,
            final(self).allow_variable_time_computations == old(self).allow_variable_time_computations,
            final(self).coefficients_shoup is Some <==> old(self).coefficients_shoup is Some,
    { unimplemented!() }
}
//@ fn crates/fhe-math/src/rq/mod.rs Poly<R>::zero as=<R:RepresentationTag>Poly<R>::zero
//@ ret r
//@ spec
    requires ctx.wf(),
    ensures r.ctx == *ctx, r.wf(), !r.allow_variable_time_computations,
        forall|i: int, j: int| 0 <= i < r.n() && 0 <= j < r.d() ==> (#[trigger] r.rows()[i]@[j]) == 0,
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<R>::allow_variable_time_computations as=<R:RepresentationTag>Poly<R>::allow_variable_time_computations
//@ spec
    ensures sameval(final(self), old(self)), final(self).coefficients_shoup == old(self).coefficients_shoup,
        final(self).has_lazy_coefficients == old(self).has_lazy_coefficients, final(self).allow_variable_time_computations,
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<R>::allows_variable_time_computations as=<R:RepresentationTag>Poly<R>::allows_variable_time_computations
//@ ret r
//@ spec
    ensures r == self.allow_variable_time_computations,
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<R>::disallow_variable_time_computations as=<R:RepresentationTag>Poly<R>::disallow_variable_time_computations
//@ spec
    ensures sameval(final(self), old(self)), final(self).coefficients_shoup == old(self).coefficients_shoup,
        final(self).has_lazy_coefficients == old(self).has_lazy_coefficients, !final(self).allow_variable_time_computations,
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<R>::compute_coefficients_shoup as=<R:RepresentationTag>Poly<R>::compute_coefficients_shoup
//@ spec
    requires old(self).wfc(),
    ensures sameval(final(self), old(self)), final(self).wfc(), final(self).shoup_ok(),
        final(self).allow_variable_time_computations == old(self).allow_variable_time_computations,
//@ loop 0
    invariant
        sameval(&*self, &*old(self)), self.wfc(), dims(coefficients_shoup.rows@, self.n(), self.d()), n_0 == self.n(),
        self.allow_variable_time_computations == old(self).allow_variable_time_computations,
        forall|i: int| 0 <= i < i_0 ==> shoups((#[trigger] self.rows()[i])@, coefficients_shoup.rows@[i]@, self.p(i)),
//@ loop-start 0
    proof { assert(self.ctx.wf_i(i_0 as int)); assert(canon(self.rows()[i_0 as int]@, self.p(i_0 as int))); }
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<R>::ntt_forward as=<R:RepresentationTag>Poly<R>::ntt_forward
//@ spec
    requires old(self).wfc(),
    ensures final(self).wfc(), final(self).ctx == old(self).ctx, final(self).coefficients_shoup == old(self).coefficients_shoup,
        final(self).allow_variable_time_computations == old(self).allow_variable_time_computations,
        forall|i: int| 0 <= i < final(self).n() ==> final(self).ctx.ops@[i].is_fwd((#[trigger] final(self).rows()[i])@, vals(old(self).rows()[i]@)),
//@ loop 0
    invariant
        n_0 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup == old(self).coefficients_shoup,
        self.allow_variable_time_computations == old(self).allow_variable_time_computations, !self.has_lazy_coefficients,
        dims(self.coefficients.rows@, self.n(), self.d()), old(self).wfc(),
        forall|i: int| i_0 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_0 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_0 ==> self.ctx.ops@[i].is_fwd((#[trigger] self.rows()[i])@, vals(old(self).rows()[i]@)),
//@ loop-start 0
    proof { assert(self.ctx.wf_i(i_0 as int)); assert(canon(old(self).rows()[i_0 as int]@, old(self).p(i_0 as int))); assert(self.rows()[i_0 as int]@ == old(self).rows()[i_0 as int]@); }
//@ loop 1
    invariant
        n_1 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup == old(self).coefficients_shoup,
        self.allow_variable_time_computations == old(self).allow_variable_time_computations, !self.has_lazy_coefficients,
        dims(self.coefficients.rows@, self.n(), self.d()), old(self).wfc(),
        forall|i: int| i_1 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_1 ==> self.ctx.ops@[i].is_fwd((#[trigger] self.rows()[i])@, vals(old(self).rows()[i]@)),
//@ loop-start 1
    proof { assert(self.ctx.wf_i(i_1 as int)); assert(canon(old(self).rows()[i_1 as int]@, old(self).p(i_1 as int))); assert(self.rows()[i_1 as int]@ == old(self).rows()[i_1 as int]@); }
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<R>::ntt_backward as=<R:RepresentationTag>Poly<R>::ntt_backward
//@ spec
    requires old(self).wfc(),
    ensures final(self).wfc(), final(self).ctx == old(self).ctx, final(self).coefficients_shoup == old(self).coefficients_shoup,
        final(self).allow_variable_time_computations == old(self).allow_variable_time_computations,
        forall|i: int| 0 <= i < final(self).n() ==> final(self).ctx.ops@[i].is_fwd(old(self).rows()[i]@, vals((#[trigger] final(self).rows()[i])@)),
        forall|i: int| 0 <= i < final(self).n() ==> final(self).ctx.ops@[i].uniq(old(self).rows()[i]@, (#[trigger] final(self).rows()[i])@),
//@ loop 0
    invariant
        n_0 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup == old(self).coefficients_shoup,
        self.allow_variable_time_computations == old(self).allow_variable_time_computations, !self.has_lazy_coefficients,
        dims(self.coefficients.rows@, self.n(), self.d()), old(self).wfc(),
        forall|i: int| i_0 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_0 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_0 ==> self.ctx.ops@[i].is_fwd(old(self).rows()[i]@, vals((#[trigger] self.rows()[i])@)),
        forall|i: int| 0 <= i < i_0 ==> self.ctx.ops@[i].uniq(old(self).rows()[i]@, (#[trigger] self.rows()[i])@),
//@ loop-start 0
    proof { reveal(NttOperator::uniq); assert(self.ctx.wf_i(i_0 as int)); assert(canon(old(self).rows()[i_0 as int]@, old(self).p(i_0 as int))); assert(self.rows()[i_0 as int]@ == old(self).rows()[i_0 as int]@); }
//@ loop 1
    invariant
        n_1 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup == old(self).coefficients_shoup,
        self.allow_variable_time_computations == old(self).allow_variable_time_computations, !self.has_lazy_coefficients,
        dims(self.coefficients.rows@, self.n(), self.d()), old(self).wfc(),
        forall|i: int| i_1 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_1 ==> self.ctx.ops@[i].is_fwd(old(self).rows()[i]@, vals((#[trigger] self.rows()[i])@)),
        forall|i: int| 0 <= i < i_1 ==> self.ctx.ops@[i].uniq(old(self).rows()[i]@, (#[trigger] self.rows()[i])@),
//@ loop-start 1
    proof { reveal(NttOperator::uniq); assert(self.ctx.wf_i(i_1 as int)); assert(canon(old(self).rows()[i_1 as int]@, old(self).p(i_1 as int))); assert(self.rows()[i_1 as int]@ == old(self).rows()[i_1 as int]@); }
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<R>::ctx as=<R:RepresentationTag>Poly<R>::ctx
//@ ret r
//@ spec
    ensures r == &self.ctx,
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<R>::from_parts as=<R:RepresentationTag>Poly<R>::from_parts
//@ ret r
//@ spec
    requires other.wfc(), other.coefficients_shoup is Some ==> other.shoup_ok(),
    ensures r.wf(), sameval(&r, &other), r.allow_variable_time_computations == other.allow_variable_time_computations,
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<PowerBasis>::into_ntt
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.wf(), r.ctx == self.ctx, r.allow_variable_time_computations == self.allow_variable_time_computations,
        forall|i: int| 0 <= i < r.n() ==> r.ctx.ops@[i].is_fwd((#[trigger] r.rows()[i])@, vals(self.rows()[i]@)),
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<PowerBasis>::into_ntt_shoup
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.wf(), r.ctx == self.ctx, r.allow_variable_time_computations == self.allow_variable_time_computations,
        forall|i: int| 0 <= i < r.n() ==> r.ctx.ops@[i].is_fwd((#[trigger] r.rows()[i])@, vals(self.rows()[i]@)),
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<PowerBasis>::to_power_basis
//@ ret r
//@ spec
    ensures r == *self,
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<Ntt>::into_power_basis
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.wf(), r.ctx == self.ctx, r.allow_variable_time_computations == self.allow_variable_time_computations,
        forall|i: int| 0 <= i < r.n() ==> r.ctx.ops@[i].is_fwd(self.rows()[i]@, vals((#[trigger] r.rows()[i])@)),
        forall|i: int| 0 <= i < r.n() ==> r.ctx.ops@[i].uniq(self.rows()[i]@, (#[trigger] r.rows()[i])@),
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<Ntt>::into_ntt_shoup
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.wf(), sameval(&r, &self), r.allow_variable_time_computations == self.allow_variable_time_computations,
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<Ntt>::to_power_basis
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.wf(), r.ctx == self.ctx, r.allow_variable_time_computations == self.allow_variable_time_computations,
        forall|i: int| 0 <= i < r.n() ==> r.ctx.ops@[i].is_fwd(self.rows()[i]@, vals((#[trigger] r.rows()[i])@)),
        forall|i: int| 0 <= i < r.n() ==> r.ctx.ops@[i].uniq(self.rows()[i]@, (#[trigger] r.rows()[i])@),
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<NttShoup>::into_ntt
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.wf(), sameval(&r, &self), r.allow_variable_time_computations == self.allow_variable_time_computations,
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<NttShoup>::into_power_basis
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.wf(), r.ctx == self.ctx, r.allow_variable_time_computations == self.allow_variable_time_computations,
        forall|i: int| 0 <= i < r.n() ==> r.ctx.ops@[i].is_fwd(self.rows()[i]@, vals((#[trigger] r.rows()[i])@)),
        forall|i: int| 0 <= i < r.n() ==> r.ctx.ops@[i].uniq(self.rows()[i]@, (#[trigger] r.rows()[i])@),
//@ end
//@ fn crates/fhe-math/src/rq/mod.rs Poly<NttShoup>::to_power_basis
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.wf(), r.ctx == self.ctx, r.allow_variable_time_computations == self.allow_variable_time_computations,
        forall|i: int| 0 <= i < r.n() ==> r.ctx.ops@[i].is_fwd(self.rows()[i]@, vals((#[trigger] r.rows()[i])@)),
        forall|i: int| 0 <= i < r.n() ==> r.ctx.ops@[i].uniq(self.rows()[i]@, (#[trigger] r.rows()[i])@),
//@ end
