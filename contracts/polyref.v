//@ import polyops
// GENERATED by tools/mkpolyops.py
// ---------------------------------------------------------------------------
// fhe-math/src/rq/ops.rs : with debug assertions, the assigning operators return only for operands
// of equal contexts (so callers that combine polynomials from different sources are refused)
// ---------------------------------------------------------------------------
use crate::ctx::*;
use crate::poly::*;
//@ fn crates/fhe-math/src/rq/ops.rs AddAssign<&Poly<Ntt>>@Poly<Ntt>::add_assign as=Poly<Ntt>::add_assign_any
//@ spec
    requires old(self).wf(), p.wf(),
    ensures same(&*old(self).ctx, &*p.ctx), final(self).wf(), final(self).ctx == old(self).ctx,
        final(self).allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < final(self).n() ==> radd((#[trigger] final(self).rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, final(self).p(i)),
//@ panics debug
    proof { assert(!same(&*old(self).ctx, &*p.ctx)); }
//@ loop 0
    invariant
        n_0 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, self.has_lazy_coefficients == old(self).has_lazy_coefficients,
        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_0 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_0 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_0 ==> radd((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, self.p(i)),
//@ loop-start 0
    proof { let i = i_0 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); assert(canon(old(self).rows()[i]@, self.p(i))); }
//@ loop 1
    invariant
        n_1 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, self.has_lazy_coefficients == old(self).has_lazy_coefficients,
        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_1 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_1 ==> radd((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, self.p(i)),
//@ loop-start 1
    proof { let i = i_1 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); assert(canon(old(self).rows()[i]@, self.p(i))); }
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs SubAssign<&Poly<Ntt>>@Poly<Ntt>::sub_assign as=Poly<Ntt>::sub_assign_any
//@ spec
    requires old(self).wf(), p.wf(),
    ensures same(&*old(self).ctx, &*p.ctx), final(self).wf(), final(self).ctx == old(self).ctx,
        final(self).allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < final(self).n() ==> rsub((#[trigger] final(self).rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, final(self).p(i)),
//@ panics debug
    proof { assert(!same(&*old(self).ctx, &*p.ctx)); }
//@ loop 0
    invariant
        n_0 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, self.has_lazy_coefficients == old(self).has_lazy_coefficients,
        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_0 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_0 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_0 ==> rsub((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, self.p(i)),
//@ loop-start 0
    proof { let i = i_0 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); assert(canon(old(self).rows()[i]@, self.p(i))); }
//@ loop 1
    invariant
        n_1 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, self.has_lazy_coefficients == old(self).has_lazy_coefficients,
        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_1 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_1 ==> rsub((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, self.p(i)),
//@ loop-start 1
    proof { let i = i_1 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); assert(canon(old(self).rows()[i]@, self.p(i))); }
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs MulAssign<&Poly<Ntt>>@Poly<Ntt>::mul_assign as=Poly<Ntt>::mul_assign_ntt_any
//@ spec
    requires old(self).wf(), p.wf(),
    ensures same(&*old(self).ctx, &*p.ctx), final(self).wf(), final(self).ctx == old(self).ctx,
        final(self).allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < final(self).n() ==> rmul((#[trigger] final(self).rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, final(self).p(i)),
//@ panics debug
    proof { assert(!same(&*old(self).ctx, &*p.ctx)); }
//@ loop 0
    invariant
        n_0 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, self.has_lazy_coefficients == old(self).has_lazy_coefficients,
        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_0 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_0 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_0 ==> rmul((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, self.p(i)),
//@ loop-start 0
    proof { let i = i_0 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); assert(canon(old(self).rows()[i]@, self.p(i))); }
//@ loop 1
    invariant
        n_1 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, self.has_lazy_coefficients == old(self).has_lazy_coefficients,
        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_1 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_1 ==> rmul((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, self.p(i)),
//@ loop-start 1
    proof { let i = i_1 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); assert(canon(old(self).rows()[i]@, self.p(i))); }
//@ end
