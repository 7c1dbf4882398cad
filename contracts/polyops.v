//@ import poly
// GENERATED by tools/mkpolyops.py
// ---------------------------------------------------------------------------
// fhe-math/src/rq/ops.rs : the operators.  Each operator impl is verified as an inherent
// function of the same body (Verus does not support specifications on operator impls of
// references); `q += p` in the bodies becomes the corresponding call.
// ---------------------------------------------------------------------------
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use std::sync::Arc;
use std::marker::PhantomData;

pub open spec fn radd(r: Seq<u64>, a: Seq<u64>, b: Seq<u64>, p: int) -> bool { forall|k: int| 0 <= k < a.len() ==> (#[trigger] r[k]) == (a[k] + b[k]) % p }
pub open spec fn rsub(r: Seq<u64>, a: Seq<u64>, b: Seq<u64>, p: int) -> bool { forall|k: int| 0 <= k < a.len() ==> (#[trigger] r[k]) == (a[k] - b[k]) % p }
pub open spec fn rmul(r: Seq<u64>, a: Seq<u64>, b: Seq<u64>, p: int) -> bool { forall|k: int| 0 <= k < a.len() ==> (#[trigger] r[k]) == (a[k] * b[k]) % p }
pub open spec fn rneg(r: Seq<u64>, a: Seq<u64>, p: int) -> bool { forall|k: int| 0 <= k < a.len() ==> (#[trigger] r[k]) == (-a[k]) % p }
pub open spec fn rscale(r: Seq<u64>, a: Seq<u64>, c: int, p: int) -> bool { forall|k: int| 0 <= k < a.len() ==> (#[trigger] r[k]) == (a[k] * (c % p)) % p }
impl<R: RepresentationTag> Poly<R> {
    /// like wf, except that the coefficients may be lazy
    pub open spec fn wfl(&self) -> bool {
        &&& self.ctx.wf()
        &&& dims(self.coefficients.rows@, self.n(), self.d())
        &&& self.coefficients_shoup is None
        &&& !self.has_lazy_coefficients ==> self.can()
    }
}
//@ fn crates/fhe-math/src/rq/ops.rs AddAssign<&Poly<PowerBasis>>@Poly<PowerBasis>::add_assign as=Poly<PowerBasis>::add_assign
//@ spec
    requires old(self).wf(), p.wf(), same(&*old(self).ctx, &*p.ctx),
    ensures final(self).wf(), final(self).ctx == old(self).ctx,
        final(self).allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < final(self).n() ==> radd((#[trigger] final(self).rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, final(self).p(i)),
//@ loop 0
    invariant
        n_0 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, self.has_lazy_coefficients == old(self).has_lazy_coefficients,
        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_0 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_0 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_0 ==> radd((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, self.p(i)),
//@ loop-start 0
    proof { let i = i_0 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); assert(canon(old(self).rows()[i]@, self.p(i))); }
//@ loop 1
    invariant
        n_1 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, self.has_lazy_coefficients == old(self).has_lazy_coefficients,
        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_1 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_1 ==> radd((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, self.p(i)),
//@ loop-start 1
    proof { let i = i_1 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); assert(canon(old(self).rows()[i]@, self.p(i))); }
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs Add<&Poly<PowerBasis>>@&Poly<PowerBasis>::add as=Poly<PowerBasis>::add_ref
//@ ret r
//@ subst q += p => q.add_assign(p)
//@ spec
    requires self.wf(), p.wf(), same(&*self.ctx, &*p.ctx),
    ensures r.wf(), r.ctx == self.ctx,
        r.allow_variable_time_computations == (self.allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < r.n() ==> radd((#[trigger] r.rows()[i])@, self.rows()[i]@, p.rows()[i]@, r.p(i)),
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs Add@Poly<PowerBasis>::add as=Poly<PowerBasis>::add_val
//@ ret r
//@ subst p += &self => p.add_assign(&self)
//@ spec
    requires self.wf(), p.wf(), same(&*p.ctx, &*self.ctx),
    ensures r.wf(), r.ctx == p.ctx,
        r.allow_variable_time_computations == (self.allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < r.n() ==> radd((#[trigger] r.rows()[i])@, p.rows()[i]@, self.rows()[i]@, r.p(i)),
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs SubAssign<&Poly<PowerBasis>>@Poly<PowerBasis>::sub_assign as=Poly<PowerBasis>::sub_assign
//@ spec
    requires old(self).wf(), p.wf(), same(&*old(self).ctx, &*p.ctx),
    ensures final(self).wf(), final(self).ctx == old(self).ctx,
        final(self).allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < final(self).n() ==> rsub((#[trigger] final(self).rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, final(self).p(i)),
//@ loop 0
    invariant
        n_0 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, self.has_lazy_coefficients == old(self).has_lazy_coefficients,
        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_0 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_0 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_0 ==> rsub((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, self.p(i)),
//@ loop-start 0
    proof { let i = i_0 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); assert(canon(old(self).rows()[i]@, self.p(i))); }
//@ loop 1
    invariant
        n_1 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, self.has_lazy_coefficients == old(self).has_lazy_coefficients,
        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_1 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_1 ==> rsub((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, self.p(i)),
//@ loop-start 1
    proof { let i = i_1 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); assert(canon(old(self).rows()[i]@, self.p(i))); }
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs Sub<&Poly<PowerBasis>>@&Poly<PowerBasis>::sub as=Poly<PowerBasis>::sub_ref
//@ ret r
//@ subst q -= p => q.sub_assign(p)
//@ spec
    requires self.wf(), p.wf(), same(&*self.ctx, &*p.ctx),
    ensures r.wf(), r.ctx == self.ctx,
        r.allow_variable_time_computations == (self.allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < r.n() ==> rsub((#[trigger] r.rows()[i])@, self.rows()[i]@, p.rows()[i]@, r.p(i)),
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs Neg@&Poly<PowerBasis>::neg as=Poly<PowerBasis>::neg_ref
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.wf(), r.ctx == self.ctx,
        r.allow_variable_time_computations == self.allow_variable_time_computations,
        forall|i: int| 0 <= i < r.n() ==> rneg((#[trigger] r.rows()[i])@, self.rows()[i]@, r.p(i)),
//@ loop 0
    invariant
        n_0 == out.n(), out.ctx == self.ctx, out.ctx.wf(), out.coefficients_shoup is None, !out.has_lazy_coefficients,
        out.allow_variable_time_computations == self.allow_variable_time_computations,
        dims(out.coefficients.rows@, out.n(), out.d()), dims(self.coefficients.rows@, out.n(), out.d()),
        forall|i: int| i_0 <= i < out.n() ==> (#[trigger] out.rows()[i])@ == self.rows()[i]@,
        forall|i: int| 0 <= i < i_0 ==> canon((#[trigger] out.rows()[i])@, out.p(i)),
        forall|i: int| 0 <= i < i_0 ==> rneg((#[trigger] out.rows()[i])@, self.rows()[i]@, out.p(i)),
//@ loop-start 0
    proof { let i = i_0 as int; assert(out.ctx.wf_i(i)); assert(self.rows()[i]@ == out.rows()[i]@); assert(canon(self.rows()[i]@, self.p(i))); }
//@ loop 1
    invariant
        n_1 == out.n(), out.ctx == self.ctx, out.ctx.wf(), out.coefficients_shoup is None, !out.has_lazy_coefficients,
        out.allow_variable_time_computations == self.allow_variable_time_computations,
        dims(out.coefficients.rows@, out.n(), out.d()), dims(self.coefficients.rows@, out.n(), out.d()),
        forall|i: int| i_1 <= i < out.n() ==> (#[trigger] out.rows()[i])@ == self.rows()[i]@,
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] out.rows()[i])@, out.p(i)),
        forall|i: int| 0 <= i < i_1 ==> rneg((#[trigger] out.rows()[i])@, self.rows()[i]@, out.p(i)),
//@ loop-start 1
    proof { let i = i_1 as int; assert(out.ctx.wf_i(i)); assert(self.rows()[i]@ == out.rows()[i]@); assert(canon(self.rows()[i]@, self.p(i))); }
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs Neg@Poly<PowerBasis>::neg as=Poly<PowerBasis>::neg_val
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.wf(), r.ctx == self.ctx,
        r.allow_variable_time_computations == self.allow_variable_time_computations,
        forall|i: int| 0 <= i < r.n() ==> rneg((#[trigger] r.rows()[i])@, self.rows()[i]@, r.p(i)),
//@ loop 0
    invariant
        n_0 == v_self.n(), v_self.ctx == self.ctx, v_self.ctx.wf(), v_self.coefficients_shoup is None, !v_self.has_lazy_coefficients,
        v_self.allow_variable_time_computations == self.allow_variable_time_computations,
        dims(v_self.coefficients.rows@, v_self.n(), v_self.d()), dims(self.coefficients.rows@, v_self.n(), v_self.d()),
        forall|i: int| i_0 <= i < v_self.n() ==> (#[trigger] v_self.rows()[i])@ == self.rows()[i]@,
        forall|i: int| 0 <= i < i_0 ==> canon((#[trigger] v_self.rows()[i])@, v_self.p(i)),
        forall|i: int| 0 <= i < i_0 ==> rneg((#[trigger] v_self.rows()[i])@, self.rows()[i]@, v_self.p(i)),
//@ loop-start 0
    proof { let i = i_0 as int; assert(v_self.ctx.wf_i(i)); assert(self.rows()[i]@ == v_self.rows()[i]@); assert(canon(self.rows()[i]@, self.p(i))); }
//@ loop 1
    invariant
        n_1 == v_self.n(), v_self.ctx == self.ctx, v_self.ctx.wf(), v_self.coefficients_shoup is None, !v_self.has_lazy_coefficients,
        v_self.allow_variable_time_computations == self.allow_variable_time_computations,
        dims(v_self.coefficients.rows@, v_self.n(), v_self.d()), dims(self.coefficients.rows@, v_self.n(), v_self.d()),
        forall|i: int| i_1 <= i < v_self.n() ==> (#[trigger] v_self.rows()[i])@ == self.rows()[i]@,
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] v_self.rows()[i])@, v_self.p(i)),
        forall|i: int| 0 <= i < i_1 ==> rneg((#[trigger] v_self.rows()[i])@, self.rows()[i]@, v_self.p(i)),
//@ loop-start 1
    proof { let i = i_1 as int; assert(v_self.ctx.wf_i(i)); assert(self.rows()[i]@ == v_self.rows()[i]@); assert(canon(self.rows()[i]@, self.p(i))); }
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs MulAssign<&BigUint>@Poly<PowerBasis>::mul_assign as=Poly<PowerBasis>::mul_assign_big
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).ctx == old(self).ctx,
        final(self).allow_variable_time_computations == old(self).allow_variable_time_computations,
        forall|i: int| 0 <= i < final(self).n() ==> rscale((#[trigger] final(self).rows()[i])@, old(self).rows()[i]@, p.v() as int, final(self).p(i)),
//@ loop 0
    invariant
        n_0 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, !self.has_lazy_coefficients, scalar_crt@.len() == self.n(),
        self.allow_variable_time_computations == old(self).allow_variable_time_computations,
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_0 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_0 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_0 ==> rscale((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.v() as int, self.p(i)),
//@ loop-start 0
    proof { let i = i_0 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(scalar_crt@[i] as int == p.v() as int % self.p(i)); lemma_mod_bound(p.v() as int, self.p(i)); }
//@ loop 1
    invariant
        n_1 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, !self.has_lazy_coefficients, scalar_crt@.len() == self.n(),
        self.allow_variable_time_computations == old(self).allow_variable_time_computations,
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_1 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_1 ==> rscale((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.v() as int, self.p(i)),
//@ loop-start 1
    proof { let i = i_1 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(scalar_crt@[i] as int == p.v() as int % self.p(i)); lemma_mod_bound(p.v() as int, self.p(i)); }
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs Mul<&Poly<PowerBasis>>@&BigUint::mul as=BigUint::mul_poly_PowerBasis
//@ ret r
//@ subst p * self => p.mul_big(self)
//@ sig
    pub fn mul_poly_PowerBasis(&self, p: Poly<PowerBasis>) -> (r: Poly<PowerBasis>)
//@ spec
    requires p.wf(),
    ensures r.wf(), r.ctx == p.ctx,
        r.allow_variable_time_computations == p.allow_variable_time_computations,
        forall|i: int| 0 <= i < r.n() ==> rscale((#[trigger] r.rows()[i])@, p.rows()[i]@, self.v() as int, r.p(i)),
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs Mul<&BigUint>@&Poly<PowerBasis>::mul as=Poly<PowerBasis>::mul_big
//@ ret r
//@ subst q *= p => q.mul_assign_big(p)
//@ spec
    requires self.wf(),
    ensures r.wf(), r.ctx == self.ctx,
        r.allow_variable_time_computations == self.allow_variable_time_computations,
        forall|i: int| 0 <= i < r.n() ==> rscale((#[trigger] r.rows()[i])@, self.rows()[i]@, p.v() as int, r.p(i)),
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs AddAssign<&Poly<Ntt>>@Poly<Ntt>::add_assign as=Poly<Ntt>::add_assign
//@ spec
    requires old(self).wf(), p.wf(), same(&*old(self).ctx, &*p.ctx),
    ensures final(self).wf(), final(self).ctx == old(self).ctx,
        final(self).allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < final(self).n() ==> radd((#[trigger] final(self).rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, final(self).p(i)),
//@ loop 0
    invariant
        n_0 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, self.has_lazy_coefficients == old(self).has_lazy_coefficients,
        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_0 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_0 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_0 ==> radd((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, self.p(i)),
//@ loop-start 0
    proof { let i = i_0 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); assert(canon(old(self).rows()[i]@, self.p(i))); }
//@ loop 1
    invariant
        n_1 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, self.has_lazy_coefficients == old(self).has_lazy_coefficients,
        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_1 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_1 ==> radd((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, self.p(i)),
//@ loop-start 1
    proof { let i = i_1 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); assert(canon(old(self).rows()[i]@, self.p(i))); }
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs Add<&Poly<Ntt>>@&Poly<Ntt>::add as=Poly<Ntt>::add_ref
//@ ret r
//@ subst q += p => q.add_assign(p)
//@ spec
    requires self.wf(), p.wf(), same(&*self.ctx, &*p.ctx),
    ensures r.wf(), r.ctx == self.ctx,
        r.allow_variable_time_computations == (self.allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < r.n() ==> radd((#[trigger] r.rows()[i])@, self.rows()[i]@, p.rows()[i]@, r.p(i)),
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs Add@Poly<Ntt>::add as=Poly<Ntt>::add_val
//@ ret r
//@ subst p += &self => p.add_assign(&self)
//@ spec
    requires self.wf(), p.wf(), same(&*p.ctx, &*self.ctx),
    ensures r.wf(), r.ctx == p.ctx,
        r.allow_variable_time_computations == (self.allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < r.n() ==> radd((#[trigger] r.rows()[i])@, p.rows()[i]@, self.rows()[i]@, r.p(i)),
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs SubAssign<&Poly<Ntt>>@Poly<Ntt>::sub_assign as=Poly<Ntt>::sub_assign
//@ spec
    requires old(self).wf(), p.wf(), same(&*old(self).ctx, &*p.ctx),
    ensures final(self).wf(), final(self).ctx == old(self).ctx,
        final(self).allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < final(self).n() ==> rsub((#[trigger] final(self).rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, final(self).p(i)),
//@ loop 0
    invariant
        n_0 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, self.has_lazy_coefficients == old(self).has_lazy_coefficients,
        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_0 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_0 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_0 ==> rsub((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, self.p(i)),
//@ loop-start 0
    proof { let i = i_0 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); assert(canon(old(self).rows()[i]@, self.p(i))); }
//@ loop 1
    invariant
        n_1 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, self.has_lazy_coefficients == old(self).has_lazy_coefficients,
        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_1 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_1 ==> rsub((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, self.p(i)),
//@ loop-start 1
    proof { let i = i_1 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); assert(canon(old(self).rows()[i]@, self.p(i))); }
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs Sub<&Poly<Ntt>>@&Poly<Ntt>::sub as=Poly<Ntt>::sub_ref
//@ ret r
//@ subst q -= p => q.sub_assign(p)
//@ spec
    requires self.wf(), p.wf(), same(&*self.ctx, &*p.ctx),
    ensures r.wf(), r.ctx == self.ctx,
        r.allow_variable_time_computations == (self.allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < r.n() ==> rsub((#[trigger] r.rows()[i])@, self.rows()[i]@, p.rows()[i]@, r.p(i)),
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs Neg@&Poly<Ntt>::neg as=Poly<Ntt>::neg_ref
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.wf(), r.ctx == self.ctx,
        r.allow_variable_time_computations == self.allow_variable_time_computations,
        forall|i: int| 0 <= i < r.n() ==> rneg((#[trigger] r.rows()[i])@, self.rows()[i]@, r.p(i)),
//@ loop 0
    invariant
        n_0 == out.n(), out.ctx == self.ctx, out.ctx.wf(), out.coefficients_shoup is None, !out.has_lazy_coefficients,
        out.allow_variable_time_computations == self.allow_variable_time_computations,
        dims(out.coefficients.rows@, out.n(), out.d()), dims(self.coefficients.rows@, out.n(), out.d()),
        forall|i: int| i_0 <= i < out.n() ==> (#[trigger] out.rows()[i])@ == self.rows()[i]@,
        forall|i: int| 0 <= i < i_0 ==> canon((#[trigger] out.rows()[i])@, out.p(i)),
        forall|i: int| 0 <= i < i_0 ==> rneg((#[trigger] out.rows()[i])@, self.rows()[i]@, out.p(i)),
//@ loop-start 0
    proof { let i = i_0 as int; assert(out.ctx.wf_i(i)); assert(self.rows()[i]@ == out.rows()[i]@); assert(canon(self.rows()[i]@, self.p(i))); }
//@ loop 1
    invariant
        n_1 == out.n(), out.ctx == self.ctx, out.ctx.wf(), out.coefficients_shoup is None, !out.has_lazy_coefficients,
        out.allow_variable_time_computations == self.allow_variable_time_computations,
        dims(out.coefficients.rows@, out.n(), out.d()), dims(self.coefficients.rows@, out.n(), out.d()),
        forall|i: int| i_1 <= i < out.n() ==> (#[trigger] out.rows()[i])@ == self.rows()[i]@,
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] out.rows()[i])@, out.p(i)),
        forall|i: int| 0 <= i < i_1 ==> rneg((#[trigger] out.rows()[i])@, self.rows()[i]@, out.p(i)),
//@ loop-start 1
    proof { let i = i_1 as int; assert(out.ctx.wf_i(i)); assert(self.rows()[i]@ == out.rows()[i]@); assert(canon(self.rows()[i]@, self.p(i))); }
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs Neg@Poly<Ntt>::neg as=Poly<Ntt>::neg_val
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.wf(), r.ctx == self.ctx,
        r.allow_variable_time_computations == self.allow_variable_time_computations,
        forall|i: int| 0 <= i < r.n() ==> rneg((#[trigger] r.rows()[i])@, self.rows()[i]@, r.p(i)),
//@ loop 0
    invariant
        n_0 == v_self.n(), v_self.ctx == self.ctx, v_self.ctx.wf(), v_self.coefficients_shoup is None, !v_self.has_lazy_coefficients,
        v_self.allow_variable_time_computations == self.allow_variable_time_computations,
        dims(v_self.coefficients.rows@, v_self.n(), v_self.d()), dims(self.coefficients.rows@, v_self.n(), v_self.d()),
        forall|i: int| i_0 <= i < v_self.n() ==> (#[trigger] v_self.rows()[i])@ == self.rows()[i]@,
        forall|i: int| 0 <= i < i_0 ==> canon((#[trigger] v_self.rows()[i])@, v_self.p(i)),
        forall|i: int| 0 <= i < i_0 ==> rneg((#[trigger] v_self.rows()[i])@, self.rows()[i]@, v_self.p(i)),
//@ loop-start 0
    proof { let i = i_0 as int; assert(v_self.ctx.wf_i(i)); assert(self.rows()[i]@ == v_self.rows()[i]@); assert(canon(self.rows()[i]@, self.p(i))); }
//@ loop 1
    invariant
        n_1 == v_self.n(), v_self.ctx == self.ctx, v_self.ctx.wf(), v_self.coefficients_shoup is None, !v_self.has_lazy_coefficients,
        v_self.allow_variable_time_computations == self.allow_variable_time_computations,
        dims(v_self.coefficients.rows@, v_self.n(), v_self.d()), dims(self.coefficients.rows@, v_self.n(), v_self.d()),
        forall|i: int| i_1 <= i < v_self.n() ==> (#[trigger] v_self.rows()[i])@ == self.rows()[i]@,
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] v_self.rows()[i])@, v_self.p(i)),
        forall|i: int| 0 <= i < i_1 ==> rneg((#[trigger] v_self.rows()[i])@, self.rows()[i]@, v_self.p(i)),
//@ loop-start 1
    proof { let i = i_1 as int; assert(v_self.ctx.wf_i(i)); assert(self.rows()[i]@ == v_self.rows()[i]@); assert(canon(self.rows()[i]@, self.p(i))); }
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs MulAssign<&BigUint>@Poly<Ntt>::mul_assign as=Poly<Ntt>::mul_assign_big
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).ctx == old(self).ctx,
        final(self).allow_variable_time_computations == old(self).allow_variable_time_computations,
        forall|i: int| 0 <= i < final(self).n() ==> rscale((#[trigger] final(self).rows()[i])@, old(self).rows()[i]@, p.v() as int, final(self).p(i)),
//@ loop 0
    invariant
        n_0 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, !self.has_lazy_coefficients, scalar_crt@.len() == self.n(),
        self.allow_variable_time_computations == old(self).allow_variable_time_computations,
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_0 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_0 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_0 ==> rscale((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.v() as int, self.p(i)),
//@ loop-start 0
    proof { let i = i_0 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(scalar_crt@[i] as int == p.v() as int % self.p(i)); lemma_mod_bound(p.v() as int, self.p(i)); }
//@ loop 1
    invariant
        n_1 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, !self.has_lazy_coefficients, scalar_crt@.len() == self.n(),
        self.allow_variable_time_computations == old(self).allow_variable_time_computations,
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_1 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_1 ==> rscale((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.v() as int, self.p(i)),
//@ loop-start 1
    proof { let i = i_1 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(scalar_crt@[i] as int == p.v() as int % self.p(i)); lemma_mod_bound(p.v() as int, self.p(i)); }
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs Mul<&Poly<Ntt>>@&BigUint::mul as=BigUint::mul_poly_Ntt
//@ ret r
//@ subst p * self => p.mul_big(self)
//@ sig
    pub fn mul_poly_Ntt(&self, p: Poly<Ntt>) -> (r: Poly<Ntt>)
//@ spec
    requires p.wf(),
    ensures r.wf(), r.ctx == p.ctx,
        r.allow_variable_time_computations == p.allow_variable_time_computations,
        forall|i: int| 0 <= i < r.n() ==> rscale((#[trigger] r.rows()[i])@, p.rows()[i]@, self.v() as int, r.p(i)),
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs Mul<&BigUint>@&Poly<Ntt>::mul as=Poly<Ntt>::mul_big
//@ ret r
//@ subst q *= p => q.mul_assign_big(p)
//@ spec
    requires self.wf(),
    ensures r.wf(), r.ctx == self.ctx,
        r.allow_variable_time_computations == self.allow_variable_time_computations,
        forall|i: int| 0 <= i < r.n() ==> rscale((#[trigger] r.rows()[i])@, self.rows()[i]@, p.v() as int, r.p(i)),
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs MulAssign<&Poly<Ntt>>@Poly<Ntt>::mul_assign as=Poly<Ntt>::mul_assign_ntt
//@ spec
    requires old(self).wf(), p.wf(), same(&*old(self).ctx, &*p.ctx),
    ensures final(self).wf(), final(self).ctx == old(self).ctx,
        final(self).allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < final(self).n() ==> rmul((#[trigger] final(self).rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, final(self).p(i)),
//@ loop 0
    invariant
        n_0 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, self.has_lazy_coefficients == old(self).has_lazy_coefficients,
        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_0 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_0 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_0 ==> rmul((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, self.p(i)),
//@ loop-start 0
    proof { let i = i_0 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); assert(canon(old(self).rows()[i]@, self.p(i))); }
//@ loop 1
    invariant
        n_1 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, self.has_lazy_coefficients == old(self).has_lazy_coefficients,
        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_1 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_1 ==> rmul((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, self.p(i)),
//@ loop-start 1
    proof { let i = i_1 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); assert(canon(old(self).rows()[i]@, self.p(i))); }
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs MulAssign<&Poly<NttShoup>>@Poly<Ntt>::mul_assign as=Poly<Ntt>::mul_assign_shoup
//@ spec
    requires old(self).wfl(), p.wf(), same(&*old(self).ctx, &*p.ctx),
    ensures final(self).wf(), final(self).ctx == old(self).ctx,
        final(self).allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < final(self).n() ==> rmul((#[trigger] final(self).rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, final(self).p(i)),
//@ loop 0
    invariant
        n_0 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, self.has_lazy_coefficients == old(self).has_lazy_coefficients,
        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_0 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_0 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_0 ==> rmul((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, self.p(i)),
//@ loop-start 0
    proof { let i = i_0 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); }
//@ loop 1
    invariant
        n_1 == self.n(), self.ctx == old(self).ctx, self.ctx.wf(), self.coefficients_shoup is None, self.has_lazy_coefficients == old(self).has_lazy_coefficients,
        self.allow_variable_time_computations == (old(self).allow_variable_time_computations && p.allow_variable_time_computations),
        dims(self.coefficients.rows@, self.n(), self.d()), dims(old(self).coefficients.rows@, self.n(), self.d()),
        forall|i: int| i_1 <= i < self.n() ==> (#[trigger] self.rows()[i])@ == old(self).rows()[i]@,
        forall|i: int| 0 <= i < i_1 ==> canon((#[trigger] self.rows()[i])@, self.p(i)),
        forall|i: int| 0 <= i < i_1 ==> rmul((#[trigger] self.rows()[i])@, old(self).rows()[i]@, p.rows()[i]@, self.p(i)),
//@ loop-start 1
    proof { let i = i_1 as int; assert(self.ctx.wf_i(i)); assert(old(self).rows()[i]@ == self.rows()[i]@); assert(canon(p.rows()[i]@, p.p(i))); }
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs Mul<&Poly<Ntt>>@&Poly<Ntt>::mul as=Poly<Ntt>::mul_ntt
//@ ret r
//@ subst q *= p => q.mul_assign_ntt(p)
//@ spec
    requires self.wf(), p.wf(), same(&*self.ctx, &*p.ctx),
    ensures r.wf(), r.ctx == self.ctx,
        r.allow_variable_time_computations == (self.allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < r.n() ==> rmul((#[trigger] r.rows()[i])@, self.rows()[i]@, p.rows()[i]@, r.p(i)),
//@ end
//@ fn crates/fhe-math/src/rq/ops.rs Mul<&Poly<NttShoup>>@&Poly<Ntt>::mul as=Poly<Ntt>::mul_shoup
//@ ret r
//@ subst q *= p => q.mul_assign_shoup(p)
//@ spec
    requires self.wfl(), p.wf(), same(&*self.ctx, &*p.ctx),
    ensures r.wf(), r.ctx == self.ctx,
        r.allow_variable_time_computations == (self.allow_variable_time_computations && p.allow_variable_time_computations),
        forall|i: int| 0 <= i < r.n() ==> rmul((#[trigger] r.rows()[i])@, self.rows()[i]@, p.rows()[i]@, r.p(i)),
//@ end
